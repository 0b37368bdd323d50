"""Random histories of metadata commands (shared by C11, C12, C13, C14)."""
TEN = ["t1", "t1x", "租"]; USR = ["u", "u2", "ü"]; DB = ["d", "d1"]; TAB = ["m", "m2"]; ROLE = ["r", "r2"]
FAR = 1200000
class Gen:
    def __init__(self, rng, weights):
        self.rng, self.w = rng, weights
        self.tens, self.users, self.nid, self.vid = {}, {}, 1, 100000
        self.ver, self.gr, self.bk = {}, {}, []
    def c(self, *x): return self.rng.choice(x)
    def ten(self): return self.rng.choice(list(self.tens) if self.tens and self.rng.random() < .9 else TEN)
    def uid(self): return self.rng.choice(list(self.users.values()) or [999])
    def new(self): self.nid += 1; return self.nid
    def dbopts(self, t, d):
        r = self.rng
        return {"t": t, "d": d, "s": r.choice([1, 1, 2, 3, 3]) if r.random() > .04 else 0, "r": r.choice([1, 1, 2, 2, 3, 0]), "dur": r.choice([1, 2, 3, 5, 24, 24]) if r.random() > .05 else 0, "ttl": r.choice([0, 0, 0, 24]), "prec": r.choice(["ns", "us", "ms"])}
    def prs(self, n):
        return [[self.rng.choice(DB), self.c("r", "w", "a")] for _ in range(self.rng.randint(1, n))]
    def one(self, o):
        r = self.rng
        t, d = self.ten(), r.choice(DB)
        td = {"t": t, "d": d}
        if o == "addnode": return [{"op": o, "id": r.randint(1, 4), "addr": self.c("a1", "a2", "a3", "a4", "x1", "x2")}]
        if o == "metrics": return [{"op": o, "id": r.randint(1, 4), "free": self.c(5, 5, 9, 1), "st": self.c("ok", "ok", "ok", "broken", "nospace", "cordon")}]
        if o in ("createdb", "alterdb"): return [{"op": o, **self.dbopts(t, d)}]
        if o == "hidedb": return [{"op": o, **td, "h": r.random() < .5}]
        if o == "dropdb": return [{"op": o, **td}]
        if o in ("mktab", "uptab", "droptab"):
            n = r.choice(TAB); k = (t, d, n)
            if o == "mktab": self.ver[k] = self.c(0, 0, 1); v = self.ver[k]
            elif o == "uptab":
                v = self.ver.get(k, 0) + (1 if r.random() < .75 else r.choice([-1, 0, 2])); v = max(v, 0)
                if v == self.ver.get(k, 0) + 1: self.ver[k] = v
            else: v = 0
            return [{"op": o, **td, "n": n, "ver": v, "cols": r.randint(0, 3)}]
        if o == "mkbk": self.bk.append(td)
        if o == "mkbk": return [{"op": o, **td, "ts": (0 if r.random() < .6 else FAR) + r.randint(-30, 60)}]
        if self.bk and o in ("delbk", "upset", "leader", "vnode") and r.random() < .9: td = r.choice(self.bk)
        b = {**td, "b": r.randint(0, 5), "g": r.randint(0, 3)}
        if o == "delbk": return [{"op": o, **b}]
        if o == "upset":
            add = []
            for _ in range(r.choice([0, 0, 1, 1, 2])): self.vid += 1; add.append([self.vid, r.randint(1, 4)])
            return [{"op": o, **b, "del": [r.randint(0, 3) for _ in range(r.choice([0, 1, 1, 2, 3]))], "add": add}]
        if o in ("leader", "vnode"): return [{"op": o, **b, "k": r.randint(0, 3), "st": self.c("Running", "Copying", "Broken")}]
        if o == "mkuser":
            n = r.choice(USR); i = self.new(); self.users.setdefault(n, i)
            return [{"op": o, "n": n, "id": i, "c": self.c("-", "x"), "adm": self.c("-", "-", "n", "y")}]
        if o == "altuser": return [{"op": o, "n": r.choice(USR), "c": self.c("-", "x", "y"), "adm": self.c("-", "n", "y")}]
        if o == "dropuser":
            n = r.choice(USR); self.users.pop(n, None); return [{"op": o, "n": n}]
        if o in ("renuser", "renten"): return [{"op": o, "n": "u"}]
        if o == "mkten":
            n = r.choice(TEN); i = self.new(); self.tens.setdefault(n, i)
            return [{"op": o, "n": n, "id": i, "c": self.c("-", "x"), "lim": self.c(-1, 5, 9)}]
        if o == "altten": return [{"op": o, "n": r.choice(TEN), "c": self.c("-", "x", "y"), "lim": self.c(-1, 3, 7)}]
        if o == "hideten": return [{"op": o, "n": r.choice(TEN), "h": r.random() < .5}]
        if o == "dropten":
            n = r.choice(TEN); self.tens.pop(n, None)
            return [{"op": "dropdb", "t": n, "d": x} for x in DB] + [{"op": o, "n": n}]
        role = self.c("s:owner", "s:member", "c:r", "c:r2", "c:r")
        if o in ("addmem", "chmem"): return [{"op": o, "t": t, "id": self.uid(), "role": role}]
        if o == "rmmem": return [{"op": o, "t": t, "id": self.uid()}]
        n = r.choice(ROLE)
        if o == "mkrole": return [{"op": o, "t": t, "n": n, "sys": self.c("-", "owner", "member"), "pr": self.prs(2) if r.random() < .3 else []}]
        if o == "droprole": return [{"op": o, "t": t, "n": n}]
        if o == "revoke" and self.gr and r.random() < .8:
            k = r.choice(list(self.gr))
            return [{"op": o, "t": k[0], "n": k[1], "pr": [list(x) for x in r.sample(list(self.gr[k].items()), r.randint(1, len(self.gr[k])))]}]
        if o == "grant" and r.random() < .6:
            q = self.prs(2); self.gr.setdefault((t, n), {}).update({x[0]: x[1] for x in q})
            return [{"op": o, "t": t, "n": n, "pr": q}]
        if o in ("grant", "revoke"): return [{"op": o, "t": t, "n": n, "pr": self.prs(3 if o == "grant" and r.random() < .3 else 2 if r.random() < .3 else 1)}]
        if o == "retain": return [{"op": o, "n": r.randint(1, 3)}]
        if o == "res": return [{"op": o, "n": r.choice(["j1", "j2", "j1x"]), "nid": r.randint(1, 3), "st": self.c("Schedule", "Executing", "Failed", "Successed")}]
        if o == "mark": return [{"op": o, "nid": r.randint(0, 3), "lock": r.random() < .5}]
        if o == "q": return [{"op": o, "id": r.choice([1, 2, 12]), "node": r.randint(1, 3)}]
        if o == "rmq": return [{"op": o, "id": r.choice([1, 2, 12])}]
        if o == "mvq": return [{"op": o, "a": r.randint(1, 3), "z": r.randint(1, 3)}]
        if o == "lim": return [{"op": o, "t": t, "max": r.randint(1, 6)}]
        if o == "snap": return [{"op": o, "into": self.c("same", "fresh")}]
        if o == "reopen": return [{"op": o}]
        raise KeyError(o)
    def take(self):
        o = self.rng.choices(list(self.w), list(self.w.values()))[0]
        return self.one(o)
    def setup(self, nodes=3, rich=True):
        out, r = [], self.rng
        for i in range(1, nodes + 1):
            out += [{"op": "addnode", "id": i, "addr": f"a{i}"}, {"op": "metrics", "id": i, "free": 5, "st": "ok"}]
        for n in ("u", "u2"): self.users[n] = self.new(); out.append({"op": "mkuser", "n": n, "id": self.users[n], "c": "-", "adm": "-"})
        for n in ("t1", "t1x"): self.tens[n] = self.new(); out.append({"op": "mkten", "n": n, "id": self.tens[n], "c": "-", "lim": 5})
        if not rich: return out
        for t in ("t1", "t1x"):
            for d in DB:
                if r.random() < .8:
                    o = self.dbopts(t, d); o["r"] = min(o["r"], nodes); o["s"] = max(o["s"], 1)
                    out.append({"op": "createdb", **o})
                    for n in TAB:
                        if r.random() < .6: self.ver[(t, d, n)] = 0; out.append({"op": "mktab", "t": t, "d": d, "n": n, "ver": 0, "cols": 1})
            for n in ROLE:
                if r.random() < .7: out.append({"op": "mkrole", "t": t, "n": n, "sys": self.c("-", "member", "owner"), "pr": []})
            for u in ("u", "u2"):
                if r.random() < .6: out.append({"op": "addmem", "t": t, "id": self.users[u], "role": self.c("s:owner", "s:member", "c:r", "c:r2")})
        return out
ALL = dict(addnode=2, metrics=4, createdb=7, alterdb=4, hidedb=2, dropdb=2, mktab=5, uptab=6, droptab=2, mkbk=10, delbk=2, upset=4, leader=2, vnode=2,
    mkuser=3, altuser=3, dropuser=2, renuser=.3, mkten=2, altten=2, hideten=2, renten=.3, dropten=1.2, addmem=6, chmem=3, rmmem=2, mkrole=4, droprole=2, grant=6, revoke=4,
    retain=1.5, res=2, mark=2, q=2, rmq=1, mvq=1, lim=3, snap=1.5, reopen=.7)
PLACE = dict(addnode=2, metrics=5, createdb=6, alterdb=5, dropdb=1, mkbk=30, delbk=3, upset=7, leader=4, vnode=4, retain=3, snap=1, reopen=.5)
