"""C13 metadata caches of the nodes: MetaCli specification vs AdminMeta/TenantMeta clients watching a real meta state machine."""
import metagen
W = dict(addnode=1, metrics=2, createdb=6, alterdb=4, hidedb=2, dropdb=2, mktab=6, uptab=6, droptab=2, mkbk=9, delbk=2, upset=3, leader=2, vnode=2,
    mkuser=3, altuser=3, dropuser=2, mkten=1.5, altten=3, hideten=2.5, dropten=1, addmem=7, chmem=4, rmmem=3, mkrole=4, droprole=2, grant=6, revoke=4)
VIA = {"createdb", "alterdb", "hidedb", "dropdb", "mktab", "uptab", "droptab", "mkbk", "delbk", "upset", "vnode", "dropuser", "hideten", "addmem", "rmmem", "chmem", "mkrole", "droprole", "grant", "revoke"}
class Hist:
    """A random history of commands, client operations and delays."""
    def __init__(self, rng, quick):
        self.r, self.g = rng, metagen.Gen(rng, W)
        self.hid, self.out, self.busy, self.here = set(), [{"op": "reset"}], {}, set()
    def put(self, e, lag=False):
        e = dict(e)
        if lag: e["lag"] = True
        if e["op"] == "mkten": self.here.add(e["n"])
        if e["op"] == "hideten": (self.hid.add if e["h"] else self.hid.discard)(e["n"])
        if e["op"] == "dropten": self.hid.discard(e["n"])
        if e["op"] == "dropten": self.here.discard(e["n"])
        self.out.append(e)
    def cmd(self, lag=False):
        r = self.r
        for e in self.g.take():
            t = e.get("n") if e["op"] in ("hideten",) else e.get("t")
            c = r.choice([1, 2])
            if not lag and e["op"] in VIA and c not in self.busy and r.random() < .5 and (e["op"] == "dropuser" or (t in self.here and t not in self.hid)): e = {**e, "c": c}
            self.put(e, lag)
    def start(self):
        for e in self.g.setup(self.r.choice([1, 2, 3])): self.put(e)
        for c in (1, 2):
            for t in ("t1", "t1x"):
                if self.r.random() < .7: self.out.append({"op": "use", "c": c, "t": t})
    def open(self):
        if self.busy: self.out.append({"op": "open"}); self.busy = {}
    def race(self):
        """Hold answers back at one client while the metadata changes."""
        r, c = self.r, self.r.choice([1, 2])
        t = r.choice(["t1", "t1x"])
        self.busy = {c: 1}
        for _ in range(r.randint(2, 8)):
            x = r.random()
            if x < .14: self.out.append({"op": "gate", "c": c})
            elif x < .30: self.out.append({"op": "hold", "c": c, "kind": r.choice(["MemberRole", "TenantMetaData", "TableSchema", "User", "Tenant"])})
            elif x < .50: self.out.append({"op": "ask", "c": c, "t": t, "what": r.choice(["user", "tenant", "table"]), "x": None})
            elif x < .65: self.out.append({"op": "step", "c": c})
            elif x < .72: self.out.append({"op": "release", "c": c, "kind": r.choice(["MemberRole", "TenantMetaData", "TableSchema", "User", "Tenant"])})
            else: self.cmd()
            e = self.out[-1]
            if e["op"] == "ask": e["x"] = r.choice(metagen.USR) if e["what"] == "user" else r.choice(metagen.DB) + "/" + r.choice(metagen.TAB) if e["what"] == "table" else "-"
        self.open()
    def late(self):
        """A reply computed before a change arrives after the change."""
        r, c, g = self.r, self.r.choice([1, 2]), self.g
        t, o = r.choice(["t1", "t1x"]), lambda **k: self.out.append(k)
        what = r.choice(["user", "table", "tenant"])
        self.busy = {c: 1}
        if what == "user":
            u = g.uid(); n = next((k for k, v in g.users.items() if v == u), "u")
            o(op="use", c=c, t=t); o(op="rmmem", t=t, id=u); o(op="gate", c=c)
            o(op="addmem", t=t, id=u, role="s:member"); o(op="hold", c=c, kind="MemberRole"); o(op="ask", c=c, t=t, what="user", x=n)
            if r.random() < .5: o(op="step", c=c)
            o(op=r.choice(["rmmem", "rmmem", "chmem"]), t=t, id=u, role="s:owner"); o(op="step", c=c); o(op="release", c=c, kind="MemberRole")
        elif what == "table":
            d, n = r.choice(metagen.DB), r.choice(metagen.TAB)
            o(op="use", c=c, t=t); o(op="gate", c=c); o(op="hold", c=c, kind="TableSchema"); o(op="ask", c=c, t=t, what="table", x=d + "/" + n)
            v = g.ver[(t, d, n)] = g.ver.get((t, d, n), 0) + 1
            o(op="uptab", t=t, d=d, n=n, ver=v, cols=r.randint(0, 3))
            if r.random() < .4: o(op="droptab", t=t, d=d, n=n)
            o(op="step", c=c); o(op="release", c=c, kind="TableSchema")
        else:
            # the tenant is loaded anew while it changes
            if r.random() < .5: o(op="restart"); o(op="flood", n=1)
            kind = r.choice(["TenantMetaData", "TenantMetaData", "Tenant"])
            o(op="hold", c=c, kind=kind); o(op="ask", c=c, t=t, what="tenant", x="-")
            for _ in range(r.randint(1, 3)): self.put(g.one(r.choice(["createdb", "mktab", "addmem", "mkuser", "altuser", "dropdb", "mkrole", "altten"]))[0])
            o(op="altuser", n="u", c=r.choice(["x", "y"]), adm="-"); o(op="step", c=c); o(op="release", c=c, kind=kind)
        self.open()
    def go(self, n):
        self.start()
        r = self.r
        for _ in range(n):
            x = r.random()
            if x < .70: self.cmd()
            elif x < .78: self.out.append({"op": "use", "c": r.choice([1, 2]), "t": r.choice(metagen.TEN)})
            elif x < .82:
                for _ in range(r.randint(1, 4)): self.cmd(lag=True)
                self.out.append({"op": "restore"})
            elif x < .83: self.out.append({"op": "restart"})
            elif x < .84: self.out.append({"op": "flood", "n": r.choice([1, 150])})
            elif x < .843: self.out.append({"op": "flood", "n": 8300})
            elif x < .92: self.race()
            else: self.late()
        return self.out
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_meta")
    script = []
    for _ in range(60 if ctx.quick else 1200): script += Hist(rng, ctx.quick).go(rng.choice([15, 30, 45]))
    t = ctx.run_parallel(binp, ["cli"], script, "cli", resets=("reset",), timeout=800)
    ctx.validate("MetaCli.tla", "MetaCli.cfg", t, resets=("reset",), chunk=900, title="clients")
