"""Seeded schedules for the storage engine harness (h_tskv store), one case per call."""
TS = [["-5", "0", "10", "20", "1000"],
      ["-4611686018427387904", "-1", "0", "1", "4611686018427387903"],
      ["0", "1", "2", "3", "4", "5", "6", "7"],
      ["1600000000000000000", "1600000000000000001", "1700000000000000000", "1800000000000000000", "1900000000000000000"],
      ["-1000000000000000000", "-999999999999999999", "5", "86400000000000", "86400000000001", "4000000000000000000"]]
FV = [["i:-3", "i:0", "i:1", "i:5", "i:9"], ["f:-2.5", "f:0.5", "f:1.5", "f:4.5"], ["s:", "s:a", "s:ab", "s:q" if 0 else "s:c", "s:z"],
      ["b:true", "b:false"], ["u:0", "u:1", "u:5", "u:9"]]
GV = ["x", "y", "z", "-"]
CFG = [{}, {"mem": 1}, {"mem": 600, "parts": 1}, {"parts": 3, "trigger": 2}, {"wal_max": 300, "mem": 2000},
       {"block": 3, "trigger": 2}, {"base": 1, "trigger": 2}, {"wal_compress": "zstd", "wal_max": 200}, {"block": 2, "parts": 2}]

class Gen:
    def __init__(self, rng, ts=None, cfg=None, nts=None, tables=("a", "b"), weights=None, gv=GV):
        self.rng = rng
        self.ts = ts or rng.choice(TS)
        self.cfg = cfg if cfg is not None else rng.choice(CFG)
        self.tables, self.gv = tables, gv
        self.ops = [{"op": "new", "ts": self.ts, "cfg": self.cfg}]
        self.snap = False
        self.sure = 1
        self.retired, self.deldirty, self.wrote = {}, False, False
        self.w = weights or {}
    def tb(self): return self.rng.choice(self.tables)
    def tags(self): return [self.rng.choice(self.gv), self.rng.choice(["-", "-", "x", "y"])]
    def row(self, tb=None, t=None, tags=None):
        r = self.rng
        while True:
            f = [r.choice(FV[k]) if r.random() < 0.45 else "-" for k in range(5)]
            if any(x != "-" for x in f): break
        tb = tb or self.tb()
        while not tags or (tb, tuple(tags)) in self.retired: tags = self.tags()
        return {"tb": tb, "tags": tags, "t": t or r.randint(1, len(self.ts)), "f": f}
    def atom(self, cols):
        r = self.rng
        c = r.choice(cols)
        if c == "time":
            if r.random() < 0.15:
                return {"k": "in", "c": c, "v": sorted(set(r.randint(1, len(self.ts)) for _ in range(2))), "neg": r.random() < 0.3}
            return {"k": "cmp", "c": c, "o": r.choice(["=", "<", "<=", ">", ">=", "!="]), "v": r.randint(1, len(self.ts))}
        vs = ["s:x", "s:y", "s:z", "s:m"] if c[0] == "g" else FV[int(c[1]) - 1]
        k = r.random()
        if k < 0.12: return {"k": "null", "c": c}
        if k < 0.3 and c != "f4": return {"k": "in", "c": c, "v": sorted(set(r.choice(vs) for _ in range(2))), "neg": r.random() < 0.3}
        return {"k": "cmp", "c": c, "o": r.choice(["=", "=", "!="] + ([] if c == "f4" else ["<", "<=", ">", ">="])), "v": r.choice(vs)}
    def filt(self, cols, depth=2):
        r = self.rng
        if depth == 0 or r.random() < 0.45: return self.atom(cols)
        k = r.random()
        if k < 0.5: return {"k": "and", "l": self.filt(cols, depth - 1), "r": self.filt(cols, depth - 1)}
        if k < 0.85: return {"k": "or", "l": self.filt(cols, depth - 1), "r": self.filt(cols, depth - 1)}
        return {"k": "not", "l": self.filt(cols, depth - 1)}
    # Known finding: a restart replays tag updates together with what happened around them
    # against the index as it is now.  Series that had their tags updated are not written
    # again, and no rows or columns are deleted, before the log need not be replayed that far.
    def checkpoint(self):
        self.add("write", rows=[self.row()]); self.add("flush")
        self.retired, self.deldirty = {}, False
    def add(self, op, **k):
        if op in ("delete", "dropcol", "droptable"):
            if self.retired: self.checkpoint()
            self.deldirty, self.wrote = True, False
        if op == "updtags":
            if self.deldirty: self.checkpoint()
            for x in k["series"]: self.retired[k["tb"], tuple(x)] = 1
            self.wrote = False
        if op == "write": self.wrote = True
        if op == "flush" and self.wrote: self.retired, self.deldirty = {}, False
        if op in ("flush", "crash"): self.wrote = False
        self.ops.append(dict(op=op, **k)); return self.ops[-1]
    def crash(self, lose=0):
        k = {"lose": lose}
        if self.rng.random() < 0.3: k["clean"] = True
        if self.rng.random() < 0.3: k["sync_index"] = True
        self.add("crash", **k)
    def delatom(self):
        r = self.rng
        if r.random() < 0.04: return {"k": "const", "v": r.random() < 0.4}
        if r.random() < 0.6: return {"k": "cmp", "c": "time", "o": r.choice(["=", "<", "<=", ">", ">=", "!=", ">=", "<"]), "v": r.randint(1, len(self.ts))}
        v = "-" if r.random() < 0.05 else r.choice(["s:x", "s:y", "s:z", "s:m"])
        return {"k": "cmp", "c": r.choice(["g1", "g1", "g2"]), "o": r.choice(["=", "=", "!=", "<", "<=", ">", ">="]), "v": v}
    def delfilter(self):
        """what DELETE accepts: a conjunction of comparisons of time and tags (now and then something else)"""
        r = self.rng
        k = r.random()
        if k < 0.1: return None
        if k < 0.15: return self.filt(["time", "g1", "g2"])
        fs = [self.delatom() for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4]))]
        while len(fs) > 1:
            i = r.randrange(len(fs) - 1) if r.random() < 0.4 else 0
            fs[i:i + 2] = [{"k": "and", "l": fs[i], "r": fs[i + 1]}]
        return fs[0]
    def check(self, extra=1):
        for tb in self.tables:
            self.add("query", tb=tb)
        for _ in range(extra):
            self.query()
    def query(self):
        r = self.rng
        k = {"tb": self.tb()}
        if r.random() < 0.6: k["filter"] = self.filt(["time", "g1", "g2", "f1", "f2", "f3", "f4", "f5"])
        if r.random() < 0.25: k["proj"] = r.sample(["g1", "g2", "f1", "f2", "f3", "f4", "f5"], r.randint(1, 4))
        if r.random() < 0.3: k["batch"] = r.choice([1, 2, 3])
        self.add("query", **k)
    def step(self):
        r = self.rng
        base = {"write": 40, "flush": 12, "compact": 6, "delete": 8, "updtags": 4, "dropcol": 1, "droptable": 1, "purge": 4, "crash": 6,
                "logcrash": 4, "snap": 2, "restore": 2, "query": 12, "series": 4}
        base.update(self.w)
        o = r.choices(list(base), list(base.values()))[0]
        if o == "write":
            tb = self.tb() if r.random() < 0.7 else None
            self.add("write", rows=[self.row(tb) for _ in range(r.choice([1, 1, 2, 3, 6]))])
        elif o == "flush": self.add("flush")
        elif o == "compact": self.add("compact")
        elif o == "purge": self.add("purge")
        elif o == "delete":
            f = self.delfilter(); k = {"tb": self.tb()}
            if f: k["filter"] = f
            self.add("delete", **k); self.sure = 0
        elif o == "updtags":
            if r.random() < 0.3: ser = [["x", "-"], ["x", "x"], ["x", "y"]]
            else: ser = [self.tags()]
            st = [r.choice(["=", "x", "y", "z", "m", "-"]), r.choice(["=", "=", "=", "y"])]
            tb = self.tb()
            if st != ["=", "="] and not any((tb, tuple(a if b == "=" else b for a, b in zip(x, st))) in self.retired for x in ser):
                self.add("updtags", tb=tb, series=ser, set=st, sure=self.sure)
            self.snap = False
        elif o == "dropcol":
            self.add("dropcol", tb=self.tb(), col=r.choice(["f1", "f2", "f3", "f4", "f5"])); self.snap = False
        elif o == "droptable":
            self.add("droptable", tb=self.tb()); self.snap = False; self.sure = 0
        elif o == "crash": self.crash(); self.sure = 0
        elif o == "logcrash":
            m = len(self.ops)
            k = r.random()
            if k < 0.6: self.add("write", rows=[self.row() for _ in range(r.choice([1, 2, 4]))], apply=False)
            elif k < 0.85:
                f = self.delfilter(); kk = {"tb": self.tb(), "apply": False}
                if f: kk["filter"] = f
                self.add("delete", **kk); self.sure = 0
            else: return
            self.add("crashx", lose=r.choice([0, 0, 1])); self.ops[-1]["op"] = "crash"; self.sure = 0
        elif o == "snap": self.add("snap"); self.snap = True
        elif o == "restore":
            if self.snap: self.add("restore"); self.sure = 0
        elif o == "query": self.query(); return
        elif o == "series":
            self.add("series", tb=self.tb()); return
        if r.random() < 0.35: self.check(0)

def case(rng, n=25, **k):
    g = Gen(rng, **k)
    for _ in range(n): g.step()
    g.check(2)
    return g.ops


def cut(trace):
    """Known finding: a compaction may leave an older file in front of newer data.  What
    follows such a compaction in its case says nothing new; it is left out.  Returns
    (compactions, how many of them were like that, events left out)."""
    import json
    n = inv = out = 0
    keep, skip = [], False
    for line in open(trace):
        e = json.loads(line)
        if e["op"] == "new": skip = False
        if skip: out += 1; continue
        if e["op"] == "compact":
            n += 1
            if e.get("inv"): inv += 1; skip = True
        keep.append(line)
    open(trace, "w").writelines(keep)
    return n, inv, out
