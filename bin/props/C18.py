"""C18 what a replica keeps for consensus: RaftLog specification vs NodeStorage over the write-ahead log and the LMDB entry store."""
import json

class Mirror:
    """Bounds of one group's log, to choose calls the consensus library makes."""
    def __init__(self): self.lo, self.last, self.applied, self.purged, self.snap, self.term, self.ids = 0, -1, -1, -1, None, 1, {}

def reads(rng, g, m, n=2):
    o = []
    for _ in range(n):
        k = rng.choice(["state", "get", "get", "get", "applied", "current", "voted"])
        r = {"op": k, "g": g}
        if k == "get":
            a = rng.randint(max(0, m.lo - 3), max(0, m.last + 2))
            b = a + rng.choice([0, 0, 1, 2, 3, 8])
            r["lo"] = rng.choice([["in", a], ["in", a], ["ex", a], ["un", 0]] if m.last - m.lo < 40 else [["in", a], ["ex", a]])
            r["hi"] = rng.choice([["ex", b], ["in", b], ["ex", b + 1], ["un", 0]] if m.last - m.lo < 40 else [["ex", b], ["in", b]])
        o.append(r)
    return o

def walk(rng, store, steps, big):
    groups = rng.choice([[1], [1, 11], [1, 2, 12]])
    lag = rng.choice([0, 0, 1, 2, 5])
    S = [{"op": "reset", "store": store, "max": rng.choice([1, 1, 150, 400, 3000, 100000]), "compress": rng.choice(["null", "snappy", "zstd", "gzip", "bzip", "zlib", "default"]), "lag": lag, "groups": groups}]
    M = {g: Mirror() for g in groups}
    tag = 0
    def snap(m):
        if m.applied >= 0: m.snap = max(m.snap or 0, m.applied - lag)
    for _ in range(steps):
        g = rng.choice(groups); m = M[g]
        k = rng.choices(["append", "conflict", "apply", "purge", "cut", "build", "reopen", "vote", "install", "init", "name", "names", "destroy"],
                        [30, 10, 22, 9, 3, 7, 6, 4, 4, 1, 2, 1, 1])[0]
        if k in ("append", "conflict"):
            fr = m.last + 1
            if k == "conflict" and m.last > m.applied: fr = rng.randint(max(m.applied + 1, m.lo), m.last); m.term += 1
            elif rng.random() < .2: m.term += 1
            n = rng.choice([1, 1, 2, 3, 5]) if not big else rng.choice([1, 2, 20, 90, 200, 300])
            es = []
            for j in range(n):
                tag += 1
                kind = 2 if fr + j == 0 else rng.choices([0, 1, 2], [1, 8, 1])[0]
                es.append([m.term, rng.choice([1, 2]) if False else m.term % 3 + 1, kind, 0 if kind == 0 else tag % 1000 + 1])
                m.ids[fr + j] = [m.term, m.term % 3 + 1, fr + j]
            m.last = fr + n - 1
            S.append({"op": "append", "g": g, "from": fr, "ents": es, "size": rng.choice([0, 0, 3, 30, 120, 900])})
        elif k == "apply" and m.applied < m.last:
            i = rng.choice([m.applied + 1, m.last, rng.randint(m.applied + 1, m.last)])
            S.append({"op": "apply", "g": g, "i": i}); m.applied = i
        elif k == "purge" and m.snap is not None and m.lo <= m.snap:
            i = rng.choice([m.snap, rng.randint(m.lo, m.snap), m.lo])
            if i not in m.ids: continue
            S.append({"op": "purge", "g": g, "at": m.ids[i]}); m.purged = i; m.lo = i + 1; m.last = max(m.last, i)
        elif k == "cut" and m.last > m.applied:
            i = rng.choice([m.applied + 1, m.last, m.last + 1, rng.randint(m.applied + 1, m.last)])
            if i < m.lo: continue
            S.append({"op": "cut", "g": g, "i": i}); m.last = min(m.last, i - 1)
        elif k == "build":
            S.append({"op": "build", "g": g}); snap(m)
        elif k == "reopen":
            S.append({"op": "reopen"})
            for x in M.values():
                if store == "wal" and x.applied >= 0: x.last = min(x.last, x.applied)
                snap(x)
        elif k == "vote":
            S.append({"op": "vote", "g": g, "v": [rng.randint(1, 50), rng.randint(1, 3), rng.randint(0, 1)]})
        elif k == "install" and len(groups) > 1:
            src = rng.choice([x for x in groups if x != g]); q = M[src]
            if q.snap is None or q.snap <= m.applied or q.snap not in q.ids: continue
            # the part of the log a snapshot contradicts goes first, what it covers afterwards
            if m.last > q.snap:
                S.append({"op": "cut", "g": g, "i": max(m.applied + 1, m.lo)}); m.last = max(m.applied, m.lo - 1)
            S.append({"op": "install", "g": g, "src": src}); S += reads(rng, g, m, 1)
            m.applied = m.snap = q.snap; m.ids[q.snap] = q.ids[q.snap]
            S.append({"op": "purge", "g": g, "at": q.ids[q.snap]}); m.purged = m.last = q.snap; m.lo = q.snap + 1; m.term = max(m.term, q.term)
        elif k == "init":
            if rng.random() < .5: S.append({"op": "init", "g": g})
            S.append({"op": "isinit", "g": g})
        elif k == "name": S.append({"op": "name", "g": g, "tenant": rng.choice(["t1", "cnosdb", "名"]), "raft": rng.randint(1, 99)})
        elif k == "names": S.append({"op": "names", "g": g})
        elif k == "destroy" and rng.random() < .5:
            S.append({"op": "destroy", "g": g, "again": True}); M[g] = Mirror()
            S += [{"op": "state", "g": g}, {"op": "applied", "g": g}, {"op": "current", "g": g}, {"op": "voted", "g": g}, {"op": "isinit", "g": g}, {"op": "names", "g": g}]
        S += reads(rng, g, M[g], rng.choice([0, 1, 2]))
    for g in groups:
        S += [{"op": "state", "g": g}, {"op": "get", "g": g, "lo": ["un", 0], "hi": ["un", 0]}, {"op": "applied", "g": g}, {"op": "current", "g": g}, {"op": "names", "g": g}]
    return S

def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_tskv")
    script = []
    es = ctx.edges("RaftLogMC.tla", "RaftLogMC.cfg")
    every = [{"op": "state"}, {"op": "get", "lo": ["un", 0], "hi": ["un", 0]}, {"op": "applied"}, {"op": "current"}]
    for store in ("wal", "heed"):
        for lag in (0, 1):
            sub = [e for e in es if (lambda d: d["store"] == store and d["lag"] == lag)(json.loads(e[0]))]
            init = next(e[0] for e in sub if (lambda r: r["log"] == [] and r["applied"] == [] and r["base"] == 0 and r["purged"] == [])(json.loads(e[0])["r"]))
            paths, total = ctx.cover(sub, init=init, maxlen=14)
            ctx.notes[f"edges_{store}_lag{lag}"] = total
            if ctx.quick: paths = rng.sample(paths, min(len(paths), 90 if store == "wal" else 25))
            ctx.notes[f"paths_{store}_lag{lag}"] = len(paths)
            for p in paths:
                script.append({"op": "reset", "store": store, "max": rng.choice([1, 1, 160, 100000]), "compress": rng.choice(["null", "zstd", "snappy"]), "lag": lag, "groups": [1]})
                for o in p:
                    script.append({**o, "g": 1, "size": 0} if o["op"] == "append" else {**o, "g": 1})
                    script += [{**r, "g": 1} for r in (every if rng.random() < .5 else rng.sample(every, 1))]
    n, m = (60, 60) if ctx.quick else (600, 140)
    for c in range(n): script += walk(rng, "wal" if c % 5 else "heed", m, False)
    for c in range(8 if ctx.quick else 60): script += walk(rng, "wal" if c % 4 else "heed", 24, True)
    ctx.notes["steps"] = len(script)
    t = ctx.run_parallel(binp, ["rlog"], script, "rlog", resets=("reset",), timeout=800)
    ctx.validate("RaftLogTrace.tla", "RaftLogTrace.cfg", t, resets=("reset",), title="raftlog")
