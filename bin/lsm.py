"""Schedules for the real engine out of the transitions of Lsm.tla, and the shared body of the storage checks."""
import json, storegen

def sequences(edges, rng, want):
    """Runs of the specification from its initial state, no two with the same sequence of operations
    as long as there are new ones."""
    adj = {}
    for f, ev, t in edges: adj.setdefault(f, []).append((ev, t))
    start = edges[0][0]
    seen, out, tries = set(), [], 0
    while len(out) < want and tries < want * 30:
        tries += 1
        cur, path = start, []
        while cur in adj:
            byop = {}
            for ev, t in adj[cur]: byop.setdefault(ev["op"], []).append((ev, t))
            ev, cur = rng.choice(byop[rng.choice(sorted(byop))])
            path.append(ev)
        key = tuple(e["op"] for e in path)
        if key in seen and tries < want * 20: continue
        seen.add(key); out.append(path)
    return out

def replay(paths, rng, cfgs=None):
    """The runs as scripts; what is stored is looked at after every operation."""
    ops = []
    for p in paths:
        ops.append({"op": "new", "ts": ["10", "20", "30"], "cfg": rng.choice(cfgs or storegen.CFG)})
        n = 0
        for e in p:
            if e["op"] == "put":
                (cell) = e["c"]
                (s, t) = cell[0][0]
                f = ["-"] * 5
                n += 1
                for c in cell: f[c[1] - 1] = f"i:{n}" if c[1] == 1 else ["f:0.5", "f:1.5", "f:2.5", "f:3.5", "f:4.5"][n % 5]
                ops.append({"op": "write", "rows": [{"tb": "a", "tags": ["xy"[s - 1], "-"], "t": t, "f": f}]})
            elif e["op"] == "del":
                d = e["d"]
                k = {"op": "delete", "tb": "a"}
                if d["k"] == "s": k["filter"] = {"k": "cmp", "c": "g1", "o": "=", "v": "s:" + "xy"[d["x"] - 1]}
                if d["k"] == "t": k["filter"] = {"k": "cmp", "c": "time", "o": "=", "v": d["x"]}
                ops.append(k)
            elif e["op"] == "crash": ops.append({"op": "crash", "lose": 0, **rng.choice([{}, {"clean": True}, {"sync_index": True}, {"torn": True}])})
            else: ops.append({"op": e["op"]})
            ops.append({"op": "query", "tb": "a"})
        ops.append({"op": "crash", "lose": 0}); ops.append({"op": "query", "tb": "a"})
    return ops

def run(ctx, weights, quick, thorough, paths, keep=None, cfgs=None, extra=None, filters=1):
    binp = ctx.build("h_tskv")
    ctx.check_spec("LsmMC.tla", "LsmMC.cfg" if ctx.quick else "LsmDeep.cfg", workers=6, heap="12g")
    script = []
    if paths:
        es = ctx.edges("LsmMC.tla", "LsmEdges.cfg" if ctx.quick else "LsmEdges5.cfg", heap="8g")
        seqs = sequences([e for e in es], ctx.rng, (paths if ctx.quick else paths * 12) * 6)
        if keep: seqs = [p for p in seqs if keep({e["op"] for e in p})]
        seqs = seqs[:paths if ctx.quick else paths * 12]
        ctx.notes["lsm_transitions"], ctx.notes["lsm_runs_replayed"] = len(es), len(seqs)
        script += replay(seqs, ctx.rng, cfgs)
    for _ in range(quick if ctx.quick else thorough):
        kw = {"weights": weights}
        if cfgs: kw["cfg"] = ctx.rng.choice(cfgs)
        script += storegen.case(ctx.rng, **kw)
    if extra: script += extra(ctx)
    t = ctx.run_parallel(binp, ["store"], script, "store", timeout=800)
    n, inv, out = storegen.cut(t)
    ctx.notes["compactions"], ctx.notes["cut_after_layout_inversion"], ctx.notes["events_cut"] = n, inv, out
    ctx.validate("StorageTrace.tla", "StorageTrace.cfg", t, chunk=700, title="storage")
