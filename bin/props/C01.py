"""C01 caches: LruCache / KvCache specifications vs common/cache."""
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_cache")
    keys = ["a", "b", "c"]
    # 1. every transition of the small LRU state graph, replayed on each unsharded/sharded wrapper
    es = ctx.edges("LruCacheMC.tla", "LruCacheMC.cfg")
    paths, total = ctx.cover(es)
    ctx.notes["lru_edges_replayed"] = total
    script = []
    for kind in ("lru", "sync", "async"):
        for p in paths:
            script.append({"op": "new", "kind": kind, "cap": 2, "keys": keys})
            script += p
    # 2. long seeded walks on the sharded caches (colliding keys, all capacities incl. 0 and non multiples of 16)
    n, m = (60, 60) if ctx.quick else (600, 120)
    for c in range(n):
        kind = rng.choice(["ssync", "sasync", "ssync", "sasync", "lru", "sync", "async"])
        nk = rng.choice([3, 8, 20, 40])
        ks = [f"k{j}" for j in range(nk)]
        cap = rng.choice([0, 1, 5, 16, 17, 31, 32, 33, 48]) if kind.startswith("s") and kind != "sync" else rng.randint(1, 9)
        if rng.random() < .15 and kind != "sasync": cap = 1 << 30   # unbounded (the asynchronous sharded cache is only set to it, see setcap)
        script.append({"op": "new", "kind": kind, "cap": cap, "keys": ks})
        for _ in range(m):
            o = rng.choices(["insert", "get", "remove", "pop", "popshard", "setcap", "cap", "usage", "clear"], [40, 20, 8, 8, 5, 2, 4, 10, 1])[0]
            r = {"op": o}
            if o in ("insert", "get", "remove", "popshard"): r["k"] = rng.choice(ks)
            if o == "insert": r["v"] = rng.randrange(1000)
            if o == "setcap": r["n"] = rng.choice([1, 2, 7, 16, 20, 40, 1 << 30])
            script.append(r)
        # drain: every entry must come out, then nothing
        for _ in range(4):
            script.append({"op": "pop"})
        script.append({"op": "usage"})
    for s in range(4 if ctx.quick else 40):
        script.append({"op": "storm", "kind": rng.choice(["ssync", "sasync"]), "threads": 4, "per": 400, "cap": rng.choice([16, 32, 100]),
                       "keys": [f"k{j}" for j in range(24)], "seed": rng.randrange(1 << 30)})
    t = ctx.run_harness(binp, [], script, "lru")
    ctx.validate("LruCacheTrace.tla", "LruCacheTrace.cfg", t, title="lru")
    # circular cache
    es = ctx.edges("KvCacheMC.tla", "KvCacheMC.cfg")
    script = []
    import json
    for cap in range(1, 5):
        sub = [e for e in es if json.loads(e[0])["cap"] == cap]
        paths, total = ctx.cover(sub, init=json.dumps({"cap": cap, "q": []}, sort_keys=True))
        ctx.notes[f"kv_edges_cap{cap}"] = total
        for p in paths:
            script.append({"op": "knew", "cap": cap}); script += p
    for c in range(40 if ctx.quick else 400):
        cap = rng.choice([1, 2, 3, 8, 16, 256]); script.append({"op": "knew", "cap": cap}); nxt = c % 2
        for _ in range(80):
            o = rng.choices(["kput", "kget", "klast", "kdelbefore", "kdelafter", "reput"], [50, 20, 10, 4, 4, 8])[0]
            if o == "kput": script.append({"op": o, "k": nxt, "v": rng.randrange(1000)}); nxt += 1
            elif o == "reput" and nxt > c % 2: script.append({"op": "kput", "k": nxt - 1, "v": rng.randrange(1000)})
            elif o == "kget": script.append({"op": o, "k": max(0, nxt - rng.randint(0, cap + 2))})
            elif o == "klast": script.append({"op": o})
            elif o == "kdelbefore": script.append({"op": o, "k": max(0, nxt - rng.randint(0, min(cap, 20) + 2))})
            elif o == "kdelafter":
                k = max(c % 2, nxt - rng.randint(0, min(cap, 20) + 2)); script.append({"op": o, "k": k}); nxt = k
    t = ctx.run_harness(binp, [], script, "kv")
    ctx.validate("KvCacheTrace.tla", "KvCacheTrace.cfg", t, resets=("knew",), title="kv")
