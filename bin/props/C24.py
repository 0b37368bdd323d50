"""C24 set summaries, dedup, key hash, ids: Summaries specification vs common/utils."""
from big import int_, limbs16
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_utils")
    es = ctx.edges("SummariesMC.tla", "SummariesMC.cfg")
    sc = []
    paths, total = ctx.cover(es)
    ctx.notes["edges"] = total
    key = lambda: [rng.randrange(256) for _ in range(rng.choice([0, 1, 1, 2, 4, 8, 9, 15, 16, 31, 32, 33, 40]))]
    for m in (8, 64, 512):
        for p in paths:
            sc.append({"op": "bnew", "m": m, "probe": [[1], [2], []]}); sc += p
    for _ in range(80 if ctx.quick else 2500):
        ks = [key() for _ in range(rng.randint(1, 20))]
        sc.append({"op": "bnew", "m": rng.choice([1, 7, 8, 9, 16, 31, 32, 63, 64, 65, 100, 128, 500, 512, 1000, 4096]), "probe": [key() for _ in range(5)]})
        for _ in range(40):
            o = rng.choices(["binsert", "bask", "bsave"], [30, 60, 6])[0]
            r = {"op": o}
            if o != "bsave": r["k"] = rng.choice(ks)
            else: r["via"] = rng.choice(["bytes", "bincode"])
            sc.append(r)
    for n, m, fp in [(100, 1 << 16, 1), (1000, 1 << 20, 1), (2000, 1 << 16, 20), (300, 1 << 12, 60)]:
        sc.append({"op": "bnew", "m": 8, "probe": []})
        sc.append({"op": "bfill", "n": n, "m": m, "maxfp": fp})
    # bytes of filters written by the pinned version stay readable
    import json, os
    g = os.path.join(os.path.dirname(__file__), "bloom_golden.json")
    sc.append({"op": "bnew", "m": 8, "probe": []})
    for e in json.load(open(g)): sc.append({"op": "bload", "bytes": e["bytes"], "keys": e["keys"]})
    for n in range(0, 6):
        import itertools
        for v in itertools.product([1, 2, 4], repeat=n):
            for mode in ("key", "near"):
                sc.append({"op": "dedup", "v": list(v), "mode": mode})
            for at in range(1, n + 1): sc.append({"op": "dedup", "v": list(v), "mode": "stop", "at": at})
    for _ in range(60 if ctx.quick else 2000):
        sc.append({"op": "dedup", "v": [rng.randint(0, 6) for _ in range(rng.randint(6, 40))], "mode": rng.choice(["key", "near"])})
    for _ in range(120 if ctx.quick else 3000):
        sc.append({"op": "bkdr", "prefix": rng.choice([[], [1], [65535]]), "start": rng.choice([[], [], limbs16(rng.randrange(1 << 64))]), "parts": [key() for _ in range(rng.randint(0, 4))]})
    for _ in range(20 if ctx.quick else 200):
        sc.append({"op": "inew", "n": rng.choice([0, 1, 7, 1000])})
        for _ in range(12):
            sc.append({"op": "inext"} if rng.random() < .8 else {"op": "iset", "n": rng.randint(0, 5000)})
    for _ in range(6 if ctx.quick else 60):
        sc.append({"op": "ids", "n": rng.randint(0, 99), "threads": 6, "per": 400})
    for x in [0, 1, -1, 255, 256, 65535, 65536, -65536, (1 << 63) - 1, -(1 << 63)] + [rng.randint(-(1 << 63), (1 << 63) - 1) for _ in range(50)]:
        le = list((x % (1 << 64)).to_bytes(8, "little"))
        sc.append({"op": "lebytes", "x": int_(x), "le": le, "hexwant": "[" + ", ".join(f"{b:x}" for b in le[:2]) + "]"})
    t = ctx.run_harness(binp, [], sc, "sums")
    ctx.validate("SummariesTrace.tla", "SummariesTrace.cfg", t, resets=("bnew", "dedup", "bkdr", "inew", "ids", "lebytes"), chunk=1200, title="sums")
