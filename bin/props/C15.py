"""C15 rate and quota limiting: Limiter specification vs common/limiter_bucket."""
import json
BIG = 1_000_000_000
def new(rng, mx, refill, initial, via=None):
    return {"op": "new", "max": mx, "refill": refill, "initial": initial, "unit_ms": rng.choice([60_000, 100_000, 3_600_000]),
            "via_config": rng.random() < 0.5 if via is None else via}
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_limiter")
    es = ctx.edges("LimiterMC.tla", "LimiterMC.cfg")
    script = []
    inits = sorted({f for f, _, _ in es if json.loads(f)["now"] == 0 and json.loads(f)["granted"] == 0 and json.loads(f)["due"] == 10})
    confs = {(3, 1): ([3], 1, 0), (5, 2): ([5], 2, 5), (4, 3): ([4], 3, 9), (10, 1): ([], 1, 0)}
    n_edges = 0
    for f in inits:
        c = json.loads(f)["cfg"]
        sub = [e for e in es if json.loads(e[0])["cfg"] == c]
        paths, total = ctx.cover(sub, init=f, limit=80 if ctx.quick else None)
        n_edges += total
        for p in paths:
            script.append(new(rng, *confs[(c["max"], c["refill"])])); script += p
    ctx.notes["edges"] = n_edges
    for _ in range(200 if ctx.quick else 6000):
        mx = rng.choice([[], [0], [1], [7], [100], [1000], [BIG]])
        script.append(new(rng, mx, rng.choice([1, 2, 9, 100, 12345, BIG]), rng.choice([0, 1, 5, 100, 100000, BIG])))
        for _ in range(30):
            o = rng.choices(["tick", "acquire", "take", "acquire_one", "save"], [30, 35, 20, 10, 5])[0]
            r = {"op": o}
            if o == "tick": r["n"] = rng.choice([1, 2, 3, 5, 9, 10, 11, 19, 20, 37, 100, 1005])
            if o in ("acquire", "take"): r["p"] = rng.choice([0, 1, 2, 3, 5, 9, 10, 50, 99, 100, 101, 5000])
            if o == "save": r["via"] = rng.choice(["json", "bincode"])
            script.append(r)
    for _ in range(60 if ctx.quick else 600):
        script.append({"op": "cnew", "init": rng.randint(-50, 50), "max": rng.choice([[], [0], [10], [1000]]), "via": rng.choice(["config", "new", "builder", "zero"])})
        for _ in range(12):
            o = rng.choice(["inc", "dec", "inc", "dec", "csave"])
            script.append({"op": o, "n": rng.randint(0, 500)} if o != "csave" else {"op": o})
    for _ in range(8 if ctx.quick else 80):
        script.append({"op": "storm", "threads": 4, "per": rng.choice([50, 500]), "p": rng.choice([1, 2, 3, 7]), "initial": rng.choice([10, 1000, 100000]), "closed": rng.random() < 0.5})
    t = ctx.run_harness(binp, [], script, "limiter")
    ctx.validate("LimiterTrace.tla", "LimiterTrace.cfg", t, resets=("new", "cnew", "storm"), title="limiter")
