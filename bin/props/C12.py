"""C12 placement: Meta specification (buckets, replication sets) vs meta::store::storage::StateMachine and models::meta_data."""
import metagen, big
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_meta")
    if not ctx.quick: ctx.check_spec("MetaMC.tla", "MetaMC_deep.cfg")
    es = ctx.edges("MetaMC.tla", "MetaMC_where.cfg")
    rng.shuffle(es)
    paths, total = ctx.cover(es, init=next(f for f, e, t in es if '"hw": 1' in f and all(f'"{k}": []' in f for k in ("nodes", "met", "dbs"))), maxlen=40, limit=25 if ctx.quick else None)
    ctx.notes["edges"] = total
    script = []
    for p in paths: script += [{"op": "reset"}] + [dict(e) for e in p]
    for k in range(60 if ctx.quick else 1500):
        g = metagen.Gen(rng, metagen.PLACE)
        script += [{"op": "reset"}] + g.setup(rng.choice([1, 2, 3, 4]))
        for _ in range(rng.choice([15, 30, 60])): script += g.take()
    hour = 3600 * 10**9
    for _ in range(600 if ctx.quick else 20000):
        d = rng.choice([1, 2, 7, 9999, 10**4, hour, 24 * hour, 365 * 24 * hour, 2**62, 2**63 - 1, 0, -1, rng.randint(1, 2**63 - 1), rng.randint(1, 10**6)])
        ts = rng.choice([0, 1, -1, 2**63 - 1, -2**63, -2**63 + 1, rng.randint(-10**6, 10**6), rng.randint(-2**63, 2**63 - 1), rng.randint(-3, 3) * d + rng.choice([-1, 0, 1])])
        script.append({"op": "range", "ts": big.int_(max(-2**63, min(2**63 - 1, ts))), "dur": big.int_(d)})
    t = ctx.run_harness(binp, ["srv"], script, "srv")
    ctx.validate("MetaTrace.tla", "MetaTrace.cfg", t, resets=("reset",), chunk=900, title="placement")
