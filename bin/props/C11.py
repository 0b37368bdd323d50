"""C11 metadata state machine: Meta specification vs meta::store::storage::StateMachine."""
import metagen
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_meta")
    es = ctx.edges("MetaMC.tla", "MetaMC_who.cfg")
    rng.shuffle(es)
    paths, total = ctx.cover(es, init=next(f for f, e, t in es if '"hw": 1' in f and all(f'"{k}": []' in f for k in ("users", "tens", "roles", "mems", "dbs"))), maxlen=40, limit=25 if ctx.quick else None)
    ctx.notes["edges"] = total
    script = []
    for p in paths: script += [{"op": "reset"}] + [dict(e) for e in p]
    for k in range(60 if ctx.quick else 1500):
        g = metagen.Gen(rng, metagen.ALL)
        script.append({"op": "reset"})
        if k % 4: script += g.setup(rng.choice([1, 2, 3, 3]))
        for _ in range(rng.choice([15, 30, 60])): script += g.take()
    t = ctx.run_harness(binp, ["srv"], script, "srv")
    ctx.validate("MetaTrace.tla", "MetaTrace.cfg", t, resets=("reset",), chunk=900, title="metadata")
