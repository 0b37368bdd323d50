"""C20 metrics accounting: Metrics specification vs common/metrics (through the Prometheus report)."""
KINDS = ["counter", "gauge", "avg", "hist", "dcounter", "dgauge", "dhist"]
LAB = [["db", "x"], ["db", "y"], ["tenant", "cnosdb"], ["node_id", "1001"], ["vnode", "7"]]
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_metrics")
    es = ctx.edges("MetricsMC.tla", "MetricsMC.cfg")
    paths, total = ctx.cover(es, maxlen=40, limit=150 if ctx.quick else None)
    ctx.notes["edges"] = total
    script = []
    for p in paths:
        script.append({"op": "new", "labels": []}); script += p
    for _ in range(120 if ctx.quick else 3000):
        script.append({"op": "new", "labels": rng.sample(LAB, rng.randint(0, 2))})
        nreg, ms, nr = 1, [], 0
        known = {}   # upper bound on registers; handles are valid from 1..nreg only if created
        subs = {}
        names = {}
        live = []
        for _ in range(45):
            o = rng.choices(["sub", "metric", "recorder", "rec", "fetch", "remove", "report", "reportm", "onetime", "labels", "subs"], [6, 12, 14, 40, 6, 3, 6, 3, 3, 2, 2])[0]
            ls = [rng.choice(LAB) for _ in range(rng.randint(0, 3))]
            if o == "sub":
                # only handles already certain to exist are used as parents: register 1, or none created below
                p = rng.randint(1, nreg)
                def merged(p, ls):
                    base = dict(subs.get(p, (0, tuple(map(tuple, script_root(script)))))[1])
                    for k, v in ls: base[k] = v
                    return tuple(sorted(base.items()))
                m = merged(p, ls)
                if not any(q == p and x == m for q, x in subs.values()):
                    nreg += 1; subs[nreg] = (p, m)
                script.append({"op": "sub", "reg": p, "labels": ls})
            elif o == "metric":
                r = rng.randint(1, nreg); n = rng.choice(["a", "b", "c_d"]); k = names.get((r, n)) or rng.choice(KINDS)
                names[(r, n)] = k
                bs = rng.sample([1, 2, 5, 10, 50, 1000, -1], rng.randint(1, 5)) if "hist" in k else []
                ms.append(k)
                script.append({"op": "metric", "reg": r, "name": n, "help": rng.choice(["one", "two words"]), "kind": k, "buckets": bs, "direct": rng.random() < .5})
            elif o == "recorder" and ms:
                m = rng.randint(1, len(ms)); script.append({"op": o, "m": m, "labels": ls}); nr += 1; live.append(ms[m - 1])
            elif o == "rec" and nr:
                r = rng.randint(1, nr)
                script.append({"op": o, "r": r, "v": rng.choice([0, 1, 2, 3, 5, 6, 10, 11, 49, 50, 51, 1000, 1001]), "c": rng.choice([1, 1, 1, 2, 7]) if "hist" in live[r - 1] else 1})
            elif o == "fetch" and nr: script.append({"op": o, "r": rng.randint(1, nr)})
            elif o == "remove" and ms: script.append({"op": o, "m": rng.randint(1, len(ms)), "labels": ls})
            elif o in ("report", "labels", "subs"): script.append({"op": o, "reg": rng.randint(1, nreg)})
            elif o == "reportm" and ms: script.append({"op": o, "m": rng.randint(1, len(ms))})
            elif o == "onetime": script.append({"op": o, "reg": rng.randint(1, nreg), "name": f"once{rng.randint(1, 10**6)}", "help": "x", "mlabels": ls, "labels": rng.sample(LAB, 1), "value": rng.choice([[], [0], [7], [1234]])})
        script.append({"op": "report", "reg": 1})
    for k in ["a", "a_b9", "_", "", "A", "a-b", "a b", "é", "9", "a.b", "zZ"]:
        script.append({"op": "label", "k": k, "legal": k != "" and all(c in "abcdefghijklmnopqrstuvwxyz0123456789_" for c in k)})
    for x in [0, 1000, 2500, 5000, 10000, 25000, 50000, 100000, 250000, 500000, 1000000, 2500000, 5000000, 10000000, 1000000000]:
        for d in (0, 1, -1):
            if x + d >= 0: script.append({"op": "defaults", "v": x + d})
    for _ in range(3 if ctx.quick else 20):
        script.append({"op": "storm", "threads": 4, "per": rng.choice([50, 200])})
    t = ctx.run_harness(binp, [], script, "metrics")
    ctx.validate("MetricsTrace.tla", "MetricsTrace.cfg", t, resets=("new", "storm", "label", "defaults"), chunk=2500, title="metrics")
def script_root(script):
    for r in reversed(script):
        if r["op"] == "new": return sorted({k: v for k, v in r["labels"]}.items())
