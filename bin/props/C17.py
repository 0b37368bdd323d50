"""C17 time ranges and predicate domains: Domains specification vs models::predicate."""
ENDS = [1, 2, 3, 5, 6, 7, 9, 10, 11]
def rg(rng):
    a, b = rng.choice(ENDS), rng.choice(ENDS)
    return [min(a, b), max(a, b)]
VAL = {"i": lambda r: r.randint(-3, 3), "f": lambda r: r.randint(-3, 3), "u": lambda r: r.randint(0, 7), "s": lambda r: r.randint(0, 8),
       "t": lambda r: r.choice(ENDS), "b": lambda r: r.randint(0, 1)}
def one_range(rng, k):
    o = rng.choice(["eq", "ne", "gt", "ge", "lt", "le", "gtlt", "gelt", "gtle", "gele", "gele", "all"])
    if o == "all": return {"o": o}
    v, w = VAL[k](rng), VAL[k](rng)
    if o in ("gtlt", "gelt", "gtle", "gele"):
        v, w = min(v, w), max(v, w)
        if v == w: o = "gele"
        return {"o": o, "v": v, "w": w}
    return {"o": o, "v": v}
def dom(rng, c):
    k = c[0]
    x = rng.random()
    if x < 0.06: return {"k": "all", "kind": k}
    if x < 0.1: return {"k": "none", "kind": k}
    if c in ("b1", "sv", "iv"): return {"k": "values", "kind": k, "white": rng.random() < .6, "vs": [VAL[k](rng) for _ in range(rng.randint(0, 3))]}
    return {"k": "ranges", "kind": k, "rs": [one_range(rng, k) for _ in range(rng.randint(0, 4))]}
COLS = ["i1", "f1", "u1", "s1", "t1", "b1", "sv", "iv"]
def cols(rng, n): return [{"c": c, "d": dom(rng, c)} for c in (rng.choice(COLS) for _ in range(n))]
def atom(rng, cs, simple):
    c = rng.choice(cs); k = c[0]
    x = rng.random()
    if not simple and x < 0.3:
        if x < 0.06: return {"k": "null", "c": c}
        if x < 0.12 and "b1" in cs: return {"k": "col", "c": "b1"}
        if x < 0.2 and k != "b": return {"k": "in", "c": c, "v": sorted({VAL[k](rng) for _ in range(2)}), "neg": rng.random() < .3}
        if x < 0.24: return {"k": "const", "v": rng.random() < .5}
    v = rng.randint(0, 5) if k == "s" else rng.choice([1, 2, 5, 6, 7, 11]) if k == "t" else rng.randint(0, 3) if k == "u" else VAL[k](rng)
    return {"k": "cmp", "c": c, "o": rng.choice(["=", "!=", "<", "<=", ">", ">="]), "v": v, "swap": rng.random() < .3}
def expr(rng, cs, depth, simple):
    if depth == 0 or rng.random() < .25: return atom(rng, cs, simple)
    if simple: return {"k": "and", "l": expr(rng, cs, depth - 1, simple), "r": expr(rng, cs, depth - 1, simple)}
    x = rng.random()
    if x < .45: return {"k": "and", "l": expr(rng, cs, depth - 1, simple), "r": expr(rng, cs, depth - 1, simple)}
    if x < .9: return {"k": "or", "l": expr(rng, cs, depth - 1, simple), "r": expr(rng, cs, depth - 1, simple)}
    return {"k": "not", "l": expr(rng, cs, depth - 1, simple)}
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_models")
    es = ctx.edges("DomainsMC.tla", "DomainsMC.cfg")
    paths, total = ctx.cover(es, maxlen=400, limit=None)
    ctx.notes["edges"] = total
    script = []
    for p in paths: script.append({"op": "trs", "how": "empty", "rs": []}); script += p
    for a in ENDS:
        for b in ENDS:
            if a <= b:
                for c in ENDS:
                    for d in ENDS:
                        if c <= d: script.append({"op": "pair", "a": [a, b], "b": [c, d]})
    for lk in ("in", "ex", "un"):
        for hk in ("in", "ex", "un"):
            for a in ENDS:
                for b in ENDS: script.append({"op": "bounds", "lk": lk, "lv": a, "hk": hk, "hv": b})
    q = ctx.quick
    for _ in range(250 if q else 5000):
        how = rng.choice(["new", "new", "new", "all", "one", "empty"])
        script.append({"op": "trs", "how": how, "rs": [rg(rng) for _ in range(rng.randint(0, 5) if how == "new" else 1)]})
        for _ in range(12):
            o = rng.choice(["push", "extend", "inter", "excl", "excl", "excls", "ask", "ask"])
            k = {"op": o}
            if o in ("extend", "excls"): k["rs"] = [rg(rng) for _ in range(rng.randint(0, 4))]
            else: k["r"] = rg(rng)
            script.append(k)
    for _ in range(400 if q else 8000):
        how = rng.choice(["all", "of", "of", "none"])
        k = {"op": "cd", "how": how}
        if how == "of": k["c"] = rng.choice(COLS); k["d"] = dom(rng, k["c"])
        script.append(k)
        for _ in range(10):
            o = rng.choice(["cinter", "cunion", "cadd", "cadd", "calt", "calt"])
            if o in ("cinter", "cunion"): script.append({"op": o, "onone": rng.random() < .1, "cs": cols(rng, rng.randint(0, 4))})
            else:
                c = rng.choice(COLS); script.append({"op": o, "c": c, "d": dom(rng, c)})
    for n in range(900 if q else 20000):
        cs = rng.choice([["t"], ["s1"], ["t", "s1"], ["t", "s1", "s2"], ["t", "s1"], ["t", "s1", "b1"], ["t", "i1"], ["s1", "f1"], ["u1", "t"], ["i1", "s1", "b1"]])
        script.append({"op": "expr", "e": expr(rng, cs, rng.choice([1, 2, 2, 3, 4]), rng.random() < .4)})
    t = ctx.run_harness(binp, ["domains"], script, "domains")
    ctx.validate("DomainsTrace.tla", "DomainsTrace.cfg", t, resets=("trs", "cd", "pair", "bounds", "expr"), chunk=1500, title="domains")
