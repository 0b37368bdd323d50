"""C14 who may do what: Auth specification vs models::auth (privileges, roles, users, sign-in, cache)."""
DBS = ["a", "b", "A", "", "a b", "é", "all databases"]
LV = ["r", "w", "a"]
def P(k, t, d="", p=""): return {"k": k, "t": t, "d": d, "p": p}
def universe(ids, dbs):
    return [P("root", 0)] + [P(k, t) for k in ("ten", "user", "sys", "mem", "role") for t in ids] + [P("db", t, d, p) for t in ids for d in ["*"] + dbs for p in LV]
WORDS = ["", "a", "root", "p w", "é", "a:b", "x" * 40, "*****", "P"]
USERS = ["u", "root", "U", "é", "u u"]
def o(rng):
    pick = lambda vs, p: [rng.choice(vs)] if rng.random() < p else []
    return {"pw": pick(WORDS, .6), "badhash": pick(["", "x", "$2b$12$zz"], .08), "must": pick([True, False], .4), "rsa": pick(["k1", "k2", "bad"], .25), "note": pick(["", "n"], .3), "adm": pick([True, False], .4)}
def cred(rng, pws, users=USERS):
    pw = rng.choice(pws)
    x = rng.random()
    if x < .5: k, kid, kpw = [], "", ""
    elif x < .55: k, kid, kpw = ["bad"], "", ""
    else:
        kid, kpw = rng.choice(["k1", "k2"]), (pw if rng.random() < .7 else "z")
        k = [f"{kid}:{kpw}"]
    return {"user": rng.choice(users), "password": pw, "key": k, "kid": kid, "kpw": kpw}
KEYS = {"k1": {"user": "u", "password": "p", "key": [], "t": "t1"}, "k2": {"user": "u", "password": "p", "key": [], "t": "t2"}, "k3": {"user": "u", "password": "p", "key": ["k1:p"], "t": "t1"}}
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_models")
    script = []
    # the lattice: every pair
    U = universe([0, 1, 2], ["a", "A"] if ctx.quick else ["a", "A", "", "b"]) + [P("db", 4, "*", "w"), P("user", 3), P("user", 4), P("ten", 3)]
    script.append({"op": "reset"})
    for h in U:
        script += [{"op": "pair", "h": h, "w": w} for w in U]
    for t in (1, 2, 3, 4):
        for r in ("owner", "member"): script.append({"op": "sysrole", "r": r, "t": t, "bad": rng.choice(["Owner", "", "owners", "MEMBER", "admin"])})
    # every change of a role, every use of the cache
    for what, init in (("role", {"role": {"sys": "", "pr": []}, "cache": []}), ("cache", {"role": {"sys": "", "pr": []}, "cache": []})):
        es = ctx.edges("AuthMC.tla", f"AuthMC_{what}.cfg")
        ctx.notes["edges_" + what] = len(es)
        rng.shuffle(es)
        paths, total = ctx.cover(es, init=next(f for f, e, t in es if '"pr": []' in f and '"sys": ""' in f and '"cache": []' in f), maxlen=60)
        for p in paths:
            script.append({"op": "reset"})
            if what == "role": script.append({"op": "role", "n": "r", "id": 3, "t": 2, "sys": "", "pr": []})
            else: script.append({"op": "cache", "cap": 2, "ttl": rng.choice([[], [1000000]])})
            for e in p:
                e = dict(e)
                if what == "role": e |= {"n": "r", "id": 3, "t": rng.randint(1, 4)}
                elif "k" in e: e |= KEYS[e.pop("k")]
                script.append(e)
    # roles and users at large
    asks0 = universe([0, 1, 2, 3, 4], DBS)
    for k in range(60 if ctx.quick else 800):
        script.append({"op": "reset"})
        names = []
        for n in ("r1", "r2", "r3")[: rng.randint(0, 3)]:
            names.append(n)
            script.append({"op": "role", "n": n, "id": rng.randint(1, 4), "t": rng.randint(1, 4), "sys": rng.choice(["", "owner", "member"]), "pr": [[d, rng.choice(LV)] for d in rng.sample(DBS, rng.randint(0, 3))]})
        for _ in range(rng.randint(4, 14)):
            if names and rng.random() < .6:
                n = rng.choice(names)
                script.append({"op": rng.choice(["grant", "grant", "revoke", "revoke"]), "n": n, "t": rng.randint(1, 4), "d": rng.choice(DBS[:3]), "p": rng.choice(LV)})
            else:
                ten = [[t, rng.choice(["owner", "member"] + names)] for t in rng.sample([1, 2, 3, 4], rng.choice([0, 1, 1, 2, 3]))]
                script.append({"op": "user", "id": rng.randint(1, 4), "n": rng.choice(USERS), "n2": rng.choice(USERS), "o": o(rng) | {"adm": rng.choice([[], [], [False], [True]])}, "root": rng.random() < .15, "ten": ten, "asks": rng.sample(asks0, 40)})
    # options and signing in
    for k in range(120 if ctx.quick else 1500):
        pws = sorted(set(rng.sample(WORDS, 3)))
        mk = lambda: (lambda x: x | {"pw": [rng.choice(pws)] if x["pw"] else []})(o(rng))
        script += [{"op": "reset"}, {"op": "opts", "o": mk(), "pws": pws}]
        for _ in range(rng.randint(5, 20)):
            x = rng.random()
            if x < .5: script.append({"op": "login", **cred(rng, pws)})
            elif x < .7: script.append({"op": "merge", "o": mk(), "pws": pws})
            elif x < .76: script.append({"op": "chpw", "pws": pws})
            elif x < .82: script.append({"op": "hide", "pws": pws})
            elif x < .88: script.append({"op": "keep", "pws": pws})
            elif x < .94: script.append({"op": "hash", "a": rng.choice(WORDS), "b": rng.choice(WORDS)})
            else: script.append({"op": "basic", **cred(rng, pws)})
    # the cache with sign-ins, changes of password and time going by
    for k in range(60 if ctx.quick else 600):
        timed = k % 10 == 0
        pws = rng.sample(WORDS, 2)
        script += [{"op": "reset"}, {"op": "cache", "cap": 50 if timed else rng.choice([1, 2, 3, 5]), "ttl": [120] if timed else rng.choice([[], [1000000], [0]]) if k % 3 else []}]
        if script[-1]["ttl"] == [0]: script[-1]["cap"] = 50
        for _ in range(rng.randint(10, 40)):
            c = {**cred(rng, pws, ["u", "v"]), "t": rng.choice(["t1", "t2"])}
            x = rng.random()
            if x < .2: script.append({"op": "put", **c, "v": rng.choice("xyz")})
            elif x < .45: script.append({"op": "get", **c})
            elif x < .55: script.append({"op": "rm", **c})
            elif x < .57: script.append({"op": "clear"})
            elif x < .67: script.append({"op": "iter"})
            elif x < .75: script.append({"op": "opts", "o": {"pw": [rng.choice(pws)] if rng.random() < .8 else [], "badhash": [], "must": [], "rsa": rng.choice([[], [], ["k1"], ["k2"]]), "note": [], "adm": []}, "pws": pws})
            elif x < .95 or not timed: script.append({"op": "signin", **c})
            else: script.append({"op": "sleep", "ms": rng.choice([30, 130])})
    t = ctx.run_harness(binp, ["auth"], script, "auth")
    ctx.validate("AuthTrace.tla", "AuthTrace.cfg", t, resets=("reset",), chunk=1500, title="access control")
