"""C16 written text and what is understood: Lines specification vs protocol_parser (line protocol, OpenTSDB, logs, traces)."""
import json
def C(t): return [ord(c) for c in t]
LET = ["a", "b", "ta", "Z9", "x y", "k,", "=v", "p=q", "é", "中文", "q\"", "'", ",", " ", "time", "a b,c=d", "0", "-", "_", "😀", "tab"]
NAMES = [n for n in LET if n]
def tabname(rng): return C(rng.choice([n for n in NAMES if "\\" not in n and n not in "#" ]))
def name(rng): return C(rng.choice(NAMES))
GOODF = ["1", "0", "-0", "1.5", "-2.25", "0.001", "1e3", "1E-5", "2.5e+10", "123456789012345", "1i", "-1i", "0i", "9223372036854775807i", "-9223372036854775808i", "0u", "7u", "18446744073709551615u",
         "t", "T", "true", "True", "TRUE", "f", "F", "false", "False", "FALSE", '""', '"a"', '"a b"', '"a,b=c"', '"\\""', '"\\\\"', '"x\\\\\\"y"', '"a\nb"', '"é中"', '"#"', '"\\\\\\\\"', '"a\\\\b\\"c\\"\\""', "100000", "0.5", "-7i", "42u", "3.14159"]
BADF = ["", "x", "1x", "1.2.3", "tru", "truee", "TrUe", "FALSe", '"a', '"', "9223372036854775808i", "-9223372036854775809i", "-1u", "18446744073709551616u", "1.5i", "i", "u", "é", "-", "--1", "-i", "99999999999999999999i", "1i2", "=", "nul"]
ODDF = ["+1", "01i", "00", "-0i", "007u", "NaN", "inf", "1.", "-.5", ".5", "+1i", "nan", "1e400", "0123456789.0123456789"]
GOODT = ["0", "1", "-1", "1602841605822791506", "9223372036854775807", "-9223372036854775808", "1000", "1434055562000000000"]
BADT = ["12x", "x", "1.5", "9223372036854775808", "-9223372036854775809", "--1", "-", "1e3", "1i", "99999999999999999999"]
ENDS = ["\n", "\r\n", "\n\n", "\n  \n", "\n# a comment, with=all sorts\n", "\r\n#\r\n\r\n", "\n\t"]
ESC = {ord(c) for c in ", ="}
def esc(q, S):
    out = []
    for c in q: out += [92, c] if c in S else [c]
    return out
def render(doc):
    o = []
    for p in doc:
        o += p["junk"] + esc(p["table"], {44, 32})
        for k, v in p["tags"]: o += [44] + esc(k, ESC) + [61] + esc(v, ESC)
        o += [32] * p["sp1"]
        for n, (k, v) in enumerate(p["fields"]): o += ([44] if n else []) + esc(k, ESC) + [61] + v
        o += [32] * p["sp2"] + p["ts"] + p["end"]
    return o
def lpline(rng, last, bad, types):
    def fval(k):
        x = rng.random()
        if x < bad: return C(rng.choice(BADF + ["" ] * 4))
        if x < bad * 1.3: return C(rng.choice(ODDF))
        if types and rng.random() < .9:
            ty = types.setdefault(tuple(k), rng.choice(["f", "i", "u", "b", "s"]))
            return C(rng.choice([v for v in GOODF if ("s" if v[0] == '"' else "i" if v[-1] == "i" else "u" if v[-1] == "u" else "b" if v[0] in "tTfF" else "f") == ty]))
        return C(rng.choice(GOODF))
    ts = C(rng.choice(GOODT)) if rng.random() < .6 else []
    if ts and rng.random() < bad: ts = C(rng.choice(BADT))
    fields = [] if rng.random() < bad / 8 else [[k, fval(k)] for k in (name(rng) for _ in range(rng.randint(1, 4)))]
    # a tag may carry the name of a field now and then: refused, not a panic
    tags = [[C(rng.choice(["t1", "t2", "t 3", "t,4", "é", "a"] if rng.random() < .1 else ["t1", "t2", "t 3", "t,4", "h=5", "t"])), name(rng) if rng.random() < .9 else []] for _ in range(rng.randint(0, 3))]
    sp2 = rng.choice([1, 1, 1, 2, 3]) if ts else rng.choice([0, 0, 0, 1, 2])
    return {"junk": C(rng.choice(["", "", "", " ", "\n", "# c\n", "\t"])), "table": tabname(rng) if rng.random() < .3 else C(rng.choice(["m", "n"])), "tags": tags, "sp1": rng.choice([1, 1, 1, 2]), "fields": fields,
            "sp2": sp2, "ts": ts, "end": C(rng.choice(ENDS if not last else ENDS + [""] * 6))}
def tsname(rng): return rng.choice(["m", "sys.cpu.user", "a-b_c/d", "x1", "é", "中"])
TV = ["1", "0", "-1", "1.5", "-2.25", "100", "1e3", "0.001", "42"]
def tokens(rng):
    return [C(tsname(rng)), C(rng.choice(GOODT)), C(rng.choice(TV))] + [C(f"{k}={v}") for k, v in ((rng.choice(["host", "dc", "a", "b", "zz"]), rng.choice(["x", "web01", "1", "é"])) for _ in range(rng.randint(1, 4)))]
def tree(rng, d=0, root=False):
    x = rng.random()
    if root or (x < .25 and d < 3): 
        ks = rng.sample(["a", "b", "k k", "é", "1", "0", "time", "tag", "x"], rng.randint(1, 4))
        return {"o": [[k, tree(rng, d + 1)] for k in ks]}
    if x < .35 and d < 3: return {"a": [tree(rng, d + 1) for _ in range(rng.randint(1, 3))]}
    if x < .6: return {"s": C(rng.choice(["", "a", "b c", "\"q\"", "back\\slash", "\n", "é中", "true", "1"]))}
    if x < .85: return {"n": C(rng.choice(["0", "1", "-7", "12345678901", "9223372036854775807", "-1", "42"]))}
    if x < .97: return {"b": rng.random() < .5}
    return {"z": 0}
def flatset(v, n=""):
    if "o" in v: return [y for k, x in v["o"] for y in flatset(x, (n + "." if n else "") + k)]
    if "a" in v: return [y for k, x in enumerate(v["a"]) for y in flatset(x, (n + "." if n else "") + str(k))]
    return [(n, v)]
def okdoc(rng):
    while True:
        t = tree(rng, root=True)
        ks = [k for k, _ in flatset(t)]
        if len(set(ks)) == len(ks): return t
def attrs(rng):
    ks = rng.sample(["service.name", "k1", "k2", "é", "a b"], rng.randint(0, 3))
    out = []
    for k in ks:
        t = "s" if k == "service.name" else rng.choice("ssbi-")
        out.append([k, t, {"s": rng.choice(["v", "", "é", "w x"]), "b": rng.choice(["true", "false"]), "i": str(rng.choice([0, 5, -3, 1234567])), "-": ""}[t]])
    return out
def hx(rng): return "".join(rng.choice("0123456789abcdef") for _ in range(2 * rng.choice([0, 1, 4, 8])))
def span(rng):
    n = lambda: rng.choice([0, 1, 7, 1000000, 2000000000])
    return {"tid": hx(rng), "sid": hx(rng), "state": rng.choice(["", "s=1"]), "pid": hx(rng), "flags": n(), "name": rng.choice(["", "op", "é"]), "kind": rng.randint(0, 5), "start": n(), "end": n(), "attrs": attrs(rng), "drop": n(),
            "events": [{"time": n(), "name": rng.choice(["e", ""]), "attrs": attrs(rng), "drop": n()} for _ in range(rng.choice([0, 0, 1, 2]))], "dropev": n(),
            "links": [{"tid": hx(rng), "sid": hx(rng), "state": rng.choice(["", "x"]), "attrs": attrs(rng), "drop": n(), "flags": n()} for _ in range(rng.choice([0, 0, 1, 2]))], "droplk": n(),
            "status": [] if rng.random() < .4 else [{"msg": rng.choice(["", "bad"]), "code": rng.randint(0, 2)}]}
def otlp(rng):
    opt = lambda f: [f()] if rng.random() < .7 else []
    return [{"res": opt(lambda: {"attrs": attrs(rng), "drop": rng.randint(0, 9)}), "url": rng.choice(["", "u"]), "scopes": [
        {"scope": opt(lambda: {"name": rng.choice(["", "lib"]), "ver": rng.choice(["", "1"]), "attrs": attrs(rng), "drop": rng.randint(0, 9)}), "url": rng.choice(["", "v"]), "spans": [span(rng) for _ in range(rng.randint(0, 3))]}
        for _ in range(rng.randint(0, 3))]} for _ in range(rng.randint(0, 3))]
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_parse")
    ctx.check_spec("LinesMC.tla", "LinesMC.cfg")
    S = []
    big = not ctx.quick
    # line protocol: every field value, every time stamp, every end, alone and before another line
    one = lambda **k: {"junk": [], "table": C("m"), "tags": [], "sp1": 1, "fields": [[C("f"), C("1")]], "sp2": 0, "ts": [], "end": []} | k
    def lp(doc):
        now = rng.choice(GOODT)
        S.append({"op": "lp", "doc": doc, "text": render(doc), "now": now, "nowc": C(now)})
    S.append({"op": "reset"})
    for v in GOODF + BADF + ODDF:
        f = [[C("f"), C(v)]]
        lp([one(fields=f)]); lp([one(fields=f, end=C("\n")), one(table=C("n"))]); lp([one(fields=f + [[C("g"), C("2i")]])]); lp([one(fields=f, sp2=1, ts=C("5"))]); lp([one(fields=[[C("e"), C("1")]] + f, sp2=2, end=C("\n"))])
    for t in GOODT + BADT:
        for e in [""] + ENDS:
            lp([one(sp2=1, ts=C(t), end=C(e))] + ([one(table=C("n"))] if e else []))
    for e in ENDS:
        for k in range(3): lp([one(sp2=k, end=C(e)), one(table=C("n"), sp2=k)])
    for n in NAMES:
        lp([one(table=C(n))]); lp([one(tags=[[C(n), C("v")]])]); lp([one(tags=[[C("t"), C(n)]])]); lp([one(fields=[[C(n), C("1")]])]); lp([one(tags=[[C("t"), C("v")]], sp1=2, fields=[[C(n), C("t")]])]); lp([one(table=C(n), junk=C("\n# x\n ")), one(table=C(n), tags=[[C(n), []]])][:1])
    lp([])
    for k in range(500 if ctx.quick else 6000):
        if k % 20 == 0: S.append({"op": "reset"})
        bad = rng.choice([0, 0, .03, .15])
        types = {} if rng.random() < .8 else None
        n = rng.randint(1, 6)
        lp([lpline(rng, m == n - 1, bad, types) for m in range(n)])
    # any text at all: an answer, not a panic
    al = C("m,=f1 \"\\\n\ri.-té#t")
    for k in range(400 if ctx.quick else 8000):
        if k % 40 == 0: S.append({"op": "reset"})
        if rng.random() < .6:
            q = render([lpline(rng, False, .1, None) for _ in range(rng.randint(1, 2))])
            for _ in range(rng.randint(1, 3)):
                if q:
                    i = rng.randrange(len(q))
                    q = rng.choice([q[:i], q[:i] + q[i + 1:], q[:i] + [rng.choice(al)] + q[i:], q[i:]])
        else: q = [rng.choice(al) for _ in range(rng.randint(0, 14))]
        S.append({"op": rng.choice(["fuzz", "fuzz", "tsfuzz"]), "text": q, "now": "0"})
    # OpenTSDB, by HTTP and by TCP in pieces
    for k in range(120 if ctx.quick else 1500):
        if k % 20 == 0: S.append({"op": "reset"})
        n = rng.randint(1, 4)
        doc = [{"tokens": tokens(rng), "end": C(rng.choice(["\n", "\r\n", "\n\n"] + ([""] if m == n - 1 else [])))} for m in range(n)]
        # tags by HTTP are parted by spaces
        text = []
        for d in doc: text += [c for i, t in enumerate(d["tokens"]) for c in ([32] if i else []) + t] + d["end"]
        S.append({"op": "tsdb", "doc": doc, "text": text})
        tk = tokens(rng)
        kv = dict("".join(map(chr, t)).split("=", 1) for t in tk[3:])
        tk = tk[:3] + [C(f"{a}={b}") for a, b in kv.items()]
        ch = lambda q: "".join(map(chr, q))
        S.append({"op": "tsjson", "json": json.dumps({"metric": ch(tk[0]), "timestamp": int(ch(tk[1])), "value": float(ch(tk[2])), "tags": kv}, ensure_ascii=False), "tokens": tk})
    for k in range(40 if ctx.quick else 600):
        S.append({"op": "reset"})
        q = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < .2: q += C(rng.choice(["\r\n", "\n"]))
            t = tokens(rng)
            q += C("put") + [c for x in t for c in [32] + x] + C(rng.choice(["\r\n", "\r\n", "\n"]))
        while q:
            m = rng.randint(1, len(q)) if rng.random() < .7 else rng.randint(1, min(5, len(q)))
            S.append({"op": "feed", "text": q[:m]}); q = q[m:]
    # columns, logs and traces
    for k in range(80 if ctx.quick else 1200):
        if k % 20 == 0: S.append({"op": "reset"})
        rows = rng.choice([1, 1, 2, 5, 8, 9, 17])
        cols = []
        for n in rng.sample(["a", "b", "c d", "é", "e", "g", "h"], rng.randint(1, 5)):
            ty = rng.choice("gsiufb")
            val = {"g": lambda: C(rng.choice(["", "x", "é"])), "s": lambda: C(rng.choice(["", "y z", "中"])), "i": lambda: rng.choice([0, -5, 7, 2000000000]), "u": lambda: rng.choice([0, 7, 2000000000]), "f": lambda: rng.choice([0, -5, 7, 1000, 123]), "b": lambda: rng.randint(0, 1)}[ty]
            cols.append({"n": C(n), "k": ty, "v": [[val()] if rng.random() < .7 else [] for _ in range(rows)], "as": "", "out": False})
        cols.insert(rng.randint(0, len(cols)), {"n": C("time"), "k": "t", "v": [[rng.choice([0, 1, -1, 1000000])] for _ in range(rows)], "as": "", "out": False})
        x = rng.random()
        c = rng.choice([c for c in cols if c["k"] != "t"])
        if x < .08: c["out"] = True
        elif x < .16: c["as"] = "i" if c["k"] != "i" else "s"
        S.append({"op": "arrow", "unit": rng.choice(["ms", "us", "ns"]), "rows": rows, "cols": cols})
    for k in range(120 if ctx.quick else 1500):
        if k % 20 == 0: S.append({"op": "reset"})
        S.append({"op": "ndjson", "docs": [okdoc(rng) for _ in range(rng.randint(0, 4))], "as": rng.choice(["nd", "loki"])})
        pairs = [okdoc(rng) for _ in range(rng.randint(0, 3))]
        docs, bad = [], False
        for p in pairs:
            docs += [rng.choice(["", ""]) for _ in range(rng.choice([0, 0, 1]))]
            cmd = rng.choice(["create", "index"] * 6 + ["delete"])
            bad |= cmd == "delete"
            docs += [{"o": [[cmd, {"o": [["_index", {"s": C("t")}], ["_id", {"s": C("1")}]][: rng.randint(0, 2)]}]]}, p]
        if docs and rng.random() < .1: docs = docs + [rng.choice([docs[-1], {"o": [["index", {"o": []}]]}, {"o": [["create", {"o": []}]]}])]; bad = True
        S.append({"op": "bulk", "docs": docs, "pairs": pairs, "bad": bad})
        S.append({"op": "loki", "streams": [{"labels": rng.choice(["", "{a=\"b\"}"]), "es": [{"ts": [] if rng.random() < .1 else [[rng.choice([0, 1, 1600000000]), rng.choice([0, 5, 999999999])]], "line": rng.choice(["", "msg", "é"])} for _ in range(rng.randint(0, 3))]} for _ in range(rng.randint(0, 3))], "big": False})
        if rng.random() < .1: S.append({"op": "loki", "streams": [{"labels": "l", "es": [{"ts": [[1, 5]], "line": "x"}]}], "big": True})
        S.append({"op": "otlp", "rs": otlp(rng)})
        d = okdoc(rng)
        ls = flatset(d)
        names = [n for n, _ in ls]
        tm = rng.choice(names + ["time", "nope"])
        tv = dict(ls).get(tm)
        if rng.random() < .5 and tm == "time" and not any(n == "time" or n.startswith("time.") for n in names): d["o"].append(["time", {"s": C(rng.choice(TIMES))}]); tv = d["o"][-1][1]
        tags = [n for n, v in ls if "z" not in v and rng.random() < .3 and "," not in n and n.strip() == n]
        S.append({"op": "toline", "doc": d, "table": "t", "time": tm, "tags": rng.choice([",", " , "]).join(tags + (["none"] if not tags else [])), "tagset": tags + (["none"] if not tags else []),
                  "timestr": "".join(map(chr, tv["s"])) if tv and "s" in tv else ""})
    for a, b in KINDS: S.append({"op": "kind", "s": a, "want": b})
    tr = ctx.run_parallel(binp, [], S, "parse", resets=("reset",))
    ctx.validate("LinesTrace.tla", "LinesTrace.cfg", tr, chunk=1500, resets=("reset",), title="text understood as written")
TIMES = ["2022-10-10T10:10:10Z", "1970-01-01T00:00:00.000000001Z", "1969-12-31T23:59:59.5+00:00", "1970-01-01T01:00:00+01:00", "yesterday", "2022-13-10T10:10:10Z", "9999-10-10T10:10:10Z", ""]
KINDS = [("bulk", "Bulk"), ("BULK", "Bulk"), ("ndjson", "Ndjson"), ("NdJson", "Ndjson"), ("loki", "Loki"), ("LOKI", "Loki"), ("otlp_trace", "OtlpTrace"), ("otlp", "-"), ("", "-"), ("bulk ", "-"), ("json", "-"), ("otlptrace", "-")]
