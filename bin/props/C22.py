"""C22 wire: encoded bodies, error bodies, parameters, trace contexts: HttpWire specification vs http_protocol and trace."""
import base64, json
KINDS = ["gzip", "deflate", "br", "zstd", "snappy", "lz4", "identity"]
NAMES = {"sql": {"tenant": "s", "db": "s", "chunked": "b", "target_partitions": "n", "stream_trigger_interval": "s"}, "write": {"precision": "s", "tenant": "s", "db": "s"}, "dump": {"tenant": "s"}, "debug": {"id": "n"},
         "log": {k: "s" for k in ("tenant", "db", "table", "log_type", "tag_columns", "time_column")}, "operation": {"service": "s", "spanKind": "s"},
         "traces": {"service": "s", "operation": "s", "start": "n", "end": "n", "tag": "s", "tags": "s", "limit": "n", "minDuration": "s", "maxDuration": "s", "traceID": "s"}}
def run(ctx):
    rng = ctx.rng
    b = ctx.build("h_wire")
    es = ctx.edges("HttpWireMC.tla", "HttpWireMC.cfg")
    paths, total = ctx.cover(es, limit=250 if ctx.quick else None)
    ctx.notes["edges"] = total
    sc = []
    for p in paths: sc += [{"op": "start"}] + p
    def canon(rs):
        out = []
        for x, n in rs:
            if n == 0: continue
            if out and out[-1][0] == x: out[-1][1] += n
            else: out.append([x, n])
        return out
    def body():
        m = rng.randrange(6)
        if m == 0: return []
        if m == 1: return canon([[rng.randrange(256), rng.randint(1, 3)] for _ in range(rng.randint(1, 40))])
        if m == 2: return canon([[rng.randrange(256), 1] for _ in range(rng.randint(60, 300))])
        if m == 3: return canon([[rng.choice([0, 65, 255]), rng.choice([1, 127, 128, 4095, 4096, 4097, 65535, 65536, 70000])] for _ in range(rng.randint(1, 4))])
        if m == 4: return [[rng.randrange(256), rng.choice([1, 2, 4096, 8192, 131072, 200000])]]
        return canon([[c, 1] for c in (b"cpu,host=a value=1i 1\n" * rng.randint(1, 6))])
    for _ in range(150 if ctx.quick else 3000):
        sc.append({"op": "start"})
        held, kinds = {}, rng.choice([KINDS, KINDS, [rng.choice(KINDS)]])
        for i in range(rng.randint(3, 14)):
            if not held or rng.random() < .5:
                i = rng.randint(1, 4); k = rng.choice(kinds)
                sc.append({"op": "enc", "id": i, "kind": k, "data": body()}); held[i] = k
            else:
                i = rng.choice(list(held)); k = held[i] if rng.random() < .93 else rng.choice(KINDS)
                if rng.random() < .08: sc.append({"op": "junk", "kind": rng.choice(KINDS), "data": body()})
                sc.append({"op": "dec", "id": i, "kind": k, "cut": rng.choice([0, 0, 0, 0, 1, 3, 8, 30])})
        for i, k in held.items(): sc.append({"op": "dec", "id": i, "kind": k, "cut": 0})
    sc.append({"op": "names", "try": KINDS + ["GZIP", "Gzip", "brotli", "", "gzip ", "x", "*", "Identity", "lz4 ", "none"]})
    msgs = ["", "plain", 'Table not found: "a.b"', "back\\slash", "line\nbreak\r\n\ttab", "\x01\x1f\x00", "é漢字🎉", "{\"a\":1}", "\u007f \u0085 \u2028", "/", "\b\f"] + ["".join(chr(rng.choice([34, 92, 10, 9, 1, 31, 65, 233, 0x1f600])) for _ in range(rng.randint(1, 9))) for _ in range(60)]
    for m in msgs: sc.append({"op": "error", "code": rng.choice(["010001", "029999", "0000000"]), "msg": m})
    for w, ns in NAMES.items():
        for k in range(40 if ctx.quick else 400):
            given = {n: ({"s": rng.choice(["", "a", "cnosdb", "x y"]), "n": rng.choice([0, 1, 77]), "b": rng.random() < .5}[t]) for n, t in ns.items() if rng.random() < .6}
            sc.append({"op": "params", "which": w, "v": given, "given": sorted([n, json.dumps(v)] for n, v in given.items())})
    hexd = lambda n: ([rng.randint(1, 15)] + [rng.randrange(16) for _ in range(n - 1)]) if n else []
    for i in range(100 if ctx.quick else 3000):
        sc.append({"op": "span", "ctx": [hexd(rng.choice([0, 1, 2, 16, 17, 31, 32])), hexd(rng.choice([0, 1, 2, 15, 16]))]})
    def text():
        m = rng.randrange(10)
        h = lambda n: "".join(rng.choice("0123456789abcdefABCDEF0") for _ in range(n))
        t = {0: lambda: h(32) + ":" + h(16), 1: lambda: h(33) + ":" + h(3), 2: lambda: h(3) + ":" + h(17), 3: lambda: "0" * 40 + "1:0000000000000000000f", 4: lambda: h(4), 5: lambda: h(2) + ":" + h(2) + ":" + h(1),
             6: lambda: ":" + h(3), 7: lambda: h(3) + ":", 8: lambda: h(2) + rng.choice("g xz-_") + ":" + h(2)}.get(m, lambda: h(rng.randint(1, 32)) + ":" + h(rng.randint(1, 16)))()
        return list(t)
    for _ in range(300 if ctx.quick else 5000): sc.append({"op": "parse", "text": text()})
    for _ in range(200 if ctx.quick else 3000):
        auto = rng.random() < .5
        hd, hs = [], []
        if rng.random() < .75:
            if rng.random() < .1: hd, hs = [["\xff"]], [["cnosdb-trace-ctx", [[255, 2]]]]
            else:
                t = [c for c in text()]
                hd, hs = [t], [[rng.choice(["cnosdb-trace-ctx", "Cnosdb-Trace-Ctx", "CNOSDB-TRACE-CTX"]), [[ord(c), 1] for c in t]]]
        if rng.random() < .3: hs.append(["traceparent", [[49, 3]]])
        sc.append({"op": "serve", "auto": auto, "header": hd, "headers": hs, "body": rng.randrange(1000)})
    for _ in range(40):
        p = rng.choice(["/api/v1/sql", "api/v1/sql", "", "/", "//x", "a?b=/c"])
        sc.append({"op": "url", "host": rng.choice(["127.0.0.1", "localhost", "h"]), "port": rng.choice([1, 80, 443, 8902, 65535]), "ssl": rng.random() < .3, "unsafe": rng.random() < .3, "path": p, "slash": p.startswith("/")})
    sc.append({"op": "words"})
    def send(**k):
        r = {"op": "send", "server": "plain", "ssl": False, "unsafe": False, "certs": [], "proxy": [], "basic": [], "custom": [], "method": "GET", "path": "/api/v1/ping"}
        r.update(k); r["slash"] = r["path"].startswith("/")
        r["basicword"] = "Basic " + base64.b64encode(":".join(r["basic"][0]).encode()).decode() if r["basic"] else ""
        sc.append(r)
    methods = ["GET", "POST", "HEAD", "PUT", "PATCH", "DELETE"]
    for m in methods:
        for p in ("/api/v1/sql?db=public", "x", "/"): send(method=m, path=p); send(method=m, path=p, proxy=["yes"])
    for sv in ("plain", "tls"):
        for ssl in (False, True):
            for us in (False, True):
                for cs in ([], ["ca"], ["other"], ["other", "ca"], ["missing"], ["ca", "missing"]): send(server=sv, ssl=ssl, unsafe=us, certs=cs, method=rng.choice(methods))
    for px in ([], [""], ["yes"], ["::"]):
        for ba in ([], [["u", "p w"]], [["u:", ""]]):
            for cu in ([], ["Digest abc"], ["bad\n"]): send(proxy=px, basic=ba, custom=cu, method=rng.choice(methods), path="/a/b")
    t = ctx.run_harness(b, [], sc, "wire", envx={"http_proxy": "http://127.0.0.1:9", "HTTP_PROXY": "http://127.0.0.1:9", "https_proxy": "http://127.0.0.1:9", "all_proxy": "http://127.0.0.1:9", "no_proxy": "", "NO_PROXY": ""})
    rows = []
    for line in open(t):                      # parameter objects as <<name, JSON text>> pairs
        if line.strip():
            r = json.loads(line)
            if r["op"] == "params" and r["got"]: r["flat"] = sorted([k, json.dumps(v)] for k, v in r["got"][0].items())
            rows.append(r)
    with open(t, "w") as f: f.writelines(json.dumps(r) + "\n" for r in rows)
    ctx.validate("HttpWireTrace.tla", "HttpWireTrace.cfg", t, resets=("start", "send", "words", "names", "error", "params", "span", "parse", "serve", "url"), chunk=1000, title="wire")
