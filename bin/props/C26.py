"""C26 SQL logic test runner: SqlRunner specification vs query_server/sqllogicaltests, including whole runs against a recording server."""
import json, os, subprocess, threading, time, shutil, http.server, urllib.parse
import vlib
ch = list
INSTR = ["TENANT", "DATABASE", "USER_NAME", "PASSWORD", "HTTP_HOST", "HTTP_PORT", "FLIGHT_HOST", "FLIGHT_PORT", "TIMEOUT", "PRECISION", "CHUNKED", "FOO", "TENANTS", "HOST"]
VALS = {"HTTP_HOST": ["127.0.0.1", "localhost", "h-1.example"], "FLIGHT_HOST": ["127.0.0.1", "localhost", "n2"], "HTTP_PORT": ["0", "80", "81", "8902", "65535", "65536", "x1", "70000"], "FLIGHT_PORT": ["80", "1", "8904", "65535", "65536", "abc"],
        "TIMEOUT": ["10ms", "2s", "1m", "3h", "0s"], "PRECISION": ["ms", "NS", "us", "1x"], "CHUNKED": ["true", "false", "True", "1"], "DATABASE": ["d", "_abc_", "Db_9", "9db", "-x"], "USER_NAME": ["hello", "u_1", "1u"],
        "TENANT": ["t1", "cnosdb", "a-b.c", "名"], "PASSWORD": ["p", "a:b", "--#x", "p=q", "#"], "FOO": ["x"], "TENANTS": ["y"], "HOST": ["z"]}
def run(ctx):
    rng = ctx.rng
    b = ctx.build("h_slt")
    es = ctx.edges("SqlRunnerMC.tla", "SqlRunnerMC.cfg")
    rng.shuffle(es)
    pick = es if not ctx.quick else es[:6000]
    paths, total = ctx.cover(es, init=next(f for f, e, t in es if '"tenant": ["c"' in f and '"hport": 8902' in f and '"password": []' in f and '"precision": []' in f and '["p", "u", "b", "l", "i", "c"]' in f and '["l", "o", "c"' in f.split('"hhost"')[1][:40]), maxlen=25, limit=60 if ctx.quick else 1500)
    ctx.notes["edges"] = total
    rc = lambda s: "".join(c.upper() if rng.random() < .5 else c.lower() for c in s) if rng.random() < .3 else s
    sp = lambda: rng.choice(["", " ", "  ", "\t"])
    sqls = ["select 1;", "select * from t where a = '--#x';", "copy into '$pwd/x' from t; -- $pwd$pwd", "$pw d $pwd", "-- a comment", "  --#TENANT = indented", "insert t values (1)", "SELECT 'é';", "#x", "-#LP_BEGIN", "--"]
    points = ["m,t=a f=1 1", "m2 f=\"x y\" 2", "--not a mark", "  ", "[{\"metric\": \"a\"}]", "--#TENANT = inside", "sys 1 2 a=b"]
    def render(x):
        t, n, v = x["t"], x["n"], "".join(x["v"])
        if t == "blank": return rng.choice(["", " ", "\t", "   "])
        if t == "sql": return rng.choice(sqls)
        if t == "http": return "--" + sp() + "#" + rc("HTTP") + rng.choice(["", " ", " on"])
        if t in ("begin", "end"): return "--" + sp() + "#" + rc(n + ("_BEGIN" if t == "begin" else "_END")) + rng.choice(["", " ", " x"])
        return "--" + sp() + "#" + rc(n) + sp() + "=" + sp() + v + (rng.choice(["", " ", " -- why", "\t# c"]) if v else "")
    cell = lambda: rng.choice(["a", "1", "x y", "", "NULL", "2.5"])
    txt = lambda: "".join(rng.choice(["a", "b", "\"", " ", "\n", "\\", ",", "é", "\t", "'"]) for _ in range(rng.randint(0, 9)))
    ALL = ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f16", "f32", "f64", "d128", "d256", "utf8", "large", "ts_s", "ts_ms", "ts_us", "ts_ns", "ts_tz", "date", "null"]
    def val(t):
        if rng.random() < .2: return "NULL"
        if t == "bool": return rng.choice(["true", "false"])
        if t in ("i8", "i16", "i32", "i64"): return str(rng.randint(-2**(int(t[1:]) - 1), 2**(int(t[1:]) - 1) - 1))
        if t in ("u8", "u16", "u32", "u64"): return str(rng.randint(0, 2**int(t[1:]) - 1))
        if t in ("f32", "f64"): return rng.choice(["1.5", "-0.25", "3.0", "1024.0"])
        if t in ("utf8", "large"): return txt() if rng.random() < .7 else rng.choice(["plain", "line one\n  line two\n    three", "\n\n", "a\n"])
        return "NULL"
    def create():
        nm = rng.choice([["db"], ["if", "not", "exists", "x_1"], ["with_db"], ["with_shard"], ["shard"], ["replica"]])
        head = rng.choice([["create", "database"] + nm] * 4 + [["drop", "database"] + nm, ["select", "1"], ["create", "table", "t"]])
        opts = []
        for o in rng.sample([["shard", str(rng.randint(1, 9))], ["replica", "3"], ["ttl", "'10d'"], ["vnode_duration", "'1d'"], ["precision", "'us'"]], rng.randint(1, 4)): opts += [rc(o[0]), o[1]]
        w = rng.choice(["", "with", "WITH", "With"])
        semi = rng.choice(["", ";", ";;;"])
        sql = " ".join(head + ([w] + opts if w else [])) + semi
        if not w: opts = []
        return sql, {"head": head, "withw": w, "opts": opts, "low": [o.lower() for o in opts], "semi": semi}
    def flight():
        fs = [[f"c{i}", rng.choice([a for a in ALL if a != "f16"] + ["utf8"] * 10)] for i in range(rng.choice([0, 1, 1, 2, 3]))]  # the arrow library cannot carry f16
        parts = [None if rng.random() < .1 else [[[ch(val(t)) for _, t in fs] for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 2) if fs else 0)] for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        stages = ["login", "prepare", "info"] + [k + str(i) for k in ("get", "mid") for i, p in enumerate(parts) if p is not None]
        return {"fail": rng.choice(stages) if rng.random() < .25 else "", "message": "it  broke\nhere", "fields": fs, "parts": parts}
    def record(ls):
        for x in ls: x["x"] = render(x) if not x["x"] else x["x"]
        rep = [[cell() for _ in range(w)] for w in [rng.randint(1, 3)] for _ in range(rng.randint(0, 3))]
        if any(r == [""] for r in rep): rep = [["a"]]
        fl, cr = flight(), []
        q = [x for x in ls if x["t"] == "sql"]
        if len(q) == 1 and not any(x["t"] == "begin" for x in ls) and rng.random() < .4: q[0]["x"], c = create(); cr = [c]
        return {"op": "record", "fl": fl, "shape": [[] if p is None else [p] for p in fl["parts"]], "create": cr, "lines": ls, "src": "\n".join(x["x"] for x in ls), "status": rng.choice([200, 200, 200, 400, 500]), "reply": rep}
    sc = []
    def opened(rnd):
        o = {"op": "open", "hh": [], "hp": [], "fh": [], "fp": [], "pwd": [], "shard": rng.choice(["1", "4", "13"]), "replica": rng.choice(["1", "2", "11"]), "env": {}}
        def put(k, e, v, w): o[k] = [w]; o["env"]["CNOSDB_" + e] = v
        if rnd:
            for k, e in (("hh", "HTTP_HOST"), ("fh", "FLIGHT_HOST")):
                if rng.random() < .4: v = rng.choice(["127.0.0.1", "h-2", "n.example"]); put(k, e, v, ch(v))
            for k, e in (("hp", "HTTP_PORT"), ("fp", "FLIGHT_PORT")):
                if rng.random() < .4: v = rng.choice([1, 80, 9002, 65535]); put(k, e, str(v), v)
            if rng.random() < .7: v = rng.choice(["/w", "/a b/c", "rel", "/x/$pwd"]); put("pwd", "WORK_DIR", v, v)
        return o
    for p in paths:
        sc.append(opened(False))
        for e in p: sc.append(record([dict(x) for x in e["lines"]]))
    for _ in range(150 if ctx.quick else 3000):
        sc.append(opened(True))
        for _ in range(rng.randint(1, 8)):
            ls = []
            for _ in range(rng.choice([0, 1, 2, 3])):
                n = rng.choice(INSTR); v = rng.choice(VALS[n] + [""]) if n != "TIMEOUT" else rng.choice(VALS[n])
                ls.append({"t": "instr", "n": n, "v": ch(v), "x": ""})
            if rng.random() < .3: ls.append({"t": "http", "n": "", "v": [], "x": ""})
            m = rng.random()
            if m < .45: ls += [{"t": rng.choice(["sql", "sql", "sql", "blank"]), "n": "", "v": [], "x": ""} for _ in range(rng.randint(0, 4))]
            elif m < .95:
                n = rng.choice(["LP", "OPENTSDB", "OPENTSDB_JSON"])
                if rng.random() < .2: ls.append({"t": "sql", "n": "", "v": [], "x": ""})
                ls.append({"t": "begin", "n": n, "v": [], "x": ""})
                for _ in range(rng.randint(0, 4)):
                    x = rng.choice(points)
                    ls.append({"t": "blank" if not x.strip() else "sql", "n": "", "v": [], "x": x} if "TENANT" not in x else {"t": "instr", "n": "TENANT", "v": ch("inside"), "x": x})
                if rng.random() < .1: ls.append({"t": "end", "n": rng.choice(["LP", "OPENTSDB", "OPENTSDB_JSON"]), "v": [], "x": ""})
                if rng.random() < .92: ls.append({"t": "end", "n": n, "v": [], "x": ""})
                if rng.random() < .1: ls.append({"t": rng.choice(["sql", "blank"]), "n": "", "v": [], "x": ""})
            rng.random() < .15 and rng.shuffle(ls)
            sc.append(record(ls))
    for _ in range(200 if ctx.quick else 3000):
        sql, c = create()
        sc.append(dict({"op": "create", "shard": str(rng.choice([1, 4, 13])), "replica": str(rng.choice([1, 2, 11])), "sql": sql}, **c))
    for k in range(200 if ctx.quick else 3000):
        fs = [[f"c{i}", rng.choice(ALL + ["utf8"] * 10)] for i in range(rng.randint(1, 4))]
        if k < len(ALL): fs = [["c", ALL[k]]]
        bs = []
        for _ in range(rng.randint(1, 3)):
            f2 = [list(f) for f in fs]
            if bs and rng.random() < .15:
                m = rng.randrange(3)
                if m == 0: f2[-1][0] = "other"
                elif m == 1: f2[-1][1] = rng.choice([t for t in ALL if t != f2[-1][1]])
                else: f2.append(["more", "i64"])
            bs.append({"fields": f2, "rows": [[ch(val(t)) for _, t in f2] for _ in range(rng.randint(0, 4))]})
        sc.append({"op": "rows", "batches": bs})
    def tree():
        names = ["a", "b", "B", "a_1", "a.slt", "b.slt", "z.txt", "10", "9", "t__UNIX.slt", "t__WINDOWS.slt", "x-y.slt", "slt", "case.v2.slt", "ab.SLT"]
        es = {}
        def fill(d, depth):
            for n in rng.sample(names, rng.randint(0 if d else 1, 6)):
                isf = depth == 0 or "." in n or rng.random() < .4
                es[tuple(d + [n])] = isf
                if not isf: fill(d + [n], depth - 1)
        fill([], 3)
        flt = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            k = rng.choice(["has", "has", "first", "last"]); t = rng.choice(["a", "b", "slt", "a/", "a_1", "/b", "zzz", "x-y", "9"])
            flt.append([k, t])
        if rng.random() < .15: flt.append(["has", rng.choice(["a[", "(b", "*a"])])
        pats = [{"has": t, "first": "^" + t, "last": t + "$"}[k] for k, t in flt]
        enc = lambda p: [[ord(c) for c in n] for n in p]
        return es, {"tree": [[enc(p), f] for p, f in sorted(es.items())], "filters": [[k, [ord(c) for c in t]] for k, t in flt], "pats": pats}
    for _ in range(60 if ctx.quick else 1000):
        es_, d = tree()
        sc.append(dict({"op": "files"}, **d))
    t = ctx.run_harness(b, [], sc, "slt")
    # whole runs of the program against a recording server
    rows = sessions(ctx, os.path.join(os.path.dirname(b), "h_slt_main"), rng, tree, 12 if ctx.quick else 150)
    rows += suites(ctx, os.path.dirname(b), rng, create, 40 if ctx.quick else 400)
    with open(t, "a") as f: f.writelines(json.dumps(r) + "\n" for r in rows)
    ctx.validate("SqlRunnerTrace.tla", "SqlRunnerTrace.cfg", t, resets=("open", "create", "rows", "files", "session", "suite"), chunk=500, title="slt")
def sessions(ctx, binary, rng, tree, n):
    state = {"log": [], "bad": set()}
    class H(http.server.BaseHTTPRequestHandler):
        def do_POST(self):
            body = self.rfile.read(int(self.headers.get("Content-Length", 0))).decode()
            state["log"].append(body)
            out = b"no" if body in state["bad"] else b""
            self.send_response(500 if body in state["bad"] else 200); self.send_header("Content-Length", str(len(out))); self.end_headers(); self.wfile.write(out)
        def log_message(self, *a): pass
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    rows = []
    for k in range(n):
        es, d = tree()
        root = f"{ctx.dir}/run"; shutil.rmtree(root, ignore_errors=True)
        base = root + "/query_server/sqllogicaltests/cases"; os.makedirs(base)
        files = [p for p, f in es.items() if f]
        bad = rng.sample(files, min(len(files), rng.choice([0, 0, 0, 1, 2])))
        name = {}
        for i, p in enumerate(sorted(es)):
            q = os.path.join(base, *p)
            if not es[p]: os.makedirs(q, exist_ok=True); continue
            os.makedirs(os.path.dirname(q), exist_ok=True)
            name[f"m{i} f=1"] = p
            open(q, "w").write(f"statement ok\n--#LP_BEGIN\nm{i} f=1\n--#LP_END\n\n")
        inv = {p: m for m, p in name.items()}
        state["log"], state["bad"] = [], {inv[p] for p in bad}
        e = dict(vlib.env(), CNOSDB_HTTP_HOST="127.0.0.1", CNOSDB_HTTP_PORT=str(srv.server_port), CNOSDB_FLIGHT_HOST="127.0.0.1", CNOSDB_FLIGHT_PORT="1", CNOSDB_WORK_DIR=root)
        r = subprocess.run([binary] + d["pats"], cwd=root, env=e, capture_output=True, text=True, timeout=120)
        enc = lambda p: [[ord(c) for c in x] for x in p]
        rows.append({"op": "session", "tree": d["tree"], "filters": d["filters"], "bad": [enc(p) for p in bad], "ran": [enc(name.get(x, ("?",))) for x in state["log"]], "success": r.returncode == 0})
        shutil.rmtree(root, ignore_errors=True)
    srv.shutdown()
    return rows
def suites(ctx, bindir, rng, create, n):
    """whole test files, run or filled in, against an HTTP and a Flight SQL server that answer as told"""
    log, book = [], {}
    class H(http.server.BaseHTTPRequestHandler):
        def do_POST(self):
            body = self.rfile.read(int(self.headers.get("Content-Length", 0))).decode()
            u = urllib.parse.urlsplit(self.path)
            log.append((time.time(), {"via": "http", "sql": body, "tenant": list(dict(urllib.parse.parse_qsl(u.query)).get("tenant", ""))}))
            st, out = book.get(body, (404, "unknown")) if u.path == "/api/v1/sql" else (404, "where")
            out = out.encode(); self.send_response(st); self.send_header("Content-Length", str(len(out))); self.end_headers(); self.wfile.write(out)
        def log_message(self, *a): pass
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    fl = subprocess.Popen([os.path.join(bindir, "h_slt_serve")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=vlib.env())
    fport = fl.stdout.readline().strip()
    def ask(x): fl.stdin.write(json.dumps(x) + "\n"); fl.stdin.flush(); return fl.stdout.readline()
    out, nq = [], 0
    MSG = [["no", "such", "table"], ["it", "broke"], ["full"]]
    for k in range(n):
        fill, mode, sh, rp, files = rng.random() < .5, rng.choice(["singleton", "cluster"]), str(rng.choice([1, 3, 24])), str(rng.choice([1, 2])), []
        root = f"{ctx.dir}/suite"; shutil.rmtree(root, ignore_errors=True)
        base = root + "/query_server/sqllogicaltests/cases"; os.makedirs(base)
        answers = {}; book.clear(); before = []
        wd = rng.choice(["/data/w", "rel dir", root])
        good = rng.random() < .5
        for fi in range(rng.choice([1, 2, 2])):
            rs = []
            for _ in range(rng.randint(1, 5)):
                nq += 1
                via = rng.choice(["flight", "http"])
                kind = rng.choice(["ok", "query", "query", "err", "qerr"])
                good_ = good or rng.random() < .7
                sql, cr = rng.choice([f"select {nq}", f"copy '$pwd/{nq}'", f"x{nq} = \"a b\";"]), []
                if rng.random() < .3:
                    while True:
                        sql, c = create()
                        if sql not in answers and sql not in book and via == "flight": c["head"][-1] += str(nq); sql = " ".join(c["head"] + ([c["withw"]] + c["opts"] if c["withw"] else [])) + c["semi"]; cr = [c]; break
                        if via == "http": sql = f"create database d{nq}"; break
                ncol = rng.randint(1, 3)
                fields = [rng.choice(["utf8", "i64", "u8", "bool", "f64"]) for _ in range(ncol)]
                cells = {"utf8": ["a", "x y", "é"], "i64": ["-4", "0"], "u8": ["7"], "bool": ["true", "false"], "f64": ["1.5", "-0.25"]}
                rows = [[rng.choice(cells[f if via == "flight" else "utf8"]) for f in fields] for _ in range(rng.randint(0, 3))]
                err = (kind in ("err", "qerr")) == (rng.random() < (.97 if good_ else .4))
                if err and fill: via = "http"; cr = []
                if via == "http" and cr: cr = []
                words = rng.choice(MSG)
                if kind in ("ok", "err") and rng.random() < .7 or rng.random() < .1: rows, fields = [], []
                ans = {"err": err, "words": words if err else [], "fields": [] if err or via == "http" else fields, "rows": [] if err else rows}
                r = {"cond": rng.choice([[], [], [], [rng.choice(["onlyif", "skipif"]), rng.choice(["singleton", "cluster"])]]), "kind": kind, "types": [], "want": [], "text": "", "via": via, "sql": sql, "create": cr, "tenant": [], "ten": "", "ans": ans}
                if rng.random() < .2: r["ten"] = rng.choice(["t1", "other"]); r["tenant"] = [list(r["ten"])]
                if kind == "query":
                    q = [[f'"{c}"' if via == "http" or fields[j] == "utf8" else c for j, c in enumerate(row)] for row in ans["rows"]]
                    want = [" ".join(x) for x in q]
                    if not good_ and rng.random() < .4: want = rng.choice([want + ["zz"], want[1:], [w.replace(" ", "") for w in want], want[::-1]])
                    r["want"] = [{"n": w, "x": w.replace(" ", rng.choice(["  ", "\t", " "])) if rng.random() < .2 else w} for w in want]
                    r["types"] = [rng.choice("BIPRTZ?") for _ in range(rng.randint(1, 3))]
                if kind in ("err", "qerr"): r["text"] = rng.choice([" ".join(words), words[-1], "Http error" if via == "http" else "Arrow error", "" if err or not fill else words[0]]) if good_ or rng.random() < .5 else "nothing like"
                raw = rng.choice([" ", "  ", " \n "] if via == "http" else [" ", "  "]).join(words)
                if via == "http": book[sql] = (500, raw) if err else (200, "\n".join(",".join(x) for x in rows))
                else: r["_a"] = {"fail": rng.choice(["prepare", "info"]) if err else "", "message": raw, "fields": [[f"c{j}", f] for j, f in enumerate(fields)], "parts": [[[[list(c) for c in row] for row in rows]]] if fields else []}
                rs.append(r)
            files.append(rs)
        for fi, rs in enumerate(files):
            t = ""
            for r in rs:
                head = {"ok": "statement ok", "err": ("statement error " + r["text"]).rstrip(), "qerr": ("query error " + r["text"]).rstrip(), "query": "query " + "".join(r["types"])}[r["kind"]]
                t += (" ".join(r["cond"]) + "\n" if r["cond"] else "") + head + "\n" + (f"--#TENANT = {r['ten']}\n" if r["ten"] else "") + ("--#HTTP\n" if r["via"] == "http" else "") + r["sql"] + "\n"
                if r["kind"] == "query": t += "----\n" + "".join(w["x"] + "\n" for w in r["want"])
                t += "\n"
            open(f"{base}/f{fi}.slt", "w").write(t); before.append([x for x in t.split("\n") if x.strip()])
            for r in rs:
                a = r.pop("_a", None)
                if a is None: continue
                key = r["sql"].replace("$pwd", wd)
                if r["create"]:
                    c = r["create"][0]
                    if c["head"][:2] == ["create", "database"]:
                        add = "".join(f"{o} {v} " for o, v in (("shard", sh), ("replica", rp)) if o not in c["low"][:-1])
                        key = " ".join(c["head"]) + (f" {c['withw']} " + add + " ".join(c["opts"]) if c["withw"] else f" with shard {sh} replica {rp}") + c["semi"]
                answers[key] = a
        ask({"answers": answers}); log.clear()
        e = dict(vlib.env(), CNOSDB_HTTP_HOST="127.0.0.1", CNOSDB_HTTP_PORT=str(srv.server_port), CNOSDB_FLIGHT_HOST="127.0.0.1", CNOSDB_FLIGHT_PORT=fport, CNOSDB_WORK_DIR=wd)
        args = ["--shard", sh, "--replica", rp, rng.choice(["-M", "--mode"]), mode] + (["--complete"] if fill else [])
        r = subprocess.run([os.path.join(bindir, "h_slt_main")] + args, cwd=root, env=e, capture_output=True, text=True, timeout=120)
        # both servers were asked by the one program, one call after the other: their clocks order the calls
        log += [(c["at"], {"via": "flight", "sql": c["what"], "tenant": c["tenant"]}) for c in json.loads(ask({})) if c["call"] == "prepare"]
        calls = [x for _, x in sorted(log, key=lambda x: x[0])]
        after = [[x for x in open(f"{base}/f{i}.slt").read().split("\n") if x.strip()] for i in range(len(files))]
        out.append({"op": "suite", "pwd": wd, "shard": sh, "replica": rp})
        out.append({"op": "suite-end", "files": files, "mode": mode, "fill": fill, "calls": calls, "success": r.returncode == 0, "after": after, "before": before})
        shutil.rmtree(root, ignore_errors=True)
    fl.stdin.close(); fl.wait(10); srv.shutdown()
    return out
