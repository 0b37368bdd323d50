"""C32 logs and span files: Observe specification vs the trace crate's set-up, one process per run."""
import os
TEXTS = ["off", "error", "warn", "info", "debug", "trace", "OFF", "INFO", "Debug", "TRACE", "0", "1", "2", "3", "4", "5", "", "nonsense", "6", "warning", " info"]
LEVELS = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"]
TARGETS = ["client", "config", "coordinator", "e2e_test", "error_code", "macros", "http_protocol", "limiter_bucket", "lru_cache", "cnosdb", "memory_pool", "meta", "metrics", "models",
           "protos", "protocol_parser", "query", "spi", "sqllogicaltests", "test", "trace", "tskv", "utils", "replication", "datafusion", "arrow", "actix_web::middleware::logger",
           "actix_web::middleware", "tokio", "runtime", "h2::codec", "hyper", "tskv::wal::writer", "cnosdb_meta::store", "metrics2", "openraft", "query::dispatcher", "datafusion_optimizer", "Tskv", "ts", "tokio::task", "reqwest"]
def run(ctx):
    rng = ctx.rng
    b = ctx.build("h_log")
    es = ctx.edges("ObserveMC.tla", "ObserveMC.cfg")
    paths, total = ctx.cover(es, limit=60 if ctx.quick else 1500)
    ctx.notes["edges"] = total
    sc = [{"op": "known"}]
    def run_of(steps, pre=(), prelog="", pretrace=None, mx=()):
        first = next((s for s in steps if s["do"] in ("init", "preset")), None)
        steps = list(steps)
        if first: steps += [{"do": "log", "target": "actix_web::middleware::logger", "level": "WARN", "msg": "END"}, {"do": "settle", "msg": "END"}]
        subs = [(x, y) for x in ("a", "b", "c") for y in ("f", "g", "cnos.log")]
        mine = (first["sub"], first["file"]) if first else ("a", "f")
        traces = ["a", "b", "t"]
        pt = [dict(pretrace or {}).get(x, "") for x in traces]
        # a directory the tracing file goes to has to be there
        pre = list(pre) + [[f"{x}/keep", ""] for x in traces] + [[f"{x}/trace.log", c] for x, c in (pretrace or {}).items()]
        return {"op": "run", "steps": steps, "pre": pre, "prelog": prelog, "sub": mine[0], "file": mine[1], "prefix": mine[1], "others": [list(x) for x in subs if x != mine], "traces": traces, "pretrace": pt, "max": list(mx)}
    for p in paths:
        out, paths_set = [], False
        for s in p: out.append({k: v for k, v in s.items() if k != "op"})
        sc.append(run_of(out))
    def logs(n): return [{"do": "log", "target": rng.choice(TARGETS), "level": rng.choice(LEVELS), "msg": f"m{i}"} for i in range(n)]
    # every target at every level, for every way to spell a level
    for t in TEXTS:
        every = [{"do": "log", "target": x, "level": l, "msg": f"{x}.{l}"} for x in TARGETS for l in LEVELS]
        rng.shuffle(every)
        sc.append(run_of([{"do": "init", "level": t, "sub": "a", "file": "cnos.log", "rotation": "never", "max": []}] + every))
    for r in ["daily", "hourly", "minutely", "never", "weekly", "", "Daily", "NEVER"]:
        # a minute may turn between the first and the last line of a minutely log, never the content
        sc.append(run_of([{"do": "init", "level": "info", "sub": "b", "file": "f", "rotation": r, "max": []}] + logs(12)))
    for i in range(12 if ctx.quick else 200):
        k = rng.choice(["init", "preset"])
        st = logs(rng.randint(0, 4))
        a = {"do": k, "level": rng.choice(TEXTS), "sub": rng.choice("ab"), "file": rng.choice("fg")}
        if k == "init": a.update(rotation=rng.choice(["never", "never", "daily", "hourly"]), max=[])
        pre, prelog = [], ""
        if k == "init" and a["rotation"] == "never" and rng.random() < .6: prelog = "old line"; pre = [[f"{a['sub']}/{a['file']}", "old line\n"]]
        st += [a] + logs(rng.randint(0, 25))
        if rng.random() < .4: st += [{"do": "init", "level": rng.choice(TEXTS), "sub": "c", "file": "f", "rotation": "never", "max": []}] + logs(6)
        sc.append(run_of(st, pre, prelog))
    for i in range(25 if ctx.quick else 400):
        st, cur = [], None
        prt = {x: "earlier\n" for x in ("a", "b") if rng.random() < .4}
        for j in range(rng.randint(2, 9)):
            o = rng.choice(["span", "span", "span", "flush", "tracing"])
            if o == "tracing":
                p = rng.choice([[], ["a"], ["b"], ["t"]])
                if p: st.append({"do": "flush"}); cur = p
                st.append({"do": "tracing", "path": p})
            elif o == "flush": st.append({"do": "flush"})
            elif cur: st.append({"do": "span", "name": f"sp{j}", "trace": rng.randint(1, 90000), "kids": rng.randint(0, 9)})
        if rng.random() < .85: st.append({"do": "flush"})
        sc.append(run_of(st, pretrace=prt))
    for i in range(100 if ctx.quick else 5000):
        sc.append({"op": "filter", "level": rng.choice(["off", "error", "warn", "info", "debug", "trace"]), "tokio": rng.random() < .5, "target": rng.choice(TARGETS + ["", "x", "tokio_util", "runtime.spawn"]), "at": rng.choice(LEVELS)})
    # old files go once a rotation finds more than are wanted
    for m in (1, 2, 3):
        old = [[f"a/f.2020-01-0{d}-00-00", "old\n"] for d in range(1, 6)]
        a = {"do": "init", "level": "info", "sub": "a", "file": "f", "rotation": "minutely", "max": [m]}
        sc.insert(1, run_of([a, {"do": "log", "target": "tskv", "level": "INFO", "msg": "x"}, {"do": "minute"}, {"do": "log", "target": "tskv", "level": "INFO", "msg": "y"}], old, mx=[m]))
    # the three slow runs each get a process of their own; the rest is dealt out
    slow, rest = sc[1:4], sc[:1] + sc[4:]
    n = max(1, len(rest) // 5)
    jobs = [slow[:1], slow[1:2], slow[2:]] + [rest[i:i + n] for i in range(0, len(rest), n)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        ts = list(ex.map(lambda j: ctx.run_harness(b, [f"{ctx.dir}/scratch{j[0]}"], j[1], f"observe{j[0]}"), enumerate(jobs)))
    for i, t in enumerate(ts): ctx.validate("ObserveTrace.tla", "ObserveTrace.cfg", t, resets=("run", "filter", "known"), chunk=2000, title=f"observe{i}")
