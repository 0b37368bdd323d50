"""C21 configuration: Config specification vs the config crate."""
import json, re
from big import nat
T = {}
def table():
    """key -> type, read from the specification's own tables"""
    import os
    from vlib import SPEC
    txt = open(os.path.join(SPEC, "Config.tla")).read()
    out = {}
    for kind, name in (("data", "DataTable"), ("meta", "MetaTable")):
        body = txt[txt.index(name + " == ["):]; body = body[:body.index("\n]\n")]
        d, sec = {}, None
        for m in re.finditer(r'(\w+) \|-> (\[|T\("(\w+)")', body):
            if m.group(2) == "[": sec = m.group(1)
            else: d[f"{sec}.{m.group(1)}"] = m.group(3)
        for k in (["security.tls_config.certificate", "security.tls_config.private_key"] if kind == "data" else []) + ["log.tokio_trace.addr"]: d[k] = "ostr"
        out[kind] = d
    return out
STRS = ["", "/a b/c", "x", "zstd", "snappy", "null", "gzip", "none", "query", "tskv", "singleton", "q\"uote", "tab\tx", "é"]
def val(rng, t, valid=True):
    if not valid:
        bad = {"u64": [{"t": "str", "s": "many"}, {"t": "neg"}, {"t": "bool", "b": True}], "u32": [{"t": "nat", "n": nat(1 << 32)}, {"t": "neg"}],
               "u16": [{"t": "nat", "n": nat(65536)}, {"t": "str", "s": "x"}], "ou64": [{"t": "str", "s": "x"}], "ou16": [{"t": "nat", "n": nat(70000)}],
               "bool": [{"t": "str", "s": "yes"}, {"t": "nat", "n": nat(1)}], "str": [{"t": "bool", "b": True}, {"t": "strs", "l": ["a"]}],
               "ostr": [{"t": "bool", "b": False}], "strs": [{"t": "str", "s": "127.0.0.1:1"}, {"t": "bool", "b": True}],
               "bytes": [{"t": "text", "s": "lots"}, {"t": "nat", "n": nat(5)}, {"t": "bytes", "n": nat(1 << 40), "u": "tib"}, {"t": "text", "s": "12q"}, {"t": "text", "s": "-3K"}],
               "dur": [{"t": "text", "s": "soon"}, {"t": "nat", "n": nat(5)}, {"t": "text", "s": "5 parsecs"}, {"t": "text", "s": "3"}]}
        return rng.choice(bad[t])
    if t in ("u64", "ou64"): return {"t": "nat", "n": nat(rng.choice([0, 1, 15, 16, 17, 1024, 1025, 4, rng.randrange(1 << 40), (1 << 63) - 1]))}
    if t == "u32": return {"t": "nat", "n": nat(rng.choice([0, 15, 16, 17, (1 << 32) - 1, rng.randrange(1 << 32)]))}
    if t in ("u16", "ou16"): return {"t": "nat", "n": nat(rng.choice([0, 1, 3, 4, 5, 65535, rng.randrange(65536)]))}
    if t == "bool": return {"t": "bool", "b": rng.random() < .5}
    if t in ("str", "ostr"): return {"t": "str", "s": rng.choice(STRS)}
    if t == "strs": return {"t": "strs", "l": [rng.choice(["127.0.0.1:8901", "127.0.0.1", "127.0.0.1:99999", "0.0.0.0:1", "127.0.0.1:x"]) for _ in range(rng.randint(0, 3))]}
    if t == "bytes":
        u = rng.choice(["", "b", "k", "kb", "ki", "kib", "m", "mb", "mi", "mib", "g", "gib", "gb", "ti", "tib", "tb", "t"])
        return {"t": "bytes", "n": nat(rng.choice([0, 1, 63, 64, 1023, 1024, 1025, rng.randrange(1 << 20)]) if u not in ("", "b") else rng.choice([0, 63, 64, 1023, 1024, 1048575, 1048576, rng.randrange(1 << rng.randint(1, 62))])), "u": u}
    if t == "dur":
        us = ["days", "h", "m", "s", "ms", "us", "ns"]
        k = sorted(rng.sample(range(7), rng.randint(1, 3)))
        return {"t": "dur", "parts": [[nat(rng.choice([0, 1, 9, 10, 11, rng.randrange(1000)])), {"days": rng.choice(["d", "day", "days"]), "h": rng.choice(["h", "hr", "hours"]), "m": rng.choice(["m", "min", "minutes"]), "s": rng.choice(["s", "sec", "seconds"]), "ms": rng.choice(["ms", "msec", "millis"]), "us": rng.choice(["us", "usec"]), "ns": rng.choice(["ns", "nsec"])}[us[i]]] for i in k]}
def hosts(rng, k, v):
    """never a name a resolver could be asked about"""
    if k == "global.host" and v["t"] == "str": v = {"t": "str", "s": rng.choice(["127.0.0.1", "0.0.0.0", "no such host", ""])}
    return k, v
def num(n): return sum(d * 10000 ** i for i, d in enumerate(n))
def toml(v, rng):
    t = v["t"]
    if t == "nat": return str(num(v["n"]))
    if t == "neg": return "-3"
    if t == "bool": return "true" if v["b"] else "false"
    if t in ("str", "text"): return json.dumps(v["s"])
    if t == "strs": return json.dumps(v["l"])
    if t == "bytes":
        d = str(num(v["n"]))
        if len(d) > 3 and rng.random() < .3: d = d[:-3] + "_" + d[-3:]
        u = "".join(rng.choice([c, c.upper()]) for c in v["u"])
        return json.dumps(d + rng.choice(["", " "]) + u if u else d)
    if t == "dur": return json.dumps(" ".join(f"{num(n)}{u}" for n, u in v["parts"]))
def envtext(v, rng):
    if v["t"] == "dur": return " ".join(f"{num(n)}{u}" for n, u in v["parts"])
    return toml(v, rng)      # figment reads quoted text, numbers, booleans and arrays
def op(rng, kind, frm, file, env, types):
    file, env = [hosts(rng, *x) for x in file], [hosts(rng, *x) for x in env]
    secs = {}
    for k, v in file:
        s, f = k.rsplit(".", 1); secs.setdefault(s, []).append((f, v))
    text = "\n".join(f"[{s}]\n" + "".join(f"{f} = {toml(v, rng)}\n" for f, v in fs) for s, fs in secs.items())
    pre = "CNOSDB_" if kind == "data" else "CNOSDB_META_"
    return {"op": "load", "kind": kind, "from": frm, "file": [list(x) for x in file], "env": [list(x) for x in env], "text": text,
            "envtext": [[pre + k.upper().replace(".", "_"), envtext(v, rng)] for k, v in env]}
def run(ctx):
    rng = ctx.rng
    b = ctx.build("h_config")
    es = ctx.edges("ConfigMC.tla", "ConfigMC.cfg")
    ctx.notes["edges"] = len(es)
    tab = table()
    sc = []
    for kind in ("data", "meta"):
        pre = "CNOSDB_" if kind == "data" else "CNOSDB_META_"
        sc.append({"op": "keys", "kind": kind, "want": [pre + k.upper().replace(".", "_") for k in tab[kind]]})
    for _, ev, _ in (es if not ctx.quick else rng.sample(es, 500)):
        sc += [op(rng, "data", ev["from"], ev["file"], ev["env"], None), {"op": "check", "show": True}]
    def tail(kind):
        r = [{"op": "rewrite"}]
        if kind == "data": r += [{"op": "check", "show": rng.random() < .8}]
        return r
    for kind in ("data", "meta"):
        ks = list(tab[kind])
        sc += [op(rng, kind, "none", [], [], None)] + tail(kind) + [op(rng, kind, "missing", [], [], None)] + tail(kind)
        for k in ks:                       # every key on its own, from either source, both kinds of value
            for valid in (True, True, False):
                v = lambda: (k, val(rng, tab[kind][k], valid))
                g = (k, val(rng, tab[kind][k]))
                sc += [op(rng, kind, "file", [v()], [], None)] + tail(kind)
                sc += [op(rng, kind, "none", [], [v()], None)] + tail(kind)
                sc += [op(rng, kind, "file", [g], [v()], None)] + tail(kind)
                sc += [op(rng, kind, "file", [v()], [g], None)] + tail(kind)
        for _ in range(120 if ctx.quick else 3000):
            f = rng.sample(ks, rng.choice([1, 3, 8, 20, len(ks)])) ; e = rng.sample(ks, rng.choice([0, 1, 4, 12]))
            pv = lambda: rng.random() < .995
            sc += [op(rng, kind, rng.choice(["file", "file", "file", "none"]), [(k, val(rng, tab[kind][k], pv())) for k in f], [(k, val(rng, tab[kind][k], pv())) for k in e], None)] + tail(kind) + tail(kind)
    # each threshold of the checker at, below and above its bound
    B = {"query.max_server_connections": 16, "query.query_sql_limit": 64, "query.write_sql_limit": 64, "query.stream_trigger_cpu": 1024, "query.stream_executor_cpu": 1024, "storage.max_summary_size": 1024,
         "storage.base_file_size": 1 << 20, "storage.flush_req_channel_cap": 16, "storage.max_level": 4, "storage.max_compact_size": 1 << 20, "wal.wal_req_channel_cap": 16, "cache.max_buffer_size": 1 << 20,
         "cache.partition": 1024, "deployment.cpu": 1, "deployment.memory": 1}
    D = {"query.read_timeout": 10**7, "query.write_timeout": 10**7, "query.sql_record_timeout": 10**9, "storage.compact_trigger_cold_duration": 10**9, "meta.report_time_interval": 1}
    for k, n in B.items():
        for x in (n - 1, n, n + 1):
            v = {"t": "bytes", "n": nat(x), "u": ""} if tab["data"][k] == "bytes" else {"t": "nat", "n": nat(x)}
            sc += [op(rng, "data", "file", [(k, v)], [], None), {"op": "check", "show": True}, {"op": "check", "show": False}]
    for k, n in D.items():
        for x in (n - 1, n, n + 1):
            sc += [op(rng, "data", "file", [(k, {"t": "dur", "parts": [[nat(x), "ns"]]})], [], None), {"op": "check", "show": True}]
    for h in ("127.0.0.1", "no such host", "", "0.0.0.0"):
        for _ in range(4):
            ps = [p for p in ("http", "grpc", "flight_rpc", "tcp") if rng.random() < .5]
            sc += [op(rng, "data", "file", [("global.host", {"t": "str", "s": h})] + [(f"service.{p}_listen_port", {"t": "nat", "n": nat(rng.randint(1, 65535))}) for p in ps], [], None), {"op": "check", "show": True}]
    for k, vs in {"deployment.mode": ["query_tskv", "tskv", "query", "singleton", "Tskv", ""], "wal.compress": ["zstd", "snappy", "gzip", "bzip", "zlib", "null", ""], "storage.tsm_meta_compress": ["zstd", "snappy", "null", "gzip", ""],
                  "security.tls_config.certificate": ["", "a"], "security.tls_config.private_key": ["", "a"], "log.path": ["", "a"], "wal.path": ["", "a"], "storage.path": ["", "a"], "global.cluster_name": ["", "a"]}.items():
        for x in vs: sc += [op(rng, "data", "file", [(k, {"t": "str", "s": x})], [], None), {"op": "check", "show": True}]
    # the command line tool: every shape of command, options in any order and repeated, with and without an environment
    want = {k: sc[i]["want"] for i, k in ((0, "data"), (1, "meta"))}
    def cli(args, kind="data", env=()):
        o = op(rng, kind, "none", [], list(env), None)
        return {"op": "cli", "args": args, "ekind": kind, "env": o["env"], "envtext": o["envtext"], "want": want, "pre": "@F" in args and rng.random() < .5}
    cl = [cli(a) for a in ([], ["-h"], ["--help"], ["-v"], ["--version"], ["-v", "x"], ["version"], ["generate"], ["-x"], [""], ["gen", "data"], ["gen", "-x"], ["gen", "-t"], ["gen", "-o"], ["gen", "-t", "all"], ["gen", "-t", "Data"], ["gen", "-t", "", "-h"],
                           ["gen", "-o", "@F", "-t"], ["gen", "-t", "meta", "-t"], ["gen", "-o", "@F", "-o"], ["-h", "gen"], ["gen", "-h", "-x"], ["gen", "-o", "@D", "-h"], ["gen", "--output", "@D"])]
    for _ in range(60 if ctx.quick else 800):
        kind = rng.choice(["data", "meta"]); a = ["gen"]
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            a += rng.choice([[rng.choice(["-t", "--type"]), rng.choice(["data", "meta", kind, kind])], [rng.choice(["-o", "--output"]), rng.choice(["@F", "@F", "@F", "stdout", "@D"])], [rng.choice(["-h", "--help"])] if rng.random() < .3 else []])
        cl += [cli(a, kind, [(k, val(rng, tab[kind][k], rng.random() < .97)) for k in rng.sample(list(tab[kind]), rng.choice([0, 0, 1, 3, 8]))])]
    sc += cl + [{"op": "version"}]
    ctx.evidence(commands=len(cl))
    t = ctx.run_harness(b, [], sc, "config")
    ctx.validate("ConfigTrace.tla", "ConfigTrace.cfg", t, resets=("load", "keys", "cli", "version"), chunk=600, title="config")
