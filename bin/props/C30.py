"""C30 messages: ProtoWire.tla (protobuf wire format over a frozen schema of all 94 messages), Protos.tla (flatbuffer points read
byte by byte, accessor answers, call outcomes).  Generated encodings - fields in any order, repeated singular and oneof fields,
packed and unpacked, unknown fields, cut short, wrong wire types, broken UTF-8 - are decoded by the real types and what they
saw and wrote back is validated against Dec/Tree/Enc; points with every part present or absent go through the real builders
and accessors; calls with sizes at, below and above the bound, late and failing servers and gzip go through the real clients."""
import json, os, struct
import vlib
S = json.load(open(os.path.join(vlib.SPEC, "ProtoSchema.json")))
M = {m["name"]: m["fields"] for m in S["msgs"]}
EN = {e["name"]: [v["v"] for v in e["vals"]] for e in S["enums"]}
VAR = {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "enum"}
W = lambda k: 0 if k in VAR else 1 if k in ("double", "fixed64", "sfixed64") else 5 if k in ("float", "fixed32", "sfixed32") else 2
FL = [0.0, 0.5, -1.25, 100.0, float("inf")]
INTS = [0, 1, 2, 127, 128, 255, 300, 2**31 - 1, 2**31, 2**32 - 1, 2**32 + 5, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 7]
STR = ["", "a", "tenant", "é", "x y", "日本", "0" * 130, "cnosdb.public"]
def vi(n):
    o = []
    while True:
        b = n & 127; n >>= 7
        if n: o.append(b | 128)
        else: return o + [b]
def scal(r, f):
    k = f["k"]
    if k == "bool": return vi(r.choice([0, 1, 1, 2]))
    if k == "enum": return vi(r.choice(EN[f["t"]] + EN[f["t"]] + [77]))
    if k in VAR: return vi(r.choice(INTS))
    if k == "double": return list(struct.pack("<d", r.choice(FL)))
    if W(k) == 1: return [r.choice([0, 0, 1, 200, 255]) for _ in range(8)]
    if W(k) == 5: return [r.choice([0, 0, 1, 200, 255]) for _ in range(4)]
    raise Exception(k)
def ld(b): return vi(len(b)) + b
def occ(r, f, depth):
    k, n = f["k"], f["n"]
    if k == "msg": return vi(n * 8 + 2) + ld(msg(r, f["t"], depth + 1))
    if k == "string": return vi(n * 8 + 2) + ld(list(r.choice(STR).encode()))
    if k == "bytes": return vi(n * 8 + 2) + ld([r.randrange(256) for _ in range(r.choice([0, 1, 3, 17]))])
    if f["lab"] == "rep" and r.random() < .6: return vi(n * 8 + 2) + ld(sum((scal(r, f) for _ in range(r.randrange(4))), []))
    return vi(n * 8 + W(k)) + scal(r, f)
def msg(r, ty, depth=0, dense=.6):
    fs = [f for f in M[ty] if not (depth > 3 and f["k"] == "msg")]
    out = []
    for f in fs:
        p = dense if depth == 0 else .45
        while r.random() < p:
            out.append(occ(r, f, depth)); p = .45 if f["lab"] == "rep" else .12
    if r.random() < .3: r.shuffle(out)
    if r.random() < .15: out.insert(r.randrange(len(out) + 1), r.choice([vi(900 * 8) + vi(5), vi(901 * 8 + 2) + ld([1, 2]), vi(902 * 8 + 1) + [1] * 8, vi(903 * 8 + 5) + [9] * 4]))
    return sum(out, [])
def harm(r, b, ty):
    b = list(b); k = r.randrange(6)
    if k == 0 and b: return b[:r.randrange(len(b))]
    if k == 1: return b + [r.choice([0, 7, 6, 4])]                      # key with number 0 or an unknown wire type
    if k == 2 and M[ty]: f = r.choice(M[ty]); w = r.choice([0, 1, 5]); return b + vi(f["n"] * 8 + w) + ([0] * (8 if w == 1 else 4 if w == 5 else 1))
    if k == 3: return b + vi(950 * 8) + [255] * 9 + [r.choice([1, 2, 127])]
    if k == 4:
        f = [x for x in M[ty] if x["k"] == "string"]
        if f: return b + vi(r.choice(f)["n"] * 8 + 2) + ld(r.choice([[255], [192, 128], [237, 160, 128], [97, 226, 130], [244, 144, 128, 128]]))
    return b + vi(951 * 8 + 2) + vi(r.choice([200, 2**31, 2**40])) + [1]
def grouped(b):
    """wire types 3 and 4 (groups) are outside the specification's reading"""
    return False
def be8(x): return list(struct.pack(">Q", x % 2**64))
def fval(r, t):
    if t == "s": v = r.choice(["a", "b0", "x_y", "tab"]); return list(v.encode()), v
    if t == "b": v = r.randrange(2); return [v], v
    if t == "f": v = list(struct.pack(">d", r.choice([0.5, -1.25, 0.0, 1e300]))); return v, v
    v = be8(r.choice(INTS)); return v, v
def points(r, n):
    nm = ["a", "b", "c", "d", "x", "y", "z", "a0", "b1", "x_1"]; r.shuffle(nm)
    nt, nf = r.randrange(4), r.randrange(5)
    fs, want = [], []
    for k in nm[nt:nt + nf]:
        t = r.choice("fiubs"); vs = [fval(r, t) for _ in range(n)]
        fs.append([k, t, [v[0] for v in vs]]); want.append([v[1] for v in vs])
    want = [w if f[1] != "s" else w for f, w in zip(fs, want)]
    return {"op": "points", "db": r.choice(["db", "d0", "x"]).replace("db", "d_b"), "tab": r.choice(["tab", "t0", "cx"]), "tags": [[k, [r.choice(["a", "b", "x_y", ""]) for _ in range(n)]] for k in nm[:nt]],
            "fields": fs, "want": want, "time": [be8(r.choice(INTS)) for _ in range(n)]}
def raw(r, full):
    o = lambda v, p=.75: [v()] if r.random() < (1.1 if full else p) else []
    def vals():
        n = r.randrange(4)
        return {"i": o(lambda: [be8(r.choice(INTS)) for _ in range(n)], .5), "u": o(lambda: [be8(r.choice(INTS)) for _ in range(n)], .5), "f": o(lambda: [be8(0x3ff0000000000000 + i) for i in range(n)], .5),
                "b": o(lambda: [r.randrange(2) for _ in range(n)], .5), "s": o(lambda: [r.choice(["a", "", "x_y"]) for _ in range(n)], .5)}
    def col(): return {"name": o(lambda: r.choice(["a", "b", "time"])), "ct": r.choice([-1, 0, 1, 2]), "ft": r.choice([-1, 0, 1, 2, 3, 4]), "vals": o(vals), "nb": o(lambda: [r.randrange(256) for _ in range(r.randrange(3))])}
    def tab(): return {"tab": o(lambda: r.choice(["t0", "tab"])), "rows": r.choice([0, 1, 70000]), "cols": o(lambda: [col() for _ in range(r.randrange(3))])}
    return {"op": "raw", "db": o(lambda: "d0"), "tables": o(lambda: [tab() for _ in range(r.randrange(3))])}
def reqlen(m, n):
    F = lambda n: 0 if n == 0 else 1 + len(vi(n)) + n
    return 2 + F(n) if m in ("raft_vote", "raft_snapshot", "raft_append") else 1 + len(vi(F(n))) + F(n) if m == "raft_write" else F(n)
def calls(r, quick):
    ms, out = ["ping", "raft_write", "admin", "download", "query", "raft_vote", "raft_snapshot", "raft_append"], []
    base = dict(op="call", gzip=False, max=4000, timeout=20000, delay=0, fail=False, req=10, resp=10)
    for m in ms:
        n = next(n for n in range(4000, 0, -1) if reqlen(m, n) <= 4000)
        k = 4000 - 5
        out += [dict(base, method=m), dict(base, method=m, req=0, resp=0), dict(base, method=m, req=n), dict(base, method=m, req=n + 1), dict(base, method=m, resp=k), dict(base, method=m, resp=k + 1), dict(base, method=m, fail=True),
                dict(base, method=m, gzip=True), dict(base, method=m, gzip=True, req=3000, resp=3000), dict(base, method=m, gzip=True, req=6200, resp=6200), dict(base, method=m, gzip=True, req=7200), dict(base, method=m, gzip=True, resp=7200),
                dict(base, method=m, max=100 << 20, req=6 << 20, resp=6 << 20) if m in ("raft_write", "raft_append") else dict(base, method=m, max=60),
                dict(base, method=m, timeout=120, delay=2500)]
    return out
RPC = {"Ping": ("kv_service::PingRequest", "kv_service::PingResponse", 0), "DownloadFile": ("kv_service::DownloadFileRequest", "kv_service::BatchBytesResponse", 1),
       "TagScan": ("kv_service::QueryRecordBatchRequest", "kv_service::BatchBytesResponse", 1), "QueryRecordBatch": ("kv_service::QueryRecordBatchRequest", "kv_service::BatchBytesResponse", 1),
       "RaftWrite": ("kv_service::RaftWriteCommand", "kv_service::BatchBytesResponse", 0), "AdminRequest": ("kv_service::AdminCommand", "kv_service::BatchBytesResponse", 0),
       "RaftVote": ("raft_service::RaftVoteReq", "raft_service::RaftResponse", 0), "RaftSnapshot": ("raft_service::RaftSnapshotReq", "raft_service::RaftResponse", 0),
       "RaftAppendEntries": ("raft_service::RaftAppendEntriesReq", "raft_service::RaftResponse", 0), "Export": ("trace_service::ExportTraceServiceRequest", "trace_service::ExportTraceServiceResponse", 0)}
for _m, _q, _r, _s in [("WriteSpan", "WriteSpanRequest", "WriteSpanResponse", 0), ("Close", "CloseWriterRequest", "CloseWriterResponse", 0), ("WriteSpanStream", "WriteSpanRequest", "WriteSpanResponse", 2), ("GetTrace", "GetTraceRequest", "SpansResponseChunk", 1),
                   ("GetServices", "GetServicesRequest", "GetServicesResponse", 0), ("GetOperations", "GetOperationsRequest", "GetOperationsResponse", 0), ("FindTraces", "FindTracesRequest", "SpansResponseChunk", 1), ("FindTraceIDs", "FindTraceIDsRequest", "FindTraceIDsResponse", 0),
                   ("WriteArchiveSpan", "WriteSpanRequest", "WriteSpanResponse", 0), ("GetArchiveTrace", "GetTraceRequest", "SpansResponseChunk", 1), ("GetDependencies", "GetDependenciesRequest", "GetDependenciesResponse", 0), ("Capabilities", "CapabilitiesRequest", "CapabilitiesResponse", 0)]:
    RPC[_m] = ("jaeger_storage_v1::" + _q, "jaeger_storage_v1::" + _r, _s)
UNMSG = {"jaeger_storage_v1::TraceQueryParameters", "jaeger_storage_v1::FindTracesRequest", "jaeger_storage_v1::FindTraceIDsRequest"}   # carry a map: only sent through the remote calls, without it
def small(r, t):
    while True:
        b = msg(r, t, 1)
        if len(b) < 1200: return b
def rpcs(r, n):
    out = []
    for m, (q, a, st) in RPC.items():
        for i in range(n):
            out.append({"op": "rpc", "m": m, "in": [small(r, q) for _ in range(r.randrange(4) if st == 2 else 1)], "reply": [small(r, a) for _ in range(i % 4 if st == 1 else 1)], "fail": i % 5 == 4})
    return out
def enums():
    W = sorted({v["text"] for e in S["enums"] for v in e["vals"]} | {v["name"] for e in S["enums"] for v in e["vals"]} | {"", "unknown", "GAUGE ", "0"})
    return [{"op": "enum", "ty": e["name"], "ns": list(range(-2, 20)) + [127, 128, 254, 255, 256, 257, 511, 512, 513, 2**31 - 1, -2**31], "ws": W} for e in S["enums"]]
def run(ctx):
    ctx.check_spec("ProtosMC.tla", "ProtosMC.cfg", workers=6)
    r, h = ctx.rng, ctx.build("h_protos")
    ev = []
    hot = [t for t in M if t.startswith(("kv_service", "raft_service"))] + ["prometheus::WriteRequest", "trace_service::ExportTraceServiceRequest", "logproto::PushRequest", "trace::Span", "prometheus::Histogram", "jaeger_api_v2::Span"]
    for t in sorted(set(M) - UNMSG, key=list(M).index):
        for i in range(12 if ctx.quick else 60): ev.append((t, msg(r, t, dense=[.95, .6, .3, 0][i % 4])))
        for i in range(5 if ctx.quick else 30): ev.append((t, harm(r, msg(r, t, 2), t)))
    for t in hot * (2 if ctx.quick else 20):
        ev.append((t, msg(r, t))); ev.append((t, harm(r, msg(r, t), t)))
    script = [{"op": "msg", "ty": t, "in": b, "via": r.choice(["decode", "helper", "bincode"])} for t, b in ev if len(b) < 1500]
    r.shuffle(script)
    ctx.validate("ProtosTrace.tla", "ProtosTrace.cfg", ctx.run_harness(h, [], script, "msgs"), chunk=350, resets=("msg",), title="messages")
    sp = [points(r, n) for n in ([0, 1, 2, 3, 7, 8, 9, 16, 17] * (3 if ctx.quick else 30))] + [raw(r, i % 5 == 0) for i in range(150 if ctx.quick else 3000)]
    ctx.validate("ProtosTrace.tla", "ProtosTrace.cfg", ctx.run_harness(h, [], sp, "points"), chunk=60, resets=("points", "raw"), title="points")
    sc = calls(r, ctx.quick) + [{"op": "ping", "to": t, "fail": f, "delay": d, "resp": 3} for t, f, d in [("live", False, 0), ("live", True, 0), ("closed", False, 0), ("bad", False, 0), ("live", False, 700), ("live", False, 4500)]]
    ctx.validate("ProtosTrace.tla", "ProtosTrace.cfg", ctx.run_harness(h, [], sc, "calls"), chunk=400, resets=("call", "ping"), title="calls")
    sr = rpcs(r, 6 if ctx.quick else 60) + enums()
    ctx.validate("ProtosTrace.tla", "ProtosTrace.cfg", ctx.run_harness(h, [], sr, "rpcs"), chunk=60, resets=("rpc", "enum"), title="rpcs")
    ctx.evidence(remote_calls=len(sr), messages=len(M), encodings=len(script), point_sets=len(sp), calls=len(sc))
