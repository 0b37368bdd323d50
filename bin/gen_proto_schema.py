#!/usr/bin/env python3
"""One-off: write spec/ProtoSchema.json, the wire schema the specification uses, from /repo's .proto files.
The result is committed; checks never run this (a changed .proto or generated file must disagree with it)."""
import re, json, os, sys
R = "/repo/common/protos"
FILES = [("proto/kv_service.proto", "kv_service"), ("proto/raft_service.proto", "raft_service"), ("proto/logproto.proto", "logproto"),
         ("proto/jaeger_api_v2.proto", "jaeger_api_v2"), ("proto/jaeger_storage_v1.proto", "jaeger_storage_v1"), ("proto/otlp_common.proto", "common"),
         ("proto/otlp_resource.proto", "resource"), ("proto/otlp_trace.proto", "trace"), ("proto/otlp_trace_service.proto", "trace_service"),
         ("prompb/types.proto", "prometheus"), ("prompb/remote.proto", "prometheus")]
SCAL = "double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes".split()
snake = lambda n: re.sub(r"(?<=[a-z0-9])(?=[A-Z])|(?<=[A-Z])(?=[A-Z][a-z])", "_", n).lower()
camel = lambda n: "".join(p[:1].upper() + p[1:] for p in n.split("_"))
KW = {"type": "type", "ref": "ref"}
msgs, enums, raw = {}, {}, []
def toks(t):
    t = re.sub(r"//[^\n]*", "", t); t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    return re.findall(r'"[^"]*"|[\w.]+|[{}=;\[\],<>()\-]', t)
def parse(path, mod):
    t = toks(open(f"{R}/{path}").read()); i = 0; pkg = ""
    def block(scope):
        nonlocal i
        # inside { } of a message
        fields, of = [], ""
        while t[i] != "}":
            if t[i] == ";": i += 1
            elif t[i] == "message": n = t[i+1]; i += 2; assert t[i] == "{"; i += 1; block(scope + [n])
            elif t[i] == "enum": enum(scope)
            elif t[i] == "oneof":
                of = t[i+1]; i += 3
                while t[i] != "}": fields.append(field("one", of))
                i += 1
            elif t[i] in ("reserved", "option"):
                while t[i] != ";": i += 1
                i += 1
            elif t[i] in ("optional", "repeated"): lab = {"optional": "opt", "repeated": "rep"}[t[i]]; i += 1; fields.append(field(lab, ""))
            elif t[i] == "map":
                while t[i] != ";": i += 1
                i += 1; fields.append(None)
            else: fields.append(field("one", ""))
        i += 1
        raw.append((mod, pkg, scope, fields))
    def field(lab, of):
        nonlocal i
        ty, n, num = t[i], t[i+1], int(t[i+3]); i += 4
        while t[i] != ";": i += 1
        i += 1
        return dict(n=num, name=n, ty=ty, lab=lab, of=of)
    def enum(scope):
        nonlocal i
        n = t[i+1]; i += 3; vs = []
        while t[i] != "}":
            if t[i] in ("option", "reserved"):
                while t[i] != ";": i += 1
                i += 1; continue
            vs.append((t[i], int(t[i+2], 0))); i += 3
            while t[i] != ";": i += 1
            i += 1
        i += 1
        nm = n
        out = []
        for v, k in vs:
            c = camel(v.lower())
            out.append([k, c[len(nm):] if all(camel(w.lower()).startswith(nm) for w, _ in vs) else c])
        enums["::".join([mod] + [snake(s) for s in scope] + [n])] = (out, pkg, scope, n)
    while i < len(t):
        if t[i] == "package": pkg = t[i+1]; i += 3
        elif t[i] == "message": n = t[i+1]; i += 3; block([n])
        elif t[i] == "enum": enum([])
        elif t[i] == "service":
            d = 0
            while True:
                if t[i] == "{": d += 1
                if t[i] == "}":
                    d -= 1
                    if d == 0: break
                i += 1
            i += 1
        else: i += 1
for p, m in FILES: parse(p, m)
path = lambda mod, scope: "::".join([mod] + [snake(s) for s in scope[:-1]] + [scope[-1]])
full = {}
for mod, pkg, scope, f in raw: full[pkg + "." + ".".join(scope)] = ("msg", path(mod, scope))
for e, (out, pkg, scope, n) in enums.items(): full[pkg + "." + ".".join(scope + [n])] = ("enum", e)
def resolve(ty, pkg, scope):
    base = (pkg.split(".") + scope)
    for k in range(len(base), -1, -1):
        q = ".".join(base[:k] + [ty])
        if q in full: return full[q]
    raise Exception((ty, pkg, scope))
bad = {path(m, s) for m, p, s, f in raw if None in f}
for mod, pkg, scope, fs in raw:
    out = []
    if None in fs: continue
    for f in fs:
        if f["ty"] in SCAL: k, t = f["ty"], ""
        else: k, t = resolve(f["ty"], pkg, scope)
        if t in bad: bad.add(path(mod, scope))
        out.append(dict(n=f["n"], name=snake(f["name"]), k=k, t=t, lab=("opt" if k == "msg" and f["lab"] == "one" and not f["of"] else f["lab"]),
                        of=snake(f["of"]), var=camel(f["name"]) if f["of"] else ""))
    out.sort(key=lambda x: x["n"])
    msgs[path(mod, scope)] = out
msgs = {k: v for k, v in msgs.items() if k not in bad}
S = {"msgs": [{"name": k, "short": k.split("::")[-1], "fields": v} for k, v in msgs.items()],
     "enums": [{"name": k, "vals": [{"v": a, "name": b} for a, b in v[0]]} for k, v in enums.items()]}
json.dump(S, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../spec/ProtoSchema.json"), "w"), indent=0)
print(len(msgs), len(enums), bad)
