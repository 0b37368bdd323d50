#!/usr/bin/env python3
"""Lay out /verif/.work/ws: a cargo workspace holding the crates of /repo the
harnesses exercise, compiled from /repo's current sources.

Every .rs/.proto/.toml file under a staged crate's src/ (and the few other
inputs listed below) is copied from /repo when its *content* differs, so cargo's
mtime freshness always sees a change.  Manifests are derived from /repo's:
dev-dependencies, benches and bins are dropped, and third-party crates that are
not in the offline cargo cache are replaced by the shim crates of
/verif/shims (see DESIGN.md, "Slice workspace").  A staged crate may get one
extra module, `verif_hooks`, from /verif/harness/hooks/<crate>.rs, which gives the
harness in-crate access without any change in /repo.
"""
import os, sys, shutil, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
WS = os.path.join(WORK, "ws")
SHIMS = os.path.join(VERIF, "shims")
HARNESS = os.path.join(VERIF, "harness")

# crate dir -> options
CRATES = {
    "common/cache": {}, "common/derive_macros": {}, "common/derive_traits": {},
    "common/http_protocol": {}, "common/limiter_bucket": {}, "common/metrics": {},
    "common/protos": {}, "common/trace": {}, "common/utils": {}, "common/version": {},
    "config": {}, "common/models": {}, "common/memory_pool": {},
    "common/protocol_parser": {},
    # the HTTP admin routes (warp) and the sample key-value server are not staged
    "replication": {"drop": ["actix-web", "serial_test", "clap", "tracing-subscriber", "tempfile"],
                    "lib_subst": [("pub mod network_http;", "")],
                    "subst": [("src/node_store.rs", "\nmod test {", "\n#[cfg(test)]\nmod test {")]},
    "meta": {"drop": ["pprof", "clap", "ctrlc", "tower"], "lib_subst": [("pub mod service;", ""), ("pub mod signal;", "")]},
    "tskv": {}, "coordinator": {},
    # a binary crate: staged as a library; its private parts get read-only views
    "query_server/sqllogicaltests": {"bin_as_lib": True, "append": {
        "src/db_request.rs": "\npub fn verif_view(r: &CnosdbRequest) -> (&Protocol, &RequestBody) { (&r.protocol, &r.body) }\n",
        "src/instance.rs": "\npub fn verif_rewrite(shard: u32, replica: u32, sql: &str) -> String { CreateDatabaseOptions { replica, shard }.rewrite(sql) }\n"}},

}
# crate features that need a nightly compiler and carry no behaviour
DROP_FEATURES = {"parking_lot": {"nightly", "hardware-lock-elision"}}
EXTRA_FILES = {}

def read(p):
    with open(p, "rb") as f:
        return f.read()

def write(p, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.islink(p):
        os.unlink(p)
    if os.path.exists(p) and read(p) == data:
        return False
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return True

def tv(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, list):
        return "[" + ", ".join(tv(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{tk(k)} = {tv(x)}" for k, x in v.items()) + " }"
    raise TypeError(v)

def tk(k):
    return k if k.replace("-", "").replace("_", "").isalnum() else tv(k)

def dump(d):
    out = []
    def sect(prefix, t):
        scal = {k: v for k, v in t.items() if not isinstance(v, dict) or prefix.split(".")[-1].endswith("dependencies")}
        sub = {k: v for k, v in t.items() if k not in scal}
        if scal or not sub:
            if prefix:
                out.append(f"[{prefix}]")
            for k, v in scal.items():
                out.append(f"{tk(k)} = {tv(v)}")
            out.append("")
        for k, v in sub.items():
            sect((prefix + "." if prefix else "") + tk(k), v)
    for k, v in d.items():
        if isinstance(v, dict):
            sect(tk(k), v)
        elif isinstance(v, list):
            for e in v:
                out.append(f"[[{k}]]")
                for kk, vv in e.items():
                    out.append(f"{tk(kk)} = {tv(vv)}")
                out.append("")
    return "\n".join(out) + "\n"

def shims():
    """crate name -> directory, for every shim present"""
    r = {}
    for d in sorted(os.listdir(SHIMS)) if os.path.isdir(SHIMS) else []:
        m = os.path.join(SHIMS, d, "Cargo.toml")
        if os.path.exists(m):
            r[tomllib.loads(read(m).decode())["package"]["name"]] = os.path.join(SHIMS, d)
    return r

def mirror(src, dst, keep=(), xf=None):
    names = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        rel = os.path.relpath(root, src)
        for f in files:
            names.add(os.path.normpath(os.path.join(rel, f)))
            if os.path.normpath(os.path.join(rel, f)) in keep:
                continue
            data = read(os.path.join(root, f))
            if xf:
                data = xf(os.path.normpath(os.path.join(rel, f)), data)
            write(os.path.join(dst, rel, f), data)
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for f in files:
            n = os.path.normpath(os.path.join(rel, f))
            if n not in names and n not in keep:
                os.unlink(os.path.join(root, f))

def member_manifest(path, opts):
    m = tomllib.loads(read(f"{REPO}/{path}/Cargo.toml").decode())
    for k in ("dev-dependencies", "bench", "bin", "example", "test"):
        m.pop(k, None)
    drop = set(opts.get("drop", []))
    def fix(deps):
        for name in list(deps):
            v = deps[name]
            if name in drop or (name in ("rio", "tokio-uring")):
                del deps[name]
                continue
            if isinstance(v, dict) and name in DROP_FEATURES and "features" in v:
                v["features"] = [f for f in v["features"] if f not in DROP_FEATURES[name]]
    fix(m.get("dependencies", {}))
    fix(m.get("build-dependencies", {}))
    for t in m.get("target", {}).values():
        fix(t.get("dependencies", {}))
    m.get("features", {}).pop("io_uring", None)
    m["package"]["autobins"] = False
    m["package"]["autobenches"] = False
    m["package"]["autotests"] = False
    m["package"]["autoexamples"] = False
    m["package"].pop("metadata", None)
    m["package"].pop("default-run", None)
    return m

def main():
    root = tomllib.loads(read(f"{REPO}/Cargo.toml").decode())
    shim = shims()
    wsdeps = root["workspace"]["dependencies"]
    for name, v in list(wsdeps.items()):
        if name in shim:
            wsdeps[name] = {"path": shim[name]}
        elif isinstance(v, dict) and "git" in v:
            del wsdeps[name]
    # features other members of the full workspace switch on
    for name, fs in {"uuid": ["v4"]}.items():
        v = wsdeps[name]
        v = wsdeps[name] = v if isinstance(v, dict) else {"version": v}
        v["features"] = sorted(set(v.get("features", [])) | set(fs))
    pkg = root["workspace"]["package"]
    harness = [d for d in sorted(os.listdir(HARNESS)) if os.path.exists(f"{HARNESS}/{d}/Cargo.toml")]
    crates = [c for c in CRATES if os.path.exists(f"{REPO}/{c}/Cargo.toml")]
    new = {
        "workspace": {
            "resolver": "2",
            "members": crates + ["harness/" + h for h in harness],
        },
        "workspace.dependencies": wsdeps,
        "workspace.package": pkg,
        "profile.dev": {"opt-level": 0, "debug": "line-tables-only", "debug-assertions": True,
                        "overflow-checks": True, "incremental": True, "codegen-units": 64},
    }
    txt = []
    for sec, t in new.items():
        txt.append(f"[{sec}]")
        for k, v in t.items():
            txt.append(f"{tk(k)} = {tv(v)}")
        txt.append("")
    txt.append("[profile.dev.package.\"*\"]\ndebug = false\n")
    write(f"{WS}/Cargo.toml", "\n".join(txt))
    lock = os.path.join(VERIF, "Cargo.lock")
    if os.path.exists(lock):
        if not os.path.exists(f"{WS}/Cargo.lock"):
            write(f"{WS}/Cargo.lock", read(lock))
    elif not os.path.exists(f"{WS}/Cargo.lock"):
        write(f"{WS}/Cargo.lock", read(f"{REPO}/Cargo.lock"))
    for c in crates:
        opts = CRATES[c]
        m = member_manifest(c, opts)
        name = m["package"]["name"]
        hook = f"{HARNESS}/hooks/{name}.rs"
        keep = set()
        # everything but manifests, tests and benches
        for entry in sorted(os.listdir(f"{REPO}/{c}")):
            s = f"{REPO}/{c}/{entry}"
            if entry in ("Cargo.toml", "target", "tests", "benches", "test", ".git"):
                continue
            if os.path.isdir(s):
                keep = {"lib.rs"} if entry == "src" else set()
                def xf(rel, data, e=entry, opts=opts):
                    for f, old, newt in opts.get("subst", []):
                        if f == f"{e}/{rel}":
                            data = data.decode().replace(old, newt).encode()
                    data += opts.get("append", {}).get(f"{e}/{rel}", "").encode()
                    return data
                mirror(s, f"{WS}/{c}/{entry}", keep, xf)
            else:
                write(f"{WS}/{c}/{entry}", read(s))
        lib = f"{REPO}/{c}/src/" + ("main.rs" if opts.get("bin_as_lib") else "lib.rs")
        if os.path.exists(lib):
            text = read(lib).decode()
            for old, newt in opts.get("lib_subst", []):
                text = text.replace(old, newt)
            if os.path.exists(hook):
                write(f"{WS}/{c}/src/verif_hooks.rs", read(hook))
                text += "\n#[allow(warnings)]\npub mod verif_hooks;\n"
            text = "#![allow(warnings)]\n" + text
            write(f"{WS}/{c}/src/lib.rs", text)
        write(f"{WS}/{c}/Cargo.toml", dump(m))
    for h in harness:
        mirror(f"{HARNESS}/{h}", f"{WS}/harness/{h}")
    return 0

if __name__ == "__main__":
    sys.exit(main())
