"""C27 derive macros: Derives specification vs definitions compiled with the real macros."""
import json, os, subprocess, re
from concurrent.futures import ThreadPoolExecutor
import vlib
def libs():
    """the real derive_traits (and through it derive_macros), built from /repo's tree"""
    vlib.stage()
    r = subprocess.run(["flock", os.path.join(vlib.WORK, "build.lock"), "cargo", "build", "--offline", "-q", "-p", "derive_traits", "--message-format=json"],
                       cwd=vlib.WS, env=vlib.env(), capture_output=True, text=True)
    if r.returncode: raise vlib.ToolError("derive_traits does not build:\n" + r.stderr[-3000:])
    out = None
    for x in r.stdout.splitlines():
        m = json.loads(x)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "derive_traits":
            out = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    return out
ch = lambda s: list(s)
def enum_src(name, mod, vs):
    """-> (module text, expression printing the enum's trace fields)"""
    a = "".join(f'#[error_code(mod_code = "{m}")]\n' for m in mod)
    body, mk, dis = "", [], ""
    for i, v in enumerate(vs):
        n = v["name"]
        if v.get("join") and len(v["codes"]) == 2: at = f"#[error_code(code = {v['codes'][0]}, code = {v['codes'][1]})]\n"
        else: at = "".join(f"#[error_code(code = {c})]\n" for c in v["codes"])
        if v["shape"] == "unit": body += f"{at}{n},\n"; mk.append(f"E::{n}"); dis += f"E::{n} => write!(f, \"t{i}\"),\n"
        elif v["shape"] == "named": body += f"{at}{n} {{ a: u32, source: std::fmt::Error }},\n"; mk.append(f"E::{n} {{ a: {i}, source: std::fmt::Error }}"); dis += f"E::{n} {{ a, .. }} => write!(f, \"n{{a}}\"),\n"
        else: body += f"{at}{n}(String),\n"; mk.append(f"E::{n}(\"p{i}\".to_string())"); dis += f"E::{n}(s) => write!(f, \"u{{s}}\"),\n"
    src = f"""mod {name} {{
use derive_traits::{{ErrorCode, ErrorCoder}};
#[derive(Debug, ErrorCoder)]
{a}pub enum E {{ {body} }}
impl std::fmt::Display for E {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ match self {{ {dis} _ => Ok(()) }} }} }}
impl std::error::Error for E {{}}
pub fn show() {{
  let v: Vec<E> = vec![{", ".join(mk)}];
  for e in &v {{ println!("{name} code {{}}", e.code()); println!("{name} msg {{}}", e.message()); println!("{name} src {{}}", e.source_error_code().code()); }}
  {"".join(f'println!("{name} fn {{}} {{}}", "{f}", E::{f}());' for f in [meth(v["name"]) for v in vs if v["codes"]])}
}}
}}
"""
    return src
def texts(vs): return [{"unit": f"t{i}", "named": f"n{i}", "tuple": f"up{i}"}[v["shape"]] for i, v in enumerate(vs)]
def meth(n):  # only used to call the helper; whether it exists under this name is what the trace records
    out, pd = "", False
    for i, c in enumerate(n):
        if c.isalpha():
            if pd or (i and c.isupper()): out += "_"
            pd = False
        elif c.isdigit():
            if not pd: out += "_"
            pd = True
        out += c
    return "code_" + out.lower()
def rustc(lib, d, name, src, emit):
    p = f"{d}/{name}.rs"
    open(p, "w").write(src)
    out = f"{d}/{name}.{'bin' if emit == 'link' else 'rmeta'}"
    r = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", "--cap-lints", "allow", "--emit", emit, "-C", "debuginfo=0", "-o", out, "--extern", f"derive_traits={lib}",
                        "-L", "dependency=" + os.path.dirname(lib).replace("/debug", "/debug") + "/deps", "-L", "dependency=" + os.path.dirname(lib), p], env=vlib.env(), capture_output=True, text=True, cwd=d, timeout=300)
    if r.returncode and "can't find crate" in r.stderr: raise vlib.ToolError(r.stderr[-2000:])
    return r.returncode == 0, out
def run(ctx):
    rng = ctx.rng
    lib = libs()
    es = ctx.edges("DerivesMC.tla", "DerivesMC.cfg")
    paths, total = ctx.cover(es, maxlen=6)
    ctx.notes["edges"] = total
    defs = []
    for p in paths:
        mod = ["".join(e["m"]) for e in p if e["op"] == "mod"]
        vs = [{"name": "".join(e["v"]["name"]), "shape": e["v"]["shape"], "codes": e["v"]["codes"], "join": rng.random() < .5} for e in p if e["op"] == "variant"]
        if vs: defs.append((mod, vs))
    def valid(mod, vs):
        cs = [c for v in vs for c in v["codes"]]
        return len(mod) <= 1 and all(len(m) == 2 for m in mod) and all(len(v["codes"]) <= 1 for v in vs) and all(c < 10000 for c in cs) and len(set(cs)) == len(cs) and \
            len({meth(v["name"]) for v in vs if v["codes"]}) == sum(1 for v in vs if v["codes"])
    good = [d for d in defs if valid(*d)]; bad = [d for d in defs if not valid(*d)]
    rng.shuffle(good); rng.shuffle(bad)
    good = good[:150 if ctx.quick else 1500]; bad = bad[:70 if ctx.quick else 600]
    words = ["Io", "Tenant", "NotFound", "HTTP", "X1", "V2Api", "A", "Wal", "B12c", "E2E", "Tsm0", "S3", "Zz9", "AbcDef", "Raft", "q", "lower2Up"]
    for _ in range(120 if ctx.quick else 1500):
        mod = rng.choice([[], ["%02d" % rng.randrange(100)], ["ab"], ["07"]])
        vs, used, cs, ms = [], set(), set(), set()
        for _ in range(rng.randint(1, 14)):
            n = "".join(rng.choice(words) for _ in range(rng.randint(1, 3)))
            if n in used: continue
            c = rng.choice([[], [rng.choice([0, 1, 9, 10, 99, 100, 999, 1000, 4321, 9999])], [rng.randrange(10000)]])
            if c and (c[0] in cs or meth(n) in ms): c = []
            used.add(n); cs |= set(c); ms |= {meth(n)} if c else set()
            vs.append({"name": n, "shape": rng.choice(["unit", "named", "tuple"]), "codes": c})
        good.append((mod, vs))
        if rng.random() < .15:
            cd = [v for v in vs if v["codes"]]
            k = rng.randrange(4)
            if k == 0 and cd: bad.append((mod, vs + [{"name": "Twin", "shape": "unit", "codes": list(rng.choice(cd)["codes"])}]))
            elif k == 1: bad.append((mod, vs + [{"name": "TooBig", "shape": "tuple", "codes": [rng.choice([10000, 10001, 99999, 2**40])]}]))
            elif k == 2: bad.append((mod + ["0" + rng.choice(["", "00", "123"])], vs))
            else: bad.append((mod + ["01", "02"], vs))
    d = ctx.dir + "/src"; os.makedirs(d, exist_ok=True)
    # structs for Keys
    prims = ["i8", "i64", "u16", "u64", "usize", "f64", "bool", "char", "String", "std::time::Duration", "u128"]
    structs = []
    def ty(k, depth):
        m = rng.random()
        if m < .5 or depth == 0: return {"k": "leaf"}, rng.choice(prims)
        if m < .75:
            t, s = ty(k, depth - 1)
            return {"k": "wrap", "of": t}, rng.choice(["Option", "Vec"]) + f"<{s}>"
        t, s = struct(k, depth - 1)
        return t, s
    def struct(k, depth):
        nm = f"S{len(k)}"; k.append(None); i = len(k) - 1
        fs, src, used = [], "", set()
        for _ in range(rng.randint(0 if depth < 2 else 1, 5)):
            f = rng.choice(["a", "path", "max_size", "v2", "x_1_y", "node_id", "_hid", "longer_name_here", "camelCase"])
            if f in used: continue
            used.add(f)
            t, s = ty(k, depth); fs.append({"name": ch(f), "type": t}); src += f"#[allow(non_snake_case)] pub {f}: {s}, "
        k[i] = f"#[derive(Keys)] pub struct {nm} {{ {src} }}\n"
        return {"k": "struct", "fields": fs}, nm
    for j in range(100 if ctx.quick else 1000):
        k = []
        t, _ = struct(k, 3)
        structs.append((f"k{j}", t, f"mod k{j} {{ use derive_traits::{{FieldKeys, Keys}};\n{''.join(k)}pub fn show() {{ println!(\"k{j} keys\"); for x in S0::field_keys() {{ println!(\"k{j} key {{x}}\"); }} }} }}\n"))
    mods = [(f"e{i}", enum_src(f"e{i}", *g)) for i, g in enumerate(good)] + [(n, s) for n, _, s in structs]
    def prog(ms): return "".join(s for _, s in ms) + "fn main() {\n" + "".join(f"{n}::show();\n" for n, _ in ms) + "}\n"
    def batch(ix):
        ms = mods[ix::6]
        ok, out = rustc(lib, d, f"b{ix}", prog(ms), "link")
        if ok: return [(n, True) for n, _ in ms], subprocess.run([out], capture_output=True, text=True).stdout
        res, txt = [], ""
        for n, s in ms:                        # find the definitions that do not compile
            ok, out = rustc(lib, d, f"one_{n}", prog([(n, s)]), "link")
            res.append((n, ok))
            if ok: txt += subprocess.run([out], capture_output=True, text=True).stdout
            else: break
        return res, txt
    others = ["#[derive(Debug, ErrorCoder)] pub struct E { a: u32 }", "#[derive(Debug, ErrorCoder)] #[error_code(code = 1)] pub enum E { A }", "#[derive(Debug, ErrorCoder)] pub enum E { #[error_code(mod_code = \"01\")] A }",
              "#[derive(Debug, ErrorCoder)] pub enum E { #[error_code(code = \"1\")] A }", "#[derive(Debug, ErrorCoder)] pub enum E { #[error_code(cod = 1)] A }", "#[derive(Debug, ErrorCoder)] #[error_code(mod_code = 10)] pub enum E { A }",
              "#[derive(Debug, ErrorCoder)] pub enum E { #[error_code(code = -1)] A }", "#[derive(Debug, ErrorCoder)] pub enum E { #[error_code(code)] A }"]
    osrc = "use derive_traits::{ErrorCode, ErrorCoder};\n%s\nimpl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }\nimpl std::error::Error for E {}\nfn main() {}\n"
    def one(j):
        if j < len(bad): return rustc(lib, d, f"x{j}", enum_src("m", *bad[j]) + "fn main() { m::show(); }\n", "metadata")[0]
        return rustc(lib, d, f"x{j}", osrc % others[j - len(bad)], "metadata")[0]
    with ThreadPoolExecutor(8) as ex:
        bs = [ex.submit(batch, i) for i in range(6)]
        xs = [ex.submit(one, j) for j in range(len(bad) + len(others))]
        comp, lines = {}, {}
        for f in bs:
            r, t = f.result()
            comp.update(dict(r))
            for x in t.splitlines():
                n, rest = x.split(" ", 1); lines.setdefault(n, []).append(rest)
        xr = [f.result() for f in xs]
    clean = lambda vs: [{"name": ch(v["name"]), "shape": v["shape"], "codes": [min(c, 2**30) for c in v["codes"]]} for v in vs]
    rows = []
    for i, (mod, vs) in enumerate(good):
        n = f"e{i}"
        if n not in comp: continue
        ls = lines.get(n, [])
        rows.append({"op": "enum", "prefixes": [ch(m) for m in mod], "cases": clean(vs), "compiled": comp[n], "codes": [ch(x[5:]) for x in ls if x.startswith("code ")],
                     "sources": [ch(x[4:]) for x in ls if x.startswith("src ")], "messages": [x[4:] for x in ls if x.startswith("msg ")], "texts": texts(vs), "methods": [[ch(x.split(" ")[1]), ch(x.split(" ")[2])] for x in ls if x.startswith("fn ")]})
    for n, t, _ in structs:
        if n in comp: rows.append({"op": "keys", "type": t, "compiled": comp[n], "keys": [ch(x[4:]) for x in lines.get(n, []) if x.startswith("key ")]})
    for j, (mod, vs) in enumerate(bad):
        rows.append({"op": "enum", "prefixes": [ch(m) for m in mod], "cases": clean(vs), "compiled": xr[j], "codes": [], "sources": [], "messages": [], "texts": [], "methods": []})
    for j, o in enumerate(others): rows.append({"op": "other", "text": o, "compiled": xr[len(bad) + j]})
    # the two errors for what nothing else names
    words = ["", "x", "no such thing", "é"]
    us = "use derive_traits::ErrorCode; use derive_traits::error_code::*;\nfn main() {\nlet u = UnknownCode; println!(\"{}|{}|{}|{:?}\", u.code(), u.message(), u, u);\n" + "".join(f'let u = UnknownCodeWithMessage({json.dumps(w, ensure_ascii=False)}.to_string()); println!("{{}}|{{}}|{{}}|{{:?}}", u.code(), u.message(), u, u);\n' for w in words) + "}\n"
    ok, out = rustc(lib, d, "unknown", us, "link")
    got = [l.split("|") for l in subprocess.run([out], capture_output=True, text=True).stdout.splitlines()] if ok else []
    rows.append({"op": "unknown", "compiled": ok, "words": words, "got": got})
    t = ctx.dir + "/derives.trace"; vlib.write_ndjson(t, rows)
    ctx.validate("DerivesTrace.tla", "DerivesTrace.cfg", t, resets=("enum", "keys", "other", "unknown"), chunk=150, title="derives")
    import shutil; shutil.rmtree(d, ignore_errors=True)
