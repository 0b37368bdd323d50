"""Make a seeded bug:  seed.py ID PROP FILE... < edits.json
stdin: {"needs":..., "what_it_breaks":..., "edits":[[file, old, new],...], "deps":"toml lines", "demo":"rust main source" | "sh": "demo.sh text", "files": {name: text}}
Applies the edits in /repo, writes patch.diff, undoes them, checks the demo both ways and the stable tests."""
import sys, json, os, subprocess, shutil
sid, prop = sys.argv[1], sys.argv[2]
fast = "--fast" in sys.argv
d = json.load(sys.stdin)
dst = f"/verif/seeded/{sid}"
shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
R = "/repo"
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "repo dirty"
DEMO = '''#!/bin/bash
# Builds demo.rs against the crates of /repo (through the workspace build.sh lays out) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/stage.py || exit 1
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
for x in common config query_server; do ln -s /opt/vp/ws/$x "$d/$x"; done
cp /opt/vp/ws/Cargo.lock "$d/Cargo.lock"
python3 - "$here" "$d" <<'P'
import sys, re, os, shutil
here, d = sys.argv[1:]
t = open("/opt/vp/ws/Cargo.toml").read()
t = re.sub(r"^members\\s*=\\s*\\[", 'members = [\\n    "demo",', t, count=1, flags=re.M)
open(d + "/Cargo.toml", "w").write(t)
os.makedirs(d + "/demo/src")
shutil.copy(here + "/demo.rs", d + "/demo/src/main.rs")
deps = open(here + "/deps.toml").read()
open(d + "/demo/Cargo.toml", "w").write('[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\n' + deps)
P
export CARGO_TARGET_DIR=/repo/target
cd "$d" && cargo build --offline -q -p demo && cd "$d" && timeout 120 /repo/target/debug/demo
'''
if "demo" in d:
    open(dst + "/demo.sh", "w").write(DEMO)
    open(dst + "/demo.rs", "w").write(d["demo"])
    open(dst + "/deps.toml", "w").write(d["deps"])
else:
    open(dst + "/demo.sh", "w").write(d["sh"])
for n, t in d.get("files", {}).items():
    open(f"{dst}/{n}", "w").write(t)
os.chmod(dst + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["what_it_breaks"]}, open(dst + "/meta.json", "w"), indent=1)
def demo():
    r = subprocess.run(["bash", dst + "/demo.sh"], cwd=R, capture_output=True, text=True, timeout=600)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
for f, old, new in d["edits"]:
    s = open(f"{R}/{f}").read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(f"{R}/{f}", "w").write(s.replace(old, new))
try:
    p = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    open(dst + "/patch.diff", "w").write(p)
    rc, out = demo()
    print("demo with patch:", rc, out[-600:] if rc else "*** NOT DETECTED"); bad = rc == 0 or "error:" in out and "could not compile" in out
    if not fast:
        r = subprocess.run("bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/seedtest.json", shell=True, capture_output=True, text=True)
        res = json.load(open("/tmp/seedtest.json")); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = res.get("passed") or res.get("pass") or []
        miss = [t for t in stable if t not in passed]
        print("stable failing with patch:", miss); bad |= bool(miss)
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
rc, out = demo()
print("demo clean:", rc, out if rc else "")
if rc: bad = True
print("BAD" if bad else "OK", sid)
