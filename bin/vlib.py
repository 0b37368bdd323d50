"""Shared machinery: build harnesses from /repo's tree, run TLC, validate traces, report."""
import os, sys, json, re, subprocess, time, random, shutil, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
WS = os.path.join(WORK, "ws")
TARGET = os.path.join(WORK, "target")

class ToolError(Exception):
    pass

class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.82", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", RUST_BACKTRACE="0", CARGO_INCREMENTAL="1")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e

def stage():
    r = subprocess.run([sys.executable, os.path.join(VERIF, "bin/stage.py")], capture_output=True, text=True)
    if r.returncode:
        raise ToolError("stage failed: " + r.stderr[-2000:])

def build(pkg):
    """Stage /repo's current tree and build one harness package; returns the binary."""
    stage()
    lock = os.path.join(WORK, "build.lock")
    r = subprocess.run(["flock", lock, "cargo", "build", "--offline", "-q", "-p", pkg], cwd=WS, env=env(),
                       capture_output=True, text=True)
    if r.returncode:
        raise ToolError(f"cargo build -p {pkg} failed:\n" + r.stderr[-6000:])
    return os.path.join(TARGET, "debug", pkg)

JAVA = ["java", "-XX:+UseParallelGC", "-Xss64m"]
CP = None
def classpath():
    global CP
    if CP is None:
        d = "/opt/veriftools/tla"
        CP = ":".join([os.path.join(d, "tla2tools.jar")] + sorted(glob.glob(d + "/*Community*.jar")))
    return CP

_n = [0]
def tlc(spec, cfg, workers=1, extra=(), heap="2g", envx=None, timeout=800, simulate=None):
    _n[0] += 1
    meta = os.path.join(WORK, "tlc", f"{os.getpid()}-{_n[0]}")
    os.makedirs(meta, exist_ok=True)
    e = env()
    if envx:
        e.update({k: str(v) for k, v in envx.items()})
    cmd = JAVA + [f"-Xmx{heap}", "-DTLA-Library=" + SPEC, "-cp", classpath(), "tlc2.TLC", "-noGenerateSpecTE",
                  "-metadir", meta, "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, spec)]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {spec}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(x for x in (r.stdout + r.stderr).splitlines() if not re.match(r"(Parsing file|Semantic processing|Linting) ", x))
    return r.returncode, out, time.time() - t0

def tlc_stats(out):
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)

def outdir(prop):
    d = os.path.join(WORK, "out", prop)
    os.makedirs(d, exist_ok=True)
    return d

def write_ndjson(path, rows):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")

def read_ndjson(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]

def nonull(v):
    """TLC's JSON reader has no null"""
    if v is None: return "null"
    if isinstance(v, list): return [nonull(x) for x in v]
    if isinstance(v, dict): return {k: nonull(x) for k, x in v.items()}
    return v

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{seed}/{prop}")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.events = self.cases = 0
        self.samples = []
        self.notes = {}
        self.mc = []
        self.distinct = set()
        self.dir = outdir(prop)
        for f in glob.glob(self.dir + "/*"):
            if os.path.isfile(f): os.unlink(f)
            else: shutil.rmtree(f, ignore_errors=True)

    # --- the specification itself -------------------------------------------------
    def check_spec(self, spec, cfg, heap="6g", workers=4, timeout=700, extra=()):
        """Exhaustive TLC run of the design specification; a failure here is a broken spec (tool error)."""
        rc, out, dt = tlc(spec, cfg, workers=workers, heap=heap, timeout=timeout, extra=extra)
        s = tlc_stats(out)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError(f"TLC on {spec} {cfg}: rc={rc}\n" + out[-3000:])
        self.transitions += s[0]; self.states += s[1]
        self.mc.append({"spec": spec, "cfg": cfg, "generated": s[0], "distinct": s[1], "wall_s": round(dt, 1)})
        return out

    def edges(self, spec, cfg, timeout=600, heap="4g"):
        """Exhaustive run printing every transition as JSON (ACTION_CONSTRAINT EdgeOut); invariants checked too."""
        rc, out, dt = tlc(spec, cfg, workers=1, heap=heap, timeout=timeout)
        s = tlc_stats(out)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError(f"TLC on {spec} {cfg}: rc={rc}\n" + "\n".join(x for x in out.splitlines() if not x.startswith('"EDGE'))[-3000:])
        self.transitions += s[0]; self.states += s[1]
        self.mc.append({"spec": spec, "cfg": cfg, "generated": s[0], "distinct": s[1], "wall_s": round(dt, 1)})
        es = []
        for line in out.splitlines():
            if line.startswith('"EDGE '):
                e = json.loads(json.loads(line)[5:])
                es.append((json.dumps(e["f"], sort_keys=True), e["ev"], json.dumps(e["t"], sort_keys=True)))
        if not es:
            raise ToolError(f"{spec} {cfg} printed no edges")
        return es

    def cover(self, edges, init=None, maxlen=60, limit=None):
        """Paths from the initial state that together take every edge (greedy)."""
        adj = {}
        for f, ev, t in edges:
            adj.setdefault(f, {})[json.dumps(ev, sort_keys=True)] = (ev, t)
        start = edges[0][0] if init is None else init
        todo = {(f, k) for f in adj for k in adj[f]}
        total = len(todo)
        par, order = {start: None}, [start]
        for f in order:
            for k, (ev, t) in adj.get(f, {}).items():
                if t not in par:
                    par[t] = (f, k); order.append(t)
        def path_to(f):
            p = []
            while par[f] is not None:
                f, k = par[f][0], par[f][1]; p.append((f, k))
            return p[::-1]
        left = {f: [k for k in adj.get(f, {})] for f in adj}
        paths = []
        for f0 in order:
            while left.get(f0):
                p = path_to(f0)
                cur = f0
                while len(p) < maxlen:
                    nxt = None
                    if left.get(cur):
                        nxt = left[cur].pop()
                    if nxt is None:
                        # BFS (bounded) to a state with untaken edges
                        seen, q, hit = {cur: None}, [cur], None
                        for s in q:
                            if len(seen) > 400: break
                            for k, (ev, t) in adj.get(s, {}).items():
                                if t not in seen:
                                    seen[t] = (s, k); q.append(t)
                                    if left.get(t): hit = t; break
                            if hit: break
                        if not hit: break
                        seg = []
                        s = hit
                        while seen[s] is not None:
                            seg.append(seen[s]); s = seen[s][0]
                        if len(p) + len(seg) > maxlen: break
                        p += seg[::-1]; cur = hit
                        continue
                    p.append((cur, nxt)); cur = adj[cur][nxt][1]
                paths.append([adj[f][k][0] for f, k in p])
                if limit and len(paths) >= limit:
                    return paths, total
        return paths, total

    # --- the implementation ---
    def build(self, pkg):
        return build(pkg)

    def run_harness(self, binary, args, script, name, timeout=600, envx=None):
        """script: list of op records. Returns path of the trace the real code produced."""
        sp, tp = f"{self.dir}/{name}.script", f"{self.dir}/{name}.trace"
        write_ndjson(sp, script)
        e = env()
        if envx: e.update(envx)
        scratch = f"{self.dir}/{name}.scratch"
        shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
        with open(tp, "w") as o, open(sp) as i, open(f"{self.dir}/{name}.err", "w") as er:
            try:
                r = subprocess.run([binary] + list(args), stdin=i, stdout=o, stderr=er, env=dict(e, VERIF_SCRATCH=scratch), timeout=timeout, cwd=scratch)
            except subprocess.TimeoutExpired:
                r = None
        shutil.rmtree(scratch, ignore_errors=True)
        if r is None or r.returncode != 0:
            # the code under test hung or brought the process down: that is data
            what = "hang" if r is None else f"exit status {r.returncode}"
            with open(tp, "a") as o:
                o.write("\n" + json.dumps({"op": "crash", "what": what}) + "\n")
            txt = open(f"{self.dir}/{name}.err").read()[-1500:]
            if r is not None and "HARNESS" in txt:
                raise ToolError(f"harness error: {txt}")
        return tp

    def run_parallel(self, binary, args, script, name, jobs=7, resets=("new",), timeout=600, envx=None):
        """Like run_harness, the cases of the script spread over several processes."""
        parts, cases = [[] for _ in range(jobs)], []
        for r in script:
            if r["op"] in resets or not cases: cases.append([])
            cases[-1].append(r)
        for k, c in enumerate(cases): parts[k % jobs] += c
        parts = [p for p in parts if p]
        with ThreadPoolExecutor(len(parts)) as ex:
            ts = list(ex.map(lambda k: self.run_harness(binary, args, parts[k], f"{name}.{k}", timeout, envx), range(len(parts))))
        tp = f"{self.dir}/{name}.trace"
        with open(tp, "w") as o:
            for t in ts:
                o.write(open(t).read().rstrip("\n") + "\n")
                os.unlink(t)
        return tp

    def validate(self, spec, cfg, trace, chunk=4000, resets=("new",), heap="2g", timeout=600, title=None, par=6, known=None):
        """TLC decides whether the recorded behaviour is one the specification allows."""
        rows = []
        with open(trace) as f:
            for x in f:
                if x.strip():
                    try: rows.append(nonull(json.loads(x)))
                    except Exception: rows.append({"op": "crash", "what": "garbled output"})
        if not rows:
            raise ToolError("empty trace " + trace)
        chunks, cur = [], []
        for r in rows:
            if r.get("op") in resets and len(cur) >= chunk:
                chunks.append(cur); cur = []
            cur.append(r)
        chunks.append(cur)
        def one(ix):
            p = f"{trace}.{ix}.ndjson"
            write_ndjson(p, chunks[ix])
            rc, out, dt = tlc(spec, cfg, workers=1, heap=heap, envx={"TRACE": p}, timeout=timeout)
            return ix, p, rc, out
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, range(len(chunks))))
        bad = []
        for ix, p, rc, out in res:
            s = tlc_stats(out)
            n = len(chunks[ix])
            if rc == 0 and "No error has been found" in out:
                self.states += s[1]; self.transitions += s[0]
                self.traces += 1; self.events += n
                self.cases += sum(1 for r in chunks[ix] if r.get("op") in resets)
                os.unlink(p)
                continue
            m = re.search(r"REJECT@(\d+)", out)
            inv = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated", out)
            if m:
                at = int(m.group(1)) - 1
                why = "no specification action allows this step"
            elif inv:
                nst = len(re.findall(r"^State \d+:", out, re.M))
                at = max(0, nst - 2)
                why = f"{inv.group(1) or inv.group(2)} violated"
            elif "Attempted to " in out and "The behavior up to this point is" in out:
                # the recorded value is not even of the kind the specification compares it with
                nst = len(re.findall(r"^State \d+:", out, re.M))
                at = max(0, nst - 1)
                why = "the specification cannot make sense of this step"
            else:
                raise ToolError(f"TLC on trace {p}: rc={rc}\n" + out[-3000:])
            at = min(at, n - 1)
            st = max((i for i in range(at + 1) if chunks[ix][i].get("op") in resets), default=0)
            bad.append((ix, st, at, why))
        if bad:
            ix, st, at, why = bad[0]
            seg = chunks[ix][st:at + 1]
            rp = f"{self.dir}/replay-{title or 'trace'}.ndjson"
            write_ndjson(rp, seg)
            raise Violation(f"{why}: step {at - st} of the case, event {json.dumps(chunks[ix][at])[:600]}", rp)
        for c in chunks[:2]:
            if len(self.samples) < 6:
                self.samples.append({"trace": title or os.path.basename(trace), "first_events": [json.dumps(r)[:200] for r in c[:4]]})

    # --- reporting -----------------------------------------------------------------
    def evidence(self, level="model_checking", rule=None, **extra):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.cases or self.traces,
               "events_validated": self.events, "trace_files": self.traces,
               "spec_runs": self.mc, "samples": self.samples or ["(none)"]}
        cov.update(self.notes); cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)

def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r
