"""C23 timestamps and durations: TimeUnits specification vs common/utils precision.rs, duration.rs."""
from big import nat, int_
I64 = (1 << 63) - 1
def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_utils")
    ctx.check_spec("TimeUnitsMC.tla", "TimeUnitsMC.cfg")
    sc = []
    P = ["MS", "US", "NS"]
    edge = [0, 1, 999, 1000, 1001, 10**6 - 1, 10**6, 10**6 + 1, I64, I64 // 1000, I64 // 1000 + 1, I64 // 10**6, I64 // 10**6 + 1, 1700000000123456789]
    vals = sorted({s * v for v in edge for s in (1, -1)} | {-I64 - 1})
    vals += [rng.randint(-10**rng.randint(1, 18), 10**rng.randint(1, 18)) for _ in range(60 if ctx.quick else 3000)]
    for a in P:
        for b in P:
            for v in vals:
                sc.append({"op": "conv", "from": a, "to": b, "ts": int_(v)})
    for t in ["ms", "MS", "Ms", "us", "uS", "NS", "ns", "s", "", "NSS", "m", "n s"]:
        sc.append({"op": "prec", "text": t})
    sc.append({"op": "precdef"})
    units = {"ns": ["ns", "nsec"], "us": ["us", "usec"], "ms": ["ms", "msec"], "s": ["s", "sec", "seconds"], "m": ["m", "min", "minutes"], "h": ["h", "hr", "hours"],
             "day": ["d", "day", "days"], "w": ["w", "week"], "M": ["M", "month"], "y": ["y", "year", "years"]}
    def text(parts, text, inf=False, bad=False):
        sc.append({"op": "dur", "kind": "text", "text": text, "parts": parts, "infinite": inf, "bad": bad})
    for _ in range(200 if ctx.quick else 5000):
        us = rng.sample(list(units), rng.randint(1, 4))
        ps = [(rng.choice([0, 1, 2, 7, 59, 60, 365, 1000, rng.randint(0, 10**rng.randint(1, 7))]), u) for u in us]
        sep = rng.choice(["", " "])
        text([[nat(n), u] for n, u in ps], sep.join(f"{n}{rng.choice(units[u])}" for n, u in ps))
    for n in [0, 1, 30, 365, 36500, 10**9, 213503982334601, 213503982334602, 10**18, 2**64 - 1]:
        big = n > (2**64 - 1) // 86400
        text([[nat(n), "day"]], str(n), inf=big)
        sc.append({"op": "dur", "kind": "day", "n": nat(n)})
    for t in ["INF", "inf", "Inf", "iNF"]: text([], t, inf=True)
    for t in ["", "abc", "-1", "1x", "d", "1.5d", "INFINITE", "1d-", "0x10", str(2**64)]: text([], t, bad=True)
    sc.append({"op": "dur", "kind": "inf"})
    for _ in range(150 if ctx.quick else 3000):
        secs = rng.choice([0, 1, 59, 86399, 86400, 31557600, 9223372036, 9223372037, 9223372036854, 2**53, 10**17, rng.randint(0, 10**rng.randint(1, 17))])
        sc.append({"op": "dur", "kind": rng.choice(["parts", "init"]), "secs": nat(secs), "nanos": rng.choice([0, 1, 999, 1000, 999999, 10**6, 999999999, rng.randint(0, 10**9 - 1)])})
    t = ctx.run_harness(binp, [], sc, "time")
    ctx.validate("TimeUnitsTrace.tla", "TimeUnitsTrace.cfg", t, resets=("conv", "prec", "precdef", "dur"), chunk=600, title="time")
