"""C19 column blocks read back what was written: Codecs specification vs the column encodings and pages of tskv."""
import json, struct

ENC = {"i64": ["default", "null", "delta", "deltats", "quantile"], "f64": ["default", "null", "gorilla", "quantile"],
       "str": ["default", "null", "gzip", "bzip", "zstd", "snappy", "zlib"], "bool": ["default", "null", "bitpack"]}
ENC["ts"] = ENC["u64"] = ENC["i64"]; ENC["tag"] = ENC["str"]
W = 1 << 64
def limbs(x): x %= W; return [x & 0xffff, x >> 16 & 0xffff, x >> 32 & 0xffff, x >> 48]
def bits(f): return struct.unpack(">Q", struct.pack(">d", f))[0]

def page(rng, ty, enc, cells, **kw):
    n = len(cells)
    vias = ["array", "array", "column", "ref"]
    via = kw.get("via") or rng.choice(vias)
    o = {"op": "page", "ty": ty, "enc": enc, "via": via, "cells": cells, "lo": 0, "hi": n, "chunk": False}
    if ty == "ts": o["unit"] = rng.choice(["s", "ms", "us", "ns"])
    if via == "array" and n and rng.random() < .3: o["lo"] = rng.randint(0, n); o["hi"] = rng.randint(o["lo"], n)
    if via == "column" and n and rng.random() < .4: o["chunk"] = True; o["lo"] = rng.randint(0, n); o["hi"] = rng.randint(o["lo"], n)
    return o

def holes(rng, vals, ty):
    """Nothing in some places (a time is always there)."""
    k = rng.choice(["none", "none", "some", "lead", "trail", "most", "runs", "all"])
    if ty == "ts" or k == "none": return [[v] for v in vals]
    p = {"some": .3, "most": .9, "all": 1}.get(k, 0)
    out = []
    hole = False
    for v in vals:
        if k == "runs" and rng.random() < .1: hole = not hole
        out.append([] if (hole or rng.random() < p) else [v])
    pad = [[] for _ in range(rng.choice([1, 1, 2, 7, 8, 9, 65]))]
    return pad + out if k == "lead" else out + pad if k == "trail" else out

def ints(rng, n, signed):
    lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (0, W - 1)
    edge = [lo, hi, lo + 1, hi - 1, 0, 1, (1 << 60) - 1, 1 << 60, (1 << 60) + 1, (1 << 59) - 1, 1 << 59, (1 << 63) - 1] + ([-1, -(1 << 59), -(1 << 60), -(1 << 59) - 1] if signed else [1 << 63, (1 << 63) + 1])
    k = rng.choice(["run", "run0", "edge", "walk", "up", "time", "scaled", "bits", "ones", "jump", "any", "limit", "limit"])
    x = rng.choice([0, 1, rng.choice(edge), rng.randint(lo, hi)])
    if k == "run": d = rng.choice([1, -1, 7, 1000, 10**12, 10**13, -10**12, 123 * 10**9, 1 << 60, rng.randint(lo, hi), lo]); v = [x + d * j for j in range(n)]
    elif k == "run0": v = [x] * n
    elif k == "edge": v = [rng.choice(edge) for _ in range(n)]
    elif k == "any": v = [rng.randint(lo, hi) for _ in range(n)]
    else:
        v = []
        b = rng.randint(1, 61)
        top = rng.choice([(1 << 60) - 1, 1 << 60, (1 << 59) - 1, 1 << 59, -(1 << 59), -(1 << 59) - 1])
        for j in range(n):
            v.append(x)
            if k == "walk": x += rng.randint(-50, 50)
            elif k == "up": x += rng.randint(0, 1 << rng.randint(0, 20))
            elif k == "time": x += rng.choice([10**9, 10**9, 2 * 10**9, 6 * 10**10])
            elif k == "scaled": x += rng.randint(0, 9) * 10 ** rng.choice([3, 6, 12, 14])
            elif k == "bits": x += rng.randint(0, (1 << b) - 1)
            elif k == "limit": x += rng.choice([1, 2, top])
            elif k == "ones": x += 1 if rng.random() < .995 else rng.randint(0, 5)
            else: x += rng.choice([1, 1, 1, 1 << 60, (1 << 60) - 1, 1 << 59, -(1 << 59), -(1 << 62), 3])
    return [limbs(y) for y in v]

def floats(rng, n):
    sp = [0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), 5e-324, 1.7976931348623157e308, 0.1, 1e10, 2.5]
    k = rng.choice(["same", "special", "bits", "near", "walk", "nan"])
    if k == "same": f = rng.choice(sp); return [limbs(bits(f))] * n
    if k == "special": return [limbs(bits(rng.choice(sp))) for _ in range(n)]
    if k == "nan": return [limbs(rng.choice([0x7ff8000000000000, 0x7ff8000000000001, 0x7ff80000000000fe, 0xfff8000000000000, bits(1.5)])) for _ in range(n)]
    if k == "bits": return [limbs(rng.randint(0, W - 1)) for _ in range(n)]
    if k == "walk":
        x, o = rng.uniform(-100, 100), []
        for _ in range(n): x += rng.choice([0, 0, .5, .1, -1]); o.append(limbs(bits(x)))
        return o
    x = rng.randint(0, W - 1) & ~(0x7ff << 52)
    return [limbs(x ^ (rng.randint(0, (1 << rng.randint(1, 52)) - 1) << rng.choice([0, 0, 5, 31]) & (1 << 52) - 1)) for _ in range(n)]

def strings(rng, n):
    pool = ["", "a", "ab", "héllo", "名前", " ", "x" * 30, "\n\t\"", "0", "\u0000"]
    k = rng.choice(["same", "mix", "mix", "empty", "long"])
    if k == "same": return [rng.choice(pool)] * n
    if k == "empty": return [""] * n
    if k == "long": return [rng.choice(pool) if rng.random() < .7 else [rng.randint(1, 10**6), rng.choice([65, 127, 128, 129, 255, 256, 16383, 16384, 70000])] for _ in range(n)]
    return [rng.choice(pool) for _ in range(n)]

def run(ctx):
    rng = ctx.rng
    binp = ctx.build("h_tskv")
    es = ctx.edges("CodecsMC.tla", "CodecsMC.cfg")
    if not ctx.quick: ctx.check_spec("CodecsMC.tla", "CodecsDeep.cfg")
    script = []
    cols = [json.loads(e[1]) if isinstance(e[1], str) else e[1] for e in es]
    ctx.notes["model_columns"] = len(cols)
    by = {}
    for c in cols: by.setdefault((c["kind"], c["times"], tuple(not x for x in c["cells"])), []).append(c["cells"])
    # the ring of the model as it is embedded in the 64 bit integers, and at other scales
    for key, group in sorted(by.items(), key=str):
        for c in (rng.sample(group, min(len(group), 3)) if ctx.quick else rng.sample(group, min(len(group), 40))):
            for sc in (1 << 61, 1, rng.choice([10**3, 10**9, 10**12, 10**15, (1 << 59) - 1, 1 << 58])):
                off = rng.choice([0, 0, 1 << 63, -5, 1 << 62])
                cells = [[limbs(x[0] * sc + off)] if x else [] for x in c]
                ty = rng.choice(["i64", "i64", "u64", "ts"])
                if ty == "ts" and [] in cells: ty = "i64"
                for enc in (ENC[ty][:4] if not ctx.quick else ["delta", "deltats"]):
                    if ty == "u64" and enc == "deltats": enc = "default"
                    script.append(page(rng, ty, enc, cells))
    sizes = [0, 1, 2, 3, 5, 8, 9, 60, 64, 65] if ctx.quick else [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 60, 61, 119, 120, 121, 130]
    for ty in ("i64", "u64", "ts", "f64", "str", "tag", "bool"):
        for enc in ENC[ty]:
            for _ in range(60 if ctx.quick else 700):
                n = rng.choice(sizes)
                v = ints(rng, n, ty != "u64") if ty in ("i64", "u64", "ts") else floats(rng, n) if ty == "f64" else [rng.random() < .5 for _ in range(n)] if ty == "bool" else strings(rng, n)
                script.append(page(rng, ty, enc, holes(rng, v, ty)))
    # long runs (a packed word holds up to 240 equal differences)
    for _ in range(90 if ctx.quick else 500):
        ty = rng.choice(["i64", "u64", "ts"]); n = rng.choice([119, 120, 121, 239, 240, 241, 242, 360, 361, 480, 482, 600])
        x, v = rng.choice([0, 10**18]), []
        brk = rng.choice([[], [rng.randrange(n)], rng.sample(range(n), 2), [rng.choice([119, 120, 121, 238, 239, 240, 241])]])
        d = 1 if ty == 'ts' and rng.random() < .8 else rng.choice([1, -1, -1, -1, 0, 1000])
        for j in range(n): v.append(limbs(x)); x += d if j not in brk else rng.choice([2, 0, 17, 1 << 40, 1 << 61])
        script.append(page(rng, ty, rng.choice(["delta", "deltats", "default"]) , holes(rng, v, ty)))
    # pages of more cells than fit a byte of bitmap length
    for ty in ("i64", "u64", "f64", "bool", "str"):
        for n in (rng.choice([2040, 2041, 2049, 4100]), rng.randint(1500, 3000)):
            v = [limbs(rng.randint(0, 99)) for _ in range(n)] if ty in ("i64", "u64", "f64") else [rng.random() < .5 for _ in range(n)] if ty == "bool" else [str(j) for j in range(n)]
            script.append(page(rng, ty, rng.choice(ENC[ty]), [[x] if rng.random() < .8 else [] for x in v]))
    for enc in ENC["str"]:
        for _ in range(10 if ctx.quick else 100):
            script.append({"op": "strs", "enc": enc, "cells": [[x] for x in strings(rng, rng.choice(sizes))]})
    rng.shuffle(script)
    ctx.notes["pages"] = len(script)
    t = ctx.run_parallel(binp, ["codec"], script, "codec", resets=("page", "strs"), timeout=800)
    ctx.validate("CodecsTrace.tla", "CodecsTrace.cfg", t, resets=("page", "strs"), title="codecs")
