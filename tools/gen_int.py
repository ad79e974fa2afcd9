"""Chains of script integer operations (C05)."""
from util_gen import *

RANGES = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
          "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1),
          "isize": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1), "i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1)}
BIN = ["add", "sub", "mul", "div", "rem", "and", "or", "xor"]


def wide(v):
    return list((v % (1 << 136)).to_bytes(17, "little"))


def native(r, v, ty=None):
    ts = [t for t, (a, b) in RANGES.items() if a <= v <= b]
    return {"ty": ty if ty in ts else r.choice(ts), "x": wide(v), "failed": False}


def rnative(r):
    t = r.choice(list(RANGES))
    a, b = RANGES[t]
    x = r.random()
    if x < .35:
        v = r.choice([a, a + 1, b, b - 1, 0, 1, 2, -1, -2, 2**31 - 1, -2**31 + 1, 2**31, -2**31, 2**32, 46341, 65536, 2**63, 2**32 + 5])
    elif x < .7:
        v = r.randrange(-200, 200)
    elif x < .85:
        v = rscriptint(r)
    else:
        v = r.randrange(a, b + 1)
    v = min(max(v, a), b)
    return {"ty": t, "x": wide(v), "failed": False}


def chain(r, n):
    ev = [dict(op="from", **rnative(r))]
    if r.random() < .7:
        ev = [dict(op="from", **native(r, rscriptint(r)))]
    for _ in range(n):
        x = r.random()
        if x < .6:
            o = native(r, r.choice([rscriptint(r), r.randrange(-9, 10)])) if r.random() < .7 else rnative(r)
            if r.random() < .05:
                o = dict(o, failed=True)
            ev.append(dict(op=r.choice(BIN), **o))
        elif x < .75:
            ev.append({"op": r.choice(["shl", "shr"]), "n": r.choice([0, 1, 2, 7, 8, 15, 16, 24, 30, 31, 32, 33, 63, 64, 1000, 2**32 - 1, r.randrange(32)])})
        elif x < .85:
            ev.append({"op": "neg"})
        else:
            o = rnative(r) if r.random() < .5 else native(r, rscriptint(r))
            if r.random() < .1:
                o = dict(o, failed=True)
            ev.append(dict(op="cmp", **o))
    for e in ev:
        if e["op"] in ("shl", "shr"):
            e["n"] = min(e["n"], 2**31 - 1)
    return {"dom": "int", "ev": ev}


def c05(r, tier):
    for t, (a, b) in RANGES.items():
        for v in {a, a + 1, b, b - 1, 0, 1, 2**31 - 1, 2**31, 2**31 + 1, -2**31, -2**31 + 1, -2**31 - 1, -1, 2**32, 2**32 + 1, 2**63, -2**63, 2**64, 2**127}:
            if a <= v <= b:
                yield {"dom": "int", "ev": [dict(op="from", **native(r, v, t)), {"op": "neg"}, dict(op="cmp", **native(r, v, t)),
                                            dict(op="add", **native(r, 0)), dict(op="cmp", **native(r, r.choice([v, 1, 0]), None))]}
    n = 6000 if tier == "quick" else 150000
    for _ in range(n):
        yield chain(r, r.choice([1, 2, 2, 3, 4, 6, 10]))
    # comparisons of neighbours and equal values across types
    for _ in range(n // 6):
        v = rscriptint(r)
        w = v + r.choice([0, 0, 1, -1, 2**32, -2**32, 256])
        if not -2**127 <= w < 2**127:
            w = v
        yield {"dom": "int", "ev": [dict(op="from", **native(r, v)), dict(op="cmp", **native(r, w)), dict(op="cmp", **native(r, v))]}


def from_model(c, r):
    ev = []
    for h in c["raw"]:
        if h["op"] == "from" or h["op"] in BIN:
            ev.append(dict(op=h["op"], **native(r, h["v"])))
        elif h["op"] == "neg":
            ev.append({"op": "neg"})
        else:
            ev.append({"op": h["op"], "n": h["v"]})
    return {"dom": "int", "ev": ev}
