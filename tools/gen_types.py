"""Typed values, relative lock times, text forms, script codes and recorded derivations (C21, C09, C06)."""
from util_gen import *
from gen_addr import rtree, rtx_full, rinput_full, HT
from gen_builder import FLAGS, rflag, redeem

ASSIGNED_NOPUSH = [c for c in ASSIGNED if c not in (76, 77, 78)]


def ev(op, **kw):
    return dict({"dom": "types", "op": op}, **kw)


def code(c):
    return {"k": "code", "c": c, "d": [], "m": False}


def leaf(d, n=()):
    return {"d": list(d), "n": list(n), "f": "Plain", "p": []}


def change(r, t):
    """the same tree with one annotation or one byte different"""
    t = dict(t)
    x = r.random()
    if x < .3:
        t["n"] = [] if t["n"] else ["q"]
    elif x < .5:
        t["p"], t["f"] = [], "Plain"
    elif x < .7:
        t["f"] = r.choice(["Reverse", "Sha256", "Num2Bin"])
    elif t["d"]:
        d = list(t["d"])
        d[r.randrange(len(d))] ^= 1 << r.randrange(8)
        t["d"] = d
    else:
        t["d"] = [0]
    return t


def no_sentinel(ops):
    return [dict(o, c=190) if o["k"] == "inv" and o["c"] == 189 else o for o in ops]


def changed_ops(r, ops):
    ops = [dict(o) for o in ops]
    x = r.random()
    if not ops or x < .15:
        return ops + [rop(r)]
    i = r.randrange(len(ops))
    o = ops[i]
    if x < .3:
        del ops[i]
    elif x < .45:
        ops[i] = rop(r)
    elif x < .6 and o["k"] == "push":
        o["m"] = not o["m"]
    elif o["k"] == "push":
        o["d"] = o["d"] + [0] if r.random() < .5 or not o["d"] else [o["d"][0] ^ 128] + o["d"][1:]
    elif o["k"] == "bool":
        o["c"] ^= 1
    elif o["k"] == "int":
        ops[i] = r.choice([dict(o, c=-o["c"]), {"k": "push", "c": 0, "d": script_num(o["c"]), "m": True}])
    elif o["k"] == "code" and 81 <= o["c"] <= 96:
        ops[i] = {"k": "int", "c": o["c"] - 80, "d": [], "m": False}
    return ops


def pushes(r, n):
    ints = sorted(set(list(range(-20, 21)) + [s * v for k in range(7, 32) for v in (2**k - 1, 2**k, 2**k + 1) for s in (1, -1) if v < 2**31]))
    for v in ints:
        for ty in ("integer", "result", "i32"):
            yield ev("push", ty=ty, v=v)
    for v in (True, False):
        yield ev("push", ty="bool", v=v)
    for k in list(range(0, 80)) + [255, 256, 520]:
        yield ev("push", ty="slice", v=rbytes(r, k))
    for b in list(range(0, 20)) + [127, 128, 129, 130, 255]:
        yield ev("push", ty="slice", v=[b])
        yield ev("push", ty="bytes", v=leaf([b]))
    for k in (0, 1, 20, 32, 34, 64, 65, 66, 1000):
        yield ev("push", ty="pubkey", v=[2] * k)
    for _ in range(60 * n):
        yield ev("push", ty="bytes", v=rtree(r, 2))
        yield ev("push", ty="pubkey", v=[r.choice([0, 2, 3, 4])] + rbytes(r, 32))
        yield ev("push", ty=r.choice(["integer", "result", "i32"]), v=rscriptint(r))
        for h in HT:
            yield ev("push", ty=h, name=[] if r.random() < .5 else [r.choice(["h", "pkh"])], v=rtree(r, 1))


def c21(r, tier):
    n = 1 if tier == "quick" else 10
    yield from pushes(r, n)
    for kind in ("blocks", "seconds"):
        for start in range(0, 65536, 256):
            yield ev("csv", kind=kind, start=start)
    for c in ASSIGNED_NOPUSH:
        yield ev("show", ops=[code(c)])
    yield ev("show", ops=[{"k": "inv", "c": c, "d": [], "m": False} for c in range(190, 256)])
    yield ev("show", ops=[])
    for _ in range(150 * n):
        yield ev("show", ops=no_sentinel(rops(r, r.choice([1, 2, 5, 9]), True)))
        yield ev("ops", ops=no_sentinel(rops(r, r.choice([0, 1, 2, 5, 9]))))
        t = rtree(r, 2)
        yield ev("eq", a=t, b=t)
        yield ev("eq", a=t, b=change(r, t))
        yield ev("eq", a=t, b=leaf(t["d"]))
        h = leaf(rbytes(r, 20))
        yield ev("eq", a=h, b=r.choice([h, change(r, h), dict(h, n=["x"]), leaf(rbytes(r, 20)), leaf(h["d"][:19])]))
        ops = no_sentinel(rops(r, r.choice([0, 1, 2, 4])))
        yield ev("eqops", a=ops, b=ops)
        yield ev("eqops", a=ops, b=no_sentinel(changed_ops(r, ops)))
    yield ev("defaults")


def rtx_spend(r):
    t = rtx_full(r)
    for i in t["ins"]:
        i["lock"] = [no_sentinel(redeem(r))]
        i["value"] = [rint_bytes(r, 8)]
    return t


def records(r, tier):
    """what preimages and transactions record about their own derivation (C06)"""
    n = 1 if tier == "quick" else 10
    for _ in range(80 * n):
        t = rtx_spend(r)
        yield ev("pretree", tx=t, flags=[rflag(r) for _ in range(r.choice([1, 2, 4]))])
        yield ev("txtree", tx=rtx_full(r))


def scripts(r, tier):
    """script codes and named flags (C09)"""
    n = 1 if tier == "quick" else 10
    yield ev("flags")
    for _ in range(150 * n):
        ops = no_sentinel(rops(r, r.choice([0, 1, 3, 6])))
        k = r.choice([0, 1, 1, 2, 3])
        for _ in range(k):
            ops.insert(r.randrange(len(ops) + 1), code(171))
        yield ev("scode", ops=ops, n=sum(o == code(171) for o in ops))
    # thousands of inputs and outputs
    for k, m in ((252, 253), (12000, 300)) if tier == "quick" else ((252, 253), (4000, 4000), (12000, 300), (16000, 0), (1, 20000)):
        yield ev("manyin", n=k, m=m, x=r.randrange(256), at=sorted({0, 1 % k, k // 2, k - 1}), flags=[0x41, 0x43, 0xc1, 0x42])
    # a pushed separator byte is no separator
    yield ev("scode", ops=[{"k": "push", "c": 0, "d": [171], "m": True}, code(81), code(171), code(82)], n=1)
    yield ev("scode", ops=[{"k": "int", "c": 171, "d": [], "m": False}, code(170), code(171)], n=1)
