"""Random building blocks shared by the generators."""
import random

ASSIGNED = [0] + list(range(76, 189))


def rbytes(r, n):
    if n and r.random() < .15:
        return [r.choice([0, 1, 128, 255])] * n
    return [r.randrange(256) for _ in range(n)]


def rint_bytes(r, n):
    x = r.random()
    if x < .15:
        return [0] * n
    if x < .25:
        return [255] * n
    if x < .5:
        v = r.getrandbits(r.randrange(1, 8 * n + 1))
        return list(v.to_bytes(n, "little"))
    return rbytes(r, n)


def rlen(r, big=False):
    if big:
        return r.choice([0, 1, 75, 76, 77, 252, 253, 254, 255, 256, 257, 400, 520])
    return r.choice([0, 1, 1, 2, 3, 4, 5, 8, 20, 33, 70])


def rscriptint(r):
    x = r.random()
    if x < .3:
        return r.randrange(-20, 20)
    if x < .6:
        k = r.randrange(32)
        v = min(max((1 << k) + r.choice([-1, 0, 1]), 0), 2**31 - 1)
        return v * r.choice([1, -1])
    return r.randrange(-2**31 + 1, 2**31)


def rop(r, big=False):
    x = r.random()
    if x < .35:
        return {"k": "code", "c": r.choice([c for c in ASSIGNED if c not in (76, 77, 78)]), "d": [], "m": False}
    if x < .42:
        return {"k": "inv", "c": r.choice(list(range(189, 256))), "d": [], "m": False}
    if x < .75:
        d = rbytes(r, rlen(r, big))
        if r.random() < .2:
            d = [r.choice([0, 1, 16, 17, 128, 129, 130])]
        return {"k": "push", "c": 0, "d": d, "m": r.random() < .6}
    if x < .82:
        return {"k": "bool", "c": r.randrange(2), "d": [], "m": False}
    return {"k": "int", "c": rscriptint(r), "d": [], "m": False}


def rops(r, n, big=False):
    return [rop(r, big and r.random() < .3) for _ in range(n)]


def push_prefix(n, form=None):
    if form is None:
        form = 0 if n <= 75 else 1 if n <= 255 else 2 if n <= 65535 else 3
    if form == 0 and 0 < n <= 75:
        return [n]
    form = max(form, 1)
    return [75 + form] + list((n & ((1 << 8 * [0, 1, 2, 4][form]) - 1)).to_bytes([0, 1, 2, 4][form], "little"))


def script_num(i):
    if i == 0:
        return []
    a, out = abs(i), []
    while a:
        out.append(a & 255)
        a >>= 8
    if out[-1] & 128:
        out.append(128 if i < 0 else 0)
    elif i < 0:
        out[-1] |= 128
    return out


def ser_op(o):
    k = o["k"]
    if k in ("code", "inv"):
        return [o["c"]]
    if k == "bool":
        return [81 if o["c"] else 0]
    if k == "int":
        i = o["c"]
        if i == 0:
            return [0]
        if i == -1 or 1 <= i <= 16:
            return [80 + i]
        d, m = script_num(i), True
    else:
        d, m = o["d"], o["m"]
    if m:
        if not d:
            return [0]
        if len(d) == 1 and 1 <= d[0] <= 16:
            return [80 + d[0]]
        if d == [129]:
            return [79]
    return push_prefix(len(d)) + list(d)


def ser_ops(ops):
    return [b for o in ops for b in ser_op(o)]


def wild_script(r, ops, wild):
    out = []
    for o in ops:
        if o["k"] == "push" and r.random() < wild:
            d = o["d"]
            out += push_prefix(len(d) + r.choice([0, 0, 0, 1, 5]), r.choice([1, 2, 3])) + list(d)
        else:
            out += ser_op(o)
    return out


def neighbours(r, b):
    """byte strings that agree with b in most of their bytes: an answer remembered for b is wrong for them"""
    out = []
    for i in {0, 1, len(b) // 2, len(b) - 2, len(b) - 1, r.randrange(len(b))}:
        if 0 <= i < len(b):
            c = list(b)
            c[i] ^= 1 << r.randrange(8)
            out.append(c)
    return out + [b[::-1], b[1:] + b[:1]]
