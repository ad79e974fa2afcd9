"""Inputs for the script parser and the push encoder (C03, C04)."""
from util_gen import *

LENS = [0, 1, 2, 16, 17, 74, 75, 76, 77, 78, 127, 128, 254, 255, 256, 257, 520]


def c03(r, tier):
    # all 1-byte and 2-byte scripts and the small alphabet come from GenScript.tla
    n = 2500 if tier == "quick" else 60000
    for form in range(4):
        for ln in LENS + ([65535, 65536] if tier == "quick" else [65534, 65535, 65536, 65537]):
            if form == 0 and not 0 < ln <= 75 or form == 1 and ln > 255 or form == 2 and ln > 65535:
                continue
            d = rbytes(r, ln)
            for body in ([d, d[:-1]] if ln > 1000 else [d, d[:-1], d + [172], d + [1, 2], d[:ln // 2]]):
                yield {"dom": "script", "op": "parse", "b": push_prefix(ln, form) + body}
    for b0 in (76, 77, 78):
        for cut in range(6):
            yield {"dom": "script", "op": "parse", "b": ([b0] + rbytes(r, 5))[:cut + 1]}
    for hd in ([78, 255, 255, 255, 255], [78, 255, 255, 255, 127], [78, 0, 0, 0, 128], [77, 255, 255], [78, 0, 0, 0, 1]):
        yield {"dom": "script", "op": "parse", "b": hd}
        yield {"dom": "script", "op": "parse", "b": hd + [1, 2, 3]}
    # one-byte pushes of every value with every prefix: the minimality flag
    for v in range(256):
        for form in range(4):
            yield {"dom": "script", "op": "parse", "b": push_prefix(1, form) + [v]}
    for _ in range(n):
        x = r.random()
        if x < .4:
            b = ser_ops(rops(r, r.randrange(8), r.random() < .2))
        elif x < .7:
            b = wild_script(r, rops(r, r.randrange(6)), .5)
        elif x < .85:
            b = ser_ops(rops(r, r.randrange(1, 6)))
            b = b[:r.randrange(len(b) + 1)]
        else:
            b = rbytes(r, r.randrange(24))
        yield {"dom": "script", "op": "parse", "b": b}
    # long scripts, hundreds of thousands of operations
    units = [[97], [0], [81, 186], [1, 255, 117], [2, 1, 2, 1, 7, 99]] + [ser_ops(rops(r, r.randrange(1, 9), False)) for _ in range(3 if tier == "quick" else 12)]
    for u in units:
        if u:
            yield {"dom": "script", "op": "long", "unit": u, "n": (600000 if len(u) == 1 else 200000) * (1 if tier == "quick" else 2) // len(u)}
    from gen_wire import TX, value, enc
    for _ in range(n // 5):
        v = value(r, TX)
        yield {"dom": "script", "op": "txre", "b": enc(r, TX, v)}
    for _ in range(n // 10):
        # overlong pushes inside a transaction
        v = value(r, TX)
        b = list(v[0]) + [len(v[1])]
        for (o, s, q) in v[1]:
            w = wild_script(r, [x for x in s if x["k"] != "push" or len(x["d"]) < 30][:4], .4)
            if len(w) > 200:
                w = []
            b += o[0] + o[1] + [len(w)] + w + q
        b += [0] + v[3]
        yield {"dom": "script", "op": "txre", "b": b}


def numbers(r, tier):
    ns = set(range(-300, 301))
    for k in range(32):
        for d in (-2, -1, 0, 1, 2):
            for s in (1, -1):
                ns.add(s * ((1 << k) + d))
    for k in (7, 8, 15, 16, 23, 24, 31):
        for d in range(-20, 21):
            for s in (1, -1):
                ns.add(s * ((1 << k) + d))
    for _ in range(400 if tier == "quick" else 30000):
        ns.add(rscriptint(r))
    return sorted(x for x in ns if -2**31 < x < 2**31)


def c04(r, tier):
    I = lambda i: {"k": "int", "c": i, "d": [], "m": False}
    for i in numbers(r, tier):
        yield {"dom": "script", "op": "serop", "o": I(i)}
        yield {"dom": "script", "op": "pushint", "i": i}
        b = script_num(i)
        yield {"dom": "script", "op": "decint", "b": b}
        yield {"dom": "script", "op": "minenc", "b": b}
        if r.random() < .5:
            # overlong writings of the same number
            for pad in (1, 2, 4):
                w = list(b)
                if w:
                    s = w[-1] & 128
                    w[-1] &= 127
                    w += [0] * pad
                    w[-1] |= s
                else:
                    w = [0] * (pad - 1) + [r.choice([0, 128])]
                yield {"dom": "script", "op": "decint", "b": w}
                yield {"dom": "script", "op": "minenc", "b": w}
    for x in (0, 1):
        yield {"dom": "script", "op": "serop", "o": {"k": "bool", "c": x, "d": [], "m": False}}
        yield {"dom": "script", "op": "pushbool", "b": x == 1}
    for c in [0] + list(range(76, 189)):
        yield {"dom": "script", "op": "serop", "o": {"k": "code", "c": c, "d": [], "m": False}}
    for c in list(range(1, 76)) + list(range(189, 256)):
        yield {"dom": "script", "op": "serop", "o": {"k": "inv", "c": c, "d": [], "m": False}}
    P = lambda d, m: {"k": "push", "c": 0, "d": d, "m": m}
    for m in (True, False):
        for v in range(256):
            yield {"dom": "script", "op": "serop", "o": P([v], m)}
        for ln in LENS + [65535, 65536, 70000]:
            yield {"dom": "script", "op": "serop", "o": P(rbytes(r, ln), m)}
        for _ in range(200 if tier == "quick" else 4000):
            yield {"dom": "script", "op": "serop", "o": P(rbytes(r, r.randrange(8)), m)}
    for ln in LENS + [65536]:
        yield {"dom": "script", "op": "pushbytes", "b": rbytes(r, ln)}
    for v in range(256):
        yield {"dom": "script", "op": "decint", "b": [v]}
        yield {"dom": "script", "op": "minenc", "b": [v]}
    n = 1500 if tier == "quick" else 60000
    for _ in range(n):
        ln = r.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 8, 9])
        b = [r.choice([0, 0, 1, 127, 128, 128, 129, 255, r.randrange(256)]) for _ in range(ln)]
        yield {"dom": "script", "op": "decint", "b": b}
        yield {"dom": "script", "op": "minenc", "b": b}
    yield {"dom": "script", "op": "minenc", "b": [0] * 600 + [128]}
    for _ in range(n // 8):
        yield {"dom": "script", "op": "serops", "ops": rops(r, r.randrange(10), r.random() < .2)}
