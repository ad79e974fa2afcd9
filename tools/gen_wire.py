"""Seeded random inputs for the wire codec (C01, C02, C19).  Inputs only: what is right is
decided by Wire.tla."""
from util_gen import *

INTS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16}
F = lambda n: ("fixed", n)
INNER = ("struct", [F(1), ("bytes",)])
OUTP = ("struct", [F(32), F(4)])
INP = ("struct", [OUTP, ("script",), F(4)])
OUT = ("struct", [F(8), ("script",)])
TX = ("struct", [F(4), ("vec", INP), ("vec", OUT), F(4)])
PRE = ("struct", [F(4), F(32), F(32), OUTP, ("script",), F(8), F(4), F(32), F(4), F(4)])
T = {k: F(n) for k, n in INTS.items()}
T.update({"bool": ("bool",), "bytes": ("bytes",), "script": ("script",), "sha1": F(20), "ripemd160": F(20),
          "hash160": F(20), "sha256": F(32), "sha256d": F(32), "fixed4": F(4), "vec_u8": ("vec", F(1)),
          "vec_u16": ("vec", F(2)), "vec_u64": ("vec", F(8)), "vec_bool": ("vec", ("bool",)),
          "vec_bytes": ("vec", ("bytes",)), "vec_script": ("vec", ("script",)), "vec_sha256d": ("vec", F(32)),
          "vec_vec_u16": ("vec", ("vec", F(2))), "outpoint": OUTP, "input": INP, "output": OUT, "tx": TX,
          "hashedtx": TX, "preimage": PRE, "vec_input": ("vec", INP), "vec_output": ("vec", OUT),
          "vec_tx": ("vec", TX)})
S = {"s_ints": ("struct", [F(x) for x in (1, 2, 4, 8, 16, 1, 2, 4, 8, 16)]),
     "s_skipfirst": ("struct", [F(2), ("bytes",)]), "s_skipmid": ("struct", [F(4), F(8)]),
     "s_skiplast": ("struct", [("script",), F(2)]), "s_skipmany": ("struct", [F(1), F(2), ("bool",)]),
     "s_allskip": ("struct", []), "s_one": ("struct", [("bytes",)]), "s_inner": INNER,
     "s_nested": ("struct", [INNER, ("vec", INNER), ("struct", [F(2), ("bytes",)]), F(1)]),
     "s_order": ("struct", [F(8), F(4), F(2), F(1)]),
     "s_mix": ("struct", [F(32), ("vec", ("script",)), ("bool",), ("vec", ("vec", F(2))), ("vec", ("bytes",)), F(20)]),
     }
ALL = dict(T)
ALL.update(S)


def value(r, t, big=False, depth=0):
    k = t[0]
    if k == "fixed":
        return rint_bytes(r, t[1])
    if k == "bool":
        return r.random() < .5
    if k == "bytes":
        return rbytes(r, rlen(r, big))
    if k == "script":
        return rops(r, r.choice([0, 1, 2, 3, 5, 8]), big)
    if k == "vec":
        n = r.choice([0, 1, 2, 3, 4] if depth else [0, 1, 2, 3, 5, 8])
        if big and t[1][0] == "fixed" and depth == 0:
            n = r.choice([0, 1, 252, 253, 254, 255, 256, 300, 600])
        return [value(r, t[1], big and n < 4, depth + 1) for _ in range(n)]
    return [value(r, f, big, depth + 1) for f in t[1]]


def varint(n, form=None):
    if form is None:
        form = 0 if n <= 252 else 1 if n <= 65535 else 2 if n < 1 << 32 else 3
    if form == 0:
        return [n & 255]
    w = 2 << (form - 1)
    return [252 + form] + list((n & ((1 << 8 * w) - 1)).to_bytes(w, "little"))


def enc(r, t, v, wild=0.0):
    """encoding, with non-canonical length forms and wrong lengths at rate `wild`"""
    def size(n):
        x = r.random()
        if x < wild / 2 and n < 253:
            return varint(n, r.choice([1, 2, 3]))
        if x < wild:
            return varint(max(0, n + r.choice([-1, 1, 2, 100])))
        return varint(n)
    k = t[0]
    if k == "fixed":
        return list(v)
    if k == "bool":
        return [r.choice([1, 1, 2, 128, 255, r.randrange(1, 256)]) if wild and v else int(v)]
    if k == "bytes":
        return size(len(v)) + list(v)
    if k == "script":
        s = wild_script(r, v, wild)
        return size(len(s)) + s
    if k == "vec":
        return size(len(v)) + [b for x in v for b in enc(r, t[1], x, wild)]
    return [b for f, x in zip(t[1], v) for b in enc(r, f, x, wild)]


HUGE = [[255] * 9, [255] + [255] * 7 + [127], [254, 255, 255, 255, 255], [254, 255, 255, 255, 127], [253, 255, 255],
        [255, 0, 0, 0, 0, 1, 0, 0, 0], [255, 0, 0, 0, 0, 0, 0, 0, 128], [254, 0, 0, 0, 128], [254, 0, 0, 0, 16],
        [255, 1, 0, 0, 0, 1, 0, 0, 0], [255, 0, 0, 0, 0, 0, 16, 0, 0], [254, 0, 0, 32, 0], [254, 0, 0, 0, 4]]


def boundary_values(ty, t):
    """every byte-width boundary of a fixed-size value"""
    if t[0] == "fixed":
        n = t[1]
        yield [0] * n
        yield [255] * n
        for j in range(n):
            yield [0] * j + [1] + [0] * (n - j - 1)
            yield [0] * j + [128] + [0] * (n - j - 1)
        yield list(range(1, n + 1))
    elif t[0] == "bool":
        yield True
        yield False
    elif t[0] == "bytes":
        for n in (0, 1, 252, 253, 254, 255, 256, 300):
            yield [(j * 7 + 1) % 256 for j in range(n)]
    elif t[0] == "script":
        for n in (0, 1, 250, 251, 252, 253, 254, 300):
            yield [{"k": "code", "c": 97, "d": [], "m": False}] * n
    elif t[0] == "vec":
        if t[1][0] in ("fixed", "bool"):
            for n in (0, 1, 2, 252, 253, 254, 255, 256):
                yield [([(j * 5 + 3) % 256] * t[1][1] if t[1][0] == "fixed" else j % 2 == 0) for j in range(n)]


def c01(r, tier):
    n = 14 if tier == "quick" else 200
    for ty, t in T.items():
        vals = list(boundary_values(ty, t)) + [value(r, t) for _ in range(n)] + [value(r, t, True) for _ in range(n // 3)]
        for v in vals:
            yield {"dom": "wire", "op": "ser", "ty": ty, "v": v}
            yield {"dom": "wire", "op": "rt", "ty": ty, "v": v, "tail": r.choice([[], [0], [255, 1], rbytes(r, r.randrange(9))])}
        yield {"dom": "wire", "op": "encall", "ty": ty, "vs": []}
        yield {"dom": "wire", "op": "decall", "ty": ty, "b": []}
        for _ in range(3):
            vs = [value(r, t) for _ in range(r.randrange(1, 4))]
            yield {"dom": "wire", "op": "encall", "ty": ty, "vs": vs}
            b = [x for v in vs for x in enc(r, t, v)]
            yield {"dom": "wire", "op": "decall", "ty": ty, "b": b}
            yield {"dom": "wire", "op": "decall", "ty": ty, "b": b + [r.randrange(256)]}
    # many inputs/outputs: the vector length classes inside a transaction
    for ni, no in ((252, 1), (253, 2), (1, 253), (2, 300)) if tier == "quick" else ((252, 1), (253, 2), (1, 253), (2, 300), (1000, 3), (3, 5000)):
        v = [[1, 0, 0, 0], [value(r, INP) for _ in range(ni)], [value(r, OUT) for _ in range(no)], [0] * 4]
        yield {"dom": "wire", "op": "ser", "ty": "tx", "v": v}
        yield {"dom": "wire", "op": "rt", "ty": "tx", "v": v, "tail": [7]}
    for ln in (65534, 65535, 65536) if tier == "quick" else (65534, 65535, 65536, 65537, 131072):
        yield {"dom": "wire", "op": "rt", "ty": "bytes", "v": [ln % 251] * ln, "tail": [9]}
    for ln in (252, 253, 3000):
        yield {"dom": "wire", "op": "rt", "ty": "vec_u8", "v": [[j % 256] for j in range(ln)], "tail": []}
    for ty in ("bytes",):
        for ln in (252, 253, 65535, 65536, 65537, 70001) if tier == "quick" else (252, 253, 254, 65534, 65535, 65536, 65537, 70001, 131072, 200000):
            yield {"dom": "wire", "op": "wide", "ty": ty, "n": ln, "x": r.randrange(256), "tail": rbytes(r, r.randrange(3))}
    for ty in ("vec_u8", "vec_u16", "vec_bytes", "vec_in", "script"):
        for ln in (252, 253, 700) if tier == "quick" else (252, 253, 254, 1000, 3000):
            yield {"dom": "wire", "op": "wide", "ty": ty, "n": ln, "x": r.randrange(256), "tail": rbytes(r, r.randrange(3))}
    for ty, ln in (("vec_u8", 65535), ("vec_u16", 65536), ("vec_in", 6000), ("script", 65536), ("script", 600000)) if tier == "quick" else \
            [(ty, ln) for ty in ("vec_u8", "vec_u16", "vec_bytes", "script") for ln in (65534, 65535, 65536, 65537, 70001)] + \
            [("vec_in", 8000), ("vec_in", 16000), ("script", 600000), ("script", 1000000)]:
        yield {"dom": "wire", "op": "wide", "ty": ty, "n": ln, "x": r.randrange(256), "tail": rbytes(r, r.randrange(3))}
    # encodings that are given and only decoded
    for ty, ln in (("vec_u8", 65537),) if tier == "quick" else \
            [(ty, ln) for ty in ("vec_u8", "vec_u16", "vec_bytes") for ln in (65534, 65535, 65536, 65537, 70001)]:
        yield {"dom": "wire", "op": "wide", "ty": ty, "n": ln, "x": r.randrange(256), "tail": rbytes(r, r.randrange(3)), "given": varint(ln)}
    for _ in range(60 if tier == "quick" else 1500):
        yield {"dom": "wire", "op": "hashtx", "v": value(r, TX)}
    for v in varint_values(r, tier):
        b = list(v.to_bytes(8, "little"))
        yield {"dom": "wire", "op": "varint_enc", "n": b}
        for f in range(4):
            e = varint(v, f)
            yield {"dom": "wire", "op": "varint_dec", "b": e + r.choice([[], [1], [255]])}
    # strict decoding of encodings, with and without trailing bytes, annotated or not
    for ty, t in T.items():
        for _ in range(n // 2):
            e = enc(r, t, value(r, t))
            yield {"dom": "wire", "op": "deser", "ty": ty, "b": e + r.choice([[], [], [0], rbytes(r, 3)])}
            yield {"dom": "wire", "op": "desertag", "ty": ty, "b": e + rbytes(r, r.randrange(3)), "cuts": sorted(r.randrange(len(e) + 2) for _ in range(r.randrange(6)))}


def varint_values(r, tier):
    vs = set()
    for k in range(65):
        for d in (-2, -1, 0, 1, 2):
            vs.add(min(max((1 << k) + d, 0), (1 << 64) - 1))
    vs |= set(range(0, 300)) | {65533, 65534, 65535, 65536, 65537}
    for _ in range(100 if tier == "quick" else 3000):
        vs.add(r.getrandbits(r.randrange(1, 65)))
    return sorted(vs)


def hostile(r, t, tier):
    x = r.random()
    if x < .3:
        return enc(r, t, value(r, t), wild=.25)
    e = enc(r, t, value(r, t))
    if x < .55:
        return e[:r.randrange(len(e) + 1)]
    if x < .8 and e:
        for _ in range(r.choice([1, 1, 2, 4])):
            e[r.randrange(len(e))] = r.choice([0, 1, 75, 76, 77, 78, 252, 253, 254, 255, r.randrange(256)])
        return e
    if x < .9:
        p = r.randrange(len(e) + 1)
        return e[:p] + r.choice(HUGE) + e[p:]
    return rbytes(r, r.randrange(60))


def c02(r, tier):
    # a long script is read in reasonable time
    yield {"dom": "wire", "op": "wide", "ty": "script", "n": 600000, "x": r.randrange(256), "tail": [1]}
    n = 40 if tier == "quick" else 900
    for ty, t in ALL.items():
        yield {"dom": "wire", "op": "deser", "ty": ty, "b": []}
        for h in HUGE:
            yield {"dom": "wire", "op": "deser", "ty": ty, "b": h}
            yield {"dom": "wire", "op": "deser", "ty": ty, "b": h + [1] * 40}
        # a huge declared length at every position of one encoding, and every truncation
        e = enc(r, t, value(r, t))
        for p in range(min(len(e), 120)):
            yield {"dom": "wire", "op": "deser", "ty": ty, "b": e[:p]}
            yield {"dom": "wire", "op": "deser", "ty": ty, "b": e[:p] + r.choice(HUGE) + e[p + 1:]}
        for _ in range(n):
            b = hostile(r, t, tier)
            yield {"dom": "wire", "op": "deser", "ty": ty, "b": b}
            if r.random() < .2:
                yield {"dom": "wire", "op": "desertag", "ty": ty, "b": b, "cuts": sorted(r.randrange(len(b) + 2) for _ in range(3))}
            if r.random() < .15 and t != ("struct", []):      # a list of nothings is as long as it says
                yield {"dom": "wire", "op": "decall", "ty": ty, "b": b}
    # scripts whose pushes claim more than there is
    for claim in (2, 76, 255, 256, 65535, 65536, 1 << 20, 1 << 21, 1 << 24, 1 << 26, 1 << 29, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
        for width, op in ((1, 76), (2, 77), (4, 78)):
            if claim < 1 << 8 * width:
                head = [op] + list(claim.to_bytes(width, "little"))
                for before in ([], [0x51], [2, 7, 8, 0x87]):
                    for after in (0, 1, min(claim, 300) - 1):
                        yield {"dom": "script", "op": "scan", "b": before + head + rbytes(r, after)}
    for _ in range(200 if tier == "quick" else 5000):
        yield {"dom": "script", "op": "scan", "b": rbytes(r, r.randrange(4)) + [r.choice([76, 77, 78, 78])] + rbytes(r, r.randrange(60))}
    # every byte as a truth value
    for b in range(256):
        yield {"dom": "wire", "op": "deser", "ty": "bool", "b": [b]}
        yield {"dom": "wire", "op": "deser", "ty": "vec_bool", "b": [2, b, 255 - b]}
    for _ in range(100 if tier == "quick" else 3000):
        yield {"dom": "wire", "op": "varint_dec", "b": rbytes(r, r.randrange(10)) if r.random() < .5 else [r.choice([252, 253, 254, 255])] + rbytes(r, r.randrange(10))}


def c19(r, tier):
    n = 40 if tier == "quick" else 900
    for ty, t in S.items():
        for _ in range(n):
            v = value(r, t, r.random() < .2)
            yield {"dom": "wire", "op": "ser", "ty": ty, "v": v}
            yield {"dom": "wire", "op": "rt", "ty": ty, "v": v, "tail": rbytes(r, r.randrange(6))}
            e = enc(r, t, v, r.choice([0, 0, .2]))
            yield {"dom": "wire", "op": "deser", "ty": ty, "b": e + rbytes(r, r.randrange(3))}
            yield {"dom": "wire", "op": "deser", "ty": ty, "b": e[:r.randrange(len(e) + 1)]}
            yield {"dom": "wire", "op": "desertag", "ty": ty, "b": e + rbytes(r, r.randrange(3)), "cuts": sorted(r.randrange(len(e) + 2) for _ in range(4))}
        vs = [value(r, t) for _ in range(3)]
        if t[1]:
            yield {"dom": "wire", "op": "encall", "ty": ty, "vs": vs}
            yield {"dom": "wire", "op": "decall", "ty": ty, "b": [x for v in vs for x in enc(r, t, v)]}
    for ty in ("outpoint", "output", "input", "tx", "preimage"):
        for _ in range(n // 2):
            v = value(r, T[ty])
            yield {"dom": "wire", "op": "ser", "ty": ty, "v": v}
            yield {"dom": "wire", "op": "rt", "ty": ty, "v": v, "tail": rbytes(r, 2)}
