"""Cases for C18: signing, verifying, key derivation, normalisation."""
import hashlib, hmac
from util_gen import *
from gen_addr import rtree as ptree

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    if a is None or b is None:
        return a or b
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def mul(k, q):
    r = None
    while k:
        if k & 1:
            r = add(r, q)
        q = add(q, q)
        k >>= 1
    return r


def b32(x):
    return list((x % 2 ** 256).to_bytes(32, "big"))


def comp(q):
    return [2 + (q[1] & 1)] + b32(q[0])


def full(q, tag=4):
    return [tag] + b32(q[0]) + b32(q[1])


def intb(x):
    b = list(x.to_bytes(max(1, (x.bit_length() + 7) // 8), "big"))
    return [0] + b if b[0] & 128 else b


def dlen(n):
    if n < 128:
        return [n]
    b = list(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    return [128 + len(b)] + b


def derb(r, s):
    b = [2] + dlen(len(r)) + r + [2] + dlen(len(s)) + s
    return [0x30] + dlen(len(b)) + b


def der(r, s):
    return derb(intb(r), intb(s))


def sign(d, z, k):
    r = mul(k, G)[0] % N
    return r, pow(k, -1, N) * (z + r * d) % N


EDGE = [1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1, 2 ** 255, 2 ** 128, 255, 2 ** 248]


def scalar(r):
    x = r.random()
    if x < .3:
        return r.choice(EDGE)
    if x < .5:
        return r.getrandbits(r.choice([8, 64, 128, 240, 248, 255])) % N or 1
    return r.randrange(1, N)


def rmsg(r):
    x = r.random()
    if x < .15:
        return r.choice([0, 1, N - 1, N, N + 1, 2 ** 256 - 1, 2 ** 255])
    return r.getrandbits(256)


def lax(r, a, b):
    """the same numbers in a relaxed encoding"""
    def num(x):
        c = list(x.to_bytes((x.bit_length() + 7) // 8, "big"))
        c = [0] * r.choice([0, 0, 0, 1, 1, 3, 20]) + c
        k = r.random()
        if k < .7 and len(c) < 128:
            l = [len(c)]
        else:
            lb = dlen(len(c))[1:] if len(c) >= 128 else [len(c)]
            lb = [0] * r.choice([0, 1, 2, 9]) + lb
            l = [128 + len(lb)] + lb
        return [2] + l + c
    body = num(a) + num(b) + rbytes(r, r.choice([0, 0, 0, 1, 5]))
    k = r.random()
    if k < .5:
        l = [len(body) & 127]
    elif k < .7:
        l = [r.randrange(128)]
    else:
        n = r.choice([0, 1, 2, 5])
        l = [128 + n] + rbytes(r, n)
    return [0x30] + l + body


def mangle(r, sig):
    s = list(sig)
    k = r.randrange(8)
    if k == 0 and s:
        s[r.randrange(len(s))] ^= 1 << r.randrange(8)
    elif k == 1 and s:
        del s[r.randrange(len(s))]
    elif k == 2:
        s.insert(r.randrange(len(s) + 1), r.choice([0, 1, 2, 255, 128, 48]))
    elif k == 3:
        s = s[:r.randrange(len(s) + 1)]
    elif k == 4:
        s += rbytes(r, r.choice([1, 2, 64]))
    elif k == 5 and len(s) > 4:
        i = r.choice([0, 1, 2, 3, 4, 5 + s[3] if 5 + s[3] < len(s) else 5])
        s[min(i, len(s) - 1)] = r.choice([0, 1, 2, 3, 32, 33, 34, 70, 127, 128, 129, 130, 255])
    elif k == 6:
        s = rbytes(r, r.choice([0, 1, 2, 8, 64, 70, 72]))
    else:
        s[0:2] = r.choice([[48, 129], [48, 128], [49, s[1]], [48, 130, 0], [48]])
    return s


def cases(r, be, n):
    def ev(op, **k):
        return dict({"dom": "ecc", "be": be, "op": op}, **k)
    leaf = lambda d: {"d": d, "n": [], "f": "Plain", "p": []}
    # key derivation
    for d in EDGE + [scalar(r) for _ in range(10 * n)]:
        yield ev("derive", sk=b32(d))
    for b in ([b32(0), b32(N), b32(N + 1), b32(2 ** 256 - 1)] + [rbytes(r, k) for k in (0, 1, 31, 33, 64)] + [[0] + b32(1), b32(1)[1:]]):
        yield ev("derive", sk=b)
        yield ev("sign", sk=b, msg=leaf(rbytes(r, 32)))
    # signing
    for _ in range(25 * n):
        yield ev("sign", sk=b32(scalar(r)), msg=leaf(b32(rmsg(r))))
    for k in (0, 1, 31, 33, 64):
        yield ev("sign", sk=b32(scalar(r)), msg=leaf(rbytes(r, k)))
    # one message under neighbouring keys, neighbouring messages under one key
    sk, m = b32(r.getrandbits(255)), b32(rmsg(r))
    for a, b in [(sk, m)] + [(a, m) for a in neighbours(r, sk)] + [(sk, b) for b in neighbours(r, m)] + [(sk, m)]:
        if 0 < int.from_bytes(bytes(a), "big") < N:
            yield ev("sign", sk=a, msg=leaf(b))
            if r.random() < .4:
                yield ev("derive", sk=a)
    for _ in range(6 * n):
        m = ptree(r, 2)
        yield ev("sign", sk=b32(scalar(r)), msg=m)
        h = {"d": list(hashlib.sha256(bytes(m["d"])).digest()), "n": r.choice([[], ["digest"]]), "f": "Sha256", "p": [[m]]}
        yield ev("sign", sk=b32(scalar(r)), msg=h)
    # verifying
    for i in range(30 * n):
        d, z, k = scalar(r), rmsg(r), scalar(r)
        q = mul(d, G)
        a, s = sign(d, z % N, k)
        if a == 0 or s == 0:
            continue
        lo, hi = min(s, N - s), max(s, N - s)
        v = lambda **x: ev("verify", **dict(dict(pub=comp(q), msg=b32(z), sig=der(a, lo)), **x))
        yield v()
        x = i % 15
        if x == 0:
            yield v(sig=der(a, hi))
        elif x == 1:   # the other message with this signature: -z - 2rd
            yield v(msg=b32((-z - 2 * a * d) % N))
            if z + N < 2 ** 256:
                yield v(msg=b32(z + N))
        elif x == 2:
            yield v(msg=b32(z ^ (1 << r.randrange(256))))
        elif x == 3:
            yield v(pub=comp((q[0], P - q[1])))
            yield v(pub=full(q))
        elif x == 4:
            yield v(pub=comp(mul(scalar(r), G)))
            yield v(pub=full(q, 6 + (q[1] & 1)))
            yield v(pub=full(q, 7 - (q[1] & 1)))
        elif x == 5:
            yield v(sig=der(lo, a) if a != lo else der(a, lo + 1))
            yield v(sig=der(a, lo % (N - 1) + 1))
        elif x == 6:
            for rr, ss in ((a, 0), (0, lo), (0, 0), (N, lo), (a, N), (a + N, lo), (a, lo + N), (2 ** 256 - 1, lo), (a, 2 ** 264), (2 ** 1100, lo)):
                yield v(sig=der(rr, ss))
        elif x == 7:
            yield v(sig=derb([0] + intb(a), intb(lo)))
            yield v(sig=derb(intb(a), [0] + intb(lo)))
            yield v(sig=derb(b32(N - 5), intb(lo)))
            yield v(sig=derb([], intb(lo)))
            yield v(sig=derb([255] + b32(N - 5), intb(lo)))
        elif x == 8:
            for m in (0, 1, 31, 33, 64):
                yield v(msg=rbytes(r, m))
        elif x == 9:
            bad = next(t for t in (r.randrange(P) for _ in range(100)) if pow(t ** 3 + 7, (P - 1) // 2, P) != 1)
            for p in ([], [2], [2] + b32(bad), [3] + b32(P), [2] + b32(P + 3), [2] + b32(2 ** 256 - 1), [4] + comp(q)[1:], [0] * 33, [5] + b32(q[0]),
                      comp(q) + [0], comp(q)[:-1], full((q[0], q[1] ^ 1)), full((P + 1, q[1])), full(q)[:-1], [2] + full(q)[1:], rbytes(r, 65)):
                yield v(pub=p)
        elif x == 10:
            yield v(sig=lax(r, a, lo))
        elif x == 11:
            # a point R whose x lies between n and p: r = x - n.  s and z chosen to fit
            xx = next(t for t in range(N + r.randrange(10 ** 9), P) if pow(t ** 3 + 7, (P - 1) // 2, P) == 1)
            R = (xx, pow(xx ** 3 + 7, (P + 1) // 4, P))
            rr, w, u = xx - N, scalar(r), scalar(r)
            # R = u G + w Q  =>  Q = (R - uG) / w ;  s = r / w, z = u s
            Q = mul(pow(w, -1, N), add(R, mul(N - u, G)))
            s2 = rr * pow(w, -1, N) % N
            z2 = u * s2 % N
            if s2 > N // 2:
                s2, z2 = N - s2, z2
            yield v(pub=comp(Q), msg=b32(z2), sig=der(rr, s2))
            yield v(pub=comp(Q), msg=b32(z2 + 1), sig=der(rr, s2))
        else:
            for _ in range(4):
                yield v(sig=mangle(r, der(a, lo)))
    # normalisation
    for _ in range(40 * n):
        a, s = scalar(r), scalar(r)
        x = r.random()
        if x < .3:
            b = der(a, s)
        elif x < .4:
            b = der(a, r.choice([1, N // 2, N // 2 + 1, N - 1]))
        elif x < .65:
            b = lax(r, a, s)
        elif x < .75:
            b = der(*r.choice([(0, s), (a, 0), (N, s), (a, N), (a + N, s), (2 ** 256, s), (a, 2 ** 300)]))
        else:
            b = mangle(r, lax(r, a, s) if r.random() < .4 else der(a, s))
        yield ev("norm", sig=b)


def c18(r, tier):
    yield from cases(r, "c", 4 if tier == "quick" else 40)


def c18_rust(r, tier, work, binary, _=()):
    import vlib, json
    b = vlib.build_harness("rust_ecc", tag="rust")
    cs = list(cases(r, "rust", 2 if tier == "quick" else 20))
    p = vlib.run_harness(b, cs, work, "eccrust")
    return {"ecc": [json.loads(l) for l in vlib.read_events(p)]}
