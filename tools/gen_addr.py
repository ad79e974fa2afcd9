"""Addresses, destinations (C12, C13), hash types (C17) and SLP outputs (C16)."""
from util_gen import *
from gen_builder import code, push, p2pkh_lock, p2sh_lock, rflag

CHARSET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
GEN = [0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470]


def polymod(v):
    c = 1
    for d in v:
        c0 = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ d
        for i in range(5):
            if c0 >> i & 1:
                c ^= GEN[i]
    return c ^ 1


def to5(b):
    n = int.from_bytes(bytes(b), "big") if b else 0
    bits = 8 * len(b)
    pad = -bits % 5
    n <<= pad
    return [n >> 5 * i & 31 for i in reversed(range((bits + pad) // 5))]


def checked(prefix, digits):
    """a text whose checksum is right, whatever the payload"""
    pb = prefix.encode()
    m = polymod([c & 31 for c in pb] + [0] + digits + [0] * 8)
    return prefix + ":" + "".join(CHARSET[d] for d in digits + [m >> 5 * (7 - i) & 31 for i in range(8)])


def addr_text(prefix, ty, h):
    return checked(prefix, to5([ty] + list(h)))


def tb(s):
    return list(s.encode())


PREF = ["bitcoincash", "simpleledger", "bchtest", "bchreg", "slptest", "a", "", "redridinghood", "bitcoincas", "bitcoincashx", "p\u00e9"]


def rprefix(r):
    if r.random() < .75:
        return r.choice(PREF)
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(r.randrange(1, 20)))


def rhash(r, n=20):
    return rbytes(r, n) if r.random() < .9 else [r.choice([0, 255, 128])] * n


def c12(r, tier):
    n = 1 if tier == "quick" else 8
    dec = lambda t: {"dom": "addr", "op": "dec", "text": tb(t), "to": tb(r.choice(PREF))}
    for p in PREF + ["BITCOINCASH", "BitcoinCash", "bitcoincash:", " bitcoincash", "SIMPLELEDGER", "simpleledgeR", "x" * 80]:
        yield {"dom": "addr", "op": "prefix", "text": tb(p)}
    for _ in range(900 * n):
        p, ty = rprefix(r), r.choice([0, 8])
        via = r.choice(["str", "string", "with"])
        if p in ("bitcoincash", "simpleledger") and r.random() < .4:
            via = "kind"
        if p == "bitcoincash" and r.random() < .2:
            via = "default"
        yield {"dom": "addr", "op": "enc", "via": via, "prefix": tb(p), "ty": ty, "hash": rhash(r),
               "to": tb(p if r.random() < .3 else r.choice(PREF))}
    # every value at every byte position of the hash, through the encoder and back
    for i in range(20):
        for v in (range(256) if tier == "thorough" or i in (0, 19) else (1, 2, 4, 8, 16, 32, 64, 128, 255)):
            h = [0] * 20
            h[i] = v
            yield {"dom": "addr", "op": "enc", "via": "str", "prefix": tb("bitcoincash"), "ty": 8 * (v % 2), "hash": h, "to": tb("simpleledger")}
            yield dec(addr_text("bitcoincash", 8 * (v % 2), h))
    # addresses that have much in common, one after the other
    for _ in range(6 * n):
        h, p = rhash(r), r.choice(PREF)
        for a in [h] + neighbours(r, h) + [h]:
            for q in (p, p[:-1], p + "x", p):
                for ty in (0, 8):
                    if q:
                        yield {"dom": "addr", "op": "enc", "via": "str", "prefix": tb(q), "ty": ty, "hash": a, "to": tb(p)}
                        yield dec(addr_text(q, ty, a))
    for p in PREF:
        yield {"dom": "addr", "op": "pk", "prefix": tb(p), "pk": [2] + rbytes(r, 32)}
        yield {"dom": "addr", "op": "redeem", "prefix": tb(p), "ops": rops(r, 3)}
    for _ in range(900 * n):
        p, ty = rprefix(r), r.choice([0, 8])
        t = addr_text(p, ty, rhash(r))
        x = r.random()
        if x < .25:
            yield dec(t)
        elif x < .35:
            yield dec(t.upper() if t.isascii() else t)
        elif x < .6:
            yield dec(t.split(":")[1] if r.random() < .6 else t.split(":")[1].upper())
        elif x < .65:
            u = list(t)
            for _ in range(r.choice([1, 1, 3])):
                i = r.randrange(len(u))
                u[i] = u[i].upper()
            yield dec("".join(u))
        elif x < .7:
            yield dec(rprefix(r) + ":" + t.split(":")[1])
        elif x < .85:
            k = r.choice([0, 1, 2, 33, 33, 34, 34, 35, 35, 36, 40, 50])
            yield dec(checked(p, [r.randrange(32) for _ in range(k)]))
        else:
            v = r.choice([1, 2, 3, 7, 9, 16, 24, 64, 120, 127, 128, 136, 255, r.randrange(256)])
            yield dec(checked(p, to5([v] + rhash(r, r.choice([20, 20, 24, 32])))))
    # a valid text with something around it, or pieces missing
    for _ in range(60 * n):
        t = addr_text(rprefix(r) if r.random() < .5 else "bitcoincash", r.choice([0, 8]), rhash(r))
        p, q = t.split(":")
        for u in ("junk:" + t, p + ":" + t, ":" + t, t + ":", t + ":" + q, p + "::" + q, ":" + q, p + q, " " + t, t + " ", t + "\n",
                  "bitcoincash:" + t, q + ":" + t, p + ":" + q + q, p[1:] + ":" + q, p + "x:" + q, t + "q", t[:-1], p + ":q" + q, p + ":" + q[1:]):
            yield dec(u)
    for _ in range(40 * n):
        yield dec(checked(rprefix(r) + ":" + rprefix(r), to5([0] + rhash(r))))
    for p in PREF[:3]:
        pay = to5([0] + rhash(r))
        for d in range(1, 4):
            q = list(pay)
            q[33] |= d
            yield dec(checked(p, q))
    # a good payload with whole digits, bytes or padding too many or too few
    for p in PREF[:4] + ["bitcoincash"] * 4:
        b = [r.choice([0, 8])] + rhash(r)
        q = to5(b)
        for u in (q + [0], q + [0, 0], q + [0] * 8, [0] + q, q[:-1], q[:-1] + [0], to5(b + [0]), to5([0] + b), to5(b[:-1]), to5(b[:-1] + [0]), q + [1], q + [31],
                  to5([0] + [0] * 20) + [0], to5([8] + [0] * 19)):
            yield dec(checked(p, u))
            yield dec(checked(p, u).upper() if p.isascii() else checked(p, u))
            if p == "bitcoincash":
                yield dec(checked(p, u).split(":")[1])
    # every single change, and random changes of two to five characters
    for k in range(1 if tier == "quick" else 4):
        p = PREF[k]
        t = addr_text(p, 8 * (k % 2), rbytes(r, 20))
        o = len(p) + 1
        for i in range(42):
            for c in CHARSET + "bio1:":
                if c != t[o + i]:
                    yield dec(t[:o + i] + c + t[o + i + 1:])
        for i in range(o):
            for c in "bz1:B\u00e9":
                yield dec(t[:i] + c + t[i + 1:])
        for i in range(len(t) + 1):
            yield dec(t[:i] + r.choice(CHARSET) + t[i:])
            yield dec(t[:i] + t[i + 1:])
            yield dec(t[:i])
        for i in range(len(t) - 1):
            yield dec(t[:i] + t[i + 1] + t[i] + t[i + 2:])
    for _ in range(500 * n):
        p = r.choice(PREF)
        t = list(addr_text(p, r.choice([0, 8]), rbytes(r, 20)))
        for i in r.sample(range(len(p) + 1, len(t)), r.choice([2, 3, 4, 5])):
            t[i] = r.choice([c for c in CHARSET if c != t[i]])
        yield dec("".join(t))
    for t in ["", ":", "::", "q", "bitcoincash", "bitcoincash:", ":q", " ", "\u00e9", "bitcoincash:\u00e9" + "q" * 41, "Q" * 42, "q" * 42,
              "q" * 34, "q" * 8, "q" * 7, "q" * 500, "bitcoincash:" + "q" * 1000, "\x00", "\uffff" * 20]:
        yield dec(t)


def c13(r, tier):
    n = 1 if tier == "quick" else 6
    for _ in range(400 * n):
        yield {"dom": "addr", "op": "lock", "prefix": tb(rprefix(r)), "ty": r.choice([0, 8]), "hash": rhash(r)}
        yield {"dom": "addr", "op": "pk", "prefix": tb(rprefix(r)), "pk": [r.choice([2, 3, 4, 0])] + rbytes(r, 32)}
        yield {"dom": "addr", "op": "redeem", "prefix": tb(rprefix(r)), "ops": rops(r, r.choice([0, 1, 3, 6]))}
    flags = list(range(256))
    for _ in range(3000 * n):
        x = r.random()
        hl = r.choice([20, 20, 20, 20, 0, 1, 19, 21, 32, 33])
        if x < .2:
            ops = [code(118), code(169), push(rbytes(r, hl), r.random() < .7), code(136), code(172)]
        elif x < .35:
            ops = [code(169), push(rbytes(r, hl), r.random() < .7), code(135)]
        elif x < .45:
            ops = [push(rbytes(r, r.choice([0, 1, 33, 33, 65, 20])), r.random() < .7), code(172)]
        elif x < .55:
            ops = [code(106)] + rops(r, r.choice([0, 1, 2, 4]))
        elif x < .85:
            sl = r.choice([0, 1, 9, 65, 71, 72, 73])
            sig = rbytes(r, sl)
            if sl:
                sig[-1] = r.choice(flags) if r.random() < .7 else rflag(r)
            ops = [push(sig, r.random() < .7), push(rbytes(r, r.choice([33, 33, 33, 33, 32, 34, 65, 0])), r.random() < .8)]
        else:
            ops = rops(r, r.choice([0, 1, 2, 3, 5]))
        # near misses
        if r.random() < .3 and ops:
            y = r.random()
            i = r.randrange(len(ops))
            if y < .3:
                ops[i] = rop(r)
            elif y < .5:
                ops.insert(i, rop(r))
            elif y < .65:
                ops.append(rop(r))
            elif y < .8:
                del ops[i]
            else:
                j = r.randrange(len(ops))
                ops[i], ops[j] = ops[j], ops[i]
        c = {"dom": "addr", "op": "dest", "prefix": tb(rprefix(r)), "form": "ops", "ops": ops, "b": []}
        if r.random() < .5:
            c = dict(c, form="bytes", ops=[], b=wild_script(r, ops, .15))
        yield c
    # every final byte of a signature
    for b in range(256):
        yield {"dom": "addr", "op": "dest", "prefix": tb("bitcoincash"), "form": "ops", "b": [],
               "ops": [push(rbytes(r, r.choice([0, 1, 70])) + [b]), push([2] + rbytes(r, 32))]}
    # templates with every opcode in every code position
    for tmpl in (p2pkh_lock(r), p2sh_lock(r), [push([3] + rbytes(r, 32)), code(172)], [code(106), push([1, 2])]):
        for i, o in enumerate(tmpl):
            if o["k"] == "code":
                for c in range(256):
                    b = ser_ops(tmpl[:i]) + [c] + ser_ops(tmpl[i + 1:])
                    yield {"dom": "addr", "op": "dest", "prefix": tb("bitcoincash"), "form": "bytes", "ops": [], "b": b}


HT = ["Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160"]
HL = {"Sha1": 20, "Ripemd160": 20, "Sha256": 32, "Hash256": 32, "Hash160": 20}


def rtree(r, depth):
    from gen_prov import FUNS
    name = [] if r.random() < .5 else [r.choice(["a", "msg", "pubkey"])]
    if depth == 0 or r.random() < .5:
        return {"d": rbytes(r, r.choice([0, 1, 2, 20, 32, 33, 55, 56, 63, 64, 65, 119, 120, 128, 200])), "n": name, "f": "Plain", "p": []}
    parts = [rtree(r, depth - 1) for _ in range(r.choice([1, 2, 3]))]
    if r.random() < .6:
        return {"d": [b for p in parts for b in p["d"]], "n": name, "f": "Plain", "p": [parts]}
    return {"d": rbytes(r, 8), "n": name, "f": r.choice(FUNS[1:]), "p": [parts[:1]]}


def c17(r, tier):
    n = 1 if tier == "quick" else 8
    for ty in HT:
        for k in list(range(0, 130)) + [183, 184, 247, 248, 1000, 5000]:
            yield {"dom": "hash", "op": "digest", "ty": ty, "msg": {"d": rbytes(r, k), "n": [], "f": "Plain", "p": []}}
        for _ in range(100 * n):
            yield {"dom": "hash", "op": "digest", "ty": ty, "msg": rtree(r, 2)}
        # messages that have much in common, one after the other
        for k in (8, 20, 32, 33, 64, 65, 80, 148, 300):
            b = rbytes(r, k)
            for v in neighbours(r, b) + [b]:
                yield {"dom": "hash", "op": "digest", "ty": ty, "msg": {"d": v, "n": [], "f": "Plain", "p": []}}
        frm = lambda form, b: {"dom": "hash", "op": "from", "ty": ty, "form": form, "b": b}
        for _ in range(150 * n):
            form = r.choice(["hexle", "hexbe", "slice", "slicele", "array", "json", "bin", "wire", "new"])
            k = HL[ty] if r.random() < .65 else r.choice([0, 1, 19, 20, 21, 31, 32, 33, 40, 64])
            b = rbytes(r, k)
            if form in ("hexle", "hexbe", "json"):
                t = bytes(b).hex()
                x = r.random()
                if x < .2:
                    t = t.upper()
                elif x < .3:
                    t = "".join(c.upper() if r.random() < .5 else c for c in t)
                elif x < .5 and t:
                    i = r.randrange(len(t))
                    t = t[:i] + r.choice("gz:/@`G \u00e9x") + t[i + 1:]
                elif x < .6:
                    t = t[:-1]
                elif x < .65:
                    t = "0x" + t[2:]
                b = tb(t)
            yield frm(form, b)
        for k in (0, 1, 19, 20, 21, 31, 32, 33, 64, 1000):
            for form in ("hexle", "hexbe", "slice", "slicele", "array", "json", "bin", "wire", "new"):
                yield frm(form, tb(bytes(rbytes(r, k)).hex()) if form in ("hexle", "hexbe", "json") else rbytes(r, k))
        # something around or within a text that is otherwise right
        for form in ("hexle", "hexbe", "json"):
            for x in (" ", "  ", "\n", "\r\n", "\t", "\0", "0x", "0X", "#", "h", "+", "-", "_", ":", ".", "\"", "'", "\ufeff", "\u00a0", "\u3000", "\uff10"):
                t = bytes(rbytes(r, HL[ty])).hex()
                i = 2 * r.randrange(1, HL[ty])
                for u in (x + t, t + x, x + t + x, t[:i] + x + t[i:], x + t[len(x):], t[:-len(x)] + x, t[:i] + x + x + t[i + 2 * len(x):]):
                    yield frm(form, tb(u))
            yield frm(form, tb(" ".join(t[i:i + 2] for i in range(0, len(t), 2))))
        for t in ["", "1", "null", "true", "[]", "[1,2]", "{}", "\"", "\"00", "[" + ",".join(["0"] * HL[ty]) + "]", "\"zz\"", "1e400", "-1"]:
            yield frm("rawjson", tb(t))


def ramount(r):
    return rint_bytes(r, 8)


def rtext(r):
    x = r.random()
    if x < .2:
        return []
    if x < .35:
        return [r.choice([1, 5, 16, 0x41, 0x31])]
    n = r.choice([1, 2, 3, 8, 32, 64, 75, 76, 77, 200, 255, 256, 300])
    s = "".join(r.choice("ABCxyz019 :/.\u00e9\u20bf") for _ in range(n))
    return tb(s)


def c16(r, tier):
    n = 1 if tier == "quick" else 8
    tts = [1, 0x41, 0x81]
    for tt in tts:
        for k in range(0, 22):
            yield {"dom": "slp", "op": "send", "tt": tt, "id": rbytes(r, 32), "amounts": [ramount(r) for _ in range(k)]}
    for _ in range(500 * n):
        yield {"dom": "slp", "op": "send", "tt": r.choice(tts), "id": rbytes(r, 32), "amounts": [ramount(r) for _ in range(r.choice([0, 1, 2, 5, 19]))]}
        yield {"dom": "slp", "op": "amounts", "amounts": [ramount(r) for _ in range(r.choice([0, 1, 2, 5]))]}
        yield {"dom": "slp", "op": "id", "id": rbytes(r, 32)}
        yield {"dom": "slp", "op": "idslice", "b": rbytes(r, r.choice([32, 32, 0, 31, 33]))}
        yield {"dom": "slp", "op": "genesis", "tt": r.choice(tts), "ticker": rtext(r), "name": rtext(r), "url": rtext(r),
               "dochash": rtext(r), "decimals": r.choice([0, 1, 8, 9, 16, 81, 129, 255]),
               "baton": r.choice([[], [0], [1], [2], [16], [129], [255]]), "qty": ramount(r)}
    for k in range(200 * n):
        yield {"dom": "slp", "op": "tx", "tx": rtx_full(r)}


def rinput_full(r):
    o = lambda v: [] if r.random() < .4 else [v]
    return {"prev": [rbytes(r, 32), rint_bytes(r, 4)], "script": rops(r, r.choice([0, 1, 3])), "seq": rint_bytes(r, 4),
            "lock": o(rops(r, 2)), "value": o(ramount(r)), "p2sh": o(r.random() < .5), "flags": o([rflag(r) for _ in range(r.choice([0, 1, 2]))])}


def rtx_full(r):
    return {"version": rint_bytes(r, 4), "ins": [rinput_full(r) for _ in range(r.choice([0, 1, 2, 4]))],
            "outs": [[ramount(r), rops(r, r.choice([0, 1, 3]))] for _ in range(r.choice([0, 1, 2, 4]))], "lt": rint_bytes(r, 4)}
