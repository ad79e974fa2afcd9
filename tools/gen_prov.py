"""Histories of annotated byte arrays (C06)."""
from util_gen import *

FUNS = ["Plain", "Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160", "Num2Bin", "EcdsaSign", "SchnorrSign", "ToDataSig",
        "UnexpectedSplit", "Reverse"]
HASHES = ["Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160"]
HLEN = {"Sha1": 20, "Ripemd160": 20, "Sha256": 32, "Hash256": 32, "Hash160": 20}


def rname(r):
    return [] if r.random() < .5 else [r.choice(["a", "bb", "sig", "pubkey", "hash", "x1"])]


def session(r, n):
    """lens: the length of each register if every call does what the property says."""
    lens, ev = [], []
    for k in range(r.choice([1, 2, 3])):
        d = rbytes(r, r.choice([0, 1, 2, 3, 5, 8]))
        ev.append({"op": "new", "d": d, "n": rname(r)})
        lens.append(len(d))
    size = [1] * len(lens)
    for _ in range(n):
        x = r.random()
        k = len(lens)
        pick = lambda: r.randrange(k) if r.random() < .4 else r.randrange(max(0, k - 3), k)
        a, b = pick(), pick()
        if x < .3 and size[a] + size[b] < 40 and lens[a] + lens[b] < 150:
            ev.append({"op": "concat", "a": a, "b": b, "n": rname(r)})
            lens.append(lens[a] + lens[b]); size.append(size[a] + size[b] + 1)
        elif x < .36:
            rs = [pick() for _ in range(r.randrange(0, 4))]
            if sum(size[i] for i in rs) < 40 and sum(lens[i] for i in rs) < 150:
                ev.append({"op": "parts", "rs": rs})
                lens.append(sum(lens[i] for i in rs)); size.append(1 + sum(size[i] for i in rs))
        elif x < .62:
            at = r.randrange(0, lens[a] + 1) if r.random() < .95 else lens[a] + r.choice([1, 2, 1000])
            ev.append({"op": "split", "a": a, "at": at})
            if at <= lens[a]:
                lens += [at, lens[a] - at]; size += [size[a] + 1] * 2
        elif x < .7:
            ev.append({"op": "named", "a": a, "n": rname(r)})
            lens.append(lens[a]); size.append(size[a])
        elif x < .78 and size[a] < 40:
            f = r.choice(HASHES)
            ev.append({"op": "hash", "a": a, "f": f})
            lens.append(HLEN[f]); size.append(size[a] + 1)
        elif x < .82 and size[a] + size[b] < 40:
            f = r.choice(HASHES)
            ev.append({"op": "hashcat", "a": a, "b": b, "f": f})
            lens.append(HLEN[f] + lens[b]); size.append(size[a] + size[b] + 2)
        elif x < .86:
            w = r.choice([1, 4, 20, 32])
            if r.random() < .4:
                d = rbytes(r, w if r.random() < .7 else r.choice([0, w - 1, w + 1, 2 * w]))
                ev.append({"op": "fixed", "w": w, "d": d, "n": rname(r)})
                if len(d) == w:
                    lens.append(w); size.append(1)
            else:
                same = [i for i in range(k) if lens[i] in (1, 4, 20, 32)]
                if same and r.random() < .8:
                    a = r.choice(same)
                    w = lens[a]
                ev.append({"op": "refix", "w": w, "a": a, "n": rname(r)})
                if lens[a] == w:
                    lens.append(w); size.append(size[a])
        elif x < .89:
            f = r.randrange(lens[a] + 1)
            ev.append({"op": "look", "a": a, "from": f, "to": r.randrange(f, lens[a] + 1)})
        elif x < .95 and size[a] < 40:
            f = r.choice([f for f in FUNS if f != "Plain" and f not in HASHES])
            d = rbytes(r, r.choice([0, 1, lens[a], 8, 64]))
            ev.append({"op": "apply", "a": a, "d": d, "f": f})
            lens.append(len(d)); size.append(size[a] + 1)
        else:
            w = r.choice([0, -1, 1, 1, 2, 3, 4, 5, 8, 20])
            v = rscriptint(r)
            if r.random() < .6 and w > 0:
                e = 8 * min(w, 4) - 1
                v = min((1 << e) + r.choice([-2, -1, -1, 0, 1]), 2**31 - 1) * r.choice([1, -1])
            ev.append({"op": "pad", "v": v, "len": w})
            fits = w >= 1 and (w >= 4 or abs(v) < 1 << (8 * w - 1))
            if fits:
                lens.append(w); size.append(1)
    return {"dom": "prov", "ev": ev}


def c06(r, tier):
    n = 2500 if tier == "quick" else 40000
    for _ in range(n):
        yield session(r, r.choice([2, 4, 8, 12, 18]))
    # every padding of small numbers and all width boundaries
    ev = []
    for w in [-2**31 + 1, -5, 0, 1, 2, 3, 4, 5, 9]:
        for v in [0, 1, -1, 127, -127, 128, -128, 255, 256, 32767, -32767, 32768, -32768, 8388607, -8388607, 8388608, -8388608, 2**31 - 1, -2**31 + 1]:
            ev.append({"op": "pad", "v": v, "len": w})
    for k in range(0, len(ev), 15):
        yield {"dom": "prov", "ev": ev[k:k + 15]}
    # a history of very many steps
    for f in ["Sha256", "Hash160"] if tier == "quick" else ["Sha256", "Hash160", "Sha1", "Ripemd160", "Hash256"]:
        yield {"dom": "prov", "ev": [{"op": "chain", "f": f, "d": rbytes(r, 4), "n": r.choice([150000, 200000, 250000])}]}
    for w in [2**28 - 1, 2**28, 2**28 + 1, 2**29 + 3]:
        yield {"dom": "prov", "ev": [{"op": "widepad", "v": r.choice([-7, 300, -2**31 + 1]), "len": w}]}
