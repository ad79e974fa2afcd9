"""Lists of values that are equal, nearly equal, or equal but for what is recorded about them (C23)."""
import copy
from util_gen import *
from gen_json import rtx, rtagged, rscript, rname, rnames, u32, tb
from gen_json import rtree as jtree
from gen_addr import HL, PREF

TREES = ["bytes"] + list(HL) + ["tokenid"]


def flip(r, b):
    b = list(b)
    if not b:
        return [r.randrange(256)]
    x = r.random()
    if x < .6:
        i = r.choice([0, len(b) - 1, r.randrange(len(b))])
        b[i] ^= 1 << r.randrange(8)
    elif x < .8:
        b = b[::-1]
    else:
        b = b[1:] + b[:1]
    return b


def redress(r, t):
    """the same byte array with something else recorded"""
    new = jtree(r, 2, [])
    new["d"] = list(t["d"])
    return new


def retag(r, t):
    """the same operation from somewhere else"""
    t = copy.deepcopy(t)
    for k, f in (("file", lambda: rname(r)), ("line", lambda: u32(r)), ("col", lambda: u32(r)), ("names", lambda: rnames(r)), ("alt", lambda: rnames(r)),
                 ("code", lambda: [[u32(r), rname(r)] for _ in range(r.choice([0, 1, 2]))])):
        if r.random() < .4:
            t[k] = f()
    if t["o"]["k"] == "push" and r.random() < .7:
        t["o"]["a"] = [redress(r, t["o"]["a"][0])]
    return t


def int_of(d):
    """the number a short byte string stands for"""
    if len(d) > 4:
        return None
    v = int.from_bytes(bytes(d[:-1] + [d[-1] & 127]), "little") if d else 0
    return -v if d and d[-1] & 128 else v


def reop(r, t):
    """nearly the same operation"""
    t = copy.deepcopy(t)
    o = t["o"]
    x = r.random()
    if r.random() < .35 and o["k"] in ("push", "int", "bool"):
        # the same data pushed by another kind of operation
        d = o["a"][0]["d"] if o["k"] == "push" else script_num(o["c"])
        leaf = {"d": list(d), "n": [], "f": "Plain", "p": []}
        forms = [("push", 0, [leaf])]
        n = next((i for i in (int_of(d),) if i is not None and script_num(i) == list(d)), None)
        if n is not None:
            forms += [("int", n, [])] + [("bool", n, [])] * (n in (0, 1)) + [("code", 80 + n if n else 0, [])] * (0 <= n <= 16)
        k, c, a = r.choice([f for f in forms if f[0] != o["k"]] or forms)
        t["o"] = {"k": k, "c": c, "m": k == "push" and r.random() < .7, "a": a}
        return t
    if o["k"] == "push":
        if x < .25:
            o["m"] = not o["m"]
        elif x < .8:
            a = dict(o["a"][0])
            y = r.random()
            a["d"] = flip(r, a["d"]) if y < .6 else list(a["d"]) + [0] if y < .8 else list(a["d"])[:-1]
            o["a"] = [a]
        elif len(o["a"][0]["d"]) == 1:
            t["o"] = {"k": "int", "c": o["a"][0]["d"][0], "m": False, "a": []}
        else:
            t["o"] = {"k": "bool", "c": 0, "m": False, "a": []}
    elif o["k"] == "bool":
        t["o"] = r.choice([{"k": "bool", "c": 1 - o["c"]}, {"k": "int", "c": o["c"]}, {"k": "code", "c": 81 * o["c"]}])
    elif o["k"] == "int":
        c = o["c"]
        t["o"] = r.choice([{"k": "int", "c": -c if c else 1}, {"k": "int", "c": c ^ (1 << r.randrange(31))}, {"k": "int", "c": c % 256}, {"k": "bool", "c": c & 1}])
        t["o"]["c"] = max(t["o"]["c"], -2**31 + 1)
    elif o["k"] == "code":
        t["o"] = {"k": "code", "c": r.choice([c for c in ASSIGNED if c not in (76, 77, 78)])}
    else:
        t["o"] = r.choice([{"k": "inv", "c": r.randrange(190, 256)}, {"k": "int", "c": o["c"]}, {"k": "code", "c": 97}])
    t["o"] = dict({"m": False, "a": []}, **t["o"])
    return t


def rescript(r, s, near):
    if not near:
        return [retag(r, t) for t in s]
    s = [dict(t) for t in s]
    x = r.random()
    if not s or x < .15:
        s.insert(r.randrange(len(s) + 1), rtagged(r, []))
    elif x < .3:
        del s[r.randrange(len(s))]
    elif x < .45 and len(s) > 1:
        i = r.randrange(len(s) - 1)
        s[i], s[i + 1] = s[i + 1], s[i]
    elif x < .55:
        s = s + s[-1:]
    else:
        i = r.randrange(len(s))
        s[i] = reop(r, s[i])
    return s


def reinput(r, i, near):
    i = dict(i)
    if not near:
        i["prev"] = redress(r, i["prev"])
        i["script"] = rescript(r, i["script"], False)
        i["lock"] = [rescript(r, s, False) for s in i["lock"]]
        return i
    k = r.choice(list(i))
    if k == "prev":
        i[k] = dict(i[k], d=flip(r, i[k]["d"]))
    elif k in ("vout", "seq"):
        i[k] = flip(r, i[k])
    elif k == "script":
        i[k] = rescript(r, i[k], True)
    elif k == "lock":
        i[k] = [] if i[k] and r.random() < .3 else [rescript(r, i[k][0], True)] if i[k] else [[]]
    elif k == "value":
        i[k] = [] if i[k] and r.random() < .3 else [flip(r, i[k][0])] if i[k] else [[0] * 8]
    elif k == "p2sh":
        i[k] = r.choice([x for x in ([], [True], [False]) if x != i[k]])
    else:
        f = i[k]
        i[k] = r.choice([[]] if f else [[[]], [[[65, 0, 0, 0]]]]) if r.random() < .4 or not f else [f[0] + [[65, 0, 0, 0]]] if r.random() < .5 or not f[0] else [f[0][:-1]]
    return i


def retx(r, t, near):
    t = dict(t, ins=list(t["ins"]), outs=list(t["outs"]))
    if not near:
        t["ins"] = [reinput(r, i, False) for i in t["ins"]]
        t["outs"] = [dict(o, script=rescript(r, o["script"], False)) for o in t["outs"]]
        return t
    x = r.random()
    if x < .1:
        t["version"] = flip(r, t["version"])
    elif x < .2:
        t["lt"] = flip(r, t["lt"])
    elif x < .3:
        k = r.choice(["ins", "outs"])
        t[k] = t[k][:-1] if r.random() < .5 else t[k] + t[k][-1:]
    elif x < .35:
        k = r.choice(["ins", "outs"])
        t[k] = t[k][::-1]
    elif x < .7 and t["ins"]:
        i = r.randrange(len(t["ins"]))
        t["ins"][i] = reinput(r, t["ins"][i], True)
    elif t["outs"]:
        i = r.randrange(len(t["outs"]))
        o = dict(t["outs"][i])
        if r.random() < .5:
            o["value"] = flip(r, o["value"])
        else:
            o["script"] = rescript(r, o["script"], True)
        t["outs"][i] = o
    return t


def rflags(r):
    return [r.choice([0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 1, 2, 3]), 0, 0, 0]


def rvia(r, p):
    return r.choice(["parts", "with"] + (["text"] if p and p.isascii() else []) + (["kind"] if p in ("bitcoincash", "simpleledger") else []))


def value(r, ty):
    if ty in TREES:
        t = jtree(r, 2, [])
        n = {"bytes": r.choice([len(t["d"]), 31, 64, 65, 200]), "tokenid": 32}.get(ty) if ty not in HL else HL[ty]
        t["d"] = rbytes(r, n)
        return t
    if ty in ("op", "tagged"):
        t = rtagged(r, [])
        if t["o"]["k"] == "push" and r.random() < .4:
            t["o"]["a"][0]["d"] = script_num(rscriptint(r))
        return t
    if ty == "script":
        return rscript(r, [])
    if ty in ("tx", "hashedtx", "input", "output", "outpoint"):
        t = rtx(r)
        need = "outs" if ty == "output" else "ins"
        while ty not in ("tx", "hashedtx") and not t[need]:
            t = rtx(r)
        if ty != "tx" and ty != "hashedtx":
            t["ins"], t["outs"] = (t["ins"][:1], []) if need == "ins" else ([], t["outs"][:1])
        return t
    if ty == "addr":
        h = jtree(r, 1, [])
        h["d"] = rbytes(r, 20)
        p = r.choice(PREF)
        via = rvia(r, p)
        return {"prefix": tb(p), "ty": r.choice([0, 8]), "hash": h, "via": via}
    if ty == "pubkey":
        return [r.choice([2, 3])] + rbytes(r, 32)
    if ty == "opcode":
        return r.choice([c for c in ASSIGNED])
    if ty == "flags":
        return rflags(r)
    if ty == "int":
        return rscriptint(r)
    if ty == "delta":
        return [r.randrange(2), r.choice([0, 1, 255, 256, 65535, r.randrange(65536)])]
    if ty == "token":
        return {"amount": rint_bytes(r, 8), "baton": r.random() < .5, "action": r.randrange(12)}


def twin(r, ty, v):
    """an equal value"""
    if ty in TREES:
        return redress(r, v)
    if ty in ("op", "tagged"):
        return retag(r, v)
    if ty == "script":
        return rescript(r, v, False)
    if ty in ("tx", "hashedtx", "input", "output", "outpoint"):
        return retx(r, v, False)
    if ty == "addr":
        p = bytes(v["prefix"]).decode()
        return dict(v, hash=redress(r, v["hash"]), via=rvia(r, p))
    return copy.deepcopy(v)


def near(r, ty, v):
    """a value that may well differ"""
    if ty in TREES:
        d = flip(r, v["d"])
        if ty == "bytes" and r.random() < .5:
            d = r.choice([v["d"] + [0], v["d"][:-1], [0] + v["d"], v["d"][1:], v["d"] + v["d"]])
        return dict(v, d=d)
    if ty in ("op", "tagged"):
        return reop(r, v)
    if ty == "script":
        return rescript(r, v, True)
    if ty in ("tx", "hashedtx"):
        return retx(r, v, True)
    if ty == "input":
        return dict(v, ins=[reinput(r, v["ins"][0], True)])
    if ty == "outpoint":
        i = v["ins"][0]
        return dict(v, ins=[dict(i, vout=flip(r, i["vout"])) if r.random() < .5 else dict(i, prev=dict(i["prev"], d=flip(r, i["prev"]["d"])))])
    if ty == "output":
        o = v["outs"][0]
        return dict(v, outs=[dict(o, value=flip(r, o["value"])) if r.random() < .5 else dict(o, script=rescript(r, o["script"], True))])
    if ty == "addr":
        x = r.random()
        if x < .3:
            return dict(v, ty=8 - v["ty"])
        if x < .6:
            return dict(v, via="parts", prefix=tb(r.choice(PREF)))
        return dict(v, hash=dict(v["hash"], d=flip(r, v["hash"]["d"])))
    if ty == "pubkey":
        return [5 - v[0]] + v[1:] if r.random() < .2 else v[:1] + flip(r, v[1:])
    if ty == "opcode":
        return r.choice([c for c in ASSIGNED if abs(c - v) < 3])
    if ty == "flags":
        return [r.choice([c for c in (0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 1, 2, 3) if bin(c ^ v[0]).count("1") < 3]), 0, 0, 0]
    if ty == "int":
        return r.choice([-v, max(v - 1, -2**31 + 1), min(v + 1, 2**31 - 1), v % 256, v % 65536, -(v % 256)])
    if ty == "delta":
        return r.choice([[1 - v[0], v[1]], [v[0], (v[1] + 1) % 65536], [v[0], v[1] % 256], [v[0], v[1] ^ 256]])
    if ty == "token":
        return r.choice([dict(v, amount=flip(r, v["amount"])), dict(v, baton=not v["baton"]), dict(v, action=(v["action"] + r.choice([1, 11])) % 12)])


TYPES = TREES + ["op", "tagged", "script", "tx", "hashedtx", "input", "output", "outpoint", "addr", "pubkey", "opcode", "flags", "int", "delta", "token"]


def c23(r, tier):
    n = 60 if tier == "quick" else 700
    for ty in TYPES:
        for _ in range(n):
            v = value(r, ty)
            vs = [v]
            for _ in range(r.choice([1, 2, 3, 4])):
                b = r.choice(vs)
                x = r.random()
                vs.append(twin(r, ty, b) if x < .4 else near(r, ty, b) if x < .9 else value(r, ty))
            r.shuffle(vs)
            yield {"dom": "val", "op": "cmp", "ty": ty, "vs": vs}
    # every opcode, every number of a small range
    al = [c for c in ASSIGNED]
    for i in range(0, len(al), 9):
        yield {"dom": "val", "op": "cmp", "ty": "opcode", "vs": al[i:i + 10]}
    for i in range(-24, 24, 6):
        yield {"dom": "val", "op": "cmp", "ty": "int", "vs": list(range(i, i + 9))[::-1]}
