"""JSON transactions and serde forms (C10, C11)."""
import base64, copy, json, re
from util_gen import *
from gen_addr import addr_text, rprefix, rhash
from gen_builder import rflag

FUNS = ["Plain", "Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160", "Num2Bin", "EcdsaSign", "SchnorrSign", "ToDataSig",
        "UnexpectedSplit", "Reverse"]
STRINGS = ["a", "sig", "<unknown>", "", "src/main.rs", "OP_CHECKSIG(sig, pubkey);", "\u00fc\u00f1\u00ef", "\u65e5\u672c", "q\"uo\\te", "\x00\n\t\x1f",
           "\U0001f600", "a ", "A", "null", "0"]


def tb(s):
    return list(s.encode())


def le(v, n):
    return list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))


# ---- JSON nodes: ["obj", [[k, n]..]] ["arr", [n..]] ["num", text] ["str", s] ["bool", b] ["null"]
def num(x):
    return ["num", str(x)]


def obj(**kw):
    return ["obj", [[k, v] for k, v in kw.items()]]


def render(r, n):
    sp = lambda: r.choice(["", "", "", " ", "\n\t"]) if r else ""
    t = n[0]
    if t == "obj":
        return "{" + sp() + ",".join(sp() + json.dumps(k) + sp() + ":" + sp() + render(r, v) + sp() for k, v in n[1]) + "}"
    if t == "arr":
        return "[" + sp() + ",".join(sp() + render(r, v) + sp() for v in n[1]) + "]"
    if t == "num":
        return n[1]
    if t == "str":
        return json.dumps(n[1], ensure_ascii=bool(r and r.random() < .5))
    if t == "bool":
        return "true" if n[1] else "false"
    return "null"


def tree(n):
    t = n[0]
    if t == "obj":
        return {"t": "obj", "f": [[k, tree(v)] for k, v in n[1]]}
    if t == "arr":
        return {"t": "arr", "a": [tree(v) for v in n[1]]}
    if t == "num":
        x = n[1]
        isint = bool(re.fullmatch(r"-?\d+", x)) and -2**63 <= int(x) < 2**64
        return {"t": "num", "neg": x[0] == "-", "int": isint, "d": le(abs(int(x)), 8) if isint else [0] * 8}
    if t == "str":
        plain = all(" " <= c < "\x7f" for c in n[1])
        return {"t": "str", "s": n[1] if plain else "", "c": tb(n[1])}
    if t == "bool":
        return {"t": "bool", "b": n[1]}
    return {"t": "null"}


def nodes(n, path=(), key=""):
    yield path, n, key
    if n[0] == "obj":
        for i, (k, v) in enumerate(n[1]):
            yield from nodes(v, path + (i,), k)
    elif n[0] == "arr":
        for i, v in enumerate(n[1]):
            yield from nodes(v, path + (i,), key if n[1][0][0] != "arr" else key + "/")


def replace(n, path, new):
    if not path:
        return new
    p = n
    for i in path[:-1]:
        p = p[1][i][1] if p[0] == "obj" else p[1][i]
    if p[0] == "obj":
        p[1][path[-1]][1] = new
    else:
        p[1][path[-1]] = new
    return n


EDGE = [-2**63, -2**31 - 1, -2**31, -2**31 + 1, -1, 0, 1, 2, 3, 16, 255, 256, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63,
        2**64 - 1, 2**64, 10**30]


def rnode(r):
    x = r.random()
    if x < .4:
        return num(r.choice(EDGE) if r.random() < .7 else r.choice(["1.0", "1.5", "1e2", "-1.5e3"]))
    if x < .6:
        return ["str", r.choice(STRINGS + FUNS + ["AA==", "AAA=", "AAAA", "AB==", "A", "!!!!", "=AAA", "A=AA", "00", "0", "zz", "ff" * 33, "00" * 32, "00" * 31])]
    if x < .7:
        return ["bool", r.random() < .5]
    if x < .8:
        return ["null"]
    if x < .9:
        return ["arr", [rnode(r) for _ in range(r.randrange(4))]]
    return ["obj", [[r.choice(["op", "data", "value", "Code", "Invalid", "PushInteger", "x", "PushBoolean"]), rnode(r)] for _ in range(r.randrange(3))]]


def mutate(r, n, size=0):
    n = copy.deepcopy(n)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        all_ = list(nodes(n))
        # every field is hit equally often
        k = r.choice(sorted({k for _, _, k in all_}))
        path, cur, _ = r.choice([x for x in all_ if x[2] == k])
        x = r.random()
        if cur[0] == "num" and x < .7:
            y = r.random()
            v = (int(cur[1]) if re.fullmatch(r"-?\d+", cur[1]) else 0) + r.choice([-1, 1, 2])
            new = num(v) if y < .35 else num(r.randrange(max(1, size))) if y < .6 and size else num(r.choice(EDGE)) if y < .95 else num(r.choice(["1.0", "1e2"]))
        elif cur[0] == "obj" and x < .7:
            y = r.random()
            f = [[k, v] for k, v in cur[1]]
            if y < .35 and f:
                f.pop(r.randrange(len(f)))
            elif y < .55 and f:
                f.insert(r.randrange(len(f) + 1), copy.deepcopy(r.choice(f)))
            elif y < .7:
                f.insert(r.randrange(len(f) + 1), [r.choice(["extra", "Data", "string_indices", "resolved", ""]), rnode(r)])
            elif y < .8 and f:
                f[r.randrange(len(f))][0] = r.choice(["extra", "op", "value", "Code", "Invalid"])
            elif y < .9:
                r.shuffle(f)
            else:
                new = ["arr", [v for k, v in f]]
                n = replace(n, path, new)
                continue
            new = ["obj", f]
        elif cur[0] == "arr" and x < .7:
            a = list(cur[1])
            y = r.random()
            if y < .4 and a:
                a.pop(r.randrange(len(a)))
            elif y < .6 and a:
                a.insert(r.randrange(len(a) + 1), copy.deepcopy(r.choice(a)))
            elif y < .8:
                a.insert(r.randrange(len(a) + 1), rnode(r))
            else:
                r.shuffle(a)
            new = ["arr", a]
        elif cur[0] == "str" and x < .7 and cur[1]:
            s = cur[1]
            i = r.randrange(len(s))
            y = r.random()
            new = ["str", s[:i] + s[i + 1:] if y < .3 else s[:i] + r.choice("0aZ/=+ g\u00e9") + s[i + 1:] if y < .8 else s + r.choice(["0", "00", "=", "A"])]
        else:
            new = rnode(r)
        n = replace(n, path, new)
    return n


def settled(n, b64=False, deep=0):
    """leave out documents whose reading depends on details outside the format: data strings that
    are base64 with too little padding, unit variants written as objects, numbers like -0"""
    if n[0] == "str":
        if not b64:
            return True
        s = n[1]
        core = s.rstrip("=")
        if re.fullmatch(r"[A-Za-z0-9+/]+", core) and len(core) % 4 in (2, 3) and len(s) % 4 != 0:
            return False
        if len(s) - len(core) > 2 or (core and len(core) % 4 == 0 and s != core) or (not core and s):
            return False
        return True
    if n[0] == "obj":
        return all(k not in FUNS and settled(v, k == "data_b64") for k, v in n[1])
    if n[0] == "arr":
        return all(settled(v, b64 or (deep >= 1 and not (v[0] == "str" and v[1] in FUNS and i == 1)), deep + 1) for i, v in enumerate(n[1]))
    return not (n[0] == "num" and n[1] == "-0")


# ---- transactions with annotations
def ropt(r, f, p=.5):
    return [f()] if r.random() < p else []


def rname(r):
    return tb(r.choice(STRINGS))


def rtree(r, depth, pool):
    if pool and r.random() < .3:
        return r.choice(pool)
    x = r.random()
    t = {"d": rbytes(r, r.choice([0, 1, 2, 3, 4, 5, 8, 33])), "n": ropt(r, lambda: rname(r)), "f": r.choice(FUNS) if x < .6 else "Plain", "p": []}
    if depth > 0 and r.random() < .5:
        t["p"] = [[rtree(r, depth - 1, pool) for _ in range(r.choice([0, 1, 1, 2, 3]))]]
    pool.append(t)
    return t


def rnames(r):
    return [[ropt(r, lambda: rname(r), .7) for _ in range(r.randrange(4))]] if r.random() < .5 else []


def u32(r):
    return rint_bytes(r, 4)


def rtagged(r, pool):
    o = rop(r)
    if o["k"] == "push":
        t = rtree(r, r.choice([0, 0, 1, 2, 3]), pool)
        op = {"k": "push", "c": 0, "m": o["m"], "a": [t]}
    else:
        op = {"k": o["k"], "c": o["c"], "m": False, "a": []}
    if r.random() < .3:
        return {"o": op, "file": tb("<unknown>"), "line": [0] * 4, "col": [0] * 4, "code": [], "names": [], "alt": []}
    return {"o": op, "file": rname(r), "line": u32(r), "col": u32(r), "code": [[u32(r), rname(r)] for _ in range(r.choice([0, 0, 1, 2, 3]))],
            "names": rnames(r), "alt": rnames(r)}


def rscript(r, pool):
    return [rtagged(r, pool) for _ in range(r.choice([0, 1, 2, 3]))]


def hash_tree(r, pool):
    t = dict(rtree(r, r.choice([0, 1, 2]), []))
    t["d"] = rbytes(r, 32)
    return t


def rtx(r):
    pool = []
    return {"version": u32(r), "lt": u32(r),
            "ins": [{"prev": hash_tree(r, pool), "vout": u32(r), "script": rscript(r, pool), "seq": u32(r),
                     "lock": ropt(r, lambda: rscript(r, pool)), "value": ropt(r, lambda: rint_bytes(r, 8)), "p2sh": ropt(r, lambda: r.random() < .5),
                     "flags": ropt(r, lambda: [[rflag(r), 0, 0, 0] if r.random() < .8 else u32(r) for _ in range(r.randrange(4))])}
                    for _ in range(r.choice([0, 1, 1, 2, 3]))],
            "outs": [{"value": rint_bytes(r, 8), "script": rscript(r, pool)} for _ in range(r.choice([0, 1, 1, 2]))]}


# ---- documents made table first
def rdoc(r):
    data = [rbytes(r, r.choice([0, 1, 2, 3, 4, 32, 32])) for _ in range(r.choice([1, 2, 3, 4]))] + [rbytes(r, 32)]
    strings = [r.choice(STRINGS) for _ in range(r.choice([1, 2, 3]))]
    ne = r.choice([1, 2, 3, 5])
    order = list(range(ne + 1))
    r.shuffle(order)                     # order[k]: an entry may refer to entries later in this order
    rank = {e: k for k, e in enumerate(order)}
    entries = []
    for e in range(ne + 1):
        later = [x for x in range(ne + 1) if rank[x] > rank[e]]
        d = num(len(data) - 1 if e == ne else r.randrange(len(data)))
        f = ["str", r.choice(FUNS)]
        nm = num(r.randrange(len(strings))) if r.random() < .6 else ["null"]
        pre = ["arr", [num(r.choice(later)) for _ in range(r.choice([0, 1, 2, 2]))]] if later and r.random() < .7 else ["null"] if r.random() < .8 else ["arr", []]
        w = r.choice([1, 2, 3, 4, 4])
        entries.append(d if w == 1 else ["arr", [d, f, nm, pre][:w]])
    s = lambda: num(r.randrange(len(strings)))
    names = lambda: ["arr", [s() if r.random() < .7 else ["null"] for _ in range(r.randrange(3))]] if r.random() < .6 else ["null"]

    def st(pairs, arrp=.06):
        if r.random() < arrp:
            return ["arr", [v for k, v in pairs]]
        pairs = [p for p in pairs if p[1][0] != "null" or r.random() < .5]
        if r.random() < .2:
            r.shuffle(pairs)
        return ["obj", pairs]

    def op():
        x = r.random()
        if x < .5:
            return ["obj", [["PushByteArray", st([["array_idx", num(r.randrange(ne + 1))], ["is_minimal", ["bool", r.random() < .5]]])]]]
        if x < .65:
            return ["obj", [["Code", num(r.randrange(256))]]]
        if x < .75:
            return ["obj", [["Invalid", num(r.randrange(256))]]]
        if x < .85:
            return ["obj", [["PushBoolean", ["bool", r.random() < .5]]]]
        return ["obj", [["PushInteger", num(rscriptint(r) if r.random() < .9 else -2**31)]]]

    def tagged():
        return st([["op", op()], ["src_file", s()], ["src_line", num(r.choice([0, 7, 2**32 - 1]))], ["src_column", num(r.randrange(100))],
                   ["src_code", ["arr", [["arr", [num(r.randrange(100)), s()]] for _ in range(r.choice([0, 1, 2]))]]],
                   ["pushed_names", names()], ["alt_pushed_names", names()]])
    script = lambda: ["arr", [tagged() for _ in range(r.choice([0, 1, 2]))]]
    inp = lambda: st([["prev_out_hash", num(ne)], ["prev_out_vout", num(r.randrange(2**32))], ["script", script()], ["sequence", num(2**32 - 1)],
                      ["lock_script", script() if r.random() < .5 else ["null"]],
                      ["value", num(r.choice([0, 546, 2**53 + 1, 2**64 - 1])) if r.random() < .6 else ["null"]],
                      ["is_p2sh", ["bool", r.random() < .5] if r.random() < .5 else ["null"]],
                      ["sig_hash_flags", ["arr", [st([["bits", num(r.choice([65, 193, 0, 2**32 - 1]))]], .3) for _ in range(r.randrange(3))]] if r.random() < .5 else ["null"]]])
    outp = lambda: st([["value", num(r.choice([0, 1, 2**63, 2**64 - 1]))], ["script", script()]])
    dat = st([["data_b64", ["arr", [["str", base64.b64encode(bytes(d)).decode()] for d in data]]], ["byte_arrays", ["arr", entries]],
              ["strings", ["arr", [["str", x] for x in strings]]]])
    return st([["data", dat], ["version", num(r.choice([1, 2, -1, 2**31 - 1, -2**31]))],
               ["inputs", ["arr", [inp() for _ in range(r.choice([0, 1, 1, 2]))]]],
               ["outputs", ["arr", [outp() for _ in range(r.choice([0, 1, 1, 2]))]]], ["lock_time", num(r.choice([0, 499999999, 2**32 - 1]))]]), ne + 1


def slots(n, path=(), key="", up=""):
    """paths of the numbers that refer to a table, with what they are"""
    if n[0] == "obj":
        for i, (k, v) in enumerate(n[1]):
            yield from slots(v, path + (i,), k, key)
    elif n[0] == "arr":
        for i, v in enumerate(n[1]):
            if key == "byte_arrays" and v[0] == "arr":
                # one entry
                for j, x in enumerate(v[1]):
                    if x[0] == "num":
                        yield path + (i, j), ("entry data", "entry fun", "entry name", "entry pre")[j]
                    elif x[0] == "arr":
                        for l in range(len(x[1])):
                            yield path + (i, j, l), "entry pre"
            elif key == "src_code" and v[0] == "arr":
                yield path + (i, 1), "code text"
            else:
                yield from slots(v, path + (i,), key, up)
    elif n[0] == "num" and key in ("byte_arrays", "src_file", "pushed_names", "alt_pushed_names", "array_idx", "prev_out_hash"):
        yield path, key


def dec_case(r, d):
    return {"dom": "json", "op": "dec", "doc": tree(d), "text": render(r, d)}


# ---- serde forms
OPTS = lambda t: ("opt", t)
SEQ = lambda t: ("seq", t)
TYPES = {
    "flags": [("bits", "u32")],
    "outpoint": [("txHash", "sha256d"), ("vout", "u32")],
    "input": [("prevOut", "outpoint"), ("script", "script"), ("sequence", "u32"), ("lockScript", OPTS("script")), ("value", OPTS("u64")),
              ("isP2sh", OPTS("bool")), ("sigHashFlags", OPTS(SEQ("flags")))],
    "output": [("value", "u64"), ("script", "script")],
    "unhashed": [("version", "i32"), ("inputs", SEQ("input")), ("outputs", SEQ("output")), ("lockTime", "u32")],
    "tx": [("unhashedTx", "unhashed"), ("hash", "sha256d"), ("raw", "bytes")],
    "unsignedinput": [("prevOut", "outpoint"), ("sequence", "u32"), ("value", "u64")],
    "token": [("amount", "u64"), ("is_mint_baton", "bool"), ("action", "action")],
    "slpdata": [("token_id", "tokenid")],
    "slpin": [("index", "u64"), ("token", "token"), ("input", "input"), ("prev_script", "script")],
    "slpout": [("token", "token"), ("output", "output")],
    "slptx": [("version", "i32"), ("inputs", SEQ("slpin")), ("outputs", SEQ("slpout")), ("lock_time", "u32"), ("slp_data", OPTS("slpdata")),
              ("tx_hash", "sha256d")],
    "slputxo": [("input", "unsignedinput"), ("slp_token", "token"), ("slp_data", OPTS("slpdata"))],
    "tokenmeta": [("ticker", "str"), ("name", "str"), ("document_url", "str"), ("document_hash", SEQ("u8")), ("decimals", "u8"),
                  ("slp_token_type", "tokentype")],
    "inputref": [("phantom", "unit"), ("input_idx", "u64")],
}
ENUMS = {"function": FUNS, "tokentype": ["Fungible", "Nft1Child", "Nft1Group"],
         "action": ["NonSlp", "NonSlpBurn", "SlpParseError", "SlpUnsupportedVersion", "SlpV1Genesis", "SlpV1Mint", "SlpV1Send",
                    "SlpNft1GroupGenesis", "SlpNft1GroupMint", "SlpNft1GroupSend", "SlpNft1UniqueChildGenesis", "SlpNft1UniqueChildSend"]}
HASH = {"sha1": 20, "ripemd160": 20, "hash160": 20, "sha256": 32, "sha256d": 32, "tokenid": 32}
INTS = {"u8": 1, "u32": 4, "i32": 4, "u64": 8}
TOP = list(TYPES) + list(ENUMS) + list(HASH) + ["bytes", "fixed4", "script", "pubkey", "address", "integer", "uinteger"]


def value(r, t):
    if isinstance(t, tuple):
        return ropt(r, lambda: value(r, t[1])) if t[0] == "opt" else [value(r, t[1]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if t == "tx":
        # hash and raw are functions of the transaction
        return [value(r, "unhashed"), [], []]
    if t in TYPES:
        return [value(r, x) for _, x in TYPES[t]]
    if t in ENUMS:
        return r.randrange(len(ENUMS[t]))
    if t in HASH:
        return rbytes(r, HASH[t])
    if t in INTS:
        return rint_bytes(r, INTS[t])
    if t == "fixed4":
        return rbytes(r, 4)
    if t == "bytes":
        return rbytes(r, rlen(r))
    if t == "bool":
        return r.random() < .5
    if t == "str":
        return tb(r.choice(STRINGS))
    if t == "unit":
        return []
    if t == "script":
        return rops(r, r.choice([0, 1, 2, 4]))
    if t == "pubkey":
        return rbytes(r, 33)
    if t == "address":
        return [tb(rprefix(r)), r.choice([0, 8]), rhash(r)]
    if t == "integer":
        return le(rscriptint(r), 4)
    if t == "uinteger":
        return le(abs(rscriptint(r)), 4)
    raise KeyError(t)


def cs(n):
    return [n] if n < 253 else [253] + le(n, 2) if n < 65536 else [254] + le(n, 4)


def hexs(b):
    return bytes(b).hex()


def hdoc(r, t, v):
    if isinstance(t, tuple):
        if t[0] == "opt":
            return hdoc(r, t[1], v[0]) if v else ["null"]
        return ["arr", [hdoc(r, t[1], x) for x in v]]
    if t == "tx":
        return ["obj", [["unhashedTx", hdoc(r, "unhashed", v[0])], ["hash", ["str", hexs(rbytes(r, 32))]], ["raw", ["str", hexs(rbytes(r, 9))]]]]
    if t in TYPES:
        f = [[n, hdoc(r, x, y)] for (n, x), y in zip(TYPES[t], v)]
        if r.random() < .06:
            return ["arr", [y for _, y in f]]
        return ["obj", [p for p in f if p[1][0] != "null" or p[0] == "phantom" or r.random() < .6]]
    if t in ENUMS:
        return ["str", ENUMS[t][v]]
    if t in HASH:
        return ["str", hexs(v[::-1])]
    if t in INTS:
        x = int.from_bytes(bytes(v), "little", signed=t[0] == "i")
        return num(x)
    if t in ("integer", "uinteger"):
        return num(int.from_bytes(bytes(v), "little", signed=True))
    if t in ("bytes", "fixed4", "pubkey"):
        s = hexs(v)
        return ["str", s if r.random() < .8 else s.upper()]
    if t == "bool":
        return ["bool", v]
    if t == "str":
        return ["str", bytes(v).decode()]
    if t == "unit":
        return ["null"]
    if t == "script":
        b = wild_script(r, v, .2)
        return ["str", hexs(cs(len(b)) + b)]
    if t == "address":
        s = addr_text(bytes(v[0]).decode(), v[1], v[2])
        if r.random() < .2:
            s = s.upper()
        return ["str", s]
    raise KeyError(t)


def benc(r, t, v):
    if isinstance(t, tuple):
        if t[0] == "opt":
            return [1] + benc(r, t[1], v[0]) if v else [0]
        return le(len(v), 8) + [b for x in v for b in benc(r, t[1], x)]
    if t == "tx":
        return benc(r, "unhashed", v[0]) + rbytes(r, 32) + le(3, 8) + rbytes(r, 3)
    if t in TYPES:
        return [b for (n, x), y in zip(TYPES[t], v) for b in benc(r, x, y)]
    if t in ENUMS:
        return le(v, 4)
    if t in ("bytes", "str", "pubkey"):
        return le(len(v), 8) + list(v)
    if t == "bool":
        return [1 if v else 0]
    if t == "script":
        b = wild_script(r, v, .2)
        b = cs(len(b)) + b
        return le(len(b), 8) + b
    if t == "address":
        return le(v[1] // 8, 4) + list(v[2]) + benc(r, "str", v[0])
    return list(v)


def bmutate(r, b):
    b = list(b)
    for _ in range(r.choice([1, 1, 2])):
        x = r.random()
        if x < .3 and b:
            b = b[:r.randrange(len(b))]
        elif x < .7 and b:
            b[r.randrange(len(b))] = r.choice([0, 1, 2, 3, 127, 128, 255, r.randrange(256)])
        elif x < .85:
            i = r.randrange(len(b) + 1)
            b[i:i] = rbytes(r, r.choice([1, 2, 8]))
        elif b:
            i = r.randrange(len(b))
            del b[i:i + r.choice([1, 4, 8])]
    return b


def c10(r, tier):
    n = 1 if tier == "quick" else 15
    for _ in range(700 * n):
        yield {"dom": "json", "op": "enc", "tx": rtx(r)}
    for t in TOP:
        for _ in range((12 if t in TYPES else 25) * n):
            v = value(r, t)
            yield {"dom": "json", "op": "hser", "ty": t, "v": v}
            yield {"dom": "json", "op": "bser", "ty": t, "v": v}
    # every enumerator and both ends of the numbers
    for t in ENUMS:
        for i in range(len(ENUMS[t])):
            for op in ("hser", "bser"):
                yield {"dom": "json", "op": op, "ty": t, "v": i}
    for t, vs in (("integer", [0, 1, -1, 2**31 - 1, -2**31 + 1]), ("uinteger", [0, 1, 2**31 - 1])):
        for v in vs:
            for op in ("hser", "bser"):
                yield {"dom": "json", "op": op, "ty": t, "v": le(v, 4)}
    for h in [0, 1, 2, 100, 511, 512]:
        yield chain("chain", h, 1, r)


def chain(op, n, width, r, first=(), rev=False):
    return {"dom": "json", "op": op, "n": n, "width": width, "root": r.randrange(256), "first": list(first), "rev": rev}


def c11(r, tier):
    n = 1 if tier == "quick" else 15
    for _ in range(500 * n):
        d, size = rdoc(r)
        if settled(d):
            yield dec_case(r, d)
        # one reference of every kind pointing past its table
        bykind = {}
        for path, k in slots(d):
            bykind.setdefault(k, []).append(path)
        for k in sorted(bykind):
            m = replace(copy.deepcopy(d), r.choice(bykind[k]), num(r.choice([3, 4, 5, 6, 7, 2**31, 2**32, 2**63, 2**64 - 1])))
            if settled(m) and r.random() < .5:
                yield dec_case(r, m)
        for _ in range(4):
            m = mutate(r, d, size)
            if settled(m):
                yield dec_case(r, m)
    for t in TOP:
        for _ in range((10 if t in TYPES else 20) * n):
            v = value(r, t)
            d = hdoc(r, t, v)
            m = mutate(r, d)
            for x in (d, m):
                if not any(k in FUNS for _, y, _ in nodes(x) if y[0] == "obj" for k, _ in y[1]):
                    yield {"dom": "json", "op": "hdec", "ty": t, "doc": tree(x), "text": render(r, x)}
            b = benc(r, t, v)
            yield {"dom": "json", "op": "bdec", "ty": t, "b": b + (rbytes(r, 2) if r.random() < .2 else [])}
            for _ in range(2):
                yield {"dom": "json", "op": "bdec", "ty": t, "b": bmutate(r, b)}
        for x in ["", "null", "[]", "{}", "\"\"", "\"0\"", "\"00\"", "0", "-1", "true", "[[[[" * 200, "{\"a\":" * 200, "1e999", "\"\\ud800\"", "{", "\xff\xfe"]:
            yield {"dom": "json", "op": "hraw", "ty": t, "b": list(x.encode("latin-1"))}
    # every length around the one that a value of fixed size must have
    for t, k in list(HASH.items()) + [("pubkey", 33), ("fixed4", 4)]:
        for m in sorted({0, 1, k // 2, k - 2, k - 1, k, k + 1, k + 2, k + 32, 2 * k, 255, 256}):
            b = rbytes(r, m)
            x = ["str", hexs(b)]
            yield {"dom": "json", "op": "hdec", "ty": t, "doc": tree(x), "text": render(r, x)}
            x = ["str", hexs(b) + r.choice("0f")]
            yield {"dom": "json", "op": "hdec", "ty": t, "doc": tree(x), "text": render(r, x)}
            yield {"dom": "json", "op": "bdec", "ty": t, "b": le(m, 8) + b}
            yield {"dom": "json", "op": "bdec", "ty": t, "b": b}
    # something around or within a hex text that is otherwise right
    for t in list(HASH) + ["pubkey", "fixed4", "bytes", "script", "outpoint", "output"]:
        ok = [b"\x03\x01\x07\x52".hex() if t in ("script", "output") else hexs(rbytes(r, HASH.get(t, 33 if t == "pubkey" else 32 if t == "outpoint" else 4)))][0]
        for x in (" ", "\n", "\r\n", "\t", "\0", "0x", "#", "h", "+", "-", "_", ":", ".", "\"", "'", "\ufeff", "\u00a0", "\u3000", "\uff10"):
            i = 2 * r.randrange(1, len(ok) // 2)
            for u in (x + ok, ok + x, x + ok + x, ok[:i] + x + ok[i:], x + ok[len(x):], ok[:-len(x)] + x, x):
                x2 = ["str", u]
                if t == "outpoint":
                    x2 = obj(txHash=x2, vout=num(1))
                elif t == "output":
                    x2 = obj(value=num(1), script=x2)
                yield {"dom": "json", "op": "hdec", "ty": t, "doc": tree(x2), "text": render(r, x2)}
    # numbers around the ends of the ranges
    for t in ["integer", "uinteger", "outpoint", "output", "unhashed"]:
        for e in (0, 7, 8, 15, 16, 31, 32, 63, 64):
            for d in (-1, 0, 1):
                for sg in (1, -1):
                    x = num(sg * (2**e + d))
                    if t == "outpoint":
                        x = obj(txHash=["str", hexs(rbytes(r, 32))], vout=x)
                    elif t == "output":
                        x = obj(value=x, script=["str", "00"])
                    elif t == "unhashed":
                        x = obj(version=x, inputs=["arr", []], outputs=["arr", []], lockTime=num(0))
                    yield {"dom": "json", "op": "hdec", "ty": t, "doc": tree(x), "text": render(r, x)}
        for e in (-2**31 - 1, -2**31, -2**31 + 1, -1, 0, 1, 2**31 - 1) if t in ("integer", "uinteger") else ():
            yield {"dom": "json", "op": "bdec", "ty": t, "b": le(e & (2**64 - 1), 8)[:4]}
    # broken text
    for _ in range(150 * n):
        d, _ = rdoc(r)
        s = render(r, d)
        for _ in range(2):
            b = list(s.encode())
            yield {"dom": "json", "op": "raw", "b": bmutate(r, b)}
    for x in ["", "null", "[]", "{}", "\"\"", "0", "[" * 1000, "{\"data\":" * 300, "{\"data\":{}}"]:
        yield {"dom": "json", "op": "raw", "b": tb(x)}
    # long, wide and cyclic reference chains
    for h in [0, 1, 2, 3, 17, 127, 128, 511, 512, 513, 514, 600, 1023, 5000, 100000]:
        for rev in (False, True):
            yield chain("chain", h, 1, r, rev=rev)
            if h in (511, 512, 513, 1023):
                # with lower parts resolved before
                for f in ([1], [h // 2], [h - 1], [0, h // 3, h // 2]):
                    yield chain("chain", h, 1, r, f, rev)
    for h in [1, 2, 20, 60, 500]:
        for w in (2, 3, 10):
            yield chain("chain", h, w, r, rev=r.random() < .5)
    for h in [1, 2, 3, 5, 511, 512, 513, 100000]:
        for w in (1, 2):
            yield chain("cycle", h, w, r, r.choice([[], [1], [h]]), r.random() < .5)


def from_model(c, r):
    """a table enumerated by MCJson as a document, read from entry 0"""
    entries = []
    for i, p in enumerate(c["table"]):
        d, f = num(i), ["str", FUNS[i % 3]]
        nm = ["null"] if i % 2 == 0 else num(0)
        e = [d, f, nm] + ([["arr", [num(x) for x in p[0]]]] if p else [])
        if not p and i % 2 == 0:
            e = e[:2]
        entries.append(["arr", e])
    z = num(0)
    op = ["obj", [["op", ["obj", [["PushByteArray", obj(array_idx=z, is_minimal=["bool", True])]]]], ["src_file", z], ["src_line", z], ["src_column", z],
                  ["src_code", ["arr", []]]]]
    d = obj(data=obj(data_b64=["arr", [["str", base64.b64encode(bytes([i + 1])).decode()] for i in range(len(entries))]],
                     byte_arrays=["arr", entries], strings=["arr", [["str", "a"]]]),
            version=num(1), inputs=["arr", []], outputs=["arr", [obj(value=z, script=["arr", [op]])]], lock_time=z)
    return dec_case(None, d)
