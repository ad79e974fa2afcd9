"""Script functions: random and enumerated programs are given to the real macro
(rustc), and what was accepted, and what the built scripts consist of, is recorded."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib

# ---------------------------------------------------------------- opcodes (for steering only; the specification judges)
SIG = {}


def sig(names, ins, outs):
    for n in names.split():
        SIG["OP_" + n] = (ins, outs)


for _n in ["0", "1NEGATE"] + [str(i) for i in range(1, 17)]:
    sig(_n, "", "I")
sig("NOP NOP1 NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10 CODESEPARATOR", "", "")
sig("VERIFY", "B", "")
sig("2DROP", "GG", "")
sig("DROP", "G", "")
sig("DEPTH", "", "I")
sig("CAT AND OR XOR", "AA", "A")
sig("SPLIT", "AI", "AA")
sig("NUM2BIN", "II", "A")
sig("BIN2NUM", "A", "I")
sig("SIZE", "A", "AI")
sig("REVERSEBYTES RIPEMD160 SHA1 SHA256 HASH160 HASH256", "A", "A")
sig("EQUAL", "GG", "B")
sig("EQUALVERIFY", "GG", "")
sig("CHECKSIG", "AA", "B")
sig("CHECKSIGVERIFY", "AA", "")
sig("CHECKDATASIG", "AAA", "B")
sig("CHECKDATASIGVERIFY", "AAA", "")
sig("1ADD 1SUB NEGATE ABS", "I", "I")
sig("NOT", "B", "B")
sig("0NOTEQUAL", "I", "B")
sig("ADD SUB DIV MOD MIN MAX", "II", "I")
sig("BOOLAND BOOLOR", "BB", "B")
sig("NUMEQUAL NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL GREATERTHANOREQUAL", "II", "B")
sig("NUMEQUALVERIFY", "II", "")
sig("WITHIN", "III", "B")
sig("CHECKLOCKTIMEVERIFY CHECKSEQUENCEVERIFY", "I", "I")
ORDER = {"2DUP": (2, [0, 1, 0, 1]), "3DUP": (3, [0, 1, 2, 0, 1, 2]), "2OVER": (4, [0, 1, 2, 3, 0, 1]), "2ROT": (6, [2, 3, 4, 5, 0, 1]),
         "2SWAP": (4, [2, 3, 0, 1]), "DUP": (1, [0, 0]), "NIP": (2, [1]), "OVER": (2, [0, 1, 0]), "ROT": (3, [1, 2, 0]), "SWAP": (2, [1, 0]),
         "TUCK": (2, [1, 0, 1])}
ORDER = {"OP_" + k: v for k, v in ORDER.items()}
for _k, (_n, _o) in ORDER.items():
    SIG[_k] = ("G" * _n, "G" * len(_o))
RETAINS = {"OP_SIZE", "OP_CHECKLOCKTIMEVERIFY", "OP_CHECKSEQUENCEVERIFY"}
UNUSABLE = ["OP_NOTIF", "OP_RETURN", "OP_IFDUP", "OP_CHECKMULTISIG", "OP_CHECKMULTISIGVERIFY", "OP_MUL", "OP_2MUL", "OP_2DIV", "OP_INVERT",
            "OP_LSHIFT", "OP_RSHIFT", "OP_VER", "OP_VERIF", "OP_VERNOTIF", "OP_RESERVED", "OP_RESERVED1", "OP_RESERVED2", "OP_PUSHDATA1",
            "OP_PUSHDATA2", "OP_PUSHDATA4", "OP_TRUE", "OP_NOP2", "OP_17", "op_dup", "size_of", "OP_DUPP", "OP_HASH512"]


# ---------------------------------------------------------------- values
def jop(k, c=0, d=()):
    return {"k": k, "c": c, "d": list(d), "m": k == "push"}


def literal(rng, ty):
    """(op, rust text)"""
    if ty == "I":
        v = rng.choice([0, 1, -1, 2, 3, 16, 17, -5, 127, 128, 255, -128, 32768, 2**31 - 1, -(2**31 - 1), rng.randrange(-10**6, 10**6)])
        return jop("int", v), str(v)
    if ty == "B":
        v = rng.random() < .5
        return jop("bool", int(v)), "true" if v else "false"
    n = rng.choice([1, 1, 2, 3, 4, 20, 32, 33])
    d = [rng.choice([0, 1, 127, 128, 129, 255, rng.randrange(256)]) for _ in range(n)]
    return jop("push", 0, d), "[%s]" % ", ".join(["%du8" % d[0]] + [str(x) for x in d[1:]])


RTYS = {"I": ["i32", "i32", "Integer"], "B": ["bool"], "A": ["ByteArray", "[u8; 4]", "[u8; 20]", "Pubkey", "Sha256", "Hash160", "Sha256d"]}
LEN = {"[u8; 4]": 4, "[u8; 20]": 20, "Pubkey": 33, "Sha256": 32, "Sha256d": 32, "Hash160": 20}


def value(rng, rty):
    """(op, rust text) of a value of that rust type"""
    if rty in ("i32", "Integer"):
        op, t = literal(rng, "I")
        return op, t if rty == "i32" else "Integer::new(%s).unwrap()" % t
    if rty == "bool":
        return literal(rng, "B")
    n = LEN.get(rty) if rty in LEN else rng.choice([0, 1, 1, 2, 33, 75, 76])
    d = [rng.choice([0, 1, 128, 129, rng.randrange(256)]) for _ in range(n)]
    t = "[%s]" % ", ".join(["%du8" % d[0]] + [str(x) for x in d[1:]]) if n else "[0u8; 0]"
    if rty == "ByteArray":
        t = "ByteArray::from(&%s[..])" % t
    elif rty == "Pubkey":
        t = "Pubkey::new(%s)" % t
    elif rty in ("Sha256", "Sha256d", "Hash160"):
        t = "%s::new(%s)" % (rty, t)
    return jop("push", 0, d), t


# ---------------------------------------------------------------- statements and their text
def norm(s):
    s = re.sub(r"\s+", "", s)
    while s.endswith(";"):
        s = s[:-1]
    return s.replace(",)", ")").replace(",]", "]")


def outs_text(outs, tup=False):
    return outs[0] if len(outs) == 1 and not tup else "(%s)" % ", ".join(outs)


def finish(s):
    """sets the text and the recorded source of a statement"""
    if s["k"] == "push":
        e = s["e"]
        t = e["txt"] if e["k"] == "lit" else EXPRS[e["fn"]][1] if e["k"] == "expr" else "params." + e["f"]
        s["txt"] = ("let %s = %s;" % (s["out"][0], t)) if s["out"] else t + ";"
    elif s["k"] == "op":
        t = s["name"]
        if s["ins"]:
            a = [x if x else str(s.get("xs", {}).get(str(i), s["arg"])) for i, x in enumerate(s["ins"][0])]
            t += "(%s)" % ", ".join(a)
        if s["outs"]:
            t = "let %s = %s" % (outs_text(s["outs"][0], s.get("tup")), t)
        s["txt"] = t + ";"
    elif s["k"] == "block":
        for x in s["body"]:
            finish(x)
        s["txt"] = "{\n%s\n}" % "\n".join(x["txt"] for x in s["body"])
    s["src"] = norm(s["txt"])
    return s


def op(name, ins=None, outs=None, arg=0, **kw):
    return dict({"k": "op", "name": name, "ins": [] if ins is None else [list(ins)], "outs": [] if outs is None else [list(outs)], "arg": arg}, **kw)


def push_lit(rng, ty, out=None):
    o, t = literal(rng, ty)
    return {"k": "push", "e": {"k": "lit", "op": o, "ty": ty, "txt": t}, "out": [] if out is None else [out]}


EXPRS = {"small": ("I", "params.p_int.max(-1000).min(1000) + 1"), "cond": ("I", "if params.p_bool { 7 } else { -7 }"),
         "len": ("I", "params.p_bytes.len() as i32"), "not": ("B", "!params.p_bool"), "eq": ("B", "params.p_int == 3"),
         "clone": ("A", "params.p_bytes.clone()"), "block": ("I", "{ 40 + 2 }"), "match": ("B", "match params.p_bool { true => false, false => true }")}


def push_expr(rng, ty, out=None):
    """a Rust expression over the parameters"""
    fn = rng.choice([f for f, (t, _) in EXPRS.items() if t == ty and (out or f not in ("cond", "block"))])
    return {"k": "push", "e": {"k": "expr", "fn": fn, "ty": ty}, "out": [] if out is None else [out]}


def push_param(f, out=None):
    return {"k": "push", "e": {"k": "param", "f": f, "ty": {"p_int": "I", "p_bool": "B", "p_bytes": "A"}[f]}, "out": [] if out is None else [out]}


BAD = ["for i in 0..2 { OP_DUP; }", "if true { OP_DROP; }", "fn g() {}", "let zz;", "let mut zz = 5;", "let (za, zb) = 5;",
       "Opcode::OP_DROP;", "let [za, zb] = OP_2DUP;", "(OP_DUP)();", "let (za, (zb, zc)) = OP_3DUP;", "const ZZ: i32 = 5;",
       "let ref zz = 5;", "if false { 5 } else { 6 };", "for _ in 0..1 { 5; }",
       "depth_of();", "depth_of(5);", "depth_of;", "transmute();", "transmute(5);", "transmute;", "depth_of_offset(5);", "nosuch();", "OP_NOSUCH;",
       "OP_NOSUCH(5);", "let zz = OP_NOSUCH;", "Opcode::OP_DROP(5);", "std::mem::drop(5);", "let zz = depth_of();"]


# ---------------------------------------------------------------- random functions
class Sim:
    """follows the stacks to steer the generator towards functions that are accepted"""

    def __init__(self, variants, inputs):
        self.vs = []
        for v in variants or [None]:
            st = [(x["n"], x["ty"], None) for x in inputs if v is None or not x["vs"] or v["name"] in x["vs"][0]]
            self.vs.append({"pred": v["pred"] if v else [], "st": st, "alt": []})
        self.atoms = []

    def active(self):
        return [v for v in self.vs if not v["pred"] or any(all(all(a[0] != x["v"] or a[1] == x["pos"] for a in self.atoms) for x in c)
                                                         for c in v["pred"])]

    def common(self, key="st"):
        """the items on top which all active variants agree on, top last"""
        act = self.active()
        if not act:
            return []
        n = 0
        while all(len(v[key]) > n for v in act) and len({v[key][-1 - n] for v in act}) == 1:
            n += 1
        return act[0][key][len(act[0][key]) - n:]

    def push(self, it, key="st"):
        for v in self.active():
            v[key].append(it)

    def pop(self, n=1, key="st"):
        for v in self.active():
            if n:
                del v[key][-n:]

    def save(self):
        return [{"pred": v["pred"], "st": list(v["st"]), "alt": list(v["alt"])} for v in self.vs]


class Gen:
    def __init__(self, rng, size):
        self.rng, self.size, self.k, self.nested = rng, size, 0, False

    def name(self, ty):
        r = self.rng
        self.k += 1
        return "%s%d" % (ty.lower(), r.randrange(6) if r.random() < .5 else 10 + self.k)

    def header(self):
        r = self.rng
        variants, inputs = [], []
        nv = r.choice([2, 3, 4, 8]) if self.nested else r.choice([0, 0, 0, 2, 2, 3])
        self.conds = []
        if nv:
            self.conds = ["c%d" % i for i in range(3 if self.nested else r.choice([1, 1, 2, 3]))]
            preds = []
            if len(self.conds) == 3:
                preds = self.partition(nv)
            elif len(self.conds) == 1:
                preds = [[[{"v": "c0", "pos": True}]], [[{"v": "c0", "pos": False}]]]
            else:
                c1 = {"v": "c1", "pos": True}
                n1 = {"v": "c1", "pos": False}
                c0 = {"v": "c0", "pos": True}
                n0 = {"v": "c0", "pos": False}
                preds = r.choice([[[[c1]], [[n1, c0]], [[n1, n0]]], [[[c1, c0]], [[c1, n0]], [[n1]]], [[[c1, c0], [n1, n0]], [[c1, n0], [n1, c0]]],
                                  [[[c1]], [[n1]], [[c0], [n0]]], [[[c0]], [[n0]]], [[[n1], [c0]], [[c1, n0]]]])
            r.shuffle(preds)
            variants = [{"name": "V%d" % i, "bad": False, "pred": p} for i, p in enumerate(preds)]
        self.vnames = [v["name"] for v in variants]
        n = r.randrange(1, 5) if not variants else r.randrange(0, 5)
        used = set()
        for i in range(n):
            ty = r.choice("IIBAA")
            nm = "%s%d" % (ty.lower(), i)
            vs = []
            if variants and r.random() < .7:
                k = r.randrange(1, len(variants) + 1)
                vs = [r.sample(self.vnames, k)]
                if r.random() < .2 and k < len(variants):
                    # the same name again, for the other variants
                    rest = [v for v in self.vnames if v not in vs[0]]
                    inputs.append(self.inp(nm, ty, vs))
                    inputs.append(self.inp(nm, ty, [rest]))
                    continue
            inputs.append(self.inp(nm, ty, vs))
        for c in self.conds:
            vs = []
            # a condition that is not decided by a variant is still an input of it
            inputs.append(self.inp(c, "B", vs))
        if r.random() < .3 and not variants:
            inputs.append(self.inp("b9", "B", []))
        return variants, inputs

    def partition(self, nv):
        """a decision tree over the three conditions, its leaves dealt out to the variants"""
        r = self.rng

        def leaves(path, free):
            if not free or (path and r.random() < .15):
                return [path]
            c = r.choice(free)
            rest = [x for x in free if x != c]
            return leaves(path + [{"v": c, "pos": True}], rest) + leaves(path + [{"v": c, "pos": False}], rest)
        ls = leaves([], list(self.conds))
        for l in ls:
            r.shuffle(l)
        r.shuffle(ls)
        preds = [[] for _ in range(min(max(2, nv), len(ls)))]
        for i, l in enumerate(ls):
            preds[i if i < len(preds) else r.randrange(len(preds))].append(l)
        return preds

    def inp(self, n, ty, vs):
        r = self.rng
        rty = r.choice(RTYS[ty])
        one = vs and len(vs[0]) == 1 and r.random() < .3
        attr = "#[variant(%s)] " % ", ".join(vs[0]) if vs else ""
        if r.random() < .1:
            attr = r.choice(["#[allow(dead_code)] " + attr, attr + "#[allow(unused)] ", '#[doc = "some input"] ' + attr])
        t = attr + "%s: %s" % (n, rty)
        return {"n": n, "ty": ty, "vs": vs, "id": "", "rty": rty, "txt": t, "src": re.sub(r"\s+", "", t)}

    def program(self):
        variants, inputs = self.header()
        for i, x in enumerate(inputs):
            x["id"] = "q%d" % i
        self.sim = Sim(variants, inputs)
        self.left = self.size
        body = self.block(0)
        p = make(variants, inputs, body, self.rng.choice(["default", "default", "true", "false"]), self.rng.random() < .5)
        if self.rng.random() < .3:
            p["deco"] = deco(self.rng)
        return p

    def block(self, depth):
        out = []
        r = self.rng
        n = r.randrange(1, 7)
        if self.nested:
            n = r.randrange(0, 2)
            c = self.sim.common()
            if c and c[-1][0] in self.conds and r.random() < .9:
                out += self.conditional(depth)
        while n > 0 and self.left > 0:
            n -= 1
            self.left -= 1
            out += self.stmt(depth)
        if depth == 0 and self.conds and not any(x["k"] == "op" and x["name"] == "OP_IF" for x in out) and r.random() < .8:
            c = self.sim.common()
            if c and c[-1][0] in self.conds:
                out += self.conditional(depth)
        return out

    def stmt(self, depth):
        r, sim = self.rng, self.sim
        c = sim.common()
        kind = r.random()
        if depth < 3 and c and c[-1][0] and kind < ((.8 if len(self.conds) == 3 else .5) if c[-1][0] in self.conds else .12):
            return self.conditional(depth)
        if kind < .3:
            return self.push()
        if kind < .38 and c:
            return self.to_alt(c)
        if kind < .46 and sim.common("alt"):
            return self.from_alt(sim.common("alt"))
        if kind < .58 and any(x[0] for x in c):
            x = self.reach(c)
            if x:
                return x
        if kind < .61 and any(x[0] for x in c):
            x = self.transmute(c, len(sim.vs) > 1 or depth > 0)
            if x:
                return x
        if kind < .63 and any(x[0] for x in c):
            nm = r.choice([x[0] for x in c if x[0]])
            d = [x[0] for x in reversed(c)].index(nm)
            off = r.choice([0, 1, -1, 2])
            out = self.name("I") if r.random() < .5 else None
            sim.push((out, "I", None))
            return [op("depth_of_offset", [nm, ""], [out] if out else None, off)]
        return self.opcode(c) or self.push()

    def push(self):
        r = self.rng
        ty = r.choice("IIBAA")
        out = self.name(ty) if r.random() < .7 else None
        if r.random() < .3:
            f = {"I": "p_int", "B": "p_bool", "A": "p_bytes"}[ty]
            self.sim.push((out, ty, None))
            return [push_param(f, out)]
        self.sim.push((out, ty, None))
        if r.random() < .15:
            return [push_expr(r, ty, out)]
        return [push_lit(r, ty, out)]

    def naming(self, args, p=.6):
        r = self.rng
        if r.random() < p:
            return [a[0] if a[0] and r.random() < .9 else "__" for a in args]
        return None

    def opcode(self, c):
        r, sim = self.rng, self.sim
        fits = []
        for n, (ins, outs) in SIG.items():
            if len(ins) > len(c):
                continue
            args = c[len(c) - len(ins):] if ins else []
            if n in ("OP_EQUAL", "OP_EQUALVERIFY"):
                if args[0][1] != args[1][1]:
                    continue
            elif n != "OP_VERIFY" and any(i != "G" and i != a[1] for i, a in zip(ins, args)):
                continue
            fits += [n] * (3 if ins else 1) * (2 if n in ORDER else 1)
        n = r.choice(fits)
        ins, outs = SIG[n]
        args = c[len(c) - len(ins):] if ins else []
        res = []
        order = ORDER[n][1] if n in ORDER else None
        for i, t in enumerate(outs):
            if order is not None:
                res.append(args[order[i]])
            elif n in RETAINS and i == 0:
                res.append(args[0])
            else:
                res.append((None, t, None))
        names = None
        if outs and r.random() < .6:
            names = []
            for i, t in enumerate(res):
                if (order is not None or (n in RETAINS and i == 0)) and r.random() < .6:
                    names.append("__")
                else:
                    names.append(self.name(t[1]))
                    res[i] = (names[-1], t[1], None)
        elif not outs and r.random() < .05:
            names = []
        s = op(n, self.naming(args) if ins else ([] if r.random() < .1 else None), names)
        if s["ins"] and ins and r.random() < .04:
            # an operand that is an expression is not looked at
            i = r.randrange(len(ins))
            if ins[i] != "G":
                s["ins"][0][i] = ""
                s["xs"] = {str(i): {"I": "7", "B": "true", "A": "[1u8]"}[ins[i]]}
        sim.pop(len(ins))
        for x in res:
            sim.push(x)
        return [s]

    def to_alt(self, c):
        r, it = self.rng, c[-1]
        out = self.name(it[1]) if r.random() < .4 else None
        s = op("OP_TOALTSTACK", [it[0]] if it[0] and r.random() < .6 else None, [out] if out else None)
        self.sim.pop()
        self.sim.push((out or it[0], it[1], it[2]), "alt")
        return [s]

    def from_alt(self, c):
        r, it = self.rng, c[-1]
        out = self.name(it[1]) if r.random() < .4 else None
        s = op("OP_FROMALTSTACK", [it[0]] if it[0] and r.random() < .6 else None, [out] if out else None)
        self.sim.pop(1, "alt")
        self.sim.push((out or it[0], it[1], it[2]))
        return [s]

    def reach(self, c):
        r, sim = self.rng, self.sim
        nm = r.choice([x[0] for x in c if x[0]])
        d = [x[0] for x in reversed(c)].index(nm)
        it = c[-1 - d]
        dn = self.name("I") if r.random() < .6 else None
        pre = [op("depth_of", [nm], [dn] if dn else None)]
        n = r.choice(["OP_PICK", "OP_ROLL"])
        out = self.name(it[1]) if r.random() < .5 else None
        s = op(n, [dn] if dn and r.random() < .6 else None, [out] if out else None)
        if n == "OP_ROLL":
            for v in sim.active():
                del v["st"][len(v["st"]) - 1 - d]
        sim.push((out or it[0], it[1], it[2]))
        return pre + [s]

    def transmute(self, c, same):
        r, sim = self.rng, self.sim
        names = [x[0] for x in c if x[0]]
        names = [x for x in names if names.count(x) == 1]
        if not names:
            return None
        nm = r.choice(names)
        if same:
            # in a branch, or where variants are open: only to the type it already has
            ty = next(x[1] for x in c if x[0] == nm)
            return [op("transmute", [nm, {"I": "i32", "B": "bool", "A": "ByteArray"}[ty]], [nm] if r.random() < .5 else None, ty)]
        ty = r.choice("IBA")
        st = sim.vs[0]["st"]
        i = max(k for k, x in enumerate(st) if x[0] == nm)
        st[i] = (nm, ty, None)
        return [op("transmute", [nm, {"I": "i32", "B": "bool", "A": "ByteArray"}[ty]], [nm] if r.random() < .5 else None, ty)]

    def conditional(self, depth):
        r, sim = self.rng, self.sim
        it = sim.common()[-1]
        cond = it[0]
        sim.pop()
        before = sim.save()
        sim.atoms.append((cond, True))
        then = self.block(depth + 1)
        has_else = r.random() < .75
        after_then = sim.save()
        target = sim.active()
        sim.vs = [dict(v, st=list(v["st"]), alt=list(v["alt"])) for v in before]
        sim.atoms[-1] = (cond, False)
        els = []
        both = self.both(cond)
        if both and not has_else:
            # make the taken branch neutral
            then += self.restore(after_then, before, cond)
        elif has_else:
            els = self.block(depth + 1)
            if both:
                els += self.level(after_then)
        atoms = sim.atoms[:-1]
        for v, t in zip(sim.vs, after_then):
            inif = self.holds(v["pred"], atoms + [(cond, True)])
            inelse = self.holds(v["pred"], atoms + [(cond, False)])
            if inif and not inelse:
                v["st"], v["alt"] = t["st"], t["alt"]
        sim.atoms.pop()
        wrap = r.random() < .5
        out = [op("OP_IF", [cond])]
        out += [{"k": "block", "body": then}] if wrap else then
        if has_else:
            out += [op("OP_ELSE", [] if r.random() < .1 else None)]
            out += [{"k": "block", "body": els}] if wrap else els
        return out + [op("OP_ENDIF", None)]

    def holds(self, pred, atoms):
        return not pred or any(all(all(a[0] != x["v"] or a[1] == x["pos"] for a in atoms) for x in c) for c in pred)

    def both(self, cond):
        a = self.sim.atoms[:-1]
        return any(self.holds(v["pred"], a + [(cond, True)]) and self.holds(v["pred"], a + [(cond, False)]) for v in self.sim.vs)

    def level(self, after):
        """makes the stack of the current branch look like the other branch's, where both are open to a variant"""
        sim, out = self.sim, []
        act = [i for i, v in enumerate(sim.vs) if v in sim.active()]
        if not act:
            return out
        i = act[0]
        want, have = after[i]["st"], sim.vs[i]["st"]
        k = 0
        while k < min(len(want), len(have)) and want[k][1] == have[k][1]:
            k += 1
        while len(sim.vs[i]["alt"]) > len(after[i]["alt"]):
            out.append(op("OP_FROMALTSTACK"))
            it = sim.vs[i]["alt"][-1]
            sim.pop(1, "alt")
            sim.push(it)
        while len(sim.vs[i]["st"]) > k:
            out.append(op("OP_DROP"))
            sim.pop()
        for x in want[k:]:
            out.append(push_lit(self.rng, x[1], x[0]))
            sim.push((x[0], x[1], None))
        return out

    def restore(self, after, before, cond):
        """statements for the end of the then-branch, so that it leaves what there was before"""
        sim = self.sim
        saved, atom = sim.vs, sim.atoms[-1]
        sim.vs = [dict(v, st=list(v["st"]), alt=list(v["alt"])) for v in after]
        sim.atoms[-1] = (cond, True)
        out = self.level(before)
        for v, a in zip(sim.vs, after):
            a["st"], a["alt"] = v["st"], v["alt"]
        sim.vs, sim.atoms[-1] = saved, atom
        return out


DOCS = ["/// # In", "/// ## V0", "/// ## V1", "/// ## VX", "/// the inputs", "/// # Other", "///", "#[allow(unused)]", "/** # In */", "#[doc(hidden)]"]


def deco(rng):
    """what is said about a function without changing what it means: documentation, visibility, another name for the crate"""
    return {"docs": [rng.choice(DOCS) for _ in range(rng.choice([0, 0, 0, 1, 3, 5]))], "vis": rng.choice(["pub", "pub", "pub", "pub(crate)", ""]),
            "crate": rng.choice(["", "", "", "bitcoin_cash", "other_name"])}


def make(variants, inputs, body, debug="default", byref=False, hdr="ok"):
    p = {"hdr": hdr, "debug": debug, "variants": variants, "inputs": inputs, "body": [finish(s) for s in body], "byref": byref}
    for i, x in enumerate(inputs):
        x["id"] = x.get("id") or "q%d" % i
    return p


def copy(p):
    return json.loads(json.dumps(p))


def flat(body):
    for i, s in enumerate(body):
        yield body, i
        if s["k"] == "block":
            yield from flat(s["body"])


def mutate(rng, p):
    """a function near an accepted one, mostly to be rejected"""
    p = copy(p)
    r = rng
    for _ in range(r.choice([1, 1, 1, 2])):
        places = list(flat(p["body"]))
        ops = [(b, i) for b, i in places if b[i]["k"] == "op"]
        kind = r.randrange(19)
        if kind <= 2 and ops:
            named = [(b, i) for b, i in ops if b[i]["ins"] and b[i]["ins"][0]]
            if named:
                b, i = r.choice(named)
                k = r.randrange(len(b[i]["ins"][0]))
                if b[i]["name"] not in ("transmute", "depth_of_offset") or k == 0:
                    if b[i]["ins"][0][k]:
                        b[i]["ins"][0][k] = r.choice(["zz", "a0", "i0", "b0", "c0", "i1", "a1"])
        elif kind == 3 and ops:
            b, i = r.choice(ops)
            if b[i]["ins"] and b[i]["name"] not in ("transmute", "depth_of_offset"):
                if r.random() < .5:
                    b[i]["ins"][0].append(r.choice(["__", "i0", "a0"]))
                elif b[i]["ins"][0]:
                    b[i]["ins"][0].pop()
        elif kind == 4 and ops:
            outs = [(b, i) for b, i in ops if b[i]["name"] not in ("transmute", "depth_of", "depth_of_offset")]
            if outs:
                b, i = r.choice(outs)
                if b[i]["outs"]:
                    if r.random() < .5 or len(b[i]["outs"][0]) < 2:
                        b[i]["outs"][0].append("o77")
                    else:
                        b[i]["outs"][0].pop()
                else:
                    b[i]["outs"] = [["o77"]] if r.random() < .5 else [["o77", "o78"]]
        elif kind == 5 and ops:
            b, i = r.choice(ops)
            if b[i]["outs"] and b[i]["outs"][0] and b[i]["name"] in SIG:
                b[i]["outs"][0][r.randrange(len(b[i]["outs"][0]))] = "__"
        elif kind in (6, 7) and places:
            b, i = r.choice(places)
            del b[i]
        elif kind == 8 and places:
            b, i = r.choice(places)
            if i + 1 < len(b):
                b[i], b[i + 1] = b[i + 1], b[i]
        elif kind == 9 and places:
            b, i = r.choice(places)
            b.insert(i, copy(b[i]))
        elif kind == 10:
            b, i = r.choice(places) if places else (p["body"], 0)
            b.insert(i, op(r.choice(["OP_ELSE", "OP_ENDIF", "OP_IF", "OP_DROP", "OP_VERIFY", "OP_FROMALTSTACK", "OP_TOALTSTACK"])))
        elif kind == 11 and ops:
            b, i = r.choice(ops)
            s = b[i]
            if s["name"] in SIG:
                s["name"] = r.choice(list(SIG) if r.random() < .6 else UNUSABLE)
                s.pop("xs", None)
                if s["ins"]:
                    s["ins"][0] = [x or "__" for x in s["ins"][0]]
        elif kind == 12:
            b, i = r.choice(places) if places else (p["body"], 0)
            b.insert(i, {"k": "bad", "txt": r.choice(BAD)})
        elif kind == 13:
            b, i = r.choice(places) if places else (p["body"], 0)
            b.insert(i, op(r.choice(UNUSABLE)))
        elif kind == 14:
            p["hdr"] = r.choice(["ret", "noparam", "self", "noname", "litvariant", "debugstr", "pattern", "modname", "variantmod"])
        elif kind == 15 and p["variants"]:
            v = r.choice(p["variants"])
            x = r.randrange(4)
            if x == 0:
                v["name"] = r.choice(p["variants"])["name"]
            elif x == 1:
                v["bad"], v["badtxt"] = True, r.choice(["", "!", "c0&&", "||c0", "c0 && c1", "c0&&!", "c-0", "c0|c1", " "])
            elif x == 2:
                for c in v["pred"]:
                    for a in c:
                        a["pos"] = not a["pos"]
            else:
                v["pred"] = v["pred"][:1]
        elif kind == 16 and p["inputs"]:
            i = r.randrange(len(p["inputs"]))
            x = r.randrange(3)
            if x == 0:
                del p["inputs"][i]
            elif x == 1:
                e = copy(p["inputs"][i])
                e["id"] = e["id"] + "d"
                p["inputs"].append(e)
            else:
                q = p["inputs"][i]
                q["vs"] = [[r.choice([v["name"] for v in p["variants"]] + ["VX"])]]
                q["txt"] = "#[variant(%s)] %s: %s" % (q["vs"][0][0], q["n"], q["rty"])
                q["src"] = re.sub(r"\s+", "", q["txt"])
        elif kind == 17 and p["inputs"]:
            r.shuffle(p["inputs"])
        elif kind == 18 and ops:
            cond = [(b, i) for b, i in ops if b[i]["name"] == "OP_IF"]
            if cond:
                b, i = r.choice(cond)
                b[i]["name"] = r.choice(["OP_NOTIF", "OP_VERIFY", "OP_DROP", "OP_IF"])
                if b[i]["name"] == "OP_IF":
                    b[i]["ins"] = []
    for s in p["body"]:
        finish(s) if s["k"] != "bad" else s.setdefault("src", "")
    for b, i in flat(p["body"]):
        if b[i]["k"] == "bad":
            b[i].setdefault("src", "")
    return p


def per_opcode(rng):
    """every opcode with operands of the declared types, and with one operand of another type"""
    out = []
    names = {"I": "i1", "B": "b1", "A": "a1", "G": "i1"}
    for n, (ins, outs) in sorted(SIG.items()):
        for wrong in [None] + list(range(len(ins))):
            tys = []
            for i, t in enumerate(ins):
                t = "IBA"[rng.randrange(3)] if t == "G" and n not in ("OP_EQUAL", "OP_EQUALVERIFY") else ("A" if t == "G" else t)
                if wrong == i:
                    t = rng.choice([x for x in "IBA" if x != t])
                tys.append(t)
            inputs = [{"n": "x%d" % i, "ty": t, "vs": [], "rty": RTYS[t][0], "id": ""} for i, t in enumerate(tys)]
            for x in inputs:
                x["txt"] = "%s: %s" % (x["n"], x["rty"])
                x["src"] = re.sub(r"\s+", "", x["txt"])
            named = [x["n"] for x in inputs] if rng.random() < .5 else None
            os_ = ["r%d" % i for i in range(len(outs))] if outs and rng.random() < .5 else None
            out.append(make([], inputs, [op(n, named, os_)] + ([op("OP_DROP")] if outs else []), "default", rng.random() < .5))
    for n in UNUSABLE:
        out.append(make([], [], [push_lit(rng, "I", "i1"), push_lit(rng, "B", "b1"), op(n)], "default"))
    return out


def divergence(rng):
    """variants that part at a conditional and leave items of the same, of different or of no name, at the top,
    second or on the alternative stack, or a different number of them; then one statement that looks at them"""
    out, rest = [], []
    pos, neg = [[{"v": "c0", "pos": True}]], [[{"v": "c0", "pos": False}]]
    probes = [[op("OP_DROP")], [op("OP_DROP", ["n1"])], [op("OP_DROP", ["__"])], [op("OP_NIP")], [op("OP_SWAP")], [op("OP_ADD")], [op("OP_DUP")],
              [op("OP_ADD", ["__", "__"], ["sum"])], [op("OP_TOALTSTACK")], [op("OP_TOALTSTACK", ["n1"])], [op("OP_FROMALTSTACK")],
              [op("OP_FROMALTSTACK", ["n1"])], [op("OP_FROMALTSTACK", None, ["n9"])], [op("depth_of", ["x"])], [op("depth_of", ["n1"])],
              [op("depth_of", ["x"], ["dx"]), op("OP_PICK", ["dx"])], [op("depth_of", ["x"]), op("OP_ROLL")], [op("depth_of", ["n1"]), op("OP_PICK")],
              [op("depth_of", ["n1"], ["d1"]), op("OP_ROLL", ["d1"])], [op("depth_of_offset", ["x", ""], None, 1)],
              [op("OP_2DROP"), op("depth_of", ["x"])], [op("OP_WITHIN")], [op("OP_2DROP"), op("OP_DROP", ["x"])]]
    for a, b in [("n1", "n1"), ("n1", "n2"), ("n1", None), (None, "n1"), (None, None)]:
        for where in ("top", "second", "alt", "altsecond"):
            for extra in ("", "then", "else"):
                if extra and (a, b) not in (("n1", "n1"), ("n1", "n2")):
                    continue
                for probe in probes:
                    def branch(n, more):
                        body = [push_lit(rng, "I", "m")] if more else []
                        body.append(push_lit(rng, "I", n))
                        if where.startswith("alt"):
                            body.append(op("OP_TOALTSTACK"))
                        if where == "second":
                            body.append(push_lit(rng, "I", "w"))
                        if where == "altsecond":
                            body += [push_lit(rng, "I", "w"), op("OP_TOALTSTACK")]
                        return body
                    inputs = [{"n": n, "ty": t, "vs": [], "rty": r, "id": "", "txt": "%s: %s" % (n, r), "src": "%s:%s" % (n, r)}
                              for n, t, r in (("x", "I", "i32"), ("y", "I", "i32"), ("c0", "B", "bool"))]
                    variants = [{"name": "V0", "bad": False, "pred": pos}, {"name": "V1", "bad": False, "pred": neg}]
                    body = [op("OP_IF", ["c0"])] + branch(a, extra == "then") + [op("OP_ELSE")] + branch(b, extra == "else") + [op("OP_ENDIF")]
                    p = make(variants, inputs, body + copy(probe), rng.choice(["default", "false"]), rng.random() < .5)
                    (rest if extra or a == b else out).append(p)
    rng.shuffle(rest)
    return out + rest


# ---------------------------------------------------------------- rust text
def pred_text(v):
    return v["badtxt"] if v["bad"] else "||".join("&&".join(("" if a["pos"] else "!") + a["v"] for a in c) for c in v["pred"])


def module(k, p, runs):
    h = p["hdr"]
    attrs = ["In"] + ['%s = "%s"' % (v["name"], pred_text(v)) for v in p["variants"]]
    if p["debug"] != "default":
        attrs.append("debug = " + p["debug"])
    if h == "debugstr":
        attrs.append('debug = "yes"')
    if h == "noname":
        attrs = []
    if h == "litvariant":
        attrs.append('"VX"')
    if h == "modname":
        attrs[0] = "a::In"
    if h == "variantmod":
        attrs.append('a::VX = "c0"')
    d = p.get("deco") or {"docs": [], "vis": "pub", "crate": ""}
    if d["crate"]:
        attrs.insert(1, 'crate = "%s"' % d["crate"])
    params = ["params: %sP" % ("&" if p["byref"] else "")]
    if h == "noparam":
        params = []
    if h == "self":
        params = ["&self"]
    ins = [x["txt"] for x in p["inputs"]]
    if h == "pattern":
        ins.append("(za, zb): (i32, i32)")
    if h == "noparam":
        ins = []
    lines = ["mod m%d {" % k, "use bitcoin_cash::{Opcode::*, *};",
             "pub struct P { pub p_int: i32, pub p_bool: bool, pub p_bytes: ByteArray }",
             "use bitcoin_cash as other_name;", "#[bitcoin_cash::script(%s)]" % ", ".join(attrs)] + d["docs"] + [
             d["vis"] + " fn f(%s)%s {" % (", ".join(params + ins), " -> u32" if h == "ret" else "")]
    lines += [s["txt"] for s in p["body"]]
    lines += ["}", "pub fn run(o: &mut String) {"]
    for ri, (ps, vals) in enumerate(runs):
        if ri:
            lines.append("o.push(',');")
        lines.append("o.push_str(\"{\\\"ops\\\":\");")
        lines.append("super::dump(o, &P { p_int: %s, p_bool: %s, p_bytes: %s }.f().ops());" % (ps["p_int"][1], ps["p_bool"][1], ps["p_bytes"][1]))
        lines.append("o.push_str(\",\\\"vars\\\":[\");")
        for vi, v in enumerate(p["variants"] or [None]):
            used = [x for x in p["inputs"] if v is None or not x["vs"] or v["name"] in x["vs"][0]]
            fields = ", ".join("%s: %s" % (x["n"], vals[x["id"]][1]) for x in used)
            if vi:
                lines.append("o.push(',');")
            lines.append("super::dump(o, &In%s { %s }.ops());" % ("" if v is None else "::" + v["name"], fields))
        lines.append("o.push_str(\"]}\");")
    lines += ["}", "}"]
    return "\n".join(lines) + "\n"


PRELUDE = r'''
#![allow(warnings)]
use bitcoin_cash::*;
fn texts(o: &mut String, v: &Option<Vec<Option<std::borrow::Cow<str>>>>) {
    match v {
        None => o.push_str("[]"),
        Some(v) => {
            o.push_str("[[");
            for (i, n) in v.iter().enumerate() {
                if i > 0 { o.push(','); }
                match n { None => o.push_str("[]"), Some(n) => o.push_str(&format!("[{:?}]", n)) }
            }
            o.push_str("]]");
        }
    }
}
pub fn dump(o: &mut String, ops: &[TaggedOp]) {
    o.push('[');
    for (i, t) in ops.iter().enumerate() {
        if i > 0 { o.push(','); }
        let (k, c, d, m): (&str, i64, Vec<u8>, bool) = match &t.op {
            Op::Code(c) => ("code", *c as u8 as i64, vec![], false),
            Op::Invalid(c) => ("inv", *c as i64, vec![], false),
            Op::PushBoolean(b) => ("bool", *b as i64, vec![], false),
            Op::PushInteger(i) => ("int", i.value() as i64, vec![], false),
            Op::PushByteArray { array, is_minimal } => ("push", 0, array.as_ref().to_vec(), *is_minimal),
        };
        o.push_str(&format!("{{\"op\":{{\"k\":\"{}\",\"c\":{},\"d\":{:?},\"m\":{}}},\"names\":", k, c, d, m));
        texts(o, &t.pushed_names.as_ref().map(|v| v.iter().map(|n| n.clone()).collect()));
        o.push_str(",\"alt\":");
        texts(o, &t.alt_pushed_names.as_ref().map(|v| v.iter().map(|n| n.clone()).collect()));
        o.push_str(",\"src\":[");
        for (j, (w, s)) in t.src_code.iter().enumerate() {
            if j > 0 { o.push(','); }
            let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
            o.push_str(&format!("[{},{:?}]", w, s));
        }
        o.push_str(&format!("],\"at\":[{:?},{},{}]}}", t.src_file.as_ref(), t.src_line, t.src_column));
    }
    o.push(']');
}
fn one(k: usize, f: fn(&mut String)) {
    let r = std::panic::catch_unwind(move || { let mut s = String::new(); f(&mut s); s });
    match r {
        Ok(s) => println!("{{\"i\":{},\"runs\":[{}]}}", k, s),
        Err(_) => println!("{{\"i\":{},\"panic\":true}}", k),
    }
}
'''


def rlib():
    env = vlib.env_for_cargo()
    r = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(vlib.V, "harness/Cargo.toml")],
                       env=env, capture_output=True, text=True)
    if r.returncode:
        raise vlib.ToolError("harness does not build: " + r.stderr[-2000:])
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if d["reason"] == "compiler-artifact" and d["target"]["name"] in ("bitcoin-cash", "bitcoin_cash"):
            for f in d["filenames"]:
                if f.endswith(".rlib"):
                    return f
    raise vlib.ToolError("no library artifact")


def compile_batch(work, b, progs, lib, real_fmt):
    """{index: recorded outcome} for a batch of (program, runs)"""
    env = vlib.env_for_cargo()
    if not real_fmt:
        env["RUSTFMT"] = "/bin/true"
    src = os.path.join(work, "b%d.rs" % b)
    exe = os.path.join(work, "b%d" % b)
    live = list(range(len(progs)))
    for _ in range(12):
        text, line, ranges = PRELUDE, PRELUDE.count("\n") + 1, []
        for k in live:
            m = module(k, *progs[k])
            ranges.append((line, line + m.count("\n"), k))
            text += m
            line += m.count("\n")
        text += "fn main() {\nstd::panic::set_hook(Box::new(|_| {}));\n" + "".join("one(%d, m%d::run);\n" % (k, k) for k in live) + "}\n"
        with open(src, "w") as f:
            f.write(text)
        r = subprocess.run(["rustc", "-Alegacy_derive_helpers", "--edition", "2018", "-Cdebuginfo=0", "--error-format=json", "-L", "dependency=" + os.path.join(vlib.TARGET, "debug/deps"),
                            "--extern", "bitcoin_cash=" + lib, src, "-o", exe], env=env, capture_output=True, text=True, timeout=600)
        if r.returncode == 0:
            break
        gone = set()
        for l in r.stderr.splitlines():
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d["level"] != "error":
                continue
            for s in d["spans"]:
                if not s["is_primary"]:
                    continue
                while s["file_name"] != src and s.get("expansion"):
                    s = s["expansion"]["span"]
                hit = [k for a, z, k in ranges if a <= s["line_start"] < z] if s["file_name"] == src else []
                gone.update(hit)
        if not gone:
            raise vlib.ToolError("batch %d: no program to blame: %s" % (b, r.stderr[-3000:]))
        live = [k for k in live if k not in gone]
    else:
        raise vlib.ToolError("batch %d does not settle" % b)
    out = {k: {"k": "ok", "acc": False, "runs": []} for k in range(len(progs))}
    where = {k: (a, z) for a, z, k in ranges}
    r = subprocess.run([exe], env=env, capture_output=True, text=True, timeout=120)
    for l in r.stdout.splitlines():
        d = json.loads(l)
        out[d["i"]] = {"k": "panic"} if d.get("panic") else {"k": "ok", "acc": True, "runs": [tidy(x, src, where[d["i"]]) for x in d["runs"]]}
    for k in live:
        if out[k]["k"] == "ok" and not out[k]["acc"]:
            out[k] = {"k": "abort"}
    for f in (exe, src):
        os.path.exists(f) and os.remove(f)
    return out


def tidy(run, src, lines):
    """lines: where the module of this function is, in the source file that was compiled"""
    def at(a):
        f, l, c = a
        return {"file": "" if f == "" else "own" if f == src else "other", "line": l, "inside": lines[0] <= l < lines[1], "col": c}

    def ops(os_):
        r = []
        for o in os_:
            texts = sorted({norm(t) for _, t in o["src"]})
            r.append({"op": o["op"], "names": o["names"], "alt": o["alt"], "src": texts, "widths": [w for w, _ in o["src"]], "at": at(o["at"])})
        return r
    return {"ops": ops(run["ops"]), "vars": [ops(v) for v in run["vars"]]}


def run_values(rng, p):
    runs = []
    for _ in range(2):
        ps = {"p_int": value(rng, "i32"), "p_bool": value(rng, "bool"), "p_bytes": value(rng, "ByteArray")}
        vals = {x["id"]: value(rng, x["rty"]) for x in p["inputs"]}
        runs.append((ps, vals))
    return runs


def judged(p):
    """what the specification needs to know"""
    def stmt(s):
        if s["k"] == "block":
            return {"k": "block", "body": [stmt(x) for x in s["body"]]}
        if s["k"] == "bad":
            return {"k": "bad", "txt": s["txt"]}
        return {k: v for k, v in s.items() if k not in ("tup",)}
    return {"deco": p.get("deco") or {"docs": [], "vis": "pub", "crate": ""}, "hdr": p["hdr"], "debug": p["debug"], "byref": p["byref"],
            "variants": p["variants"], "inputs": p["inputs"],
            "body": [stmt(s) for s in p["body"]]}


def record(programs, rng, work, size=40, fmt_every=8):
    lib = rlib()
    jobs = []
    progs = [(p, run_values(rng, p)) for p in programs]
    batches = [progs[i:i + size] for i in range(0, len(progs), size)]
    events = []
    with ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(compile_batch, work, b, x, lib, b % fmt_every == 0) for b, x in enumerate(batches)]
        for b, j in enumerate(jobs):
            out = j.result()
            for k, (p, runs) in enumerate(batches[b]):
                events.append({"dom": "macro", "op": "prog", "fmt": b % fmt_every == 0, "prog": judged(p),
                               "ps": [{f: v[0] for f, v in ps.items()} for ps, _ in runs],
                               "vals": [{i: v[0] for i, v in vals.items()} for _, vals in runs],
                               "rs": [[{f: v[1] for f, v in ps.items()}, {i: v[1] for i, v in vals.items()}] for ps, vals in runs],
                               "out": out[k]})
    return events


def replay(e, work):
    """compiles the recorded program again"""
    p = e["prog"]
    runs = [({f: (ps[f], t[0][f]) for f in ps}, {i: (vals[i], t[1][i]) for i in vals}) for ps, vals, t in zip(e["ps"], e["vals"], e["rs"])]
    e["out"] = compile_batch(work, 0, [(p, runs)], rlib(), e["fmt"])[0]
    return e


def c14(rng, tier, work, binary, model_programs):
    n = 500 if tier == "quick" else 6000
    progs = list(per_opcode(rng))
    for _ in range(n):
        p = Gen(rng, rng.choice([3, 6, 10, 16, 25])).program()
        progs.append(p)
        if rng.random() < .7:
            progs.append(mutate(rng, p))
    for _ in range(60 if tier == "quick" else 600):
        g = Gen(rng, 12)
        g.nested = True
        progs.append(g.program())
    d = divergence(rng)
    progs += d[:440] if tier == "quick" else d
    progs += [from_model(c, rng) for c in model_programs]
    return {"macro": record(progs, rng, work)}


def from_model(c, rng):
    """a function enumerated by the specification, with its open conditionals closed"""
    p = c["prog"]
    for i, x in enumerate(p["inputs"]):
        x["rty"] = rng.choice(RTYS[x["ty"]])
        x["id"] = "q%d" % i
        x["txt"] = ("#[variant(%s)] " % ", ".join(x["vs"][0]) if x["vs"] else "") + "%s: %s" % (x["n"], x["rty"])
        x["src"] = re.sub(r"\s+", "", x["txt"])
    body = p["body"] + [op("OP_ENDIF") for _ in range(c["close"])]
    for s in body:
        if s["k"] == "push":
            o = s["e"]["op"]
            s["e"]["txt"] = str(o["c"]) if o["k"] == "int" else ("true" if o["c"] else "false")
    return make(p["variants"], p["inputs"], body, rng.choice(["default", "true", "false"]), rng.random() < .5)
