"""Struct declarations made up at check time: they are compiled with the real derive
macro (rustc), and the calls of the codecs it generated are recorded (C19)."""
import json, os, re, subprocess
import vlib
from gen_wire import T, F, INTS, value, enc, rbytes, OUTP, OUT

LEAF = [(k, k, F(n)) for k, n in INTS.items()] + [
    ("bool", "bool", ("bool",)), ("ByteArray", "bytes", ("bytes",)), ("Script", "script", ("script",)), ("Sha256d", "sha256d", F(32)),
    ("Hash160", "hash160", F(20)), ("Sha256", "sha256", F(32)), ("Sha1", "sha1", F(20)), ("Ripemd160", "ripemd160", F(20)),
    ("FixedByteArrayBE<[u8; 4]>", "fixed4", F(4)), ("TxOutpoint", "outpoint", OUTP), ("TxOutput", "output", OUT),
    ("Vec<u8>", "vec_u8", ("vec", F(1))), ("Vec<u16>", "vec_u16", ("vec", F(2))), ("Vec<i128>", "vec_i128", ("vec", F(16))),
    ("Vec<ByteArray>", "vec_bytes", ("vec", ("bytes",))), ("Vec<Script>", "vec_script", ("vec", ("script",))),
    ("Vec<Vec<u16>>", "vec_vec_u16", ("vec", ("vec", F(2)))), ("Vec<bool>", "vec_bool", ("vec", ("bool",))),
    ("Vec<TxOutpoint>", "vec_outpoint", ("vec", OUTP))]
SINGLE = [x for x in LEAF if x[2][0] in ("fixed", "bool")]
SKIPTY = [("Option<u64>", "Some(7)", "is_none()"), ("u16", "9", "eq(&0)"), ("bool", "true", "eq(&false)"), ("String", '"x".into()', "is_empty()"),
          ("Vec<u8>", "vec![1]", "is_empty()"), ("(u8, i64)", "(1, -1)", "eq(&(0, 0))"), ("f64", "1.5", "eq(&0.0)"), ("Option<String>", "Some(String::new())", "is_none()"),
          ("std::collections::BTreeMap<u8, u8>", "[(1u8, 2u8)].iter().cloned().collect()", "is_empty()"), ("ByteArray", "ByteArray::new(\"n\", vec![3])", "is_empty()"),
          ("u128", "5", "eq(&0)"), ("Option<Sha256d>", "Some(Sha256d::new([1; 32]))", "is_none()"), ("Vec<ByteArray>", "vec![vec![1u8].into()]", "is_empty()")]
NAMES = """a b c d e f g h k n s t v x y z data rest left right parts part result res err error ok value val len length capacity cursor cur bytes raw ser deser
deser_rest item field fields this other tmp i j _x _a __y __data __parts serialize_parts deserialize_data bitcoin_cash std core vec byte_array names name
first last tx_hash version inputs outputs lock_time Upper mixedCase with_2 script skip default extra tag body end hash flag u8 u16 u64 str string option some none_ main
self_ super_ r#type r#match r#fn r#in r#move r#struct ret out buf array total sum count index idx size offset pos position begin start stop""".split()
ATTRS = ["/// a documented field\n", "#[serde(skip)] ", "#[serde(default)] ", "#[allow(dead_code)] ", "#[doc = \"text\"] ", "#[serde(skip, default)] ", "#[cfg(all())] ",
         "#[deprecated] ", "#[doc(hidden)] ", "/** skip */ ", "#[serde(rename = \"skip\")] ", "#[cfg_attr(any(), skip)] ",
         "#[doc = concat!(\"a\", \"skip\")] ", "#[cfg_attr(all(), allow(unused))] ", "#[rustfmt::skip] "]
HEADS = ["/// a struct\n#[repr(C)]\n", "#[allow(dead_code)]\n", "#[doc = concat!(\"a \", \"struct\")]\n", "#[cfg_attr(all(), doc = concat!(\"a\"))]\n", "#[non_exhaustive]\n", "#[must_use]\n",
         "#[rustfmt::skip]\n", "#[bitcoin_code]\n", "#[bitcoin_code()]\n", "#[deprecated(note = \"x\")]\n", '#[doc(alias = "skip")]\n#[bitcoin_code(crate = "bch")]\n', '#[bitcoin_code(crate = "bch")]\n/** skip */\n#[repr(C, align(8))]\n']
VIS = ["", "", "pub ", "pub(crate) "]


def tla(t):
    if t[0] == "fixed":
        return {"k": "fixed", "n": t[1]}
    if t[0] == "vec":
        return {"k": "vec", "t": tla(t[1])}
    if t[0] == "struct":
        return {"k": "struct", "fs": [tla(x) for x in t[1]]}
    return {"k": t[0]}


class Decl:
    """one declaration: its text and what the specification is told of it"""

    def __init__(self, name, fields, head="", kw="pub "):
        # fields: (name, rust type, type or None when skipped, sample, default test, attributes, visibility)
        self.name, self.fields = name, fields
        self.t = ("struct", [f[2] for f in fields if f[2]])
        self.names = [f[0] for f in fields if f[2]]
        self.uses = {m for f in fields if f[2] for m in re.findall(r"G\d+", f[1])}
        self.serde = any("serde(" in f[5] for f in fields)
        body = "".join("    %s%s%s: %s,\n" % (f[5], f[6], f[0], f[1]) for f in fields)
        der = "BitcoinCode, Clone, Debug" + (", Deserialize" if self.serde else "")
        self.text = "#[derive(%s)]\n%s%sstruct %s {\n%s}\n" % (der, head, kw, name, body)
        k, of, to = 0, [], []
        for f in fields:
            if f[2]:
                of.append("%s: Val::of(&v[%d])" % (f[0], k))
                to.append("self.%s.to()" % f[0])
                k += 1
            else:
                of.append("%s: %s" % (f[0], f[3]))
        sk = ["self.%s.%s" % (f[0], f[4]) for f in fields if not f[2]] + ["self.%s.skipdef()" % f[0] for f in fields if f[2]]
        self.impl = ("impl Val for %s {\n    fn of(v: &Value) -> Self { %s { %s } }\n    fn to(&self) -> Value { json!([%s]) }\n"
                     "    fn skipdef(&self) -> bool { %s }\n}\n") % (name, name, ", ".join(of), ", ".join(to), " && ".join(sk) or "true")


def field(name, ty, attrs="", vis=""):
    rt, _, t = next(x for x in LEAF if x[1] == ty)
    return (name, rt, t, "", "", attrs, vis)


def skipped(name, k=0, attrs="", vis="", order=0):
    rt, sample, test = SKIPTY[k]
    a = "#[bitcoin_code(skip)] "
    return (name, rt, None, sample, test, attrs + a if order else a + attrs, vis)


def fixed_decls():
    yield [field("data", "u8"), field("left", "u16"), field("right", "u32")]
    yield [field("a", "u8"), field("data", "u16"), field("rest", "bytes")]
    yield [field("left", "u16"), skipped("data", 9), field("right", "u8")]
    yield [field("a", "u8", "#[serde(skip)] "), field("b", "u16", "/// skip\n"), field("c", "u32", "#[serde(default)] ")]
    yield [skipped("data", 1), field("rest", "u8"), skipped("parts", 4), field("bytes", "bytes")]
    yield []
    yield [skipped("a", 0), skipped("b", 3)]
    yield [field("x", "bytes"), field("y", "bytes"), field("z", "bytes")]
    yield [field("v", "vec_u8"), skipped("w", 2), field("t", "vec_u8")]
    yield [field(n, "u8") for n in ("h", "g", "f", "e", "d", "c", "b", "a")]
    yield [field("n%d" % i, "u16") for i in range(40)]
    yield [field("r#type", "u8"), skipped("r#match", 1), field("r#fn", "bytes"), field("r#in", "u32")]
    yield [skipped("a", 1), skipped("b", 2), field("c", "u16"), skipped("d", 1), skipped("e", 0), skipped("f", 10), field("g", "bytes"), skipped("h", 3), skipped("i", 1)]


def random_decl(r, name, earlier):
    kind = r.random()
    n = r.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
    names = r.sample(NAMES, n)
    fields = []
    pskip = r.choice([0, .15, .3, .6])
    for nm in names:
        attrs = r.choice(ATTRS) if r.random() < .25 else ""
        vis = r.choice(VIS)
        if r.random() < pskip:
            fields.append(skipped(nm, r.randrange(len(SKIPTY)), "" if "serde" in attrs else attrs, vis, r.randrange(2)))
            continue
        if earlier and r.random() < .25 and kind > .4:
            g = r.choice(earlier)
            rt, t = g.name, g.t
            if r.random() < .4:
                rt, t = "Vec<%s>" % g.name, ("vec", g.t)
            fields.append((nm, rt, t, "", "", "" if "serde" in attrs else attrs, vis))
            continue
        rt, _, t = r.choice(SINGLE if kind < .4 else LEAF)
        if "serde" in attrs and rt not in INTS:
            attrs = ""
        fields.append((nm, rt, t, "", "", attrs, vis))
    if any("serde(" in f[5] for f in fields):
        # the other derive wants every field to have a serde form
        fields = [f if f[2] and (f[1] in INTS) else (f[0], "u32", F(4), "", "", f[5].replace("#[bitcoin_code(skip)] ", ""), f[6]) if f[2]
                  else (f[0], "u16", None, "9", "eq(&0)", f[5], f[6]) for f in fields]
    head = r.choice(["", "", "", "", '#[bitcoin_code(crate = "bch")]\n', '#[bitcoin_code(crate = "bitcoin_cash")]\n', r.choice(HEADS), r.choice(HEADS), r.choice(HEADS)])
    d = Decl(name, fields, head, r.choice(["pub ", "pub ", "pub(crate) ", ""]))
    return d


def with_sources(decls):
    """each declaration with those it is made of"""
    by = {d.name: d for d in decls}
    for d in decls:
        need = []
        for x in decls:
            if x is d or x.name in closure(d, by):
                need.append(x)
        d.src = [[x.name, x.text, x.impl] for x in need]
    return decls


def closure(d, by):
    out = set()
    for u in d.uses:
        out |= {u} | closure(by[u], by)
    return out


def declarations(r, n):
    out = []
    for fs in fixed_decls():
        out.append(Decl("G%d" % len(out), fs))
    for head in HEADS:
        out.append(Decl("G%d" % len(out), [field("a", "u8"), skipped("b", 1), field("c", "bytes")], head))
    while len(out) < n:
        out.append(random_decl(r, "G%d" % len(out), [d for d in out if minwidth(d.t) > 0][-12:]))
    return with_sources(out)


def minwidth(t):
    if t[0] == "fixed":
        return t[1]
    if t[0] == "struct":
        return sum(minwidth(x) for x in t[1])
    return 1


PRELUDE = """#![allow(warnings)]
use bch_harness::wire::{run_as, Val};
use bitcoin_cash::*;
use bitcoin_cash as bch;
use serde::Deserialize;
use serde_json::{json, Value};
"""


def artifacts():
    env = vlib.env_for_cargo()
    r = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(vlib.V, "harness/Cargo.toml")],
                       env=env, capture_output=True, text=True)
    if r.returncode:
        raise vlib.ToolError("harness does not build: " + r.stderr[-2000:])
    libs = {}
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if d["reason"] == "compiler-artifact":
            n = d["target"]["name"].replace("-", "_")
            if n in ("bitcoin_cash", "bch_harness", "serde", "serde_json") and "lib" in d["target"]["kind"][0]:
                for f in d["filenames"]:
                    if f.endswith(".rlib"):
                        libs[n] = f
    return libs


def compile_decls(decls, work):
    """(binary, {name of a declaration that did not compile: message})"""
    env = vlib.env_for_cargo()
    libs = artifacts()
    src, exe = os.path.join(work, "derived.rs"), os.path.join(work, "derived")
    bad, live = {}, list(decls)
    for _ in range(20):
        text, line, ranges = PRELUDE, PRELUDE.count("\n") + 1, []
        for d in live:
            m = d.text + d.impl
            ranges.append((line, line + d.text.count("\n"), line + m.count("\n"), d))
            text += m
            line += m.count("\n")
        text += "fn main() { bch_harness::drive(|c: &Value| match c[\"ty\"].as_str().unwrap() {\n"
        text += "".join("    \"%s\" => run_as::<%s>(c),\n" % (d.name, d.name) for d in live if d.impl) + "    t => panic!(\"HARNESS: {}\", t) }) }\n"
        with open(src, "w") as f:
            f.write(text)
        r = subprocess.run(["rustc", "-Alegacy_derive_helpers", "--edition", "2018", "-Cdebuginfo=0", "--error-format=json",
                            "-L", "dependency=" + os.path.join(vlib.TARGET, "debug/deps")] +
                           [x for n, p in libs.items() for x in ("--extern", n + "=" + p)] + [src, "-o", exe],
                           env=env, capture_output=True, text=True, timeout=600)
        if r.returncode == 0:
            return exe, bad
        gone = {}
        for l in r.stderr.splitlines():
            d = json.loads(l) if l.startswith("{") else {"level": ""}
            if d["level"] != "error":
                continue
            for s in d["spans"]:
                while s["file_name"] != src and s.get("expansion"):
                    s = s["expansion"]["span"]
                if s["is_primary"] and s["file_name"] == src:
                    for a, m, z, dc in ranges:
                        if a <= s["line_start"] < m:
                            gone.setdefault(dc.name, d["message"])
        if not gone:
            raise vlib.ToolError("derived structs: nothing to blame: " + r.stderr[-3000:])
        bad.update(gone)
        out = set(gone)
        while True:      # what uses them goes as well, unjudged
            more = {d.name for d in live if d.uses & out} - out
            if not more:
                break
            out |= more
        live = [d for d in live if d.name not in out]
    raise vlib.ToolError("derived structs do not settle")


def calls(r, d, n):
    t = d.t
    base = {"dom": "wire", "ty": d.name, "t": tla(t), "fields": d.names, "src": d.src}
    for i in range(n):
        v = value(r, t, r.random() < .1)
        e = enc(r, t, v, r.choice([0, 0, .2]))
        yield dict(base, op="ser", v=v)
        yield dict(base, op="rt", v=v, tail=rbytes(r, r.randrange(6)))
        yield dict(base, op="deser", b=e + rbytes(r, r.randrange(3)))
        yield dict(base, op="deser", b=e[:r.randrange(len(e) + 1)])
        yield dict(base, op="desertag", b=e + rbytes(r, r.randrange(3)), cuts=sorted(r.randrange(len(e) + 2) for _ in range(4)))
    if minwidth(t):
        vs = [value(r, t) for _ in range(3)]
        yield dict(base, op="encall", vs=vs)
        yield dict(base, op="decall", b=[x for v in vs for x in enc(r, t, v)])


def record(decls, cases, work):
    exe, bad = compile_decls(decls, work)
    evs = [{"dom": "wire", "op": "decl", "ty": d.name, "src": d.src, "out": {"k": "nocompile", "msg": bad[d.name]} if d.name in bad else {"k": "ok"}}
           for d in decls if d.name in bad or d.name in live_names(decls, bad)]
    live = live_names(decls, bad)
    p = vlib.run_harness(exe, [c for c in cases if c["ty"] in live], work, "derived")
    evs += [json.loads(l) for l in open(p)]
    return evs


def live_names(decls, bad):
    out = set(bad)
    while True:
        more = {d.name for d in decls if d.uses & out} - out
        if not more:
            return {d.name for d in decls} - out
        out |= more


class Again:
    def __init__(self, name, text, impl=""):
        self.name, self.text, self.impl, self.uses = name, text, impl, set()


DER = "#[derive(BitcoinCode, Clone, Debug)]\n"
NOT_CODED = ["struct %s(u8, u16);", "struct %s(pub ByteArray);", "struct %s;", "enum %s { A { x: u8 }, B { y: u8 } }", "enum %s { A, B }",
             "struct %s { a: u8, b: f64 }", "struct %s { a: String }", "struct %s { a: (u8, u16) }", "struct %s { a: Option<u8>, b: u8 }"]
FIELD_ATTRS = ["#[bitcoin_code]", '#[bitcoin_code = "skip"]', "#[bitcoin_code(skp)]", "#[bitcoin_code(Skip)]", "#[bitcoin_code(default)]", '#[bitcoin_code("skip")]',
               '#[bitcoin_code(skip = "true")]', '#[bitcoin_code(skip = "false")]', "#[bitcoin_code(skip(u8))]", "#[bitcoin_code(skip, little_endian)]", "#[bitcoin_code(x::skip)]",
               '#[bitcoin_code(crate = "bch")]', "#[bitcoin_code(skip)] #[bitcoin_code(other)]", "#[bitcoin_code(other)] #[bitcoin_code(skip)]"]
STRUCT_ATTRS = ["#[bitcoin_code(crate = 5)]", "#[bitcoin_code(crate)]", '#[bitcoin_code("bch")]', '#[bitcoin_code(krate = "bch")]', "#[bitcoin_code(skip)]",
                '#[bitcoin_code(crate = "no_such_crate")]', '#[bitcoin_code(crate = "bch", order = "reverse")]', '#[bitcoin_code(x::crate = "bch")]']


def refused_decls():
    texts = [DER + t + "\n" for t in NOT_CODED]
    texts += [DER + "struct %%s { a: u8, %s b: u16 }\n" % a for a in FIELD_ATTRS]
    texts += [DER + "struct %%s { %s a: u8 }\n" % a for a in FIELD_ATTRS[:3]]
    texts += [DER + a + "\nstruct %s { a: u8, b: u16 }\n" for a in STRUCT_ATTRS]
    return [Again("R%d" % i, t % ("R%d" % i)) for i, t in enumerate(texts)]


def refusals(decls, work):
    """declarations there is no codec for: which of them compile?"""
    _, bad = compile_decls(decls, work)
    return [{"dom": "wire", "op": "refuse", "ty": d.name, "src": [[d.name, d.text, ""]],
             "out": {"k": "nocompile"} if d.name in bad else {"k": "ok"}} for d in decls]


def replay(e, work):
    decls = [Again(*x) for x in e["src"]]
    if e["op"] == "refuse":
        return refusals(decls, work)[0]
    exe, bad = compile_decls(decls, work)
    if e["op"] == "decl" or e["ty"] in bad:
        e["out"] = {"k": "nocompile", "msg": bad[e["ty"]]} if e["ty"] in bad else {"k": "ok"}
        return e
    return json.loads(open(vlib.run_harness(exe, [e], work, "derived")).readline())


def c19(rng, tier, work, binary, _):
    decls = declarations(rng, 60 if tier == "quick" else 400)
    cases = [c for d in decls for c in calls(rng, d, 6 if tier == "quick" else 25)]
    return {"wire": record(decls, cases, work) + refusals(refused_decls(), work)}
