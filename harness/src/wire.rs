use crate::util::*;
use bitcoin_cash::*;
use serde_json::{json, Value};

pub trait Val: BitcoinCode {
    fn of(v: &Value) -> Self;
    fn to(&self) -> Value;
    /// fields that are not on the wire have their default value
    fn skipdef(&self) -> bool {
        true
    }
}
macro_rules! ints { ($($t:ident)+) => { $( impl Val for $t {
    fn of(v: &Value) -> Self {
        let mut a = [0u8; std::mem::size_of::<$t>()];
        a.copy_from_slice(&bytes(v));
        $t::from_le_bytes(a)
    }
    fn to(&self) -> Value { jb(&self.to_le_bytes()) }
} )+ } }
ints! {u8 i8 u16 i16 u32 i32 u64 i64 u128 i128}
impl Val for bool {
    fn of(v: &Value) -> Self {
        v.as_bool().expect("HARNESS: bool")
    }
    fn to(&self) -> Value {
        json!(self)
    }
}
/// the same bytes with some annotation of their own
fn annotated(b: Vec<u8>) -> ByteArray {
    match b.iter().map(|x| *x as usize).sum::<usize>() % 4 {
        0 => b.into(),
        1 => ByteArray::new("own", b),
        2 => ByteArray::new("message", vec![1, 2, 3]).apply_function(b, Function::Sha256),
        _ => ByteArray::new("message", vec![1]).apply_function(b, Function::ToDataSig).named("digest"),
    }
}
impl Val for ByteArray {
    fn of(v: &Value) -> Self {
        annotated(bytes(v))
    }
    fn to(&self) -> Value {
        jb(self)
    }
}
impl Val for Script {
    fn of(v: &Value) -> Self {
        script_of(v)
    }
    fn to(&self) -> Value {
        jscript(self)
    }
}
macro_rules! hashes { ($($t:ident)+) => { $( impl Val for $t {
    fn of(v: &Value) -> Self { $t::from_byte_array(annotated(bytes(v))).expect("lib: hash") }
    fn to(&self) -> Value { jb(self.as_slice()) }
} )+ } }
hashes! {Sha1 Ripemd160 Sha256 Sha256d Hash160}
impl Val for FixedByteArrayBE<[u8; 4]> {
    fn of(v: &Value) -> Self {
        FixedByteArray::from_slice_unnamed(&bytes(v)).expect("lib: fixed")
    }
    fn to(&self) -> Value {
        jb(self.as_ref())
    }
}
impl<T: Val> Val for Vec<T> {
    fn of(v: &Value) -> Self {
        arr(v).iter().map(T::of).collect()
    }
    fn to(&self) -> Value {
        Value::Array(self.iter().map(|x| x.to()).collect())
    }
    fn skipdef(&self) -> bool {
        self.iter().all(|x| x.skipdef())
    }
}
impl Val for TxOutpoint {
    fn of(v: &Value) -> Self {
        TxOutpoint { tx_hash: Sha256d::of(&v[0]), vout: u32::of(&v[1]) }
    }
    fn to(&self) -> Value {
        json!([self.tx_hash.to(), self.vout.to()])
    }
}
impl Val for TxInput {
    fn of(v: &Value) -> Self {
        TxInput::new(TxOutpoint::of(&v[0]), Script::of(&v[1]), u32::of(&v[2]))
    }
    fn to(&self) -> Value {
        json!([self.prev_out.to(), self.script.to(), self.sequence.to()])
    }
    fn skipdef(&self) -> bool {
        self.lock_script.is_none()
            && self.value.is_none()
            && self.is_p2sh.is_none()
            && self.sig_hash_flags.is_none()
    }
}
impl Val for TxOutput {
    fn of(v: &Value) -> Self {
        TxOutput { value: u64::of(&v[0]), script: Script::of(&v[1]) }
    }
    fn to(&self) -> Value {
        json!([self.value.to(), self.script.to()])
    }
}
impl Val for UnhashedTx {
    fn of(v: &Value) -> Self {
        UnhashedTx {
            version: i32::of(&v[0]),
            inputs: Vec::of(&v[1]),
            outputs: Vec::of(&v[2]),
            lock_time: u32::of(&v[3]),
        }
    }
    fn to(&self) -> Value {
        json!([self.version.to(), self.inputs.to(), self.outputs.to(), self.lock_time.to()])
    }
    fn skipdef(&self) -> bool {
        self.inputs.skipdef()
    }
}
impl Val for Tx {
    fn of(v: &Value) -> Self {
        UnhashedTx::of(v).hashed()
    }
    fn to(&self) -> Value {
        // go through the accessors
        json!([self.version().to(), self.inputs().to_vec().to(), self.outputs().to_vec().to(),
               self.lock_time().to()])
    }
}
impl Val for TxPreimage {
    fn of(v: &Value) -> Self {
        TxPreimage {
            version: i32::of(&v[0]),
            hash_prevouts: Sha256d::of(&v[1]),
            hash_sequence: Sha256d::of(&v[2]),
            outpoint: TxOutpoint::of(&v[3]),
            script_code: Script::of(&v[4]),
            value: u64::of(&v[5]),
            sequence: u32::of(&v[6]),
            hash_outputs: Sha256d::of(&v[7]),
            lock_time: u32::of(&v[8]),
            sig_hash_type: u32::of(&v[9]),
        }
    }
    fn to(&self) -> Value {
        json!([self.version.to(), self.hash_prevouts.to(), self.hash_sequence.to(),
               self.outpoint.to(), self.script_code.to(), self.value.to(), self.sequence.to(),
               self.hash_outputs.to(), self.lock_time.to(), self.sig_hash_type.to()])
    }
}

// ---- derived structures (C19) ----
macro_rules! derived {
    ($name:ident { $($body:tt)* } of |$v:ident| $of:expr; to |$s:ident| $to:expr; skip |$k:ident| $skip:expr) => {
        #[derive(BitcoinCode, Clone, Debug)]
        pub struct $name { $($body)* }
        impl Val for $name {
            #[allow(unused_variables)]
            fn of($v: &Value) -> Self { $of }
            fn to(&self) -> Value { let $s = self; $to }
            #[allow(unused_variables)]
            fn skipdef(&self) -> bool { let $k = self; $skip }
        }
    };
}
derived! { SInts { a: u8, b: u16, c: u32, d: u64, e: u128, f: i8, g: i16, h: i32, i: i64, j: i128 }
    of |v| SInts { a: Val::of(&v[0]), b: Val::of(&v[1]), c: Val::of(&v[2]), d: Val::of(&v[3]), e: Val::of(&v[4]),
                   f: Val::of(&v[5]), g: Val::of(&v[6]), h: Val::of(&v[7]), i: Val::of(&v[8]), j: Val::of(&v[9]) };
    to |s| json!([s.a.to(), s.b.to(), s.c.to(), s.d.to(), s.e.to(), s.f.to(), s.g.to(), s.h.to(), s.i.to(), s.j.to()]);
    skip |s| true }
derived! { SSkipFirst { #[bitcoin_code(skip)] extra: Option<u64>, a: u16, b: ByteArray }
    of |v| SSkipFirst { extra: Some(7), a: Val::of(&v[0]), b: Val::of(&v[1]) };
    to |s| json!([s.a.to(), s.b.to()]);
    skip |s| s.extra.is_none() }
derived! { SSkipMid { first: u32, #[bitcoin_code(skip)] extra: u16, last: u64 }
    of |v| SSkipMid { first: Val::of(&v[0]), extra: 9, last: Val::of(&v[1]) };
    to |s| json!([s.first.to(), s.last.to()]);
    skip |s| s.extra == 0 }
derived! { SSkipLast { s: Script, n: u16, #[bitcoin_code(skip)] tail: Vec<u8> }
    of |v| SSkipLast { s: Val::of(&v[0]), n: Val::of(&v[1]), tail: vec![1] };
    to |s| json!([s.s.to(), s.n.to()]);
    skip |s| s.tail.is_empty() }
derived! { SSkipMany { #[bitcoin_code(skip)] p: bool, x: u8, #[bitcoin_code(skip)] q: u8, #[bitcoin_code(skip)] r: String, y: u16, z: bool, #[bitcoin_code(skip)] t: u128 }
    of |v| SSkipMany { p: true, x: Val::of(&v[0]), q: 3, r: "r".into(), y: Val::of(&v[1]), z: Val::of(&v[2]), t: 5 };
    to |s| json!([s.x.to(), s.y.to(), s.z.to()]);
    skip |s| !s.p && s.q == 0 && s.r.is_empty() && s.t == 0 }
derived! { SAllSkip { #[bitcoin_code(skip)] p: u64 }
    of |v| SAllSkip { p: 4 };
    to |s| json!([]);
    skip |s| s.p == 0 }
derived! { SOne { only: ByteArray }
    of |v| SOne { only: Val::of(&v[0]) };
    to |s| json!([s.only.to()]);
    skip |s| true }
derived! { SInner { tag: u8, body: ByteArray }
    of |v| SInner { tag: Val::of(&v[0]), body: Val::of(&v[1]) };
    to |s| json!([s.tag.to(), s.body.to()]);
    skip |s| true }
derived! { SNested { one: SInner, many: Vec<SInner>, #[bitcoin_code(skip)] gap: u8, sk: SSkipFirst, end: u8 }
    of |v| SNested { one: Val::of(&v[0]), many: Val::of(&v[1]), gap: 1, sk: Val::of(&v[2]), end: Val::of(&v[3]) };
    to |s| json!([s.one.to(), s.many.to(), s.sk.to(), s.end.to()]);
    skip |s| s.gap == 0 && s.sk.skipdef() }
derived! { SOrder { zz: u64, yy: u32, xx: u16, ww: u8 }
    of |v| SOrder { zz: Val::of(&v[0]), yy: Val::of(&v[1]), xx: Val::of(&v[2]), ww: Val::of(&v[3]) };
    to |s| json!([s.zz.to(), s.yy.to(), s.xx.to(), s.ww.to()]);
    skip |s| true }
derived! { SMix { h: Sha256d, scripts: Vec<Script>, flag: bool, grid: Vec<Vec<u16>>, blobs: Vec<ByteArray>, k: Hash160 }
    of |v| SMix { h: Val::of(&v[0]), scripts: Val::of(&v[1]), flag: Val::of(&v[2]), grid: Val::of(&v[3]), blobs: Val::of(&v[4]), k: Val::of(&v[5]) };
    to |s| json!([s.h.to(), s.scripts.to(), s.flag.to(), s.grid.to(), s.blobs.to(), s.k.to()]);
    skip |s| true }
trait Work {
    fn run<T: Val>(&self) -> Value;
}
fn dispatch(ty: &str, w: &impl Work) -> Value {
    match ty {
        "u8" => w.run::<u8>(), "i8" => w.run::<i8>(),
        "u16" => w.run::<u16>(), "i16" => w.run::<i16>(),
        "u32" => w.run::<u32>(), "i32" => w.run::<i32>(),
        "u64" => w.run::<u64>(), "i64" => w.run::<i64>(),
        "u128" => w.run::<u128>(), "i128" => w.run::<i128>(),
        "bool" => w.run::<bool>(),
        "bytes" => w.run::<ByteArray>(),
        "script" => w.run::<Script>(),
        "sha1" => w.run::<Sha1>(), "ripemd160" => w.run::<Ripemd160>(),
        "sha256" => w.run::<Sha256>(), "sha256d" => w.run::<Sha256d>(), "hash160" => w.run::<Hash160>(),
        "fixed4" => w.run::<FixedByteArrayBE<[u8; 4]>>(),
        "vec_u8" => w.run::<Vec<u8>>(), "vec_u16" => w.run::<Vec<u16>>(), "vec_u64" => w.run::<Vec<u64>>(),
        "vec_bool" => w.run::<Vec<bool>>(),
        "vec_bytes" => w.run::<Vec<ByteArray>>(), "vec_script" => w.run::<Vec<Script>>(),
        "vec_sha256d" => w.run::<Vec<Sha256d>>(),
        "vec_vec_u16" => w.run::<Vec<Vec<u16>>>(),
        "outpoint" => w.run::<TxOutpoint>(), "input" => w.run::<TxInput>(), "output" => w.run::<TxOutput>(),
        "tx" => w.run::<UnhashedTx>(), "hashedtx" => w.run::<Tx>(), "preimage" => w.run::<TxPreimage>(),
        "vec_input" => w.run::<Vec<TxInput>>(), "vec_output" => w.run::<Vec<TxOutput>>(),
        "vec_tx" => w.run::<Vec<UnhashedTx>>(),
        "s_ints" => w.run::<SInts>(), "s_skipfirst" => w.run::<SSkipFirst>(), "s_skipmid" => w.run::<SSkipMid>(),
        "s_skiplast" => w.run::<SSkipLast>(), "s_skipmany" => w.run::<SSkipMany>(), "s_allskip" => w.run::<SAllSkip>(),
        "s_one" => w.run::<SOne>(), "s_inner" => w.run::<SInner>(), "s_nested" => w.run::<SNested>(),
        "s_order" => w.run::<SOrder>(), "s_mix" => w.run::<SMix>(),
        _ => panic!("HARNESS: type {}", ty),
    }
}
/// the parts an array was put together from
fn leaves(b: &ByteArray) -> Vec<ByteArray> {
    match b.preimage() {
        Some(p) if b.function() == Function::Plain && b.name().is_none() => p.iter().flat_map(leaves).collect(),
        _ => vec![b.clone()],
    }
}
pub fn names(b: &ByteArray) -> Value {
    Value::Array(leaves(b).iter().map(|p| json!(p.name().unwrap_or(""))).collect())
}
pub fn parts(b: &ByteArray) -> Value {
    Value::Array(leaves(b).iter().map(|p| jb(p)).collect())
}
/// encode, append foreign bytes, decode
struct RoundTrip<'a>(&'a Value, Vec<u8>);
impl Work for RoundTrip<'_> {
    fn run<T: Val>(&self) -> Value {
        let v = T::of(self.0);
        guarded(|| {
            let s = v.ser();
            let b = s.to_vec();
            match T::deser_rest(s.concat(ByteArray::new("tail", &self.1[..]))) {
                Ok((v, rest)) => json!({"k":"ok","r":"ok","b":jb(&b),"v":v.to(),"rest":jb(&rest),
                                        "skipdef":v.skipdef()}),
                Err(e) => json!({"k":"ok","r":"err","b":jb(&b),"msg":e.to_string()}),
            }
        })
    }
}
struct Ser<'a>(&'a Value);
impl Work for Ser<'_> {
    fn run<T: Val>(&self) -> Value {
        let v = T::of(self.0);
        guarded(|| {
            let s = v.ser();
            json!({"k":"ok","v":jb(&s),"names":names(&s),"parts":parts(&s)})
        })
    }
}
struct Deser(Vec<u8>);
impl Work for Deser {
    fn run<T: Val>(&self) -> Value {
        let rest = guarded(|| match T::deser_rest(self.0.clone().into()) {
            Ok((v, rest)) => json!({"k":"ok","v":v.to(),"rest":jb(&rest),"skipdef":v.skipdef()}),
            Err(e) => err(e),
        });
        let strict = guarded(|| res(T::deser(self.0.clone().into()), |v| v.to()));
        json!({"rest": rest, "strict": strict})
    }
}
struct EncAll<'a>(&'a Value);
impl Work for EncAll<'_> {
    fn run<T: Val>(&self) -> Value {
        let v: Vec<T> = arr(self.0).iter().map(T::of).collect();
        guarded(|| ok(jb(&encode_bitcoin_code_all(&v))))
    }
}
struct DecAll(Vec<u8>);
impl Work for DecAll {
    fn run<T: Val>(&self) -> Value {
        guarded(|| {
            res(decode_bitcoin_code_all::<T>(self.0.clone().into()), |v| {
                Value::Array(v.iter().map(|x| x.to()).collect())
            })
        })
    }
}
/// decoding bytes that carry annotations (as real, sliced data does)
struct DeserTagged(Vec<u8>, Vec<usize>);
impl Work for DeserTagged {
    fn run<T: Val>(&self) -> Value {
        guarded(|| {
            let mut parts = Vec::new();
            let mut prev = 0;
            for &c in &self.1 {
                let c = c.min(self.0.len()).max(prev);
                parts.push(ByteArray::new(format!("p{}", c), &self.0[prev..c]));
                prev = c;
            }
            parts.push(ByteArray::new("tail", &self.0[prev..]));
            match T::deser_rest(ByteArray::from_parts(parts)) {
                Ok((v, rest)) => {
                    json!({"k":"ok","v":v.to(),"rest":jb(&rest),"skipdef":v.skipdef()})
                }
                Err(e) => err(e),
            }
        })
    }
}
/// one operation on values of type T
pub fn run_as<T: Val>(c: &Value) -> Value {
    match st(&c["op"]) {
        "ser" => Ser(&c["v"]).run::<T>(),
        "rt" => RoundTrip(&c["v"], bytes(&c["tail"])).run::<T>(),
        "deser" => Deser(bytes(&c["b"])).run::<T>(),
        "desertag" => DeserTagged(bytes(&c["b"]), arr(&c["cuts"]).iter().map(us).collect()).run::<T>(),
        "encall" => EncAll(&c["vs"]).run::<T>(),
        "decall" => DecAll(bytes(&c["b"])).run::<T>(),
        op => panic!("HARNESS: wire op {}", op),
    }
}
struct Any<'a>(&'a Value);
impl Work for Any<'_> {
    fn run<T: Val>(&self) -> Value {
        run_as::<T>(self.0)
    }
}
pub fn run(c: &Value) -> Value {
    match st(&c["op"]) {
        "hashtx" => {
            let t = UnhashedTx::of(&c["v"]);
            guarded(|| {
                let h = t.hashed();
                json!({"k":"ok","raw":jb(h.raw()),"hash":jb(h.hash().as_slice()),"v":h.to(),
                       "un": h.unhashed_tx().to(), "into": h.clone().into_unhashed_tx().to()})
            })
        }
        "varint_enc" => {
            let n = u64le(&c["n"]);
            guarded(|| {
                let a = encoding_utils::encode_var_int(n);
                let mut b = Vec::new();
                encoding_utils::write_var_int(&mut b, n).unwrap();
                json!({"k":"ok","v":jb(&a),"w":jb(&b)})
            })
        }
        "varint_dec" => {
            let b = bytes(&c["b"]);
            guarded(|| {
                let mut cur = std::io::Cursor::new(&b[..]);
                match encoding_utils::read_var_int(&mut cur) {
                    Ok(n) => json!({"k":"ok","v":ju64(n),"n":cur.position()}),
                    Err(e) => err(e),
                }
            })
        }
        // containers too large to write out: what is reported is the length of the encoding, how it begins, and
        // where the value that comes back first differs from the one that was encoded
        "wide" => {
            let (n, x, tail) = (us(&c["n"]), us(&c["x"]), bytes(&c["tail"]));
            let el = move |i: usize| (i * 31 + i / 256 + x) as u8;
            match st(&c["ty"]) {
                "vec_u8" => wide((0..n).map(el).collect::<Vec<u8>>(), given(c, n, |i| vec![el(i)]), tail, |a, b| a == b),
                "vec_u16" => wide((0..n).map(|i| u16::from_le_bytes([el(i), el(i + 1)])).collect::<Vec<u16>>(),
                                  given(c, n, |i| vec![el(i), el(i + 1)]), tail, |a, b| a == b),
                "vec_bytes" => wide((0..n).map(|i| ByteArray::from(vec![el(i); i % 2])).collect::<Vec<ByteArray>>(),
                                    given(c, n, |i| if i % 2 == 0 { vec![0] } else { vec![1, el(i)] }), tail, |a, b| a == b),
                "bytes" => wide(ByteArray::from((0..n).map(el).collect::<Vec<u8>>()), None, tail, |a, b| a.as_ref() == b.as_ref()),
                "script" => wide(Script::from_ops((0..n).map(|i| Op::Code(if el(i) % 2 == 0 { Opcode::OP_NOP } else { Opcode::OP_DUP }))),
                                 None, tail, |a, b| a.ops() == b.ops()),
                "vec_in" => wide((0..n).map(|i| TxInput::new(
                                     TxOutpoint { tx_hash: Sha256d::new([el(i); 32]), vout: i as u32 },
                                     Script::from_ops(vec![Op::Code(if el(i) % 2 == 0 { Opcode::OP_NOP } else { Opcode::OP_DUP })]),
                                     i as u32,
                                 )).collect::<Vec<TxInput>>(),
                                 None, tail, |a, b| a == b),
                ty => panic!("HARNESS: wide {}", ty),
            }
        }
        _ => dispatch(st(&c["ty"]), &Any(c)),
    }
}
/// an encoding that is given (its length field) and not made by the code, or None
fn given(c: &Value, n: usize, el: impl Fn(usize) -> Vec<u8>) -> Option<Vec<u8>> {
    let head = c.get("given").map(bytes)?;
    Some(head.into_iter().chain((0..n).flat_map(el)).collect())
}
fn wide<T: BitcoinCode>(v: T, given: Option<Vec<u8>>, tail: Vec<u8>, same: fn(&T, &T) -> bool) -> Value {
    guarded(|| {
        let e = given.unwrap_or_else(|| v.ser().to_vec());
        let mut b = e.clone();
        b.extend_from_slice(&tail);
        let back = match T::deser_rest(b.into()) {
            Ok((w, rest)) => json!({"k":"ok","same":same(&v, &w),"rest":jb(&rest)}),
            Err(x) => err(x),
        };
        let strict = T::deser(e.clone().into()).map(|w| same(&v, &w)).unwrap_or(false);
        let short = T::deser_rest(e[..e.len() - 1].to_vec().into()).is_err();
        json!({"k":"ok","len":e.len(),"head":jb(&e[..10]),"back":back,"strict":strict,"short":short,"end":jb(&e[e.len() - 2..])})
    })
}
