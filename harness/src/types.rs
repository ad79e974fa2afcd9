//! Typed values as script data, relative lock times, text forms, and the derivations the library records.
use crate::builder::{flags_of, tx_full_of};
use crate::prov::{of_tree, tree};
use crate::util::*;
use bitcoin_cash::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn dt(t: DataType) -> Value {
    match t {
        DataType::Generic => json!({"t": "G", "n": []}),
        DataType::Integer => json!({"t": "I", "n": []}),
        DataType::Boolean => json!({"t": "B", "n": []}),
        DataType::ByteArray(n) => json!({"t": "A", "n": jopt(n.map(|n| json!(n)))}),
    }
}
trait Data {
    fn view(&self) -> Value;
}
impl Data for BitcoinInteger {
    fn view(&self) -> Value {
        json!({"t": "I", "v": self.0.value()})
    }
}
impl Data for BitcoinBoolean {
    fn view(&self) -> Value {
        json!({"t": "B", "v": self.0})
    }
}
impl Data for BitcoinByteArray {
    fn view(&self) -> Value {
        json!({"t": "A", "v": tree(&self.0)})
    }
}
fn item(d: &StackItemData) -> Value {
    match d {
        StackItemData::Integer(i) => json!({"t": "I", "v": i.value()}),
        StackItemData::Boolean(b) => json!({"t": "B", "v": b}),
        StackItemData::ByteArray(a) => json!({"t": "A", "v": tree(a)}),
    }
}
fn typed<T: BitcoinDataType + ?Sized>(x: &T) -> Value
where
    T::Type: Data,
{
    guarded(|| {
        let op = x.to_pushop();
        let push = match &op {
            Op::PushByteArray { array, .. } => vec![tree(array)],
            _ => vec![],
        };
        json!({"k": "ok", "op": jop(&op), "push": push, "data": x.to_data().view(), "dt": dt(x.to_data_type()),
               "item": item(&op.into())})
    })
}
fn hashed<H: Hashed + BitcoinDataType<Type = BitcoinByteArray>>(c: &Value) -> Value {
    let m = of_tree(&c["v"]);
    typed(&match opt(&c["name"]) {
        Some(n) => H::digest(m).named(st(n).to_string()),
        None => H::digest(m),
    })
}
fn hex(p: &Pubkey) -> String {
    p.as_slice().iter().map(|b| format!("{:02x}", b)).collect()
}
fn preimages(c: &Value) -> Vec<Vec<TxPreimage>> {
    tx_full_of(&c["tx"]).preimages(&flags_of(&c["flags"]))
}

pub fn run(c: &Value) -> Value {
    match st(&c["op"]) {
        "push" => match st(&c["ty"]) {
            "integer" => typed(&Integer::new(c["v"].as_i64().unwrap()).expect("lib: integer")),
            "result" => typed(&IntegerResult::new(c["v"].as_i64().unwrap())),
            "i32" => typed(&(c["v"].as_i64().unwrap() as InnerInteger)),
            "bool" => typed(&c["v"].as_bool().unwrap()),
            "slice" => typed(&bytes(&c["v"])[..]),
            "bytes" => typed(&of_tree(&c["v"])),
            "Sha1" => hashed::<Sha1>(c),
            "Ripemd160" => hashed::<Ripemd160>(c),
            "Sha256" => hashed::<Sha256>(c),
            "Hash256" => hashed::<Sha256d>(c),
            "Hash160" => hashed::<Hash160>(c),
            "pubkey" => match Pubkey::from_slice_checked(&bytes(&c["v"])) {
                Some(p) => {
                    let q = Pubkey::from_slice(&bytes(&c["v"]));
                    let mut v = typed(&p);
                    v["same"] = json!(p == q && hash_of(&p) == hash_of(&q) && p.as_slice() == &bytes(&c["v"])[..] && p.to_string() == hex(&p));
                    v
                }
                None => err("not a public key"),
            },
            t => panic!("HARNESS: type {}", t),
        },
        // relative lock times: 256 consecutive ones
        "csv" => guarded(|| {
            let of = |n: u16| match st(&c["kind"]) {
                "blocks" => CsvTimedelta::Blockheight(n),
                _ => CsvTimedelta::Seconds512(n),
            };
            let start = us(&c["start"]) as u32;
            json!({"k": "ok", "seq": (start..start + 256).map(|n| ju32(of(n as u16).sequence())).collect::<Vec<_>>()})
        }),
        // how operations read as text
        "show" => guarded(|| {
            let s = script_of(&c["ops"]);
            json!({"k": "ok", "ops": s.ops().iter().map(|o| o.op.to_string()).collect::<Vec<_>>(),
                   "words": s.to_string().split_whitespace().collect::<Vec<_>>()})
        }),
        // equality and hashing look at the data alone, and agree
        "eq" => guarded(|| {
            let (a, b) = (of_tree(&c["a"]), of_tree(&c["b"]));
            let mut v = json!({"k": "ok", "eq": a == b, "ne": a != b, "hash": hash_of(&a) == hash_of(&b)});
            let (x, y) = (Hash160::from_byte_array(a.clone()), Hash160::from_byte_array(b.clone()));
            v["fixed"] = match (x, y) {
                (Ok(x), Ok(y)) => json!([{"eq": x == y, "hash": hash_of(&x) == hash_of(&y)}]),
                _ => json!([]),
            };
            v
        }),
        "eqops" => guarded(|| {
            let (a, b) = (script_of(&c["a"]), script_of(&c["b"]));
            json!({"k": "ok", "eq": a == b, "ne": a != b})
        }),
        // script containers hold the same operations
        "ops" => guarded(|| {
            let s = script_of(&c["ops"]);
            let t: TaggedScript<Script> = TaggedScript::new(s.ops().to_vec());
            let u = t.clone();
            json!({"k": "ok", "script": jscript(&s), "ops": jops(s.ops().iter().map(|o| &o.op)), "tops": jops(t.ops().iter().map(|o| &o.op)),
                   "sops": jops(t.script_ops()), "clone": jops(u.script_ops()), "into": jscript(&Script::from(t.clone())),
                   "back": jscript(&t.script())})
        }),
        // the script code of each code separator
        "scode" => {
            let s = script_of(&c["ops"]);
            let at = |n: Option<usize>| guarded(|| ok(jscript(&s.to_script_code(n))));
            json!({"k": "ok", "first": guarded(|| ok(jscript(&s.to_script_code_first()))), "none": at(None),
                   "nth": (0..us(&c["n"])).map(|n| at(Some(n))).collect::<Vec<_>>()})
        }
        // the named sighash flags
        "flags" => guarded(|| {
            let f = |x: SigHashFlags| json!(x.bits());
            json!({"k": "ok", "all": f(SigHashFlags::ALL), "none": f(SigHashFlags::NONE), "single": f(SigHashFlags::SINGLE),
                   "forkid": f(SigHashFlags::FORKID), "acp": f(SigHashFlags::ANYONECANPAY), "mask": f(SigHashFlags::MASK),
                   "default": f(SigHashFlags::DEFAULT), "u8": (0..=255u8).map(|b| f(SigHashFlags::from_u8(b))).collect::<Vec<_>>()})
        }),
        "defaults" => guarded(|| {
            let t = UnhashedTx::default();
            json!({"k": "ok", "tx": jb(&t.ser()), "script": jscript(&Script::default()), "bytes": tree(&ByteArray::default()),
                   "int": Integer::default().value(), "intres": IntegerResult::default().value().ok(), "h160": tree(Hash160::default().as_byte_array()),
                   "h256": tree(Sha256d::default().as_byte_array()), "pubkey": jb(Pubkey::default().as_slice())})
        }),
        // what the preimages and hashes of a transaction record about themselves
        "pretree" => guarded(|| {
            let p = preimages(c);
            json!({"k": "ok", "pre": p.iter().map(|x| x.iter().map(|p| json!({
                "ser": tree(&p.ser()), "hp": tree(p.hash_prevouts.as_byte_array()), "hs": tree(p.hash_sequence.as_byte_array()),
                "ho": tree(p.hash_outputs.as_byte_array()), "typed": typed(p)})).collect::<Vec<_>>()).collect::<Vec<_>>()})
        }),
        // a transaction of thousands of inputs and outputs made by a rule: the preimages of some inputs, from all three sources
        "manyin" => guarded(|| {
            let (n, m, x) = (us(&c["n"]), us(&c["m"]), us(&c["x"]));
            let flags = flags_of(&c["flags"]);
            let el = |i: usize| (i * 31 + i / 256 + x) as u8;
            let op = |i: usize| Script::from_ops(vec![Op::Code(if el(i) % 2 == 0 { Opcode::OP_NOP } else { Opcode::OP_DUP })]);
            let t = UnhashedTx {
                version: 2,
                inputs: (0..n).map(|i| TxInput {
                    lock_script: Some(op(i)),
                    value: Some(i as u64),
                    is_p2sh: Some(false),
                    sig_hash_flags: Some(flags.clone()),
                    ..TxInput::new(TxOutpoint { tx_hash: Sha256d::new([el(i); 32]), vout: i as u32 }, Script::default(), i as u32)
                }).collect(),
                outputs: (0..m).map(|i| TxOutput { value: i as u64, script: op(i) }).collect(),
                lock_time: 0,
            };
            let at = |p: &[Vec<TxPreimage>]| json!({"n": p.len(), "p": arr(&c["at"]).iter().map(|i|
                p[us(i)].iter().map(|p| jb(&p.ser())).collect::<Vec<_>>()).collect::<Vec<_>>()});
            let a = at(&t.preimages(&flags));
            let h = at(&t.clone().hashed().preimages(&flags));
            let u = match TxBuilder::from_tx(t).build_without_estimation() {
                Ok(u) => at(u.preimages()),
                Err(e) => return err(e),
            };
            json!({"k": "ok", "from": [a, h, u]})
        }),
        "txtree" => guarded(|| {
            let t = tx_full_of(&c["tx"]);
            let h = t.clone().hashed();
            json!({"k": "ok", "ser": tree(&t.ser()), "hash": tree(h.hash().as_byte_array())})
        }),
        op => panic!("HARNESS: types op {}", op),
    }
}
