use crate::addr::{jt, text};
use crate::prov::function_of;
use crate::util::*;
use bitcoin_cash::*;
use bitcoin_cash_slp::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::sync::Arc;

/// a JSON document as the specification sees it
fn doc(v: &Value) -> Value {
    match v {
        Value::Null => json!({"t": "null"}),
        Value::Bool(b) => json!({"t": "bool", "b": b}),
        Value::Number(n) => {
            let (neg, int, m) = match (n.as_u64(), n.as_i64()) {
                (Some(u), _) => (false, true, u),
                (_, Some(i)) => (true, true, i.unsigned_abs()),
                _ => (false, false, 0),
            };
            json!({"t": "num", "neg": neg, "int": int, "d": ju64(m)})
        }
        Value::String(s) => {
            let plain = s.chars().all(|c| c.is_ascii() && c >= ' ');
            json!({"t": "str", "s": if plain { s.as_str() } else { "" }, "c": jt(s)})
        }
        Value::Array(a) => json!({"t": "arr", "a": a.iter().map(doc).collect::<Vec<_>>()}),
        Value::Object(o) => {
            json!({"t": "obj", "f": o.iter().map(|(k, v)| json!([k, doc(v)])).collect::<Vec<_>>()})
        }
    }
}
fn doc_of_text(s: &str) -> Value {
    doc(&serde_json::from_str(s).expect("lib: the encoder's output is not JSON"))
}

/// annotation tree with names as UTF-8 bytes
fn tree(b: &ByteArray) -> Value {
    json!({
        "d": jb(b),
        "n": jopt(b.name().map(|n| jt(n))),
        "f": format!("{:?}", b.function()),
        "p": jopt(b.preimage().map(|p| Value::Array(p.iter().map(tree).collect()))),
    })
}
pub fn of_tree(v: &Value) -> ByteArray {
    ByteArray::from_preimage(
        bytes(&v["d"]).into(),
        opt(&v["n"]).map(|n| Arc::new(text(n).into())),
        function_of(st(&v["f"])),
        opt(&v["p"]).map(|p| arr(p).iter().map(of_tree).collect::<Vec<_>>().into()),
    )
}
fn jnames(n: &Option<Vec<Option<Cow<'static, str>>>>) -> Value {
    jopt(n.as_ref().map(|n| {
        Value::Array(n.iter().map(|x| jopt(x.as_ref().map(|s| jt(s)))).collect())
    }))
}
fn names_of(v: &Value) -> Option<Vec<Option<Cow<'static, str>>>> {
    opt(v).map(|n| arr(n).iter().map(|x| opt(x).map(|s| text(s).into())).collect())
}
fn jtagged(t: &TaggedOp) -> Value {
    let (k, c, m, a) = match &t.op {
        Op::Code(c) => ("code", *c as i32, false, vec![]),
        Op::Invalid(c) => ("inv", *c as i32, false, vec![]),
        Op::PushByteArray { array, is_minimal } => ("push", 0, *is_minimal, vec![tree(array)]),
        Op::PushBoolean(b) => ("bool", *b as i32, false, vec![]),
        Op::PushInteger(i) => ("int", i.value(), false, vec![]),
    };
    json!({
        "o": {"k": k, "c": c, "m": m, "a": a},
        "file": jt(&t.src_file), "line": ju32(t.src_line), "col": ju32(t.src_column),
        "code": t.src_code.iter().map(|(w, s)| json!([ju32(*w), jt(s)])).collect::<Vec<_>>(),
        "names": jnames(&t.pushed_names), "alt": jnames(&t.alt_pushed_names),
    })
}
pub fn tagged_of(v: &Value) -> TaggedOp {
    let o = &v["o"];
    let c = o["c"].as_i64().expect("HARNESS: c");
    let op = match st(&o["k"]) {
        "code" => Op::Code(num::FromPrimitive::from_u8(c as u8).expect("lib: unknown opcode")),
        "inv" => Op::Invalid(c as u8),
        "push" => Op::PushByteArray { array: of_tree(&o["a"][0]), is_minimal: o["m"].as_bool().unwrap() },
        "bool" => Op::PushBoolean(c != 0),
        "int" => Op::PushInteger(Integer::new(c).expect("lib: op int")),
        k => panic!("HARNESS: op kind {}", k),
    };
    TaggedOp {
        op,
        src_file: text(&v["file"]).into(),
        src_line: u32le(&v["line"]),
        src_column: u32le(&v["col"]),
        src_code: arr(&v["code"]).iter().map(|x| (u32le(&x[0]), text(&x[1]).into())).collect(),
        pushed_names: names_of(&v["names"]),
        alt_pushed_names: names_of(&v["alt"]),
    }
}
fn jscript_full(s: &Script) -> Value {
    Value::Array(s.ops_arc().iter().map(jtagged).collect())
}
pub fn script_full_of(v: &Value) -> Script {
    Script::new(arr(v).iter().map(tagged_of).collect::<Vec<_>>())
}
fn flags_of(v: &Value) -> Vec<SigHashFlags> {
    arr(v).iter().map(|b| flag_of(b)).collect()
}
pub fn flag_of(b: &Value) -> SigHashFlags {
    unsafe { SigHashFlags::from_bits_unchecked(u32le(b)) }
}
fn jtx(t: &UnhashedTx) -> Value {
    json!({
        "version": ju32(t.version as u32),
        "lt": ju32(t.lock_time),
        "ins": t.inputs.iter().map(|i| json!({
            "prev": tree(i.prev_out.tx_hash.as_byte_array()),
            "vout": ju32(i.prev_out.vout),
            "script": jscript_full(&i.script),
            "seq": ju32(i.sequence),
            "lock": jopt(i.lock_script.as_ref().map(jscript_full)),
            "value": jopt(i.value.map(ju64)),
            "p2sh": jopt(i.is_p2sh.map(|b| json!(b))),
            "flags": jopt(i.sig_hash_flags.as_ref().map(|f| Value::Array(f.iter().map(|f| ju32(f.bits())).collect()))),
        })).collect::<Vec<_>>(),
        "outs": t.outputs.iter().map(|o| json!({"value": ju64(o.value), "script": jscript_full(&o.script)})).collect::<Vec<_>>(),
    })
}
pub fn tx_of(v: &Value) -> UnhashedTx {
    UnhashedTx {
        version: i32le(&v["version"]),
        lock_time: u32le(&v["lt"]),
        inputs: arr(&v["ins"])
            .iter()
            .map(|i| TxInput {
                prev_out: TxOutpoint {
                    tx_hash: Sha256d::from_byte_array(of_tree(&i["prev"])).expect("lib: hash"),
                    vout: u32le(&i["vout"]),
                },
                script: script_full_of(&i["script"]),
                sequence: u32le(&i["seq"]),
                lock_script: opt(&i["lock"]).map(script_full_of),
                value: opt(&i["value"]).map(u64le),
                is_p2sh: opt(&i["p2sh"]).map(|b| b.as_bool().unwrap()),
                sig_hash_flags: opt(&i["flags"]).map(flags_of),
            })
            .collect(),
        outputs: arr(&v["outs"])
            .iter()
            .map(|o| TxOutput { value: u64le(&o["value"]), script: script_full_of(&o["script"]) })
            .collect(),
    }
}

// ---- serde forms of the individual types ----
trait SVal: Serialize {
    fn of(v: &Value) -> Self;
    fn to(&self) -> Value;
}
macro_rules! ints { ($($t:ident)+) => { $( impl SVal for $t {
    fn of(v: &Value) -> Self {
        let mut a = [0u8; std::mem::size_of::<$t>()];
        a.copy_from_slice(&bytes(v));
        $t::from_le_bytes(a)
    }
    fn to(&self) -> Value { jb(&self.to_le_bytes()) }
} )+ } }
ints! {u8 u32 i32 u64 usize}
impl SVal for bool {
    fn of(v: &Value) -> Self {
        v.as_bool().expect("HARNESS: bool")
    }
    fn to(&self) -> Value {
        json!(self)
    }
}
impl SVal for String {
    fn of(v: &Value) -> Self {
        text(v)
    }
    fn to(&self) -> Value {
        jt(self)
    }
}
impl<T: SVal> SVal for Vec<T> {
    fn of(v: &Value) -> Self {
        arr(v).iter().map(T::of).collect()
    }
    fn to(&self) -> Value {
        Value::Array(self.iter().map(|x| x.to()).collect())
    }
}
impl<T: SVal> SVal for Option<T> {
    fn of(v: &Value) -> Self {
        opt(v).map(T::of)
    }
    fn to(&self) -> Value {
        jopt(self.as_ref().map(|x| x.to()))
    }
}
impl SVal for ByteArray {
    fn of(v: &Value) -> Self {
        ByteArray::new("named", bytes(v))
    }
    fn to(&self) -> Value {
        jb(self)
    }
}
impl SVal for Script {
    fn of(v: &Value) -> Self {
        script_of(v)
    }
    fn to(&self) -> Value {
        jscript(self)
    }
}
impl SVal for Pubkey {
    fn of(v: &Value) -> Self {
        Pubkey::from_slice_checked(&bytes(v)).expect("lib: pubkey")
    }
    fn to(&self) -> Value {
        jb(self.as_slice())
    }
}
impl SVal for Address<'static> {
    fn of(v: &Value) -> Self {
        let ty = if us(&v[1]) == 0 { AddressType::P2PKH } else { AddressType::P2SH };
        Address::from_hash(text(&v[0]).as_str(), ty, Hash160::from_slice(&bytes(&v[2])).expect("lib: hash")).into_owned_address()
    }
    fn to(&self) -> Value {
        json!([jt(self.prefix_str()), self.addr_type() as u8, jb(self.hash().as_slice())])
    }
}
impl SVal for Integer {
    fn of(v: &Value) -> Self {
        Integer::new(i32le(v)).expect("lib: integer")
    }
    fn to(&self) -> Value {
        jb(&self.value().to_le_bytes())
    }
}
impl SVal for UInteger {
    fn of(v: &Value) -> Self {
        UInteger::new(i32le(v)).expect("lib: uinteger")
    }
    fn to(&self) -> Value {
        jb(&self.value().to_le_bytes())
    }
}
macro_rules! hashes { ($($t:ident)+) => { $( impl SVal for $t {
    fn of(v: &Value) -> Self { $t::from_slice(&bytes(v)).expect("lib: hash") }
    fn to(&self) -> Value { jb(self.as_slice()) }
} )+ } }
hashes! {Sha1 Ripemd160 Sha256 Sha256d Hash160}
impl SVal for FixedByteArrayBE<[u8; 4]> {
    fn of(v: &Value) -> Self {
        FixedByteArray::from_slice_unnamed(&bytes(v)).expect("lib: fixed")
    }
    fn to(&self) -> Value {
        jb(self.as_ref())
    }
}
impl SVal for TokenId {
    fn of(v: &Value) -> Self {
        TokenId::from_hash(Sha256d::of(v))
    }
    fn to(&self) -> Value {
        self.hash().to()
    }
}
impl SVal for SigHashFlags {
    fn of(v: &Value) -> Self {
        flag_of(&v[0])
    }
    fn to(&self) -> Value {
        json!([ju32(self.bits())])
    }
}
macro_rules! enums { ($($t:ident : $($v:ident)+ ;)+) => { $( impl SVal for $t {
    fn of(v: &Value) -> Self {
        let all = [$($t::$v),+];
        all[us(v)].clone()
    }
    fn to(&self) -> Value {
        let all = [$(stringify!($v)),+];
        let me = format!("{:?}", self);
        json!(all.iter().position(|x| *x == me).expect("lib: variant"))
    }
} )+ } }
enums! {
    Function: Plain Sha1 Ripemd160 Sha256 Hash256 Hash160 Num2Bin EcdsaSign SchnorrSign ToDataSig UnexpectedSplit Reverse;
    SlpTokenType: Fungible Nft1Child Nft1Group;
    SlpAction: NonSlp NonSlpBurn SlpParseError SlpUnsupportedVersion SlpV1Genesis SlpV1Mint SlpV1Send SlpNft1GroupGenesis
        SlpNft1GroupMint SlpNft1GroupSend SlpNft1UniqueChildGenesis SlpNft1UniqueChildSend;
}
macro_rules! structs { ($($t:ident { $($f:ident $i:tt),+ })+) => { $( impl SVal for $t {
    fn of(v: &Value) -> Self { $t { $($f: SVal::of(&v[$i])),+ } }
    fn to(&self) -> Value { json!([$(self.$f.to()),+]) }
} )+ } }
structs! {
    TxOutpoint { tx_hash 0, vout 1 }
    TxInput { prev_out 0, script 1, sequence 2, lock_script 3, value 4, is_p2sh 5, sig_hash_flags 6 }
    TxOutput { value 0, script 1 }
    UnhashedTx { version 0, inputs 1, outputs 2, lock_time 3 }
    UnsignedTxInput { prev_out 0, sequence 1, value 2 }
    SlpToken { amount 0, is_mint_baton 1, action 2 }
    SlpData { token_id 0 }
    SlpTxInput { index 0, token 1, input 2, prev_script 3 }
    SlpTxOutput { token 0, output 1 }
    SlpTx { version 0, inputs 1, outputs 2, lock_time 3, slp_data 4, tx_hash 5 }
    SlpUtxo { input 0, slp_token 1, slp_data 2 }
    TokenMeta { ticker 0, name 1, document_url 2, document_hash 3, decimals 4, slp_token_type 5 }
}
impl SVal for Tx {
    fn of(v: &Value) -> Self {
        // hash and raw are what the transaction gives
        UnhashedTx::of(&v[0]).hashed()
    }
    fn to(&self) -> Value {
        json!([self.unhashed_tx().to(), self.hash().to(), self.raw().to()])
    }
}
impl SVal for InputReference<P2PKHSignatory> {
    fn of(v: &Value) -> Self {
        InputReference::new(usize::of(&v[1]))
    }
    fn to(&self) -> Value {
        json!([[], self.input_idx().to()])
    }
}
trait Bin: Sized {
    fn from_bin(b: &[u8]) -> Result<Self, String>;
    /// from a stream, which lends out nothing
    fn from_stream(b: &[u8]) -> Result<Self, String>;
}
impl<T: DeserializeOwned> Bin for T {
    fn from_bin(b: &[u8]) -> Result<Self, String> {
        bincode::deserialize(b).map_err(|e| e.to_string())
    }
    fn from_stream(b: &[u8]) -> Result<Self, String> {
        bincode::deserialize_from(b).map_err(|e| format!("from a stream: {}", e))
    }
}
fn human<T: SVal + DeserializeOwned>(c: &Value) -> Option<Value> {
    Some(match st(&c["op"]) {
        "hser" => guarded(|| {
            let x = T::of(&c["v"]);
            let s = serde_json::to_string(&x).expect("lib: no JSON");
            let again = serde_json::to_string(&x).expect("lib: no JSON");
            let pretty = serde_json::to_string_pretty(&x).expect("lib: no JSON");
            let back: T = match serde_json::from_str(&s) {
                Ok(b) => b,
                Err(e) => return err(e),
            };
            let value: Result<T, _> = serde_json::from_value(serde_json::to_value(&x).expect("lib: no JSON"));
            let read: Result<T, _> = serde_json::from_reader(pretty.as_bytes());
            let same = again == s
                && value.map(|v| v.to()).map_err(|e| e.to_string()) == Ok(back.to())
                && read.map(|v| v.to()).map_err(|e| e.to_string()) == Ok(back.to());
            json!({"k":"ok","doc":doc_of_text(&s),"back":back.to(),"same":same})
        }),
        "hdec" => guarded(|| res(serde_json::from_str::<T>(st(&c["text"])), |x| x.to())),
        "hraw" => guarded(|| res(serde_json::from_slice::<T>(&bytes(&c["b"])), |_| json!([]))),
        _ => return None,
    })
}
fn typed<T: SVal + Bin + DeserializeOwned>(c: &Value) -> Value {
    human::<T>(c).unwrap_or_else(|| {
        binary::<T>(c, |b| {
            let v = T::from_bin(b)?.to();
            // hostile lengths make the stream reader of bincode itself reserve memory
            if c["op"] == "bser" && T::from_stream(b)?.to() != v {
                return Err("another value from a stream".to_string());
            }
            Ok(v)
        })
    })
}
fn binary<T: SVal>(c: &Value, from: impl Fn(&[u8]) -> Result<Value, String>) -> Value {
    match st(&c["op"]) {
        "bser" => guarded(|| {
            let b = bincode::serialize(&T::of(&c["v"])).expect("lib: no bincode");
            match from(&b) {
                Ok(v) => json!({"k":"ok","b":jb(&b),"back":v}),
                Err(e) => err(e),
            }
        }),
        "bdec" => guarded(|| res(from(&bytes(&c["b"])), |v| v)),
        o => panic!("HARNESS: op {}", o),
    }
}
fn serde_form(c: &Value) -> Value {
    match st(&c["ty"]) {
        "bytes" => typed::<ByteArray>(c),
        "sha1" => typed::<Sha1>(c),
        "ripemd160" => typed::<Ripemd160>(c),
        "hash160" => typed::<Hash160>(c),
        "sha256" => typed::<Sha256>(c),
        "sha256d" => typed::<Sha256d>(c),
        "fixed4" => typed::<FixedByteArrayBE<[u8; 4]>>(c),
        "tokenid" => typed::<TokenId>(c),
        "script" => typed::<Script>(c),
        "pubkey" => typed::<Pubkey>(c),
        "address" => typed::<Address<'static>>(c),
        "integer" => typed::<Integer>(c),
        "uinteger" => typed::<UInteger>(c),
        "function" => typed::<Function>(c),
        "flags" => typed::<SigHashFlags>(c),
        "outpoint" => typed::<TxOutpoint>(c),
        "input" => typed::<TxInput>(c),
        "output" => typed::<TxOutput>(c),
        "unhashed" => typed::<UnhashedTx>(c),
        "tx" => typed::<Tx>(c),
        "unsignedinput" => typed::<UnsignedTxInput>(c),
        "tokentype" => typed::<SlpTokenType>(c),
        "action" => typed::<SlpAction>(c),
        "token" => typed::<SlpToken>(c),
        "slpdata" => typed::<SlpData>(c),
        "slptx" => typed::<SlpTx>(c),
        "slpin" => typed::<SlpTxInput>(c),
        "slpout" => typed::<SlpTxOutput>(c),
        "slputxo" => typed::<SlpUtxo>(c),
        "tokenmeta" => typed::<TokenMeta>(c),
        "inputref" => typed::<InputReference<P2PKHSignatory>>(c),
        t => panic!("HARNESS: type {}", t),
    }
}

/// height along the first preimages
fn spine(b: &ByteArray) -> usize {
    let mut n = 0;
    let mut b = b.clone();
    loop {
        let next = match b.preimage() {
            Some(p) if !p.is_empty() => p[0].clone(),
            _ => return n,
        };
        b = next;
        n += 1;
    }
}
/// reference chains: n levels, each of them referring `width` times to the one below
fn chain(c: &Value) -> Value {
    let (n, width) = (us(&c["n"]), us(&c["width"]));
    let root = us(&c["root"]);
    let mut entries: Vec<Value> = vec![json!(if n == 0 { 0 } else { 1 })];
    for i in 0..n {
        let d = if i + 1 == n { 0 } else { 1 };
        entries.push(json!([d, "Sha256", null, vec![if c["op"] == "cycle" && i == 0 { n } else { i }; width]]));
    }
    let len = entries.len();
    if c["rev"] == true {
        entries.reverse();
        for e in entries.iter_mut() {
            if let Some(p) = e.get_mut(3).and_then(|p| p.as_array_mut()) {
                for x in p.iter_mut() {
                    *x = json!(len - 1 - us(x));
                }
            }
        }
    }
    let at = |i: usize| if c["rev"] == true { len - 1 - i } else { i };
    let push = |i: usize| {
        json!({"op":{"PushByteArray":{"array_idx":at(i),"is_minimal":true}},"src_file":0,"src_line":0,"src_column":0,"src_code":[]})
    };
    // also resolve some other array first
    let mut script: Vec<Value> = arr(&c["first"]).iter().map(|i| push(us(i).min(n))).collect();
    script.push(push(n));
    let text = json!({"data":{"data_b64":[base64_of(root as u8), "AAAA"],"byte_arrays":entries,"strings":["f"]},
        "version":1,"inputs":[],"outputs":[{"value":0,"script":script}],"lock_time":0})
    .to_string();
    guarded(|| match json_to_tx(&text) {
        Err(e) => err(e),
        Ok(tx) => {
            let last = tx.outputs[0].script.ops_arc().last().cloned();
            match last.map(|o| o.op) {
                Some(Op::PushByteArray { array, .. }) => {
                    json!({"k":"ok","height":spine(&array),"data":if array.len() == 1 { array[0] as i32 } else { -1 }})
                }
                _ => json!({"k":"ok","height":-1,"data":-1}),
            }
        }
    })
}
fn base64_of(x: u8) -> String {
    let t: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    format!("{}{}==", t[(x >> 2) as usize] as char, t[((x & 3) << 4) as usize] as char)
}
pub fn run(c: &Value) -> Value {
    match st(&c["op"]) {
        "enc" => guarded(|| {
            let tx = tx_of(&c["tx"]);
            let s = tx_to_json(&tx).expect("lib: no JSON");
            let same = tx_to_json(&tx_of(&c["tx"])).expect("lib: no JSON") == s;
            let back = match json_to_tx(&s) {
                Ok(t) => t,
                Err(e) => return err(e),
            };
            let again = tx_to_json(&back).expect("lib: no JSON") == s;
            json!({"k":"ok","doc":doc_of_text(&s),"same":same,"back":jtx(&back),"again":again,"ser":back.ser() == tx.ser()})
        }),
        "dec" => guarded(|| match json_to_tx(st(&c["text"])) {
            Err(e) => err(e),
            Ok(tx) => {
                let s = tx_to_json(&tx).expect("lib: no JSON");
                let re = match json_to_tx(&s) {
                    Ok(t) => jtx(&t) == jtx(&tx) && tx_to_json(&t).expect("lib: no JSON") == s,
                    Err(_) => false,
                };
                json!({"k":"ok","tx":jtx(&tx),"re":re})
            }
        }),
        "raw" => guarded(|| res(json_to_tx(&String::from_utf8_lossy(&bytes(&c["b"]))), |_| json!([]))),
        "chain" | "cycle" => chain(c),
        _ => serde_form(c),
    }
}
