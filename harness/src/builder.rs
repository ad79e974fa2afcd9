use crate::util::*;
use bitcoin_cash::error::Error;
use bitcoin_cash::*;
use serde_json::{json, Value};

/// A signatory whose unlocking script is described by data.
#[derive(Clone)]
pub struct Recipe {
    flags: Vec<SigHashFlags>,
    items: Vec<Value>,
    ph: Vec<ByteArray>,
    p2sh: bool,
}
impl Recipe {
    pub fn of(v: &Value) -> Recipe {
        Recipe {
            flags: flags_of(&v["flags"]),
            items: arr(&v["recipe"]).clone(),
            ph: sigs_of(&v["ph"]),
            p2sh: v["p2sh"].as_bool().unwrap(),
        }
    }
    fn build(
        &self,
        pres: &[TxPreimage],
        est: Option<usize>,
        sigs: Vec<ByteArray>,
        lock: &Script,
        outs: &[TxOutput],
    ) -> Script {
        let mut ops = Vec::new();
        for it in &self.items {
            match st(&it["t"]) {
                "sig" => {
                    if let Some(s) = sigs.get(us(&it["n"]) - 1) {
                        ops.push(s.clone().into())
                    }
                }
                "pre" => {
                    if let Some(p) = pres.get(us(&it["n"]) - 1) {
                        ops.push(p.ser().into())
                    }
                }
                "est" => ops.push(Op::PushByteArray {
                    array: (est.unwrap_or(0) as u32).to_le_bytes().into(),
                    is_minimal: false,
                }),
                "outs" => {
                    let mut b = Vec::new();
                    for o in outs {
                        b.extend_from_slice(&o.ser());
                    }
                    ops.push(Op::PushByteArray { array: b.into(), is_minimal: false })
                }
                "nouts" => ops.push(Op::PushInteger(Integer::new(outs.len() as i64).unwrap())),
                "lock" => ops.push(lock.ser_ops().into()),
                "op" => ops.push(op_of(&it["op"])),
                t => panic!("HARNESS: item {}", t),
            }
        }
        Script::from_ops(ops)
    }
}
#[derive(Clone)]
pub struct One(Recipe);
impl Signatory for One {
    type Script = Script;
    type Signatures = Vec<ByteArray>;
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        self.0.flags[0]
    }
    fn placeholder_signatures(&self) -> Vec<ByteArray> {
        self.0.ph.clone()
    }
    fn build_script(&self, p: &TxPreimage, est: Option<usize>, sigs: Vec<ByteArray>, lock: &Script, outs: &[TxOutput]) -> Script {
        self.0.build(&[p.clone()], est, sigs, lock, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.0.p2sh
    }
}
#[derive(Clone)]
pub struct Multi(pub Recipe);
impl Signatory for Multi {
    type Script = Script;
    type Signatures = Vec<ByteArray>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.0.flags.clone()
    }
    fn placeholder_signatures(&self) -> Vec<ByteArray> {
        self.0.ph.clone()
    }
    fn build_script(&self, p: &[TxPreimage], est: Option<usize>, sigs: Vec<ByteArray>, lock: &Script, outs: &[TxOutput]) -> Script {
        self.0.build(p, est, sigs, lock, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.0.p2sh
    }
}
/// relies on the trait's default for is_p2sh
#[derive(Clone)]
pub struct DefaultP2sh(Recipe);
impl Signatory for DefaultP2sh {
    type Script = Script;
    type Signatures = Vec<ByteArray>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.0.flags.clone()
    }
    fn placeholder_signatures(&self) -> Vec<ByteArray> {
        self.0.ph.clone()
    }
    fn build_script(&self, p: &[TxPreimage], est: Option<usize>, sigs: Vec<ByteArray>, lock: &Script, outs: &[TxOutput]) -> Script {
        self.0.build(p, est, sigs, lock, outs)
    }
}
fn is_default(v: &Value) -> bool {
    v["kind"] == "multi" && v["p2sh"] == true && arr(&v["recipe"]).len() % 2 == 1
}
pub fn flags_of(v: &Value) -> Vec<SigHashFlags> {
    arr(v).iter().map(|f| SigHashFlags::from_u8(us(f) as u8)).collect()
}
fn sigs_of(v: &Value) -> Vec<ByteArray> {
    arr(v).iter().map(|s| bytes(s).into()).collect()
}
fn p2pkh_of(v: &Value) -> P2PKHSignatory {
    P2PKHSignatory {
        pubkey: Pubkey::from_slice(&bytes(&v["pk"])),
        sig_hash_flags: flags_of(&v["flags"])[0],
    }
}
fn outpoint_of(v: &Value) -> TxOutpoint {
    TxOutpoint { tx_hash: Sha256d::from_slice(&bytes(&v[0])).expect("lib: hash"), vout: u32le(&v[1]) }
}
fn output_of(v: &Value) -> TxOutput {
    TxOutput { value: u64le(&v[0]), script: script_of(&v[1]) }
}
pub fn input_full_of(v: &Value) -> TxInput {
    TxInput {
        prev_out: outpoint_of(&v["prev"]),
        script: script_of(&v["script"]),
        sequence: u32le(&v["seq"]),
        lock_script: opt(&v["lock"]).map(script_of),
        value: opt(&v["value"]).map(u64le),
        is_p2sh: opt(&v["p2sh"]).map(|b| b.as_bool().unwrap()),
        sig_hash_flags: opt(&v["flags"]).map(flags_of),
    }
}
pub fn tx_full_of(v: &Value) -> UnhashedTx {
    UnhashedTx {
        version: i32le(&v["version"]),
        inputs: arr(&v["ins"]).iter().map(input_full_of).collect(),
        outputs: arr(&v["outs"]).iter().map(output_of).collect(),
        lock_time: u32le(&v["lt"]),
    }
}
fn jinput(i: &TxInput) -> Value {
    json!({
        "prev": [jb(i.prev_out.tx_hash.as_slice()), ju32(i.prev_out.vout)],
        "script": jscript(&i.script),
        "seq": ju32(i.sequence),
        "lock": jopt(i.lock_script.as_ref().map(jscript)),
        "value": jopt(i.value.map(ju64)),
        "p2sh": jopt(i.is_p2sh.map(|b| json!(b))),
        "flags": jopt(i.sig_hash_flags.as_ref().map(|f| json!(f.iter().map(|f| f.bits()).collect::<Vec<_>>()))),
    })
}
pub fn jtx_full(t: &UnhashedTx) -> Value {
    json!({
        "version": ju32(t.version as u32),
        "ins": t.inputs.iter().map(jinput).collect::<Vec<_>>(),
        "outs": t.outputs.iter().map(|o| json!([ju64(o.value), jscript(&o.script)])).collect::<Vec<_>>(),
        "lt": ju32(t.lock_time),
    })
}
pub fn tx_out(t: &UnhashedTx) -> Value {
    let b = t.ser();
    json!({"k": "ok", "tx": jtx_full(t), "size": b.len(), "b": if b.len() <= 3000 { jb(&b) } else { json!([]) }})
}
pub fn jpre(p: &[Vec<TxPreimage>]) -> Value {
    Value::Array(p.iter().map(|x| jpres(x)).collect())
}
fn jpres(p: &[TxPreimage]) -> Value {
    Value::Array(p.iter().map(|x| jb(&x.ser())).collect())
}
enum State {
    None,
    B(TxBuilder<'static>),
    U(UnsignedTx<'static>),
    T(UnhashedTx),
}
fn fail(e: Error) -> Value {
    match e {
        Error::InsufficientInputAmount { amount } => json!({"k": "missing", "amount": ju64(amount)}),
        Error::InputAlreadySigned { input_idx } => json!({"k": "already", "idx": input_idx}),
        e => err(e),
    }
}
fn built(r: Result<UnsignedTx<'static>, Error>) -> (State, Value) {
    match r {
        Ok(u) => {
            let o = json!({"k": "ok", "est": u.estimated_size(), "pre": jpre(u.preimages())});
            (State::U(u), o)
        }
        Err(e) => (State::None, fail(e)),
    }
}
fn unit(r: Result<(), Error>) -> Value {
    match r {
        Ok(()) => json!({"k": "ok"}),
        Err(e) => fail(e),
    }
}
fn sign(u: &mut UnsignedTx<'static>, v: &Value, own: Option<&Value>) -> Value {
    let idx = us(&v["idx"]);
    // the shape of the signatures belongs to the signatory
    let none = json!({"kind": "multi", "p2sh": false, "recipe": []});
    let sg = if v["via"] == "signatory" { &v["sig"] } else { own.unwrap_or(&none) };
    let sigs = sigs_of(&v["sigs"]);
    let kind = st(&sg["kind"]);
    let first = sigs.get(0).cloned().unwrap_or_default();
    unit(match (st(&v["via"]), kind) {
        ("dyn", "p2pkh") => u.sign_input_dyn(idx, Box::new(first)),
        ("dyn", _) => u.sign_input_dyn(idx, Box::new(sigs)),
        ("input", "p2pkh") => u.sign_input(InputReference::<P2PKHSignatory>::new(idx), first),
        ("input", "one") => u.sign_input(InputReference::<One>::new(idx), sigs),
        ("input", _) => u.sign_input(InputReference::<Multi>::new(idx), sigs),
        (_, "p2pkh") => u.sign_input_signatory(InputReference::new(idx), p2pkh_of(sg), first),
        (_, "one") => u.sign_input_signatory(InputReference::new(idx), One(Recipe::of(sg)), sigs),
        (_, _) if is_default(sg) => u.sign_input_signatory(InputReference::new(idx), DefaultP2sh(Recipe::of(sg)), sigs),
        (_, _) => u.sign_input_signatory(InputReference::new(idx), Multi(Recipe::of(sg)), sigs),
    })
}
fn add_input(b: &mut TxBuilder<'static>, v: &Value) -> usize {
    let sg = &v["sig"];
    let input = UnsignedTxInput {
        prev_out: outpoint_of(&v["prev"]),
        sequence: u32le(&v["seq"]),
        value: u64le(&v["value"]),
    };
    let lock = script_of(&v["lock"]).ops().to_vec();
    match st(&sg["kind"]) {
        "p2pkh" => b.add_input(input, TaggedScript::new(lock), p2pkh_of(sg)).input_idx(),
        "one" => b.add_input(input, TaggedScript::new(lock), One(Recipe::of(sg))).input_idx(),
        _ if is_default(sg) => b.add_input(input, TaggedScript::new(lock), DefaultP2sh(Recipe::of(sg))).input_idx(),
        _ => b.add_input(input, TaggedScript::new(lock), Multi(Recipe::of(sg))).input_idx(),
    }
}
pub fn run(c: &Value) -> Value {
    let mut s = State::None;
    let mut sigs: Vec<Option<Value>> = Vec::new();
    let mut ev = Vec::new();
    for v in arr(&c["ev"]) {
        let op = st(&v["op"]).to_string();
        let cur = std::mem::replace(&mut s, State::None);
        let mut next = State::None;
        let res = guarded(|| match (op.as_str(), cur) {
            ("new", _) => {
                sigs.clear();
                let (ver, lt, fee) = (i32le(&v["version"]), u32le(&v["lt"]), u64le(&v["fee"]));
                let b = if ver == 1 && lt == 0 && fee == DEFAULT_FEE_PER_KB {
                    TxBuilder::new_simple()
                } else if fee == DEFAULT_FEE_PER_KB {
                    TxBuilder::new(ver, lt)
                } else {
                    TxBuilder::new_with_fee(ver, lt, fee)
                };
                next = State::B(b);
                json!({"k": "ok"})
            }
            // a transaction from elsewhere: made by hand, from its bytes or from its text
            ("load", _) => {
                let t = tx_full_of(&v["tx"]);
                let t = match st(&v["form"]) {
                    "wire" => UnhashedTx::deser(t.ser()),
                    "json" => tx_to_json(&t).map_err(Error::from).and_then(|text| json_to_tx(&text).map_err(Error::from)),
                    _ => Ok(t),
                };
                match t {
                    Err(e) => err(e),
                    Ok(t) => {
                        let o = tx_out(&t);
                        next = State::T(t);
                        o
                    }
                }
            }
            ("setfee", State::B(mut b)) => {
                b.set_fee_per_kb(u64le(&v["fee"]));
                next = State::B(b);
                json!({"k": "ok"})
            }
            ("input", State::B(mut b)) => {
                let idx = add_input(&mut b, v);
                sigs.push(Some(v["sig"].clone()));
                next = State::B(b);
                json!({"k": "ok", "idx": idx})
            }
            ("inputs", State::B(mut b)) => {
                for _ in 0..us(&v["n"]) {
                    add_input(&mut b, v);
                    sigs.push(Some(v["sig"].clone()));
                }
                next = State::B(b);
                json!({"k": "ok"})
            }
            ("signs", State::U(mut u)) => {
                let mut o = json!({"k": "ok"});
                for i in arr(&v["idxs"]) {
                    let mut w = v.clone();
                    w["idx"] = i.clone();
                    let r = sign(&mut u, &w, sigs[us(i)].as_ref());
                    if r["k"] != "ok" {
                        o = r;
                        break;
                    }
                }
                next = State::U(u);
                o
            }
            ("output", State::B(mut b)) => {
                b.add_output(TxOutput { value: u64le(&v["value"]), script: script_of(&v["script"]) });
                next = State::B(b);
                json!({"k": "ok"})
            }
            ("outputs", State::B(mut b)) => {
                b.add_outputs(arr(&v["outs"]).iter().map(output_of));
                next = State::B(b);
                json!({"k": "ok"})
            }
            ("leftover", State::B(mut b)) => {
                b.add_leftover_output(script_of(&v["script"]));
                next = State::B(b);
                json!({"k": "ok"})
            }
            ("bounded", State::B(mut b)) => {
                b.add_leftover_output_bounded(
                    u64le(&v["lower"]),
                    u64le(&v["upper"]),
                    v["prec"].as_i64().unwrap() as i32,
                    script_of(&v["script"]),
                );
                next = State::B(b);
                json!({"k": "ok"})
            }
            ("sums", State::B(b)) => {
                let o = json!({"k": "ok", "known": ju64(b.known_output_sum()), "input": ju64(b.input_sum()),
                    "version": ju32(b.version() as u32), "lt": ju32(b.lock_time())});
                next = State::B(b);
                o
            }
            ("build", State::B(b)) => {
                let (n, o) = built(b.build());
                next = n;
                o
            }
            ("buildfixed", State::B(b)) => {
                let (n, o) = built(b.build_without_estimation());
                next = n;
                o
            }
            ("preimages", State::U(u)) => {
                let idx = us(&v["idx"]);
                let p = u.input_preimages(InputReference::<Multi>::new(idx));
                let mut o = json!({"k": "ok", "pre": jpres(p)});
                if p.len() == 1 {
                    let q = u.input_preimages(InputReference::<One>::new(idx));
                    if q.ser() != p[0].ser() {
                        o = json!({"k": "differs"});
                    }
                }
                next = State::U(u);
                o
            }
            ("sign", State::U(mut u)) => {
                let own = sigs.get(us(&v["idx"])).cloned().unwrap_or(None);
                let o = sign(&mut u, v, own.as_ref());
                next = State::U(u);
                o
            }
            ("partial", State::U(u)) => {
                let t = u.partial_tx();
                let o = tx_out(&t);
                next = State::T(t);
                o
            }
            ("complete", State::U(u)) => {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| u.complete_tx())) {
                    Ok(t) => {
                        let o = tx_out(&t);
                        next = State::T(t);
                        o
                    }
                    Err(_) => json!({"k": "refused"}),
                }
            }
            ("rebuild", State::U(u)) => {
                next = State::B(u.into_tx_builder());
                json!({"k": "ok"})
            }
            ("json", State::T(t)) => match tx_to_json(&t) {
                Err(e) => err(e),
                Ok(text) => match json_to_tx(&text) {
                    Err(e) => err(e),
                    Ok(t) => {
                        let o = tx_out(&t);
                        next = State::T(t);
                        o
                    }
                },
            },
            ("fromtx", State::T(t)) => {
                sigs = vec![None; t.inputs.len()];
                next = State::B(TxBuilder::from_tx(t));
                json!({"k": "ok"})
            }
            ("txpre", State::T(t)) => {
                let o = json!({"k": "ok", "pre": jpre(&t.preimages(&flags_of(&v["flags"]))),
                    "hashed": jpre(&t.clone().hashed().preimages(&flags_of(&v["flags"])))});
                next = State::T(t);
                o
            }
            (o, _) => json!({"k": "unreachable", "op": o}),
        });
        s = next;
        let dead = res["k"] == "panic";
        ev.push(json!({"in": v, "res": res}));
        if dead {
            break;
        }
    }
    json!({ "ev": ev })
}
