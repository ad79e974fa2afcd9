#![allow(warnings)]
//! Contracts written with the library, and transactions that spend them.
use bch_harness::builder::{flags_of, Multi, Recipe};
use bch_harness::util::*;
use bitcoin_cash::*;
use bitcoin_cash::Opcode::*;
use bitcoin_cash_ecc::init_ecc;
use serde_json::{json, Value};
use std::any::Any;

fn with_flag(sig: ByteArray, flags: SigHashFlags) -> ByteArray {
    sig.concat(ByteArray::new("flag", [flags.bits() as u8].as_ref()))
}
const PH: usize = MAX_SIGNATURE_SIZE;

macro_rules! one_signature {
    ($t:ident, $inputs:ident, $p2sh:expr, |$s:ident, $sig:ident, $pre:ident, $outs:ident| $build:expr) => {
        impl Signatory for $t {
            type Script = $inputs;
            type Signatures = ByteArray;
            type Kind = SignatoryKindOne;
            fn sig_hash_flags(&self) -> SigHashFlags {
                self.flags
            }
            fn placeholder_signatures(&self) -> ByteArray {
                ByteArray::new_unnamed(vec![0; PH])
            }
            fn build_script(&self, $pre: &TxPreimage, _: Option<usize>, $sig: ByteArray, _: &Script, $outs: &[TxOutput]) -> $inputs {
                let $s = self;
                $build
            }
            fn is_p2sh(&self) -> bool {
                $p2sh(self)
            }
        }
    };
}

/// pay to a public key, bare or wrapped
#[derive(Clone)]
struct PayKey {
    pk: Pubkey,
    flags: SigHashFlags,
    wrapped: bool,
}
#[bitcoin_cash::script(PayKeyInputs)]
fn pay_key_script(p: &PayKey, sig: ByteArray) {
    let pk = p.pk;
    let success = OP_CHECKSIG(sig, pk);
}
one_signature! { PayKey, PayKeyInputs, |s: &PayKey| s.wrapped, |s, sig, _pre, _outs| PayKeyInputs { sig: with_flag(sig, s.flags) } }

/// a key, not before a time and not before an age
#[derive(Clone)]
struct TimeLock {
    pk: Pubkey,
    flags: SigHashFlags,
    until: Integer,
    age: Integer,
}
#[bitcoin_cash::script(TimeLockInputs)]
fn time_lock_script(p: &TimeLock, sig: ByteArray) {
    let until = p.until;
    OP_CHECKLOCKTIMEVERIFY(until);
    OP_DROP(until);
    let age = p.age;
    OP_CHECKSEQUENCEVERIFY(age);
    OP_DROP(age);
    let pk = p.pk;
    let success = OP_CHECKSIG(sig, pk);
}
one_signature! { TimeLock, TimeLockInputs, |_: &TimeLock| true, |s, sig, _pre, _outs| TimeLockInputs { sig: with_flag(sig, s.flags) } }

/// one key with a secret, or another key
#[derive(Clone)]
struct HashLock {
    pk: Pubkey,
    other: Pubkey,
    hash: Sha256,
    flags: SigHashFlags,
    secret: ByteArray,
    claim: bool,
}
#[bitcoin_cash::script(HashLockInputs, Claim = "is_claim", Refund = "!is_claim")]
fn hash_lock_script(p: &HashLock, sig: ByteArray, #[variant(Claim)] secret: ByteArray, is_claim: bool) {
    OP_IF(is_claim);
    {
        let hashed = OP_SHA256(secret);
        let hash = p.hash.as_slice();
        OP_EQUALVERIFY(hashed, hash);
        let pk = p.pk;
    }
    OP_ELSE;
    {
        let pk = p.other;
    }
    OP_ENDIF;
    let success = OP_CHECKSIG(sig, pk);
}
one_signature! { HashLock, HashLockInputs, |_: &HashLock| true, |s, sig, _pre, _outs| {
    let sig = with_flag(sig, s.flags);
    if s.claim { HashLockInputs::Claim { sig, secret: s.secret.clone(), is_claim: true } } else { HashLockInputs::Refund { sig, is_claim: false } }
} }

/// the script looks at the preimage that was signed and at the outputs in it
#[derive(Clone)]
struct Covenant {
    pk: Pubkey,
    flags: SigHashFlags,
}
#[bitcoin_cash::script(CovenantInputs)]
fn covenant_script(p: &Covenant, outs: ByteArray, preimage: ByteArray, sig: ByteArray) {
    let (sig, sig_again) = OP_DUP(sig);
    let flag = [p.flags.bits() as u8].as_ref();
    let full = OP_CAT(sig_again, flag);
    let pk = p.pk;
    OP_CHECKSIGVERIFY(full, pk);
    let (preimage, sig, preimage_again) = OP_OVER(preimage, sig);
    let msg = OP_SHA256(preimage_again);
    let pk = p.pk;
    OP_CHECKDATASIGVERIFY(sig, msg, pk);
    let (preimage, size) = OP_SIZE(preimage);
    let forty = 40;
    let at = OP_SUB(size, forty);
    let (head, tail) = OP_SPLIT(preimage, at);
    let width = 32;
    let (hash_outputs, rest) = OP_SPLIT(tail, width);
    OP_DROP(rest);
    OP_NIP(head, hash_outputs);
    let (hash_outputs, outs) = OP_SWAP(outs, hash_outputs);
    let hashed = OP_HASH256(outs);
    let success = OP_EQUAL(hash_outputs, hashed);
}
fn cov(sig: ByteArray, pre: &TxPreimage, outs: &[TxOutput]) -> (ByteArray, ByteArray, ByteArray) {
    (ByteArray::from_parts(outs.iter().map(|o| o.ser())), pre.ser(), sig)
}
one_signature! { Covenant, CovenantInputs, |_: &Covenant| true, |_s, sig, pre, outs| {
    let (outs, preimage, sig) = cov(sig, pre, outs);
    CovenantInputs { outs, preimage, sig }
} }

/// the same, and what is signed starts after a separator
#[derive(Clone)]
struct Separated {
    pk: Pubkey,
    flags: SigHashFlags,
}
#[bitcoin_cash::script(SeparatedInputs)]
fn separated_script(p: &Separated, outs: ByteArray, preimage: ByteArray, sig: ByteArray) {
    let (preimage, sig, preimage_again) = OP_OVER(preimage, sig);
    let msg = OP_SHA256(preimage_again);
    let (sig, msg, sig_again) = OP_OVER(sig, msg);
    let flag = [p.flags.bits() as u8].as_ref();
    let full = OP_CAT(sig_again, flag);
    let pk = p.pk;
    OP_CODESEPARATOR();
    OP_CHECKSIGVERIFY(full, pk);
    let pk = p.pk;
    OP_CHECKDATASIGVERIFY(sig, msg, pk);
    let (preimage, size) = OP_SIZE(preimage);
    let forty = 40;
    let at = OP_SUB(size, forty);
    let (head, tail) = OP_SPLIT(preimage, at);
    let width = 32;
    let (hash_outputs, rest) = OP_SPLIT(tail, width);
    OP_DROP(rest);
    OP_NIP(head, hash_outputs);
    let (hash_outputs, outs) = OP_SWAP(outs, hash_outputs);
    let hashed = OP_HASH256(outs);
    let success = OP_EQUAL(hash_outputs, hashed);
}
one_signature! { Separated, SeparatedInputs, |_: &Separated| true, |_s, sig, pre, outs| {
    let (outs, preimage, sig) = cov(sig, pre, outs);
    SeparatedInputs { outs, preimage, sig }
} }

/// two numbers of a given sum, the first one in a range
#[derive(Clone)]
struct Puzzle {
    pk: Pubkey,
    flags: SigHashFlags,
    x: Integer,
    y: Integer,
    total: Integer,
    lo: Integer,
    hi: Integer,
}
#[bitcoin_cash::script(PuzzleInputs)]
fn puzzle_script(p: &Puzzle, sig: ByteArray, x: Integer, y: Integer) {
    let (x, y, x_again) = OP_OVER(x, y);
    OP_TOALTSTACK(x_again);
    let sum = OP_ADD(x, y);
    let total = p.total;
    OP_NUMEQUALVERIFY(sum, total);
    let x_again = OP_FROMALTSTACK(x_again);
    let lo = p.lo;
    let hi = p.hi;
    let inside = OP_WITHIN(x_again, lo, hi);
    OP_VERIFY(inside);
    let pk = p.pk;
    let success = OP_CHECKSIG(sig, pk);
}
one_signature! { Puzzle, PuzzleInputs, |_: &Puzzle| true, |s, sig, _pre, _outs| PuzzleInputs { sig: with_flag(sig, s.flags), x: s.x, y: s.y } }

struct Input {
    sks: Vec<Vec<u8>>,
    pks: Vec<Pubkey>,
    flags: Vec<SigHashFlags>,
    kind: String,
    spec: Value,
}
enum Contract {
    Key(P2PKHSignatory),
    Pay(PayKey),
    Time(TimeLock),
    Hash(HashLock),
    Cov(Covenant),
    Sep(Separated),
    Puz(Puzzle),
    Many(Multi, Vec<Op>),
}
use Contract::*;
impl Input {
    fn contract(&self) -> Contract {
        let pk = self.pks[0];
        let flags = self.flags[0];
        let v = &self.spec;
        match &self.kind[..] {
            "p2pkh" => Key(P2PKHSignatory { pubkey: pk, sig_hash_flags: flags }),
            "p2pk" => Pay(PayKey { pk, flags, wrapped: false }),
            "wrapped" => Pay(PayKey { pk, flags, wrapped: true }),
            "time" => Time(TimeLock {
                pk,
                flags,
                until: Integer::new(v["until"].as_i64().unwrap()).expect("HARNESS: until"),
                age: Integer::new(
                    match st(&v["unit"]) {
                        "blocks" => CsvTimedelta::Blockheight(us(&v["age"]) as u16),
                        _ => CsvTimedelta::Seconds512(us(&v["age"]) as u16),
                    }
                    .sequence(),
                )
                .expect("lib: age"),
            }),
            "claim" | "refund" => Hash(HashLock {
                pk,
                other: self.pks[1],
                hash: Sha256::digest(bytes(&v["secret"])),
                flags,
                secret: bytes(&v["secret"]).into(),
                claim: self.kind == "claim",
            }),
            "covenant" => Cov(Covenant { pk, flags }),
            "separated" => Sep(Separated { pk, flags }),
            "puzzle" => {
                let int = |n: &str| Integer::new(v[n].as_i64().unwrap()).expect("HARNESS: number");
                let total = Integer::new((int("x") + int("y")).value().expect("lib: sum")).expect("lib: sum");
                Puz(Puzzle { pk, flags, x: int("x"), y: int("y"), total, lo: int("lo"), hi: int("hi") })
            }
            "many" | "bare" => {
                // m of n signatures, each with its own flags
                let m = self.flags.len();
                let mut recipe = vec![json!({"t": "op", "n": 0, "op": jop(&Op::Code(Opcode::OP_0))})];
                recipe.extend((1..=m).map(|n| json!({"t": "sig", "n": n, "op": []})));
                let sg = json!({"flags": self.flags.iter().map(|f| f.bits()).collect::<Vec<_>>(), "recipe": recipe,
                    "ph": vec![vec![0; PH + 1]; m], "p2sh": self.kind == "many"});
                let mut ops = vec![Op::from_int(m as i32)];
                ops.extend(self.pks.iter().map(|p| p.to_pushop()));
                ops.push(Op::from_int(self.pks.len() as i32));
                ops.push(Op::Code(Opcode::OP_CHECKMULTISIG));
                Many(Multi(Recipe::of(&sg)), ops)
            }
            k => panic!("HARNESS: kind {}", k),
        }
    }
    /// the script inputs are checked against, and the output script
    fn scripts(&self) -> (Script, Script) {
        let wrap = |s: Script| {
            let a = Address::from_redeem_script("bitcoincash", s.clone()).expect("lib: address");
            (s, a.into())
        };
        match self.contract() {
            Key(k) => {
                let s: Script = Address::from_pk("bchtest", &k.pubkey).into();
                (s.clone(), s)
            }
            Pay(k) if !k.wrapped => {
                let s: Script = k.pay_key_script().into();
                (s.clone(), s)
            }
            Pay(k) => wrap(k.pay_key_script().into()),
            Time(k) => wrap(k.time_lock_script().into()),
            Hash(k) => wrap(k.hash_lock_script().into()),
            Cov(k) => wrap(k.covenant_script().into()),
            Sep(k) => wrap(k.separated_script().into()),
            Puz(k) => wrap(k.puzzle_script().into()),
            Many(_, ops) if self.kind == "bare" => (Script::from_ops(ops.clone()), Script::from_ops(ops)),
            Many(_, ops) => wrap(Script::from_ops(ops)),
        }
    }
    fn add(&self, b: &mut TxBuilder<'static>) {
        let v = &self.spec;
        let input = UnsignedTxInput {
            prev_out: TxOutpoint { tx_hash: Sha256d::from_slice(&bytes(&v["prev"][0])).expect("lib: hash"), vout: u32le(&v["prev"][1]) },
            sequence: u32le(&v["seq"]),
            value: u64le(&v["value"]),
        };
        match self.contract() {
            Key(k) => {
                let lock = Address::from_pk("bchtest", &k.pubkey).p2pkh_script().expect("lib: p2pkh");
                b.add_input(input, lock, k);
            }
            Pay(k) => {
                b.add_input(input, k.pay_key_script(), k);
            }
            Time(k) => {
                b.add_input(input, k.time_lock_script(), k);
            }
            Hash(k) => {
                b.add_input(input, k.hash_lock_script(), k);
            }
            Cov(k) => {
                b.add_input(input, k.covenant_script(), k);
            }
            Sep(k) => {
                b.add_input(input, k.separated_script(), k);
            }
            Puz(k) => {
                b.add_input(input, k.puzzle_script(), k);
            }
            Many(k, ops) => {
                b.add_input(input, TaggedScript::new(ops.into_iter().map(TaggedOp::from_op).collect()), k);
            }
        }
    }
    fn sign(&self, u: &mut UnsignedTx<'static>, idx: usize, via: &str, made: &mut Vec<ByteArray>, ecc: &impl ECC) {
        let pres: Vec<TxPreimage> = if self.flags.len() == 1 {
            vec![u.input_preimages(InputReference::<P2PKHSignatory>::new(idx)).clone()]
        } else {
            u.input_preimages(InputReference::<Multi>::new(idx)).to_vec()
        };
        let sigs: Vec<ByteArray> = pres
            .iter()
            .zip(arr(&self.spec["signers"]))
            .map(|(p, k)| (p, &self.sks[us(k)]))
            .map(|(p, sk)| ecc.sign(sk, Sha256d::digest(p.ser()).into_byte_array()).expect("lib: sign"))
            .collect();
        made.extend(sigs.iter().cloned());
        let one = sigs[0].clone();
        let many: Vec<ByteArray> = sigs.into_iter().zip(&self.flags).map(|(s, f)| with_flag(s, *f)).collect();
        macro_rules! put {
            ($k:expr, $t:ty, $s:expr) => {
                match via {
                    "dyn" => u.sign_input_dyn(idx, Box::new($s) as Box<dyn Any>),
                    "input" => u.sign_input(InputReference::<$t>::new(idx), $s),
                    _ => u.sign_input_signatory(InputReference::<$t>::new(idx), $k, $s),
                }
                .expect("lib: sign input")
            };
        }
        match self.contract() {
            Key(k) => put!(k, P2PKHSignatory, one),
            Pay(k) => put!(k, PayKey, one),
            Time(k) => put!(k, TimeLock, one),
            Hash(k) => put!(k, HashLock, one),
            Cov(k) => put!(k, Covenant, one),
            Sep(k) => put!(k, Separated, one),
            Puz(k) => put!(k, Puzzle, one),
            Many(k, _) => put!(k, Multi, many),
        }
    }
}

/// the first lock time from the given one on for which the first signature is of the wanted shape
fn spend(c: &Value) -> Value {
    let from = u32le(&c["lt"]);
    let flag = us(&c["ins"][0]["flags"][0]) as u8;
    let ecc = init_ecc();
    let start = std::time::Instant::now();
    for n in 0.. {
        let (out, sigs) = spend_at(c, from.wrapping_add(n), &ecc);
        let sig: &[u8] = &sigs[0];
        if match st(&c["grind"]) {
            "flag" => sig[sig.len() - 1] == flag,
            "short" => sig.len() <= 69,
            _ => true,
        } || start.elapsed().as_secs() > 6
        {
            return out;
        }
    }
    unreachable!()
}

fn spend_at(c: &Value, lt: u32, ecc: &impl ECC) -> (Value, Vec<ByteArray>) {
    let mut made = Vec::new();
    let ins: Vec<Input> = arr(&c["ins"])
        .iter()
        .map(|v| {
            let sks: Vec<Vec<u8>> = arr(&v["sks"]).iter().map(bytes).collect();
            Input {
                pks: sks.iter().map(|k| ecc.derive_pubkey(k).expect("lib: key")).collect(),
                sks,
                flags: flags_of(&v["flags"]),
                kind: st(&v["kind"]).to_string(),
                spec: v.clone(),
            }
        })
        .collect();
    let mut b = TxBuilder::new_with_fee(i32le(&c["version"]), lt, u64le(&c["fee"]));
    for i in &ins {
        i.add(&mut b);
    }
    for o in arr(&c["outs"]) {
        b.add_output(TxOutput { value: u64le(&o[0]), script: script_of(&o[1]) });
    }
    for l in arr(&c["left"]) {
        b.add_leftover_output(script_of(l));
    }
    let mut u = b.build().expect("lib: build");
    // every round signs some inputs and hands the rest over
    let rounds = arr(&c["rounds"]);
    for (n, round) in rounds.iter().enumerate() {
        for s in arr(&round["sign"]) {
            let idx = us(&s[0]);
            let via = if n == 0 { st(&s[1]) } else { "signatory" };
            ins[idx].sign(&mut u, idx, via, &mut made, ecc);
        }
        if n + 1 < rounds.len() {
            u = match st(&round["pass"]) {
                "builder" => u.into_tx_builder().build(),
                p => {
                    let mut t = u.partial_tx();
                    if p == "json" {
                        t = json_to_tx(&tx_to_json(&t).expect("lib: text")).expect("lib: text");
                    }
                    // the outputs are fixed by now
                    let b = TxBuilder::from_tx(t);
                    if round["estimate"].as_bool().unwrap() { b.build() } else { b.build_without_estimation() }
                }
            }
            .expect("lib: rebuild");
        }
    }
    let t = u.complete_tx();
    let out = json!({"k": "ok", "lt": jb(&lt.to_le_bytes()), "tx": jb(&t.ser()), "locks": ins.iter().map(|i| jb(&i.scripts().1.ser_ops())).collect::<Vec<_>>(),
        "hash": jb(t.hashed().hash().as_slice())});
    (out, made)
}

fn main() {
    bch_harness::drive(|c: &Value| guarded(|| spend(c)))
}
