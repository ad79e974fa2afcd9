//! Equality, hashing and ordering of values: every pair of a list of values is compared.
use crate::addr::{prefix_kind, text, ty};
use crate::json::{flag_of, of_tree, script_full_of, tagged_of, tx_of};
use crate::util::*;
use bitcoin_cash::*;
use bitcoin_cash_slp::{SlpAction, SlpToken, TokenId};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn table<T>(vs: &[T], f: impl Fn(&T, &T) -> Value) -> Value {
    vs.iter().map(|a| vs.iter().map(|b| f(a, b)).collect::<Vec<_>>()).collect()
}
fn sign(o: Option<Ordering>) -> Value {
    match o {
        None => json!(9),
        Some(o) => json!(o as i8),
    }
}
fn eq<T: PartialEq + Clone>(vs: &[T]) -> Value {
    let copies = vs.to_vec();
    json!({
        "k": "ok",
        "eq": table(vs, |a, b| json!(a == b)),
        "ne": table(vs, |a, b| json!(a != b)),
        "clone": vs.iter().zip(&copies).map(|(a, b)| a == b && !(a != b)).collect::<Vec<_>>(),
        "lists": copies == vs && Some(&copies[0]) == vs.first(),
        "hash": [], "cmp": [], "pcmp": [], "find": [], "least": [],
    })
}
fn hashed<T: Eq + Hash + Clone>(vs: &[T]) -> Value {
    let mut v = eq(vs);
    v["hash"] = table(vs, |a, b| json!(hash_of(a) == hash_of(b)));
    // where a map filled in order has each of them: the first that is equal
    let mut m = HashMap::new();
    for (i, x) in vs.iter().enumerate() {
        m.entry(x.clone()).or_insert(i + 1);
    }
    v["find"] = vs.iter().map(|x| json!(m.get(x).cloned().unwrap_or(0))).collect();
    v
}
fn ordered<T: Ord + Clone>(vs: &[T], mut v: Value) -> Value {
    v["cmp"] = table(vs, |a, b| json!(a.cmp(b) as i8));
    v["pcmp"] = table(vs, |a, b| {
        let ops = (a < b, a <= b, a > b, a >= b);
        let p = a.partial_cmp(b);
        let want = match p {
            Some(Ordering::Less) => (true, true, false, false),
            Some(Ordering::Equal) => (false, true, false, true),
            Some(Ordering::Greater) => (false, false, true, true),
            None => (false, false, false, false),
        };
        if ops == want { sign(p) } else { json!(8) }
    });
    let s: BTreeSet<T> = vs.iter().cloned().collect();
    let first = s.iter().next().expect("HARNESS: empty");
    v["least"] = vs.iter().map(|x| json!(x == first)).collect();
    v
}
const ACTIONS: [SlpAction; 12] = [
    SlpAction::NonSlp,
    SlpAction::NonSlpBurn,
    SlpAction::SlpParseError,
    SlpAction::SlpUnsupportedVersion,
    SlpAction::SlpV1Genesis,
    SlpAction::SlpV1Mint,
    SlpAction::SlpV1Send,
    SlpAction::SlpNft1GroupGenesis,
    SlpAction::SlpNft1GroupMint,
    SlpAction::SlpNft1GroupSend,
    SlpAction::SlpNft1UniqueChildGenesis,
    SlpAction::SlpNft1UniqueChildSend,
];
fn pubkey(v: &Value) -> Pubkey {
    Pubkey::from_slice(&bytes(v))
}
fn hash<H: Hashed>(v: &Value) -> H {
    H::from_byte_array(of_tree(v)).expect("lib: hash")
}
fn address(v: &Value) -> Address<'static> {
    let p = text(&v["prefix"]);
    let h: Hash160 = hash(&v["hash"]);
    match st(&v["via"]) {
        "parts" => Address::from_hash(&p[..], ty(&v["ty"]), h).into_owned_address(),
        "kind" => Address::from_hash(prefix_kind(&p), ty(&v["ty"]), h).into_owned_address(),
        "text" => {
            let t = Address::from_hash(&p[..], ty(&v["ty"]), h).cash_addr().to_string();
            Address::from_cash_addr(t).expect("lib: address").into_owned_address()
        }
        "with" => Address::from_hash("other", ty(&v["ty"]), h).with_prefix(&p[..]).into_owned_address(),
        f => panic!("HARNESS: address from {}", f),
    }
}
fn delta(v: &Value) -> CsvTimedelta {
    let n = us(&v[1]) as u16;
    match us(&v[0]) {
        0 => CsvTimedelta::Blockheight(n),
        _ => CsvTimedelta::Seconds512(n),
    }
}
pub fn run(c: &Value) -> Value {
    guarded(|| {
        let vs = arr(&c["vs"]);
        macro_rules! vals {
            ($f:expr) => {
                &vs.iter().map($f).collect::<Vec<_>>()[..]
            };
        }
        match st(&c["ty"]) {
            "bytes" => hashed(vals!(of_tree)),
            "Sha1" => hashed(vals!(hash::<Sha1>)),
            "Ripemd160" => hashed(vals!(hash::<Ripemd160>)),
            "Sha256" => hashed(vals!(hash::<Sha256>)),
            "Hash256" => hashed(vals!(hash::<Sha256d>)),
            "Hash160" => hashed(vals!(hash::<Hash160>)),
            "tokenid" => hashed(vals!(|v| TokenId::from_hash(hash(v)))),
            "op" => eq(vals!(|v| tagged_of(v).op)),
            "tagged" => eq(vals!(tagged_of)),
            "script" => eq(vals!(script_full_of)),
            "tx" => eq(vals!(tx_of)),
            "hashedtx" => eq(vals!(|v| tx_of(v).hashed())),
            "input" => eq(vals!(|v| tx_of(v).inputs[0].clone())),
            "output" => eq(vals!(|v| tx_of(v).outputs[0].clone())),
            "outpoint" => eq(vals!(|v| tx_of(v).inputs[0].prev_out.clone())),
            "addr" => hashed(vals!(address)),
            "pubkey" => {
                let v = vals!(pubkey);
                ordered(v, hashed(v))
            }
            "opcode" => {
                let v: Vec<Opcode> = vs.iter().map(|v| num::FromPrimitive::from_u64(us(v) as u64).expect("lib: opcode")).collect();
                ordered(&v, hashed(&v))
            }
            "flags" => {
                let v = vals!(flag_of);
                ordered(v, hashed(v))
            }
            "int" => {
                let v: Vec<Integer> = vs.iter().map(|v| Integer::new(v.as_i64().expect("HARNESS: int")).expect("lib: int")).collect();
                ordered(&v, eq(&v))
            }
            "delta" => {
                let v = vals!(delta);
                ordered(v, eq(v))
            }
            "token" => {
                let v = vals!(|v| SlpToken { amount: u64le(&v["amount"]), is_mint_baton: v["baton"].as_bool().unwrap(), action: ACTIONS[us(&v["action"])] });
                ordered(v, hashed(v))
            }
            t => panic!("HARNESS: type {}", t),
        }
    })
}
