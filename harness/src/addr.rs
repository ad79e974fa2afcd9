use crate::util::*;
use bitcoin_cash::*;
use serde_json::{json, Value};

pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("HARNESS: utf8")
}
pub fn jt(s: &str) -> Value {
    jb(s.as_bytes())
}
fn kind(k: Option<Prefix>) -> u8 {
    match k {
        None => 0,
        Some(Prefix::BitcoinCash) => 1,
        Some(Prefix::SimpleLedger) => 2,
    }
}
pub fn ty(v: &Value) -> AddressType {
    match us(v) {
        0 => AddressType::P2PKH,
        8 => AddressType::P2SH,
        t => panic!("HARNESS: address type {}", t),
    }
}
pub fn jaddr(a: &Address) -> Value {
    json!({
        "text": jt(a.cash_addr()),
        "prefix": jt(a.prefix_str()),
        "kind": kind(a.prefix_kind()),
        "ty": a.addr_type() as u8,
        "hash": jb(a.hash().as_slice()),
    })
}
/// the same address in its other forms: owned, moved out, with another prefix, through both serde forms
fn forms(a: &Address, to: &str) -> Value {
    json!({
        "own": guarded(|| ok(json!({"a":jaddr(&a.to_owned_address()),"eq":a.to_owned_address() == *a}))),
        "into": guarded(|| ok(json!({"a":jaddr(&a.clone().into_owned_address()),"eq":a.clone().into_owned_address() == *a}))),
        "with": guarded(|| ok(jaddr(&a.with_prefix(to)))),
        "bin": guarded(|| res(bincode::deserialize::<Address<'static>>(&bincode::serialize(a).expect("lib: bincode")), |b| jaddr(&b))),
        "stream": guarded(|| res(bincode::deserialize_from::<_, Address<'static>>(&bincode::serialize(a).expect("lib: bincode")[..]), |b| jaddr(&b))),
        "bytes": guarded(|| ok(jb(&bincode::serialize(a).expect("lib: bincode")))),
        "js": guarded(|| ok(jt(&serde_json::from_str::<String>(&serde_json::to_string(a).expect("lib: json")).expect("lib: json")))),
    })
}
pub fn prefix_kind(p: &str) -> Prefix {
    match p {
        "bitcoincash" => Prefix::BitcoinCash,
        "simpleledger" => Prefix::SimpleLedger,
        p => panic!("HARNESS: no such prefix kind {}", p),
    }
}
fn jdest(prefix: &str, s: &Script) -> Value {
    let d = script_destination(prefix, s);
    let has = d.address().is_some();
    match d {
        Destination::Address(a) => json!({"d":"addr","a":jaddr(&a),"has":has}),
        Destination::P2PK(b) => json!({"d":"pk","b":jb(&b),"has":has}),
        Destination::Nulldata(o) => json!({"d":"null","ops":jops(o.iter()),"has":has}),
        Destination::Unknown(s) => json!({"d":"unknown","ops":jscript(&s),"has":has}),
    }
}
pub fn run(c: &Value) -> Value {
    let prefix = c.get("prefix").map(text).unwrap_or_default();
    let hash = || Hash160::from_slice(&bytes(&c["hash"])).expect("lib: hash");
    match st(&c["op"]) {
        "enc" => guarded(|| {
            let t = ty(&c["ty"]);
            let a = match st(&c["via"]) {
                "str" => Address::from_hash(prefix.as_str(), t, hash()).into_owned_address(),
                "string" => Address::from_hash(prefix.clone(), t, hash()),
                "kind" => Address::from_hash(prefix_kind(&prefix), t, hash()),
                "with" => {
                    let other = Address::from_hash("some", t, hash());
                    other.with_prefix(prefix.as_str()).to_owned_address()
                }
                "default" => Address::from_hash(Prefix::default(), t, hash()),
                v => panic!("HARNESS: via {}", v),
            };
            json!({"k":"ok","v":jaddr(&a),"f":forms(&a, &c.get("to").map(text).unwrap_or_default())})
        }),
        "pk" => guarded(|| ok(jaddr(&Address::from_pk(prefix.as_str(), &Pubkey::from_slice(&bytes(&c["pk"])))))),
        "redeem" => guarded(|| {
            res(Address::from_redeem_script(prefix.as_str(), script_of(&c["ops"])), |a| jaddr(&a))
        }),
        "dec" => {
            let t = text(&c["text"]);
            json!({
                "plain": guarded(|| res(Address::from_cash_addr(t.as_str()), |a| jaddr(&a))),
                "f": guarded(|| res(Address::from_cash_addr(t.as_str()), |a| forms(&a, &c.get("to").map(text).unwrap_or_default()))),
                "serde": guarded(|| res(
                    serde_json::from_str::<Address<'static>>(&serde_json::to_string(&t).unwrap()),
                    |a| jaddr(&a))),
            })
        }
        "lock" => guarded(|| {
            let a = Address::from_hash(prefix.as_str(), ty(&c["ty"]), hash());
            let s1: Script = (&a).into();
            let p2pkh = a.p2pkh_script().ok().map(|s| {
                let s: Script = s.into();
                jb(&s.ser_ops())
            });
            let d = jdest(&prefix, &s1);
            let same = match script_destination(&prefix, &s1) {
                Destination::Address(b) => b == a,
                _ => false,
            };
            let s2: Script = a.into();
            json!({"k":"ok","b1":jb(&s1.ser_ops()),"b2":jb(&s2.ser_ops()),"p2pkh":jopt(p2pkh),
                   "dest":d,"same":same})
        }),
        "dest" => guarded(|| {
            let s = if c["form"] == "ops" {
                script_of(&c["ops"])
            } else {
                match Script::deser_ops(bytes(&c["b"]).into()) {
                    Ok(s) => s,
                    Err(e) => return err(e),
                }
            };
            let spend = script_p2pkh_spend(&s)
                .map(|p| json!({"pk": jb(p.pubkey.as_slice()), "flags": p.sig_hash_flags.bits()}));
            json!({"k":"ok","dest":jdest(&prefix, &s),"spend":jopt(spend)})
        }),
        "prefix" => guarded(|| {
            let t = text(&c["text"]);
            let h = Hash160::new([7; 20]);
            let p1 = Address::from_hash(t.as_str(), AddressType::P2PKH, h.clone());
            let p2 = Address::from_hash(t.clone(), AddressType::P2PKH, h.clone());
            let p3 = Address::from_hash(Prefix::SimpleLedger, AddressType::P2PKH, h);
            let conv = |p: &Address| json!({"s":jt(p.prefix_str()),"kind":kind(p.prefix_kind())});
            json!({"k":"ok","kind":kind(Prefix::from_prefix_str(&t)),"conv":[conv(&p1), conv(&p2), conv(&p3)],
                "strs":[jt(Prefix::BitcoinCash.prefix_str()), jt(Prefix::SimpleLedger.prefix_str())],
                "default": jt(Prefix::default().prefix_str())})
        }),
        o => panic!("HARNESS: op {}", o),
    }
}
