use crate::addr::{jt, text};
use crate::prov::{of_tree, tree};
use crate::util::*;
use bitcoin_cash::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

fn view<H: Hashed + Serialize + BitcoinCode + BitcoinDataType + Clone + Into<ByteArray>>(h: &H) -> Value {
    let push = h.to_pushop();
    json!({
        "slice": jb(h.as_slice()),
        "tree": tree(h.as_byte_array()),
        "into": tree(&h.clone().into_byte_array()),
        "intoba": tree(&h.clone().into()),
        "le": jb(&h.to_vec_le()),
        "hexle": jt(&h.to_hex_le()),
        "hexbe": jt(&h.to_hex_be()),
        "display": jt(&h.to_string()),
        "debug": jt(&format!("{:?}", h)),
        "json": jt(&serde_json::to_string(h).expect("lib: json")),
        "bin": jb(&bincode::serialize(h).expect("lib: bincode")),
        "wire": jb(&h.ser()),
        "push": jop(&push),
    })
}
trait Raw: Sized {
    /// from an array of the right size; None for any other
    fn raw(b: &[u8]) -> Option<Self>;
}
macro_rules! raw {
    ($($h:ident)+) => { $(impl Raw for $h {
        fn raw(b: &[u8]) -> Option<Self> {
            std::convert::TryInto::try_into(b).ok().map($h::new)
        }
    })+ }
}
raw! { Sha1 Ripemd160 Sha256 Sha256d Hash160 }
fn of<H>(c: &Value) -> Value
where
    H: Raw + Hashed + Serialize + DeserializeOwned + BitcoinCode + BitcoinDataType + Clone + Into<ByteArray>,
{
    let t = || text(&c["b"]);
    let b = || bytes(&c["b"]);
    match st(&c["op"]) {
        "digest" => guarded(|| {
            let msg = of_tree(&c["msg"]);
            let h = H::digest(msg.clone());
            let raw = H::digest_slice(&msg);
            let plain = H::digest(&msg[..]);
            let mut v = view(&h);
            v["k"] = json!("ok");
            v["raw"] = jb(&raw);
            v["eq"] = json!(plain == h);
            v["fun"] = json!(format!("{:?}", H::function()));
            v["named"] = tree(h.named("label").as_byte_array());
            v
        }),
        "from" => guarded(|| {
            let r: Result<H, String> = match st(&c["form"]) {
                "hexle" => H::from_hex_le(&t()).map_err(|e| e.to_string()),
                "hexbe" => H::from_hex_be(&t()).map_err(|e| e.to_string()),
                "slice" => H::from_slice(&b()).map_err(|e| e.to_string()),
                "new" => H::raw(&b()).ok_or("no such array".to_string()),
                "slicele" => H::from_slice_le(&b()).map_err(|e| e.to_string()),
                "array" => H::from_byte_array(b().into()).map_err(|e| e.to_string()),
                "json" => serde_json::from_str(&serde_json::to_string(&t()).unwrap()).map_err(|e| e.to_string()),
                "rawjson" => serde_json::from_str(&t()).map_err(|e| e.to_string()),
                "bin" => bincode::deserialize(&b()).map_err(|e| e.to_string()),
                "wire" => H::deser(b().into()).map_err(|e| e.to_string()),
                f => panic!("HARNESS: form {}", f),
            };
            res(r, |h| view(&h))
        }),
        o => panic!("HARNESS: op {}", o),
    }
}
pub fn run(c: &Value) -> Value {
    match st(&c["ty"]) {
        "Sha1" => of::<Sha1>(c),
        "Ripemd160" => of::<Ripemd160>(c),
        "Sha256" => of::<Sha256>(c),
        "Hash256" => of::<Sha256d>(c),
        "Hash160" => of::<Hash160>(c),
        t => panic!("HARNESS: hash type {}", t),
    }
}
