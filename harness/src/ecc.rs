use crate::prov::{of_tree, tree};
use crate::util::*;
use bitcoin_cash::*;
use bitcoin_cash_ecc::init_ecc;
use serde_json::{json, Value};

#[cfg(feature = "c_ecc")]
const BACK_END: &str = "c";
#[cfg(not(feature = "c_ecc"))]
const BACK_END: &str = "rust";

pub fn run(c: &Value) -> Value {
    assert!(st(&c["be"]) == BACK_END, "HARNESS: back end");
    let ecc = init_ecc();
    match st(&c["op"]) {
        "sign" => guarded(|| {
            let msg = of_tree(&c["msg"]);
            let sk = bytes(&c["sk"]);
            res(ecc.sign(&sk, msg.clone()), |s| {
                let again = ecc.sign(&sk, msg.to_vec()).map(|t| t == s).unwrap_or(false);
                let ver = ecc
                    .derive_pubkey(&sk)
                    .and_then(|p| ecc.verify(p.as_slice(), &msg, &s))
                    .unwrap_or(false);
                json!({"tree": tree(&s), "again": again, "ver": ver})
            })
        }),
        "verify" => guarded(|| {
            res(ecc.verify(&bytes(&c["pub"]), &bytes(&c["msg"]), &bytes(&c["sig"])), |v| json!({ "v": v }))
        }),
        "derive" => guarded(|| res(ecc.derive_pubkey(&bytes(&c["sk"])), |p| json!({"pub": jb(p.as_slice())}))),
        "norm" => guarded(|| {
            res(ecc.normalize_sig(&bytes(&c["sig"])), |s| {
                let again = ecc.normalize_sig(&s).unwrap_or_default();
                json!({"sig": jb(&s), "again": jb(&again)})
            })
        }),
        o => panic!("HARNESS: op {}", o),
    }
}
