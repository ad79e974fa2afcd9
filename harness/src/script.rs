use crate::util::*;
use bitcoin_cash::*;
use serde_json::{json, Value};

fn jint(i: Option<Integer>) -> Value {
    match i {
        Some(i) => json!({"ok": true, "v": i.value()}),
        None => json!({"ok": false, "v": 0}),
    }
}
pub fn run(c: &Value) -> Value {
    match st(&c["op"]) {
        // "scan": the same on hostile bytes, with the memory needed
        "parse" | "scan" => {
            let b = bytes(&c["b"]);
            let again = |ops: &[Op]| guarded(|| res(serialize_ops(ops.iter()), |v| jb(&v)));
            let one = |r: Result<Vec<Op>, error::Error>| match r {
                Ok(ops) => json!({"k":"ok","v":jops(ops.iter()),"re":again(&ops)}),
                Err(e) => err(e),
            };
            let a = guarded(|| one(deserialize_ops(&b)));
            let d = guarded(|| one(deserialize_ops_byte_array(b.clone().into())));
            let s = guarded(|| match Script::deser_ops(b.clone().into()) {
                Ok(s) => {
                    json!({"k":"ok","v":jscript(&s),"re":guarded(|| ok(jb(&s.ser_ops()))),"src":s.ops_arc().iter().all(|o| o.src_code.is_empty() && o.pushed_names.is_none() && o.alt_pushed_names.is_none())})
                }
                Err(e) => err(e),
            });
            json!({"slice": a, "arr": d, "script": s})
        }
        // a long script made of one piece over and over, reported in summary
        "long" => {
            let (unit, n) = (bytes(&c["unit"]), us(&c["n"]));
            let b: Vec<u8> = unit.iter().copied().cycle().take(unit.len() * n).collect();
            let one = |ops: &[Op], re: &[u8]| {
                let m = ops.len() / n;
                json!({"k":"ok","n":ops.len(),"head":jops(ops[..m].iter()),"re":re == &b[..],
                       "same":m > 0 && ops.chunks(m).all(|c| c == &ops[..m])})
            };
            let parsed = |r: Result<Vec<Op>, error::Error>| match r {
                Ok(ops) => match serialize_ops(ops.iter()) {
                    Ok(re) => one(&ops, &re),
                    Err(e) => err(e),
                },
                Err(e) => err(e),
            };
            let a = guarded(|| parsed(deserialize_ops(&b)));
            let d = guarded(|| parsed(deserialize_ops_byte_array(b.clone().into())));
            let s = guarded(|| match Script::deser_ops(b.clone().into()) {
                Ok(s) => one(&s.ops_arc().iter().map(|o| o.op.clone()).collect::<Vec<_>>(), &s.ser_ops()),
                Err(e) => err(e),
            });
            json!({"slice": a, "arr": d, "script": s})
        }
        // the hash of a transaction survives decoding and re-encoding
        "txre" => {
            let b = bytes(&c["b"]);
            guarded(|| match UnhashedTx::deser(b.clone().into()) {
                Ok(tx) => json!({"k":"ok","raw": jb(tx.hashed().raw())}),
                Err(e) => err(e),
            })
        }
        "serop" => {
            let o = op_of(&c["o"]);
            let ser = guarded(|| res(serialize_op(&o), |v| jb(&v)));
            let int = guarded(|| ok(jint(o.to_integer())));
            // reading the number back after a trip through the bytes
            let back = guarded(|| {
                let b = match serialize_op(&o) {
                    Ok(b) => b,
                    Err(e) => return err(e),
                };
                match deserialize_ops(&b) {
                    Ok(ops) => json!({"k":"ok","n":ops.len(),"v": jint(ops.first().and_then(|o| o.to_integer()))}),
                    Err(e) => err(e),
                }
            });
            let arr = guarded(|| match o.to_byte_array() {
                Some(a) => json!({"k":"ok","some":true,"v":jb(a)}),
                None => json!({"k":"ok","some":false,"v":[]}),
            });
            json!({"ser": ser, "int": int, "back": back, "arr": arr})
        }
        "serops" => {
            let o: Vec<Op> = arr(&c["ops"]).iter().map(op_of).collect();
            let a = guarded(|| res(serialize_ops(o.iter()), |v| jb(&v)));
            let s = guarded(|| ok(jb(&Script::from_ops(o.clone()).ser_ops())));
            json!({"ops": a, "script": s})
        }
        "pushint" => {
            let i = c["i"].as_i64().expect("HARNESS: i") as i32;
            guarded(|| {
                let int = Integer::new(i).unwrap();
                json!({"k":"ok","a":jop(&int.to_pushop()),"b":jop(&i.to_pushop()),
                       "c":jop(&Op::from_int(i)),"d":jop(&IntegerResult::new(i).to_pushop()),
                       "enc": jb(&encoding_utils::encode_int(i))})
            })
        }
        "pushbool" => {
            let b = c["b"].as_bool().expect("HARNESS: b");
            guarded(|| {
                json!({"k":"ok","a":jop(&b.to_pushop()),"enc":jb(&encoding_utils::encode_bool(b))})
            })
        }
        "pushbytes" => {
            let b = bytes(&c["b"]);
            guarded(|| {
                let ba: ByteArray = b.clone().into();
                json!({"k":"ok","a":jop(&ba.to_pushop()),"b":jop(&b[..].to_pushop()),
                       "c":jop(&Op::from_array(b.clone())),"d":jop(&Op::from(ba.clone()))})
            })
        }
        "decint" => {
            let b = bytes(&c["b"]);
            let v = guarded(|| res(encoding_utils::vec_to_int(&b), |v| ju32(v as u32)));
            let o = guarded(|| ok(jint(Op::from_array(b.clone()).to_integer())));
            json!({"vec": v, "opint": o})
        }
        "minenc" => {
            let mut b = bytes(&c["b"]);
            guarded(|| {
                encoding_utils::encode_minimally(&mut b);
                ok(jb(&b))
            })
        }
        "scriptcode" => {
            let s = script_of(&c["ops"]);
            let first = guarded(|| ok(jscript(&s.to_script_code_first())));
            let none = guarded(|| ok(jscript(&s.to_script_code(None))));
            json!({"first": first, "none": none})
        }
        op => panic!("HARNESS: script op {}", op),
    }
}
