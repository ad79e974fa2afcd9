use bitcoin_cash::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .unwrap_or_else(|| panic!("HARNESS: not a byte array: {}", v))
        .iter()
        .map(|x| x.as_u64().expect("HARNESS: byte") as u8)
        .collect()
}
pub fn jb(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| json!(x)).collect())
}
pub fn u64le(v: &Value) -> u64 {
    let mut a = [0u8; 8];
    a.copy_from_slice(&bytes(v));
    u64::from_le_bytes(a)
}
pub fn u32le(v: &Value) -> u32 {
    let mut a = [0u8; 4];
    a.copy_from_slice(&bytes(v));
    u32::from_le_bytes(a)
}
pub fn i32le(v: &Value) -> i32 {
    u32le(v) as i32
}
pub fn ju64(x: u64) -> Value {
    jb(&x.to_le_bytes())
}
pub fn ju32(x: u32) -> Value {
    jb(&x.to_le_bytes())
}

/// Runs code under test; a panic becomes data.
pub fn guarded(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if msg.starts_with("HARNESS") {
                panic!("{}", msg);
            }
            json!({"k": "panic", "msg": msg})
        }
    }
}
pub fn ok(v: Value) -> Value {
    json!({"k": "ok", "v": v})
}
pub fn err(e: impl std::fmt::Display) -> Value {
    json!({"k": "err", "msg": e.to_string()})
}
pub fn res<T, E: std::fmt::Display>(r: Result<T, E>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(t) => ok(f(t)),
        Err(e) => err(e),
    }
}

pub fn jop(op: &Op) -> Value {
    match op {
        Op::Code(c) => json!({"k":"code","c":*c as u8,"d":[],"m":false}),
        Op::Invalid(c) => json!({"k":"inv","c":c,"d":[],"m":false}),
        Op::PushByteArray { array, is_minimal } => {
            json!({"k":"push","c":0,"d":jb(array),"m":is_minimal})
        }
        Op::PushBoolean(b) => json!({"k":"bool","c":*b as u8,"d":[],"m":false}),
        Op::PushInteger(i) => json!({"k":"int","c":i.value(),"d":[],"m":false}),
    }
}
pub fn op_of(v: &Value) -> Op {
    let c = v["c"].as_i64().expect("HARNESS: op c");
    match v["k"].as_str().expect("HARNESS: op k") {
        "code" => {
            Op::Code(num::FromPrimitive::from_u8(c as u8).expect("lib: unknown opcode"))
        }
        "inv" => Op::Invalid(c as u8),
        "push" => Op::PushByteArray {
            array: bytes(&v["d"]).into(),
            is_minimal: v["m"].as_bool().expect("HARNESS: op m"),
        },
        "bool" => Op::PushBoolean(c != 0),
        "int" => Op::PushInteger(Integer::new(c).expect("lib: op int")),
        k => panic!("HARNESS: op kind {}", k),
    }
}
pub fn jops<'a>(ops: impl IntoIterator<Item = &'a Op>) -> Value {
    Value::Array(ops.into_iter().map(jop).collect())
}
pub fn jscript(s: &Script) -> Value {
    Value::Array(s.ops_arc().iter().map(|o| jop(&o.op)).collect())
}
pub fn script_of(v: &Value) -> Script {
    Script::from_ops(
        v.as_array()
            .expect("HARNESS: script")
            .iter()
            .map(op_of)
            .collect::<Vec<_>>(),
    )
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: array expected: {}", v))
}
pub fn st<'a>(v: &'a Value) -> &'a str {
    v.as_str().unwrap_or_else(|| panic!("HARNESS: string expected: {}", v))
}
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("HARNESS: number expected: {}", v)) as usize
}
/// option as [] or [x]
pub fn opt<'a>(v: &'a Value) -> Option<&'a Value> {
    arr(v).first()
}
pub fn jopt(v: Option<Value>) -> Value {
    match v {
        Some(x) => json!([x]),
        None => json!([]),
    }
}
