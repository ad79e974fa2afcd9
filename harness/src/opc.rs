//! The opcode table.
use crate::util::*;
use bitcoin_cash::*;
use num::FromPrimitive;
use serde_json::{json, Value};

fn ty(t: &DataType) -> Value {
    match t {
        DataType::Generic => json!("G"),
        DataType::Integer => json!("I"),
        DataType::Boolean => json!("B"),
        DataType::ByteArray(None) => json!("A"),
        DataType::ByteArray(Some(n)) => json!(format!("A{}", n)),
    }
}
fn beh(o: Opcode) -> Value {
    guarded(|| {
        let b = o.behavior();
        json!([{
            "ins": b.input_types.iter().map(ty).collect::<Vec<_>>(),
            "outs": b.output_types.iter().map(ty).collect::<Vec<_>>(),
            "order": jopt(b.output_order.map(|x| json!(x))),
            "delta": b.delta.iter().map(|d| format!("{:?}", d)).collect::<Vec<_>>(),
        }])
    })
}
fn name(o: Opcode) -> Value {
    let s: &'static str = o.into();
    json!({"byte": o as u8, "debug": format!("{:?}", o), "display": format!("{}", o), "str": s})
}

pub fn run(c: &Value) -> Value {
    match st(&c["op"]) {
        "byte" => guarded(|| {
            let b = us(&c["b"]) as u8;
            let o: Option<Opcode> = Opcode::from_u8(b);
            let mut v = json!({"k": "ok", "from": jopt(o.map(name))});
            // the same low byte in a wider number is not an opcode
            let wide: Option<Opcode> = Opcode::from_u64(b as u64 + 256)
                .or(Opcode::from_u64(b as u64 + (1 << 32)))
                .or(Opcode::from_i64(-256 + b as i64))
                .or(Opcode::from_i64(-1 - b as i64));
            v["wide"] = jopt(wide.map(name));
            if b == 0 || b > 78 {
                let s = Script::deser_ops(vec![b].into()).expect("lib: parse");
                v["parsed"] = jscript(&s);
                v["written"] = jb(&s.ser_ops());
            }
            if let Some(o) = o {
                v["disabled"] = json!(o.is_disabled());
                v["retains"] = json!(o.retains_input());
                let r = beh(o);
                v["beh"] = if r.is_array() { r } else { json!([]) };
            }
            v
        }),
        "map" => guarded(|| {
            let mut p: Vec<_> = MAP_NAME_TO_ENUM.iter().map(|(n, o)| (*o as u8, n.clone())).collect();
            p.sort();
            json!({"k": "ok", "pairs": p.iter().map(|(b, n)| json!({"name": n, "byte": b})).collect::<Vec<_>>()})
        }),
        op => panic!("HARNESS: opc op {}", op),
    }
}
