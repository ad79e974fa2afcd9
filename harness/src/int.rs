use crate::util::*;
use bitcoin_cash::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::convert::TryFrom;

/// 17 bytes, two's complement -> (fits i128, as i128, as u128)
fn wide(v: &Value) -> ([u8; 16], u8) {
    let b = bytes(v);
    let mut a = [0; 16];
    a.copy_from_slice(&b[..16]);
    (a, b[16])
}
fn jres(r: IntegerResult) -> Value {
    match r.value() {
        Ok(v) => ok(json!(v)),
        Err(e) => err(e),
    }
}
fn jint(r: Result<Integer, integer_err::Error>) -> Value {
    match r {
        Ok(v) => ok(json!(v.value())),
        Err(_) => err("e"),
    }
}
mod integer_err {
    pub type Error = bitcoin_cash::IntegerError;
}
fn ord(o: Option<Ordering>) -> Value {
    json!(match o {
        None => "none",
        Some(Ordering::Less) => "lt",
        Some(Ordering::Equal) => "eq",
        Some(Ordering::Greater) => "gt",
    })
}
macro_rules! with_native {
    ($ty:expr, $x:expr, $n:ident => $body:expr) => {{
        let (a, _top) = $x;
        let i = i128::from_le_bytes(a);
        let u = u128::from_le_bytes(a);
        match $ty {
            "i8" => { let $n = i as i8; $body }
            "u8" => { let $n = u as u8; $body }
            "i16" => { let $n = i as i16; $body }
            "u16" => { let $n = u as u16; $body }
            "i32" => { let $n = i as i32; $body }
            "u32" => { let $n = u as u32; $body }
            "i64" => { let $n = i as i64; $body }
            "u64" => { let $n = u as u64; $body }
            "isize" => { let $n = i as isize; $body }
            "usize" => { let $n = u as usize; $body }
            "i128" => { let $n = i; $body }
            "u128" => { let $n = u; $body }
            t => panic!("HARNESS: native {}", t),
        }
    }};
}
fn bin<T>(op: &str, a: IntegerResult, b: T) -> IntegerResult
where
    T: std::convert::TryInto<IntegerResult>,
    T::Error: Into<IntegerError>,
{
    match op {
        "add" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        "div" => a / b,
        "rem" => a % b,
        "and" => a & b,
        "or" => a | b,
        "xor" => a ^ b,
        _ => panic!("HARNESS: op {}", op),
    }
}
fn bin_int<T>(op: &str, a: Integer, b: T) -> IntegerResult
where
    T: std::convert::TryInto<IntegerResult>,
    T::Error: Into<IntegerError>,
{
    match op {
        "add" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        "div" => a / b,
        "rem" => a % b,
        "and" => a & b,
        "or" => a | b,
        "xor" => a ^ b,
        _ => panic!("HARNESS: op {}", op),
    }
}
trait Rel {
    fn show(self) -> Value;
}
impl Rel for Option<Ordering> {
    fn show(self) -> Value {
        ord(self)
    }
}
impl Rel for &'static str {
    fn show(self) -> Value {
        json!(self)
    }
}
fn flag(eq: bool, cmp: impl Rel) -> Value {
    json!({"eq": eq, "cmp": cmp.show()})
}
fn failed() -> IntegerResult {
    IntegerResult::new(i32::MAX) + 1
}
pub fn run(c: &Value) -> Value {
    let mut s = failed();
    let mut ev = Vec::new();
    for v in arr(&c["ev"]) {
        let op = st(&v["op"]);
        let mut also: Vec<Value> = Vec::new();
        let mut extra = json!({"uint": [], "flags": []});
        let mut next = s;
        let cur = s.integer().ok();
        let res = guarded(|| match op {
            "from" => {
                next = with_native!(st(&v["ty"]), wide(&v["x"]), n => {
                    also.push(jint(Integer::new(n)));
                    also.push(jres(IntegerResult::from(n)));
                    also.push(jint(Integer::try_from(n).map_err(|e| e.into())));
                    extra["uint"] = match UInteger::new(n) { Ok(u) => {
                        if u.integer().value() != u.value() { err("differs") } else { ok(json!(u.value())) }
                    }, Err(e) => err(e) };
                    IntegerResult::new(n)
                });
                if let Ok(i) = next.integer() {
                    also.push(ok(json!(i32::from(i))));
                    also.push(ok(json!(*i)));
                    also.push(ok(json!(i.value())));
                    also.push(match i32::try_from(next) { Ok(i) => ok(json!(i)), Err(e) => err(e) });
                    also.push(jres(IntegerResult::from(i)));
                } else {
                    also.push(match i32::try_from(next) { Ok(i) => ok(json!(i)), Err(e) => err(e) });
                }
                jres(next)
            }
            "shl" | "shr" => {
                let n = us(&v["n"]) as u32;
                next = if op == "shl" { s << n } else { s >> n };
                if let Some(i) = cur {
                    also.push(jres(if op == "shl" { i << n } else { i >> n }));
                }
                jres(next)
            }
            "neg" => {
                next = -s;
                if let Some(i) = cur {
                    also.push(ok(json!((-i).value())));
                }
                jres(next)
            }
            "cmp" => {
                let mut flags = Vec::new();
                if v["failed"] == json!(true) {
                    flags.push(flag(s == failed(), s.partial_cmp(&failed())));
                } else {
                    with_native!(st(&v["ty"]), wide(&v["x"]), n => {
                        flags.push(flag(s == n, s.partial_cmp(&n)));
                        let r = IntegerResult::new(n);
                        flags.push(flag(s == r, s.partial_cmp(&r)));
                        flags.push(flag(!(s != n), s.partial_cmp(&n)));
                        flags.push(flag(s == n, rel(s < n, s <= n, s > n, s >= n)));
                        if let Ok(b) = Integer::new(n) {
                            flags.push(flag(s == b, s.partial_cmp(&b)));
                            if let Some(a) = cur {
                                flags.push(flag(a == b, a.partial_cmp(&b)));
                                flags.push(flag(a == b, Some(a.cmp(&b))));
                                flags.push(flag(a == b, rel(a < b, a <= b, a > b, a >= b)));
                            }
                        }
                    });
                    if let Some(a) = cur {
                        let (x, _) = wide(&v["x"]);
                        let i = i128::from_le_bytes(x);
                        match st(&v["ty"]) {
                            "i8" => flags.push(flag(a == i as i8, a.partial_cmp(&(i as i8)))),
                            "u8" => flags.push(flag(a == i as u8, a.partial_cmp(&(i as u8)))),
                            "i16" => flags.push(flag(a == i as i16, a.partial_cmp(&(i as i16)))),
                            "u16" => flags.push(flag(a == i as u16, a.partial_cmp(&(i as u16)))),
                            _ => {}
                        }
                    }
                }
                extra["flags"] = Value::Array(flags);
                jres(s)
            }
            _ => {
                if v["failed"] == json!(true) {
                    next = bin(op, s, failed());
                    if let Some(a) = cur {
                        also.push(jres(bin_int(op, a, failed())));
                    }
                } else {
                    with_native!(st(&v["ty"]), wide(&v["x"]), n => {
                        next = bin(op, s, n);
                        also.push(jres(bin(op, s, IntegerResult::new(n))));
                        if let Some(a) = cur {
                            also.push(jres(bin_int(op, a, n)));
                            also.push(jres(bin_int(op, a, IntegerResult::new(n))));
                        }
                        if let Ok(b) = Integer::new(n) {
                            also.push(jres(bin(op, s, b)));
                            if let Some(a) = cur {
                                also.push(jres(bin_int(op, a, b)));
                            }
                        }
                    });
                }
                jres(next)
            }
        });
        s = next;
        ev.push(json!({"in": v, "res": res, "text": s.to_string(), "also": also, "uint": extra["uint"], "flags": extra["flags"]}));
    }
    json!({ "ev": ev })
}
fn rel(lt: bool, le: bool, gt: bool, ge: bool) -> &'static str {
    match (lt, le, gt, ge) {
        (true, true, false, false) => "lt",
        (false, true, false, true) => "eq",
        (false, false, true, true) => "gt",
        (false, false, false, false) => "none",
        _ => "inconsistent",
    }
}
