use crate::util::*;
use bitcoin_cash::*;
use serde_json::{json, Value};

pub fn function_of(s: &str) -> Function {
    use Function::*;
    match s {
        "Plain" => Plain,
        "Sha1" => Sha1,
        "Ripemd160" => Ripemd160,
        "Sha256" => Sha256,
        "Hash256" => Hash256,
        "Hash160" => Hash160,
        "Num2Bin" => Num2Bin,
        "EcdsaSign" => EcdsaSign,
        "SchnorrSign" => SchnorrSign,
        "ToDataSig" => ToDataSig,
        "UnexpectedSplit" => UnexpectedSplit,
        "Reverse" => Reverse,
        f => panic!("HARNESS: function {}", f),
    }
}
/// the whole annotation tree
pub fn tree(b: &ByteArray) -> Value {
    json!({
        "d": jb(b),
        "n": jopt(b.name().map(|n| json!(n))),
        "f": format!("{:?}", b.function()),
        "p": jopt(b.preimage().map(|p| Value::Array(p.iter().map(tree).collect()))),
    })
}
pub fn of_tree(v: &Value) -> ByteArray {
    ByteArray::from_preimage(
        bytes(&v["d"]).into(),
        opt(&v["n"]).map(|n| std::sync::Arc::new(st(n).to_string().into())),
        function_of(st(&v["f"])),
        opt(&v["p"]).map(|p| arr(p).iter().map(of_tree).collect::<Vec<_>>().into()),
    )
}
fn digest(f: &str, a: ByteArray) -> ByteArray {
    match f {
        "Sha1" => Sha1::digest(a).into_byte_array(),
        "Ripemd160" => Ripemd160::digest(a).into_byte_array(),
        "Sha256" => Sha256::digest(a).into_byte_array(),
        "Hash256" => Sha256d::digest(a).into_byte_array(),
        "Hash160" => Hash160::digest(a).into_byte_array(),
        f => panic!("HARNESS: hash {}", f),
    }
}
fn digest_cat(f: &str, a: ByteArray, b: ByteArray) -> ByteArray {
    match f {
        "Sha1" => Sha1::digest(a).concat(b),
        "Ripemd160" => Ripemd160::digest(a).concat(b),
        "Sha256" => Sha256::digest(a).concat(b),
        "Hash256" => Sha256d::digest(a).concat(b),
        "Hash160" => Hash160::digest(a).concat(b),
        f => panic!("HARNESS: hash {}", f),
    }
}
fn fixed<T>(d: Vec<u8>, name: Option<String>) -> Result<ByteArray, String>
where
    T: Default + AsRef<[u8]> + AsMut<[u8]>,
{
    type Fixed<T> = FixedByteArrayLE<T>;
    let mut arr = T::default();
    let fits = arr.as_ref().len() == d.len();
    if fits {
        arr.as_mut().copy_from_slice(&d);
    }
    let x: Fixed<T> = match name {
        // three ways to the same value
        Some(n) if fits && d[0] % 3 == 0 => Fixed::new(n, arr),
        Some(n) if d.first().map_or(false, |x| x % 3 == 1) => Fixed::from_slice_unnamed(&d).map_err(|e| e.to_string())?.named(n),
        Some(n) => Fixed::from_slice(n, &d).map_err(|e| e.to_string())?,
        None if fits && d[0] % 2 == 0 => Fixed::new_unnamed(arr),
        None => Fixed::from_slice_unnamed(&d).map_err(|e| e.to_string())?,
    };
    looks(&x, &x[..], x.as_byte_array());
    Ok(x.into_byte_array())
}
fn refixed<T>(a: ByteArray, name: Option<String>) -> Result<ByteArray, String>
where
    T: Default + AsRef<[u8]>,
{
    let x: FixedByteArrayBE<T> = FixedByteArray::from_byte_array(a).map_err(|e| e.to_string())?;
    let x = match name {
        Some(n) => x.named(n),
        None => x,
    };
    looks(&x, &x[..], x.as_byte_array());
    Ok(if x.len() % 8 == 0 { x.as_byte_array().clone() } else { x.into_byte_array() })
}
fn looks(a: &[u8], b: &[u8], c: &[u8]) {
    assert!(a == b && b == c, "the views of a fixed array differ");
}
fn call(regs: &[ByteArray], v: &Value) -> Result<Vec<ByteArray>, String> {
    let a = || regs[us(&v["a"])].clone();
    let b = || regs[us(&v["b"])].clone();
    let name = || opt(&v["n"]).map(|n| st(n).to_string());
    Ok(match st(&v["op"]) {
        "new" => {
            let d = bytes(&v["d"]);
            vec![match name() {
                Some(n) if d.len() % 2 == 0 => ByteArray::new(n, d),
                Some(n) => ByteArray::from_slice(n, &d),
                None if d.len() % 3 == 0 => ByteArray::new_unnamed(d),
                None if d.len() % 3 == 1 => ByteArray::from_slice_unnamed(&d),
                None => d.into(),
            }]
        }
        "concat" => vec![match name() {
            Some(n) if n.len() % 2 == 0 => a().concat_named(std::sync::Arc::new(n.into()), b()),
            Some(n) => a().concat_named_option(b(), Some(std::sync::Arc::new(n.into()))),
            None => a().concat(b()),
        }],
        "parts" => vec![ByteArray::from_parts(
            arr(&v["rs"]).iter().map(|i| regs[us(i)].clone()),
        )],
        "split" => {
            let (l, r) = a().split(us(&v["at"])).map_err(|e| e.to_string())?;
            vec![l, r]
        }
        "named" => vec![match name() {
            Some(n) if n.len() % 2 == 0 => a().named(n),
            n => a().named_option(n.map(|n| std::sync::Arc::new(n.into()))),
        }],
        "hash" => vec![digest(st(&v["f"]), a())],
        "hashcat" => vec![digest_cat(st(&v["f"]), a(), b())],
        "apply" => vec![a().apply_function(bytes(&v["d"]), function_of(st(&v["f"])))],
        // arrays of a fixed size: made from their bytes, or from an annotated array
        "fixed" => {
            let d = bytes(&v["d"]);
            vec![match us(&v["w"]) {
                1 => fixed::<[u8; 1]>(d, name()),
                4 => fixed::<[u8; 4]>(d, name()),
                20 => fixed::<[u8; 20]>(d, name()),
                _ => fixed::<[u8; 32]>(d, name()),
            }?]
        }
        "refix" => vec![match us(&v["w"]) {
            1 => refixed::<[u8; 1]>(a(), name()),
            4 => refixed::<[u8; 4]>(a(), name()),
            20 => refixed::<[u8; 20]>(a(), name()),
            _ => refixed::<[u8; 32]>(a(), name()),
        }?],
        "pad" => {
            let i = Integer::new(v["v"].as_i64().unwrap()).expect("HARNESS: int");
            let n = Integer::new(v["len"].as_i64().unwrap()).expect("HARNESS: int");
            vec![ByteArray::from_int(i, n).map_err(|e| e.to_string())?]
        }
        o => panic!("HARNESS: op {}", o),
    })
}
pub fn run(c: &Value) -> Value {
    let mut regs: Vec<ByteArray> = Vec::new();
    let mut ev = Vec::new();
    for v in arr(&c["ev"]) {
        let mut new = Vec::new();
        let res = if v["op"] == "look" {
            guarded(|| {
                let a = &regs[us(&v["a"])];
                let (from, to) = (us(&v["from"]), us(&v["to"]));
                json!({"k": "ok", "views": [jb(a.data()), jb(a.as_slice()), jb(a.as_ref()), jb(&a[..]), jb(&a[0..a.len()]), jb(&a.to_vec())],
                       "len": a.len(), "hex": crate::addr::jt(&a.hex()), "show": crate::addr::jt(&a.to_string()),
                       "part": jb(&a[from..to]), "arc": jopt(a.preimage_arc().map(|p| Value::Array(p.iter().map(tree).collect()))),
                       "name": jopt(a.name_arc().map(|n| json!(n.to_string())))})
            })
        } else if v["op"] == "chain" {
            guarded(|| {
                let n = us(&v["n"]);
                let mut a: ByteArray = bytes(&v["d"]).into();
                for _ in 0..n {
                    a = digest(st(&v["f"]), a);
                }
                let mut steps = 0;
                let mut at = &a;
                while let Some(p) = at.preimage() {
                    at = &p[0];
                    steps += 1;
                }
                json!({"k": "ok", "d": jb(&a), "steps": steps, "start": jb(at)})
            })
        } else if v["op"] == "widepad" {
            guarded(|| {
                let i = Integer::new(v["v"].as_i64().unwrap()).expect("HARNESS: int");
                let n = Integer::new(v["len"].as_i64().unwrap()).expect("HARNESS: int");
                match ByteArray::from_int(i, n) {
                    Err(e) => err(e),
                    Ok(b) => json!({"k":"ok","len":b.len(),"head":jb(&b[..4]),"last":b[b.len()-1],
                        "zeros":b[4..b.len()-1].iter().all(|x| *x == 0)}),
                }
            })
        } else {
            guarded(|| match call(&regs, v) {
                Ok(r) => {
                    new = r;
                    ok(Value::Array(new.iter().map(tree).collect()))
                }
                Err(e) => err(e),
            })
        };
        let dead = res["k"] == "panic";
        let eqs: Vec<Vec<bool>> = new.iter().map(|n| regs.iter().map(|r| n == r).collect()).collect();
        regs.extend(new);
        ev.push(json!({"in": v, "res": res, "eqs": eqs}));
        if dead {
            break;
        }
    }
    json!({ "ev": ev })
}
