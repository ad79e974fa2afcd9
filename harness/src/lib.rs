pub mod addr;
pub mod builder;
pub mod ecc;
pub mod hashty;
pub mod int;
pub mod json;
pub mod opc;
pub mod prov;
pub mod script;
pub mod slp;
pub mod types;
pub mod util;
pub mod val;
pub mod wire;

use serde_json::Value;
use std::io::{BufRead, BufWriter, Write};

/// Counts the memory in use, so that a decoder that reserves memory for data that is not
/// there is noticed.
mod meter {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static NOW: AtomicUsize = AtomicUsize::new(0);
    static PEAK: AtomicUsize = AtomicUsize::new(0);
    pub struct Meter;
    fn more(n: usize) {
        let now = NOW.fetch_add(n, Relaxed).wrapping_add(n);
        PEAK.fetch_max(now, Relaxed);
    }
    unsafe impl GlobalAlloc for Meter {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            more(l.size());
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            more(l.size());
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            NOW.fetch_sub(l.size(), Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
            NOW.fetch_sub(l.size(), Relaxed);
            more(new);
            System.realloc(p, l, new)
        }
    }
    pub fn start() -> usize {
        let now = NOW.load(Relaxed);
        PEAK.store(now, Relaxed);
        now
    }
    /// bytes in use at most since the start, above what was in use then
    pub fn peak(start: usize) -> usize {
        PEAK.load(Relaxed).saturating_sub(start).min(1 << 30)
    }
}
#[global_allocator]
static METER: meter::Meter = meter::Meter;

/// the operations that decode bytes from outside
fn metered(c: &Value) -> bool {
    matches!(
        (c["dom"].as_str().unwrap_or(""), c["op"].as_str().unwrap_or("")),
        ("wire", "deser") | ("wire", "desertag") | ("wire", "decall") | ("script", "scan")
    )
}

pub fn run_case(c: &Value) -> Value {
    match c["dom"].as_str().unwrap_or("") {
        "wire" => wire::run(c),
        "addr" => addr::run(c),
        "hash" => hashty::run(c),
        "ecc" => ecc::run(c),
        "slp" => slp::run(c),
        "types" => types::run(c),
        "val" => val::run(c),
        "int" => int::run(c),
        "json" => json::run(c),
        "opc" => opc::run(c),
        "builder" => builder::run(c),
        "prov" => prov::run(c),
        "script" => script::run(c),
        d => panic!("HARNESS: domain {}", d),
    }
}

/// usage: bch-harness CASES EVENTS SKIP
/// Reads one JSON case per line, runs it against the library, and writes the case with
/// its observed outcome ("out") as one line, flushed, so that a crash loses only one case.
pub fn drive(run_case: fn(&Value) -> Value) {
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let file = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .unwrap();
    let mut out = BufWriter::with_capacity(1 << 16, file);
    // after a crash the run is repeated case by case, so that the crashing case is known
    let each = std::env::var("FLUSH_EACH").is_ok();
    let mut flushed = std::time::Instant::now();
    for (i, line) in input.lines().enumerate() {
        if i < skip {
            continue;
        }
        let line = line.unwrap();
        let mut c: Value = serde_json::from_str(&line).unwrap();
        let start = meter::start();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&c)));
        let peak = meter::peak(start);
        let v = match r {
            Ok(v) => v,
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("HARNESS") {
                    eprintln!("harness error on case {}: {} {}", i, msg, line);
                    std::process::exit(3);
                }
                // the library panicked while the case was being set up
                serde_json::json!({"k": "panic", "msg": msg})
            }
        };
        c["out"] = v;
        if metered(&c) {
            c["mem"] = peak.into();
        }
        serde_json::to_writer(&mut out, &c).unwrap();
        out.write_all(b"\n").unwrap();
        if each || flushed.elapsed().as_millis() > 300 {
            out.flush().unwrap();
            flushed = std::time::Instant::now();
        }
    }
    out.flush().unwrap();
}
