//! Conformance executor: reads one abstract case per line (JSON), runs it on the
//! real HEMTT crates, and writes one observation per line (JSON).
//! It contains no expectations: what is right is decided by the TLA+ specification.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};

mod cfg;
mod lint;
mod pbo;
mod pre;
mod proj;
mod sign;
mod space;
mod lzo;
mod p3d;
mod paa;
mod st;

fn run(case: &Value) -> Value {
    match case["sys"].as_str().unwrap_or("") {
        "cfg" => cfg::run(case),
        "lint" => lint::run(case),
        "pbo" => pbo::run(case),
        "sign" => sign::run(case),
        "space" => space::run(case),
        "st" => st::run(case),
        "lzo" => lzo::run(case),
        "p3d" => p3d::run(case),
        "paa" => paa::run(case),
        "pre" => pre::run(case),
        "proj" => proj::run(case),
        other => json!({"tool_error": format!("unknown subsystem {other}")}),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // hx <cases.ndjson> <out.ndjson> <skip>
    let skip: usize = args.get(3).map_or(0, |s| s.parse().expect("skip"));
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("cases"));
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("out");
    std::panic::set_hook(Box::new(|_| {}));
    for line in input.lines().skip(skip) {
        let line = line.expect("line");
        let case: Value = serde_json::from_str(&line).expect("case json");
        let res = catch_unwind(AssertUnwindSafe(|| run(&case))).unwrap_or_else(|e| {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            json!({"panic": msg})
        });
        let mut s = serde_json::to_string(&res).expect("res");
        s.push('\n');
        out.write_all(s.as_bytes()).expect("write");
    }
}
