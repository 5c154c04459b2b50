//! Conformance executor for the parts that need the list of SQF commands: the SQF library
//! and the command line. Same protocol as the other executor; it contains no expectations.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};

mod cli;
mod sqf;

fn run(case: &Value) -> Value {
    match case["sys"].as_str().unwrap_or("") {
        "cli" => cli::run(case),
        "sqf" => sqf::run(case),
        other => json!({"tool_error": format!("unknown subsystem {other}")}),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "cli") {
        // hxq cli <arguments of hemtt>
        let cli = <hemtt::Cli as clap::Parser>::parse_from(
            std::iter::once("hemtt".to_string()).chain(args[2..].iter().cloned()),
        );
        if hemtt::execute(&cli).is_err() {
            std::process::exit(1);
        }
        return;
    }
    // hxq <cases.ndjson> <out.ndjson> <skip>
    let skip: usize = args.get(3).map_or(0, |s| s.parse().expect("skip"));
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("cases"));
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("out");
    std::panic::set_hook(Box::new(|_| {}));
    for line in input.lines().skip(skip) {
        let line = line.expect("line");
        let case: Value = serde_json::from_str(&line).expect("case json");
        let res = catch_unwind(AssertUnwindSafe(|| run(&case))).unwrap_or_else(|e| {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            json!({"panic": msg})
        });
        let mut s = serde_json::to_string(&res).expect("res");
        s.push('\n');
        out.write_all(s.as_bytes()).expect("write");
    }
}
