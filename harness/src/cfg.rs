//! Configs: text to diagnostics and, if there are no errors, to binary.
use hemtt_config::rapify::Rapify;
use hemtt_preprocessor::Processor;
use hemtt_workspace::reporting::{Code, Severity};
use serde_json::{json, Value};

use crate::pre::{err_code, mem_workspace};

/// What a diagnostic says: its code, and for every place it points at the text there.
pub fn code(c: &dyn Code) -> Value {
    let mut at: Vec<Value> = Vec::new();
    let shown = c.diagnostic();
    if let Some(d) = &shown {
        for l in &d.labels {
            let l = l.to_codespan();
            at.push(json!([l.file_id.as_str(), l.range.start, l.range.end]));
        }
    }
    let sev = match c.severity() {
        Severity::Error => "error",
        Severity::Warning => "warning",
        _ => "help",
    };
    json!({"id": c.ident(), "sev": sev, "shown": shown.is_some(), "at": at})
}

pub fn run(case: &Value) -> Value {
    let ws = mem_workspace(case["files"].as_object().expect("files"));
    let root = ws.join(case["root"].as_str().expect("root")).expect("root");
    let processed = match Processor::run(&root) {
        Ok(p) => p,
        Err((_, e)) => return json!({"err": err_code(&e)}),
    };
    let report = match hemtt_config::parse(None, &processed) {
        Ok(r) => r,
        Err(codes) => return json!({"rejected": true, "n": codes.len()}),
    };
    let codes: Vec<Value> = report.codes().iter().map(|c| code(c.as_ref())).collect();
    let patches: Vec<Value> = report
        .patches()
        .iter()
        .map(|p| json!([p.name().as_str(), p.required_version().to_string()]))
        .collect();
    let mut res = json!({"codes": codes, "patches": patches});
    if report.errors().is_empty() {
        let mut out = Vec::new();
        match report.config().rapify(&mut out, 0) {
            Ok(n) => {
                res["written"] = json!(n);
                res["length"] = json!(report.config().rapified_length());
                res["bytes"] = json!(out);
            }
            Err(e) => res["rapify_err"] = json!(e.to_string()),
        }
    }
    res
}
