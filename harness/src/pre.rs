use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::{Error, Processor};
use hemtt_workspace::{Workspace, WorkspacePath};
use serde_json::{json, Value};

pub fn mem_workspace(files: &serde_json::Map<String, Value>) -> WorkspacePath {
    let ws = Workspace::builder()
        .memory()
        .finish(None, false, &PDriveOption::Disallow)
        .expect("workspace");
    for (name, content) in files {
        let path = ws.join(name).expect("join");
        path.vfs().parent().create_dir_all().expect("mkdir");
        path.create_file()
            .expect("create")
            .write_all(content.as_str().expect("content").as_bytes())
            .expect("write");
    }
    ws
}

pub fn err_code(e: &Error) -> String {
    match e {
        Error::Code(c) => c.ident().to_string(),
        Error::Io(_) => "IO".to_string(),
        Error::Workspace(_) => "WORKSPACE".to_string(),
    }
}

pub fn run(case: &Value) -> Value {
    let ws = mem_workspace(case["files"].as_object().expect("files"));
    let root = ws.join(case["root"].as_str().expect("root")).expect("root");
    let processed = match Processor::run(&root) {
        Ok(p) => p,
        Err((_, e)) => return json!({"err": err_code(&e)}),
    };
    let warn: Vec<String> = processed
        .warnings()
        .iter()
        .map(|w| {
            let tok = w.token().map_or(String::new(), |t| {
                format!(":{}:{}", t.position().path().as_str(), t.position().start().line())
            });
            format!("{}{}", w.ident(), tok)
        })
        .collect();
    let mut res = json!({
        "out": processed.as_str(),
        "warn": warn,
        "norapify": processed.no_rapify(),
    });
    if case["maps"].as_bool().unwrap_or(false) {
        // where every character of the output is said to come from; characters with
        // the same answer are reported once
        let show = |m: &hemtt_workspace::reporting::Mapping| {
            let pos = m.original();
            let (path, content) = processed.source(m.source()).expect("source index");
            let text = content.get(pos.span()).unwrap_or("\u{fffd}");
            let path = if path == pos.path() { path.as_str() } else { "?source" };
            (
                m.processed_start().offset(),
                path.to_string(),
                pos.start().line(),
                text.to_string(),
            )
        };
        let n = processed.as_str().chars().count();
        let mut maps: Vec<(usize, String, usize, String)> = Vec::new();
        let mut last = None;
        for off in 0..n {
            let (key, item) = match processed.mapping(off) {
                None => (None, (off, String::from("?none"), 0, String::new())),
                Some(m) => (
                    Some((m.processed_start().offset(), m.source(), m.original().span())),
                    show(m),
                ),
            };
            if last != Some(key.clone()) {
                maps.push(item);
            }
            last = Some(key);
        }
        res["maps"] = json!(maps);
        res["leaves"] = json!(processed
            .raw_mappings()
            .iter()
            .filter(|m| !m.was_macro())
            .map(show)
            .collect::<Vec<_>>());
    }
    res
}
