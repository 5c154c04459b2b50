//! Stringtables: read, sorted, written, read again; lint; totals.
use hemtt_stringtable::analyze::lint_all;
use hemtt_stringtable::{Key, Package, Project, Totals};
use serde_json::{json, Value};

use crate::pre::mem_workspace;

macro_rules! languages {
    ($key:ident, $($l:ident),*) => {
        vec![$((stringify!($l), $key.$l())),*]
    };
}
macro_rules! all {
    ($key:ident) => {
        languages!($key, original, english, czech, french, spanish, italian, polish, portuguese, russian, german, korean, japanese,
            chinese, chinesesimp, turkish, swedish, slovak, serbocroatian, norwegian, icelandic, hungarian, greek, finnish, dutch)
    };
}

fn key(k: &Key) -> Value {
    let t: Vec<Value> = all!(k).into_iter().filter_map(|(l, t)| t.map(|t| json!([l, t]))).collect();
    json!({"id": k.id(), "text": t})
}

fn package(p: &Package) -> Value {
    json!({"name": p.name(), "keys": p.keys().iter().map(key).collect::<Vec<_>>(),
           "containers": p.containers().iter().map(package).collect::<Vec<_>>()})
}

fn table(p: &Project) -> Value {
    json!({"name": p.name(), "packages": p.packages().iter().map(package).collect::<Vec<_>>()})
}

fn totals(t: &Totals) -> Value {
    let l: Vec<Value> = all!(t).into_iter().filter(|(_, n)| *n > 0).map(|(l, n)| json!([l, n])).collect();
    json!({"total": t.total(), "text": l})
}

fn read(text: &str) -> Result<Project, String> {
    Project::from_reader(std::io::BufReader::new(text.as_bytes())).map_err(|e| e.to_string())
}

fn write(p: &Project) -> String {
    let mut out = String::new();
    p.to_writer(&mut out).expect("written");
    out
}

fn one(text: &str) -> Value {
    let p = match read(text) {
        Ok(p) => p,
        Err(e) => return json!({"err": e}),
    };
    let mut sorted = p.clone();
    sorted.sort();
    let written = write(&p);
    let by = write(&sorted);
    let mut twice = sorted.clone();
    twice.sort();
    let mut o = json!({"table": table(&p), "written": written, "sorted": table(&sorted), "sorted_written": by,
                       "twice": write(&twice) == by, "totals": p.packages().iter().map(|p| totals(&p.totals())).collect::<Vec<_>>()});
    let mut merged = Totals::default();
    for p in p.packages() {
        merged.merge(&p.totals());
    }
    o["merged"] = totals(&merged);
    for (name, text) in [("written_again", &written), ("sorted_again", &by)] {
        o[name] = match read(text) {
            Ok(p) => {
                let mut s = p.clone();
                s.sort();
                json!({"table": table(&p), "text": write(&p), "sorted": write(&s)})
            }
            Err(e) => json!({"err": e}),
        };
    }
    o
}

pub fn run(case: &Value) -> Value {
    let texts: Vec<&str> = case["texts"].as_array().expect("texts").iter().map(|t| t.as_str().expect("text")).collect();
    let each: Vec<Value> = texts.iter().map(|t| one(t)).collect();
    let mut out = json!({"each": each});
    if each.iter().all(|o| o.get("err").is_none()) {
        let ws = mem_workspace(&serde_json::Map::new());
        let data: Vec<_> = texts.iter().enumerate()
            .map(|(n, t)| (read(t).expect("read"), ws.join(format!("/{n}.xml")).expect("path"), (*t).to_string())).collect();
        let config = case.get("lints").map(|t| crate::lint::project(t.as_str().expect("lints")).expect("project"));
        out["lint"] = json!(lint_all(&data, config.as_ref()).iter()
            .map(|c| json!([c.ident(), format!("{:?}", c.severity()), c.message().replace('`', "'"), c.help().unwrap_or_default().replace('`', "'")])).collect::<Vec<_>>());
    }
    out
}
