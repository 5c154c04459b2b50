//! Lint managers: a sequence of operations on a manager whose lints record how they
//! were invoked, and the real config lints under a project's settings.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

use hemtt_common::config::{LintConfig, LintConfigOverride, ProjectConfig};
use hemtt_preprocessor::Processor;
use hemtt_workspace::lint::{
    AnyLintGroupRunner, AnyLintRunner, Lint, LintGroupRunner, LintManager, LintRunner, Lints,
};
use hemtt_workspace::reporting::{Code, Codes, Processed, Severity};
use serde_json::{json, Value};

use crate::pre::mem_workspace;

struct TypeA;
struct TypeB;

fn severity(s: &str) -> Severity {
    match s {
        "Bug" => Severity::Bug,
        "Error" => Severity::Error,
        "Warning" => Severity::Warning,
        "Note" => Severity::Note,
        "Help" => Severity::Help,
        _ => panic!("severity {s}"),
    }
}

fn show(c: &LintConfig, keys: &[String]) -> Value {
    let opts: BTreeMap<&str, String> = keys
        .iter()
        .filter_map(|k| c.option(k).map(|v| (k.as_str(), v.to_string())))
        .collect();
    json!({"sev": format!("{:?}", c.severity()), "enabled": c.enabled(),
           "options": opts.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()})
}

struct Told(Value);
impl Code for Told {
    fn ident(&self) -> &'static str {
        "TOLD"
    }
    fn message(&self) -> String {
        self.0.to_string()
    }
}

struct Fake {
    ident: &'static str,
    default: LintConfig,
    min: Option<Severity>,
    runners: Vec<String>,
    keys: Arc<Vec<String>>,
    twice: bool,
}
impl Lint<()> for Fake {
    fn ident(&self) -> &'static str {
        self.ident
    }
    fn description(&self) -> &'static str {
        "fake"
    }
    fn documentation(&self) -> &'static str {
        "fake"
    }
    fn default_config(&self) -> LintConfig {
        self.default.clone()
    }
    fn minimum_severity(&self) -> Severity {
        self.min.unwrap_or_else(|| self.default_config().severity())
    }
    fn runners(&self) -> Vec<Box<dyn AnyLintRunner<()>>> {
        self.runners
            .iter()
            .enumerate()
            .map(|(n, r)| -> Box<dyn AnyLintRunner<()>> {
                let i = Inner { ident: self.ident, n, keys: self.keys.clone(), twice: self.twice };
                if r == "A" {
                    Box::new(OnA(i))
                } else {
                    Box::new(OnB(i))
                }
            })
            .collect()
    }
}

struct Inner {
    ident: &'static str,
    n: usize,
    keys: Arc<Vec<String>>,
    twice: bool,
}
impl Inner {
    fn tell(&self, on: &str, config: &LintConfig) -> Codes {
        let mut v = show(config, &self.keys);
        v["lint"] = json!(self.ident);
        v["runner"] = json!(self.n + 1);
        v["on"] = json!(on);
        let mut codes: Codes = vec![Arc::new(Told(v.clone()))];
        if self.twice {
            v["again"] = json!(true);
            codes.push(Arc::new(Told(v)));
        }
        codes
    }
}
struct OnA(Inner);
struct OnB(Inner);
impl LintRunner<()> for OnA {
    type Target = TypeA;
    fn run(&self, _: Option<&ProjectConfig>, c: &LintConfig, _: Option<&Processed>, _: &TypeA, _: &()) -> Codes {
        self.0.tell("A", c)
    }
}
impl LintRunner<()> for OnB {
    type Target = TypeB;
    fn run(&self, _: Option<&ProjectConfig>, c: &LintConfig, _: Option<&Processed>, _: &TypeB, _: &()) -> Codes {
        self.0.tell("B", c)
    }
}

struct GroupA(String, Arc<Vec<String>>);
struct GroupB(String, Arc<Vec<String>>);
fn tell_group(id: &str, keys: &[String], on: &str, configs: &HashMap<String, LintConfig>) -> Codes {
    let sorted: BTreeMap<&String, &LintConfig> = configs.iter().collect();
    let list: Vec<Value> = sorted
        .iter()
        .map(|(k, c)| {
            let mut v = show(c, keys);
            v["lint"] = json!(k);
            v
        })
        .collect();
    vec![Arc::new(Told(json!({"group": id, "on": on, "configs": list})))]
}
impl LintGroupRunner<()> for GroupA {
    type Target = TypeA;
    fn run(&self, _: Option<&ProjectConfig>, c: HashMap<String, LintConfig>, _: Option<&Processed>, _: &TypeA, _: &()) -> Codes {
        tell_group(&self.0, &self.1, "A", &c)
    }
}
impl LintGroupRunner<()> for GroupB {
    type Target = TypeB;
    fn run(&self, _: Option<&ProjectConfig>, c: HashMap<String, LintConfig>, _: Option<&Processed>, _: &TypeB, _: &()) -> Codes {
        tell_group(&self.0, &self.1, "B", &c)
    }
}

fn lints(v: &Value, keys: &Arc<Vec<String>>) -> Lints<()> {
    v.as_array()
        .expect("lints")
        .iter()
        .map(|l| {
            let options: HashMap<String, toml::Value> = l["options"]
                .as_array()
                .expect("options")
                .iter()
                .map(|kv| {
                    let text = format!("x = {}", kv[1].as_str().expect("option"));
                    let t: toml::Table = toml::from_str(&text).expect("option value");
                    (kv[0].as_str().expect("key").to_string(), t["x"].clone())
                })
                .collect();
            let fake = Fake {
                ident: Box::leak(l["ident"].as_str().expect("ident").to_string().into_boxed_str()),
                default: LintConfig::new(severity(l["sev"].as_str().expect("sev")), options)
                    .with_enabled(l["enabled"].as_bool().expect("enabled")),
                min: match l["min"].as_str().expect("min") {
                    "default" => None,
                    s => Some(severity(s)),
                },
                runners: l["runners"].as_array().expect("runners").iter().map(|r| r.as_str().expect("runner").to_string()).collect(),
                keys: keys.clone(),
                twice: l["twice"].as_bool().unwrap_or(false),
            };
            let b: Box<dyn Lint<()>> = Box::new(fake);
            Arc::new(b)
        })
        .collect()
}

fn told(codes: &Codes) -> Value {
    Value::Array(
        codes
            .iter()
            .map(|c| {
                if c.ident() == "TOLD" {
                    serde_json::from_str(&c.message()).expect("told")
                } else {
                    json!({"unknown": c.ident()})
                }
            })
            .collect(),
    )
}

/// what was refused: the lints named in the errors
fn refused(codes: &Codes) -> Value {
    json!({"refused": codes.iter().map(|c| {
        let m = c.message();
        m.split('`').nth(1).unwrap_or("").to_string()
    }).collect::<Vec<_>>(), "shown": codes.iter().all(|c| c.diagnostic().is_some())})
}

pub fn project(toml: &str) -> Result<ProjectConfig, String> {
    let dir = tempdir();
    let file = dir.0.join("project.toml");
    std::fs::write(&file, toml).expect("write");
    ProjectConfig::from_file(&file).map_err(|e| e.to_string())
}

/// A scratch directory that goes away with it.
pub struct Dir(pub std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn tempdir() -> Dir {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = std::env::current_dir()
        .expect("cwd")
        .join(format!("d{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).expect("dir");
    Dir(d)
}

pub fn run(case: &Value) -> Value {
    let text = case["toml"].as_str().expect("toml");
    let project = match project(text) {
        Ok(p) => p,
        Err(e) => return json!({"project_err": e}),
    };
    match case["kind"].as_str().expect("kind") {
        "manager" => {
            let configs: HashMap<String, LintConfigOverride> = match case["section"].as_str().expect("section") {
                "config" => project.lints().config().clone(),
                "sqf" => project.lints().sqf().clone(),
                _ => project.lints().stringtables().clone(),
            };
            let keys: Arc<Vec<String>> =
                Arc::new(case["keys"].as_array().expect("keys").iter().map(|k| k.as_str().expect("key").to_string()).collect());
            let mut m: LintManager<()> = LintManager::new(configs);
            let mut out = Vec::new();
            for op in case["ops"].as_array().expect("ops") {
                let what = op["op"].as_str().expect("op");
                if what == "run" {
                    let codes = if op["on"] == json!("A") {
                        m.run(&(), None, None, &TypeA)
                    } else if op["on"] == json!("B") {
                        m.run(&(), None, None, &TypeB)
                    } else {
                        m.run(&(), None, None, &0u8)
                    };
                    out.push(json!({"told": told(&codes)}));
                    continue;
                }
                let mut ls = lints(&op["lints"], &keys);
                let r = match what {
                    "push" => m.push(ls.remove(0)),
                    "extend" => m.extend(ls),
                    _ => {
                        let id = op["id"].as_str().expect("id").to_string();
                        let g: Box<dyn AnyLintGroupRunner<()>> = if op["on"] == json!("A") {
                            Box::new(GroupA(id, keys.clone()))
                        } else {
                            Box::new(GroupB(id, keys.clone()))
                        };
                        m.push_group(ls, g)
                    }
                };
                out.push(match r {
                    Ok(()) => json!({"ok": true}),
                    Err(codes) => refused(&codes),
                });
            }
            json!({"out": out})
        }
        "config" => {
            let ws = mem_workspace(case["files"].as_object().expect("files"));
            let root = ws.join(case["root"].as_str().expect("root")).expect("root");
            let Ok(processed) = Processor::run(&root) else {
                return json!({"err": "preprocess"});
            };
            let one = |p: Option<&ProjectConfig>| match hemtt_config::parse(p, &processed) {
                Ok(r) => {
                    let mut codes: Vec<Value> = r.codes().iter().map(|c| crate::cfg::code(c.as_ref())).collect();
                    codes.sort_by_key(|c| (c["id"].to_string(), c["at"].to_string()));
                    json!({"codes": codes, "errors": r.errors().len(), "warnings": r.warnings().len()})
                }
                Err(codes) => refused(&codes),
            };
            let plain = self::project("name = \"abe\"\nprefix = \"abe\"\n").expect("plain");
            json!({"plain": one(Some(&plain)), "with": one(Some(&project))})
        }
        other => json!({"tool_error": format!("unknown kind {other}")}),
    }
}
