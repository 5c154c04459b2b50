//! Workspaces: layers over a scratch directory and in memory, prefix discovery, path
//! resolution, writes; scanning for addons. The process stands in the scratch
//! directory while a case runs, as the tool stands in its project.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use hemtt_common::config::PDriveOption;
use hemtt_p3d::{SearchCache, Vertex, LOD, P3D};
use hemtt_workspace::addons::{Addon, Error as AddonError};
use hemtt_workspace::{Error, LayerType, Workspace, WorkspacePath};
use serde_json::{json, Value};

use crate::lint::tempdir;

fn s(v: &Value) -> &str {
    v.as_str().expect("string")
}

fn err(e: &Error) -> Value {
    match e {
        Error::Addon(e) => match e {
            AddonError::NameDuplicate(n) => json!({"err": "name-duplicate", "of": n}),
            AddonError::Duplicate(n) => json!({"err": "duplicate", "of": n}),
            AddonError::PrefixMissing(n) => json!({"err": "prefix-missing", "of": n}),
            AddonError::LocationInvalid(n) => json!({"err": "location-invalid", "of": n}),
            AddonError::OptionalNotFound(n) => json!({"err": "optional", "of": n}),
        },
        Error::Common(hemtt_common::Error::ConfigInvalid(_)) => json!({"err": "config-invalid"}),
        Error::Common(hemtt_common::Error::Toml(_)) => json!({"err": "toml"}),
        Error::Common(_) => json!({"err": "common"}),
        Error::Prefix(e) => json!({"err": format!("{e:?}").split('(').next()}),
        Error::Vfs(_) => json!({"err": "vfs"}),
        Error::Io(_) => json!({"err": "io"}),
    }
}

fn dump(dir: &Path, at: &str, out: &mut BTreeMap<String, Value>) {
    for e in std::fs::read_dir(dir).expect("dir") {
        let e = e.expect("entry");
        let at = format!("{at}/{}", e.file_name().to_str().expect("name"));
        if e.path().is_dir() {
            dump(&e.path(), &at, out);
        } else {
            out.insert(at, json!(std::fs::read_to_string(e.path()).expect("text")));
        }
    }
}

fn read(p: &WorkspacePath) -> Value {
    match p.read_to_string() {
        Ok(t) => json!({"text": t}),
        Err(e) => err(&e),
    }
}

/// a model whose faces refer to these, over levels of detail of these resolutions (two by default)
fn model(m: &Value) -> P3D {
    let names = |k: &str| -> Vec<String> { m[k].as_array().expect("names").iter().map(|n| s(n).to_string()).collect() };
    let (t, a) = (names("textures"), names("materials"));
    let n = t.len().max(a.len());
    let pick = |v: &[String], i: usize| v.get(i).cloned().unwrap_or_default();
    let res: Vec<f32> = m.get("res").and_then(Value::as_array)
        .map_or_else(|| vec![1.0, 1.0], |r| r.iter().map(|x| s(x).parse().expect("resolution")).collect());
    let lod = |resolution: f32, from: usize, to: usize| LOD {
        version_major: 28,
        version_minor: 256,
        resolution,
        points: Vec::new(),
        face_normals: Vec::new(),
        faces: (from..to).map(|i| crate::p3d::face(vec![Vertex::new(), Vertex::new(), Vertex::new()], 0, pick(&t, i), pick(&a, i))).collect(),
        taggs: std::iter::empty().collect(),
    };
    let k = res.len();
    P3D { version: 257, lods: res.iter().enumerate().map(|(i, &r)| lod(r, n * i / k, n * (i + 1) / k)).collect() }
}

fn answer(ws: &WorkspacePath, dir: &Path, op: &Value) -> Result<Value, Error> {
    let at = |k: &str| ws.join(s(&op[k]));
    Ok(match s(&op["op"]) {
        "locate" => match at("from")?.locate(s(&op["path"]))? {
            None => json!({"none": true}),
            Some(f) => {
                let mut o = json!({"path": f.path.as_str(), "include": f.path.is_include(), "virtual": f.path.as_virtual_str()});
                if let Some(m) = f.case_mismatch {
                    o["mismatch"] = json!(m);
                }
                if f.path.is_file()? {
                    o["text"] = json!(f.path.read_to_string()?);
                }
                o
            }
        },
        "write" => {
            at("path")?.create_file()?.write_all(s(&op["text"]).as_bytes())?;
            json!({"done": true})
        }
        "read" => read(&at("path")?),
        "virtual" => json!({"virtual": at("path")?.as_virtual_str()}),
        "include" => json!({"include": at("path")?.is_include()}),
        "is" => {
            let p = at("path")?;
            json!({"exists": p.exists()?, "file": p.is_file()?, "dir": p.is_dir()?})
        }
        "list" | "walk" => {
            let p = at("path")?;
            let mut l: Vec<String> = if s(&op["op"]) == "list" { p.read_dir()? } else { p.walk_dir()? }
                .iter().map(|p| p.as_str().to_string()).collect();
            l.sort();
            json!({"list": l})
        }
        "names" => {
            let p = at("path")?;
            let mut o = json!({"name": p.filename(), "parent": p.parent().as_str(), "with": p.with_extension("bin")?.as_str()});
            if let Some(e) = p.extension() {
                o["ext"] = json!(e);
            }
            o
        }
        "scan" => {
            let mut l: Vec<Value> = Addon::scan(dir)?.iter().map(|a| {
                let mut o = json!({"name": a.name(), "at": a.location().to_string(), "prefix": a.prefix().to_string(),
                                   "pbo": a.pbo_name("p"), "folder": a.folder(), "folder_path": a.folder_pathbuf().to_str()});
                if let Some(c) = a.config() {
                    o["config"] = json!({"rapify": c.rapify().enabled(), "rapify_exclude": c.rapify().exclude(),
                        "binarize": c.binarize().enabled(), "binarize_exclude": c.binarize().exclude(),
                        "properties": c.properties().iter().collect::<BTreeMap<_, _>>(), "exclude": c.files().exclude()});
                }
                o
            }).collect();
            l.sort_by_key(|o| s(&o["folder"]).to_string());
            json!({"scan": l})
        }
        "missing" => {
            let models: Vec<P3D> = op["models"].as_array().expect("models").iter().map(model).collect();
            let cache = SearchCache::new();
            let ask = |m: &P3D| m.missing(ws, &cache).map(|(t, m)| {
                let all = |v: Vec<String>| v.into_iter().collect::<BTreeSet<_>>();
                json!({"textures": all(t), "materials": all(m)})
            });
            let told: Vec<Result<Value, Error>> = if op["threads"] == json!(true) {
                std::thread::scope(|s| {
                    let h: Vec<_> = models.iter().map(|m| s.spawn(|| ask(m))).collect();
                    h.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
                })
            } else {
                models.iter().map(ask).collect()
            };
            json!({"missing": told.into_iter().collect::<Result<Vec<_>, _>>()?})
        }
        other => json!({"tool_error": format!("unknown op {other}")}),
    })
}

fn inside(case: &Value, dir: &Path) -> Value {
    let mut b = Workspace::builder();
    for l in case["layers"].as_array().expect("layers") {
        let t = match s(&l["type"]) {
            "source" => LayerType::Source,
            "include" => LayerType::Include,
            _ => LayerType::Build,
        };
        b = match s(&l["is"]) {
            "memory" => b.memory(),
            _ => b.physical(&dir.join(s(&l["at"]).trim_start_matches('/')), t),
        };
    }
    let ws = match b.finish(None, case["discover"] == json!(true), &PDriveOption::Disallow) {
        Ok(w) => w,
        Err(e) => return err(&e),
    };
    let all = |v: &[vfs::VfsPath]| {
        let mut l: Vec<String> = v.iter().map(|p| p.as_str().to_string()).collect();
        l.sort();
        l
    };
    let out: Vec<Value> = case["ops"].as_array().expect("ops").iter()
        .map(|op| answer(&ws, dir, op).unwrap_or_else(|e| err(&e))).collect();
    let mut disk = BTreeMap::new();
    dump(dir, "", &mut disk);
    json!({"out": out, "addons": all(ws.addons()), "missions": all(ws.missions()), "disk": disk})
}

pub fn run(case: &Value) -> Value {
    let dir = tempdir();
    for d in case["dirs"].as_array().expect("dirs") {
        std::fs::create_dir_all(dir.0.join(s(d).trim_start_matches('/'))).expect("dir");
    }
    for (p, t) in case["disk"].as_object().expect("disk") {
        let p = dir.0.join(p.trim_start_matches('/'));
        std::fs::create_dir_all(p.parent().expect("parent")).expect("dir");
        std::fs::write(p, s(t)).expect("file");
    }
    let back = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(&dir.0).expect("cd");
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inside(case, &dir.0)));
    std::env::set_current_dir(back).expect("cd");
    out.unwrap_or_else(|e| std::panic::resume_unwind(e))
}
