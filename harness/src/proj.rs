//! Project configuration: prefix files, versions, project files with their separate
//! lint and launch files, launch presets.
use std::cmp::Ordering;
use std::collections::BTreeMap;

use hemtt_common::config::{LaunchOptions, LintConfigOverride, ProjectConfig};
use hemtt_common::prefix::Prefix;
use hemtt_common::version::{Error as VersionError, Version};
use hemtt_common::Error;
use serde_json::{json, Value};
use vfs::VfsPath;

use crate::lint::tempdir;

fn s(v: &Value) -> &str {
    v.as_str().expect("string")
}

fn version_err(e: &VersionError) -> &'static str {
    match e {
        VersionError::UnknownVersion => "unknown",
        VersionError::ExpectedMajor => "major",
        VersionError::ExpectedMinor => "minor",
        VersionError::ExpectedPatch => "patch",
        VersionError::ExpectedBuild => "build",
        VersionError::InvalidComponent(_) => "component",
        VersionError::VersionPathConflict => "conflict",
    }
}

fn err(e: &Error) -> Value {
    match e {
        Error::Prefix(e) => json!({"err": "prefix", "of": format!("{e:?}").split('(').next()}),
        Error::ConfigInvalid(_) => json!({"err": "invalid"}),
        Error::LaunchConfigExtendsMissing(a, b) => json!({"err": "missing", "of": [a, b]}),
        Error::LaunchConfigExtendsSelf(a) => json!({"err": "self", "of": [a]}),
        Error::LaunchConfigConflict => json!({"err": "launch-conflict"}),
        Error::LintsConfigConflict => json!({"err": "lints-conflict"}),
        Error::Git(_) => json!({"err": "git"}),
        Error::Io(_) => json!({"err": "io"}),
        Error::Toml(_) => json!({"err": "toml"}),
        Error::Version(e) => json!({"err": version_err(e)}),
        Error::Vfs(_) => json!({"err": "vfs"}),
    }
}

fn show(v: &Version) -> Value {
    let text = v.to_string();
    let mut o = json!({"print": text, "major": v.major().to_string(), "minor": v.minor().to_string(),
                       "patch": v.patch().to_string()});
    if let Some(b) = v.build() {
        o["build"] = json!(b.to_string());
    }
    // printed and read again
    o["again"] = json!(Version::try_from(text.as_str()).as_ref() == Ok(v));
    let written = serde_json::to_string(v).expect("version");
    o["stored"] = json!(written == json!(text).to_string()
        && serde_json::from_str::<Version>(&written).ok().as_ref() == Some(v));
    o
}

fn read(text: &str) -> Value {
    match Version::try_from(text) {
        Ok(v) => show(&v),
        Err(e) => json!({"err": version_err(&e)}),
    }
}

fn order(o: Option<Ordering>) -> i32 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 9,
    }
}

fn launch(l: &LaunchOptions) -> Value {
    let mut o = json!({
        "workshop": l.workshop(), "dlc": l.dlc().iter().map(|d| d.to_mod()).collect::<Vec<_>>(),
        "presets": l.presets(), "optionals": l.optionals(), "parameters": l.parameters(),
        "executable": l.executable(), "binarize": l.binarize(), "file_patching": l.file_patching(),
        "instances": l.instances(), "rapify": l.rapify(),
    });
    if let Some(m) = l.mission() {
        o["mission"] = json!(m);
    }
    o
}

fn over(c: &LintConfigOverride, keys: &[String]) -> Value {
    let mut o = json!({"options": keys.iter()
        .filter_map(|k| c.option(k).map(|v| json!([k, v.to_string()]))).collect::<Vec<_>>()});
    if let Some(e) = c.enabled() {
        o["enabled"] = json!(e);
    }
    if let Some(e) = c.severity() {
        o["severity"] = json!(format!("{e:?}"));
    }
    o
}

fn project(p: &ProjectConfig, keys: &[String]) -> Value {
    let lints = |m: &std::collections::HashMap<String, LintConfigOverride>| {
        m.iter().map(|(k, v)| (k.clone(), over(v, keys))).collect::<BTreeMap<_, _>>()
    };
    let mut o = json!({
        "name": p.name(), "prefix": p.prefix(),
        "path": p.version().path(), "git_hash": p.version().git_hash().unwrap_or(0),
        "properties": p.properties().iter().collect::<BTreeMap<_, _>>(),
        "include": p.files().include(), "exclude": p.files().exclude(),
        "lints": {"config": lints(p.lints().config()), "sqf": lints(p.lints().sqf()), "stringtables": lints(p.lints().stringtables())},
        "check_pdrive": format!("{:?}", p.hemtt().check().pdrive()),
        "dev_exclude": p.hemtt().dev().exclude(),
        "launch": p.hemtt().launch().iter().map(|(k, v)| (k.clone(), launch(v))).collect::<BTreeMap<_, _>>(),
        "optional_mod_folders": p.hemtt().build().optional_mod_folders(),
        "build_pdrive": format!("{:?}", p.hemtt().build().pdrive()),
        "folder": p.hemtt().release().folder(), "sign": p.hemtt().release().sign(), "archive": p.hemtt().release().archive(),
        "signing": p.signing().version().to_string(),
    });
    if let Some(m) = p.mainprefix() {
        o["mainprefix"] = json!(m);
    }
    if let Some(m) = p.signing().authority() {
        o["authority"] = json!(m);
    }
    o
}

fn load(files: &serde_json::Map<String, Value>) -> Result<ProjectConfig, Error> {
    let dir = tempdir();
    for (name, text) in files {
        std::fs::write(dir.0.join(name), s(text)).expect("write");
    }
    ProjectConfig::from_file(&dir.0.join("project.toml"))
}

fn put(root: &VfsPath, path: &str, text: &str) {
    let p = root.join(path).expect("path");
    p.parent().create_dir_all().expect("dir");
    p.create_file().expect("file").write_all(text.as_bytes()).expect("write");
}

/// A history of edits, requests and invalidations; the process stands in a directory
/// with (or without) a repository while it runs.
fn history(case: &Value) -> Value {
    let p = match load(case["files"].as_object().expect("files")) {
        Ok(p) => p,
        Err(e) => return err(&e),
    };
    let dir = tempdir();
    let mut head = String::new();
    if case["repo"] == json!(true) {
        let repo = git2::Repository::init(&dir.0).expect("repo");
        let who = git2::Signature::new("a", "a@b.c", &git2::Time::new(case["at"].as_i64().unwrap_or(1), 0)).expect("who");
        let tree = repo.treebuilder(None).expect("tree").write().expect("tree");
        let tree = repo.find_tree(tree).expect("tree");
        head = repo.commit(Some("HEAD"), &who, &who, "x", &tree, &[]).expect("commit").to_string();
    }
    let back = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(&dir.0).expect("cd");
    let root: VfsPath = vfs::MemoryFS::new().into();
    let v = p.version();
    v.invalidate();
    let mut out = Vec::new();
    for op in case["hist"].as_array().expect("hist") {
        match s(&op["op"]) {
            "get" => out.push(match v.get(&root) {
                Ok(v) => show(&v),
                Err(e) => err(&e),
            }),
            "invalidate" => v.invalidate(),
            "edit" => put(&root, s(&op["path"]), s(&op["text"])),
            _ => {
                let f = root.join(s(&op["path"])).expect("path");
                if f.exists().expect("exists") {
                    f.remove_file().expect("remove");
                }
            }
        }
    }
    v.invalidate();
    std::env::set_current_dir(back).expect("cd");
    json!({"out": out, "head": head})
}

pub fn run(case: &Value) -> Value {
    match s(&case["kind"]) {
        "prefix" => match Prefix::new(s(&case["text"])) {
            Ok(p) => {
                let shown = p.to_string();
                let mut o = json!({"shown": shown, "main": p.main_prefix(), "parts": p.clone().into_inner(),
                                   "path": p.as_pathbuf().to_str(),
                                   "again": Prefix::new(&shown) == Ok(p.clone())});
                if let Some(m) = p.mod_prefix() {
                    o["mod"] = json!(m);
                }
                o
            }
            Err(e) => json!({"err": format!("{e:?}").split('(').next()}),
        },
        "version" => read(s(&case["text"])),
        "float" => show(&Version::from(s(&case["text"]).parse::<f32>().expect("float"))),
        "script" => match Version::try_from_script_version(s(&case["text"])) {
            Ok(v) => show(&v),
            Err(e) => json!({"err": version_err(&e)}),
        },
        "order" => {
            let vs: Vec<Version> = case["texts"].as_array().expect("texts").iter()
                .map(|t| Version::try_from(s(t)).expect("version")).collect();
            let t: Vec<Vec<i32>> = vs.iter().map(|a| vs.iter().map(|b| order(a.partial_cmp(b))).collect()).collect();
            let e: Vec<Vec<bool>> = vs.iter().map(|a| vs.iter().map(|b| a == b).collect()).collect();
            json!({"cmp": t, "eq": e})
        }
        "history" => history(case),
        "project" | "malformed" => {
            let keys: Vec<String> = case["keys"].as_array().expect("keys").iter().map(|k| s(k).to_string()).collect();
            match load(case["files"].as_object().expect("files")) {
                Ok(p) => {
                    let mut o = json!({"project": project(&p, &keys)});
                    if let Some(names) = case["overlay"].as_array() {
                        let all = p.hemtt().launch();
                        let mut l = LaunchOptions::default();
                        for n in names {
                            l = l.overlay(all.get(s(n)).cloned().unwrap_or_default());
                        }
                        o["overlay"] = launch(&l);
                    }
                    o
                }
                Err(e) => err(&e),
            }
        }
        other => json!({"tool_error": format!("unknown kind {other}")}),
    }
}
