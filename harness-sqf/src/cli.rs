//! Runs the command line in a directory of its own, as a user that can touch nothing else.
use std::collections::BTreeMap;
use std::fs;
use std::io::{Cursor, Read};
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

use serde_json::{json, Map, Value};

const NOBODY: u32 = 65534;
static COUNT: AtomicUsize = AtomicUsize::new(0);

fn root() -> bool {
    unsafe { libc::geteuid() == 0 }
}

fn own(p: &Path) {
    if root() {
        let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
    }
}

fn mkdirs(base: &Path, p: &Path) {
    if p == base || p.is_dir() {
        return;
    }
    if let Some(up) = p.parent() {
        mkdirs(base, up);
    }
    fs::create_dir(p).expect("mkdir");
    own(p);
}

fn put(base: &Path, path: &str, content: &Value) {
    let p = base.join(path.trim_start_matches('/'));
    mkdirs(base, p.parent().expect("parent"));
    let bytes = match content {
        Value::String(s) => s.as_bytes().to_vec(),
        Value::Array(a) => a.iter().map(|b| b.as_u64().expect("byte") as u8).collect(),
        _ => vec![],
    };
    fs::write(&p, bytes).expect("write");
    own(&p);
}

fn marks(b: &[u8]) -> Vec<String> {
    // mk<digits>q
    let mut out = Vec::new();
    let mut i = 0;
    while i + 3 < b.len() {
        if &b[i..i + 2] == b"mk" {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 2 && j < b.len() && b[j] == b'q' {
                let s = String::from_utf8_lossy(&b[i..=j]).to_string();
                if !out.contains(&s) {
                    out.push(s);
                }
                i = j;
            }
        }
        i += 1;
    }
    out.sort();
    out
}

/// one LZO1X stream; what it holds and how long it is
pub fn unlzo(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    fn more(b: &[u8], i: &mut usize, base: usize) -> Option<usize> {
        let mut n = base;
        loop {
            let c = *b.get(*i)?;
            *i += 1;
            if c != 0 {
                return Some(n + c as usize);
            }
            n += 255;
        }
    }
    fn lits(b: &[u8], i: &mut usize, n: usize, out: &mut Vec<u8>) -> Option<()> {
        out.extend_from_slice(b.get(*i..*i + n)?);
        *i += n;
        Some(())
    }
    let (mut i, mut out) = (0, Vec::new());
    // state: how many literals came before (4: a run of them)
    let mut state = 0;
    let first = *b.first()?;
    if first > 17 {
        i = 1;
        let n = first as usize - 17;
        lits(b, &mut i, n, &mut out)?;
        state = n.min(4);
    }
    loop {
        let c = *b.get(i)? as usize;
        i += 1;
        let (len, dist, follow);
        if c < 16 {
            if state == 0 {
                let n = if c == 0 { more(b, &mut i, 15)? } else { c } + 3;
                lits(b, &mut i, n, &mut out)?;
                state = 4;
                continue;
            }
            let h = *b.get(i)? as usize;
            i += 1;
            follow = c & 3;
            if state == 4 {
                (len, dist) = (3, (h << 2) + (c >> 2) + 2049);
            } else {
                (len, dist) = (2, (h << 2) + (c >> 2) + 1);
            }
        } else if c >= 64 {
            let h = *b.get(i)? as usize;
            i += 1;
            follow = c & 3;
            len = (c >> 5) + 1;
            dist = (h << 3) + ((c >> 2) & 7) + 1;
        } else if c >= 32 {
            len = if c & 31 == 0 { more(b, &mut i, 31)? } else { c & 31 } + 2;
            let d = u16::from_le_bytes([*b.get(i)?, *b.get(i + 1)?]) as usize;
            i += 2;
            follow = d & 3;
            dist = (d >> 2) + 1;
        } else {
            len = if c & 7 == 0 { more(b, &mut i, 7)? } else { c & 7 } + 2;
            let d = u16::from_le_bytes([*b.get(i)?, *b.get(i + 1)?]) as usize;
            i += 2;
            follow = d & 3;
            dist = 16384 + ((c & 8) << 11) + (d >> 2);
            if dist == 16384 {
                return Some((out, i));
            }
        }
        for _ in 0..len {
            let x = *out.get(out.len().checked_sub(dist)?)?;
            out.push(x);
        }
        lits(b, &mut i, follow, &mut out)?;
        state = follow;
    }
}

/// the block of constants of compiled code
fn constants(b: &[u8]) -> Vec<u8> {
    // version, block of names: tag, size, method, stream; then the constants likewise
    let read = || {
        let (_, n) = unlzo(b.get(10..)?)?;
        unlzo(b.get(10 + n + 6..)?).map(|x| x.0)
    };
    read().unwrap_or_else(|| b.to_vec())
}

fn content(b: &[u8]) -> Value {
    if b.starts_with(b"\0raP") {
        return json!({"is": "rapified", "marks": marks(b)});
    }
    if b.len() > 13 && b.starts_with(&[1, 0, 0, 0, 5]) {
        return json!({"is": "compiled", "marks": marks(&constants(b))});
    }
    match std::str::from_utf8(b) {
        Ok(s) => json!({"is": "text", "text": s}),
        Err(_) => json!({"is": "bytes", "bytes": b}),
    }
}

fn zstr(b: &[u8], i: &mut usize) -> Option<String> {
    let n = b[*i..].iter().position(|c| *c == 0)?;
    let s = String::from_utf8_lossy(&b[*i..*i + n]).to_string();
    *i += n + 1;
    Some(s)
}

fn u32_at(b: &[u8], i: &mut usize) -> Option<usize> {
    let v = u32::from_le_bytes(b.get(*i..*i + 4)?.try_into().ok()?);
    *i += 4;
    Some(v as usize)
}

/// an archive, read by the layout of the format
fn pbo(b: &[u8]) -> Option<Value> {
    let mut props = Map::new();
    let mut names = Vec::new();
    let mut i = 0;
    loop {
        let name = zstr(b, &mut i)?;
        let kind = u32_at(b, &mut i)?;
        for _ in 0..3 {
            u32_at(b, &mut i)?;
        }
        let size = u32_at(b, &mut i)?;
        if name.is_empty() {
            if kind == 0x5665_7273 {
                loop {
                    let k = zstr(b, &mut i)?;
                    if k.is_empty() {
                        break;
                    }
                    let v = zstr(b, &mut i)?;
                    props.insert(k, json!(v));
                }
                continue;
            }
            break;
        }
        names.push((name, size));
    }
    let count = names.len();
    let mut files = Map::new();
    for (name, size) in names {
        files.insert(name, content(b.get(i..i + size)?));
        i += size;
    }
    Some(json!({"is": "pbo", "props": props, "files": files, "count": count}))
}

fn seen(rel: &str, b: &[u8]) -> Value {
    if rel.ends_with(".pbo") {
        return pbo(b).unwrap_or_else(|| json!({"is": "broken"}));
    }
    if rel.ends_with(".bikey") {
        return hemtt_signing::BIPublicKey::read(&mut Cursor::new(b))
            .map_or_else(|_| json!({"is": "broken"}), |k| json!({"is": "key", "authority": k.authority().to_string()}));
    }
    if rel.ends_with(".bisign") {
        return hemtt_signing::BISign::read(&mut Cursor::new(b)).map_or_else(
            |_| json!({"is": "broken"}),
            |s| json!({"is": "sign", "authority": s.authority().to_string(), "version": s.version().to_string()}),
        );
    }
    if rel.ends_with(".zip") {
        return archive(b).unwrap_or_else(|| json!({"is": "broken"}));
    }
    content(b)
}

fn archive(b: &[u8]) -> Option<Value> {
    let mut z = zip::ZipArchive::new(Cursor::new(b)).ok()?;
    let mut raw = BTreeMap::new();
    let mut dirs = Vec::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).ok()?;
        let name = f.name().to_string();
        if f.is_dir() {
            dirs.push(name.trim_end_matches('/').to_string());
            continue;
        }
        let mut v = Vec::new();
        f.read_to_end(&mut v).ok()?;
        raw.insert(name, v);
    }
    dirs.sort();
    Some(json!({"is": "zip", "files": told(&raw), "dirs": dirs}))
}

/// what a folder holds; signatures are checked with the key of their mod
fn told(raw: &BTreeMap<String, Vec<u8>>) -> Value {
    let mut out = Map::new();
    for (rel, b) in raw {
        let mut v = seen(rel, b);
        if v["is"] == "sign" {
            // <mod>/addons/x.pbo.<authority>.bisign, <mod>/keys/<authority>.bikey
            let auth = v["authority"].as_str().unwrap_or("").to_string();
            let tail = format!(".{auth}.bisign");
            let target = rel.strip_suffix(&tail).unwrap_or("");
            let keys: Vec<&Vec<u8>> = raw.iter().filter(|(k, _)| k.ends_with(&format!("keys/{auth}.bikey"))).map(|(_, b)| b).collect();
            let good = raw.get(target).is_some_and(|p| {
                keys.iter().any(|k| {
                    let key = hemtt_signing::BIPublicKey::read(&mut Cursor::new(k.as_slice()));
                    let sign = hemtt_signing::BISign::read(&mut Cursor::new(b));
                    let pbo = hemtt_pbo::ReadablePbo::from(Cursor::new(p.clone()));
                    match (key, sign, pbo) {
                        (Ok(k), Ok(s), Ok(mut p)) => k.verify(&mut p, &s).is_ok(),
                        _ => false,
                    }
                })
            });
            v["of"] = json!(target);
            v["good"] = json!(good);
        }
        out.insert(rel.clone(), v);
    }
    Value::Object(out)
}

fn gather(base: &Path, at: &Path, raw: &mut BTreeMap<String, Vec<u8>>, links: &mut Map<String, Value>, skip: &[PathBuf]) {
    let Ok(read) = fs::read_dir(at) else { return };
    for e in read.flatten() {
        let p = e.path();
        if skip.contains(&p) {
            continue;
        }
        let rel = p.strip_prefix(base).expect("below").display().to_string();
        if p.is_symlink() {
            let t = fs::read_link(&p).expect("link");
            links.insert(rel, json!({"is": "link", "to": t.display().to_string()}));
        } else if p.is_dir() {
            gather(base, &p, raw, links, skip);
        } else {
            raw.insert(rel, fs::read(&p).expect("read"));
        }
    }
}

fn folder(at: &Path, home: &Path) -> Value {
    let mut raw = BTreeMap::new();
    let mut links = Map::new();
    gather(at, at, &mut raw, &mut links, &[]);
    let mut v = told(&raw);
    for (k, mut l) in links {
        let to = l["to"].as_str().expect("to").to_string();
        l["to"] = json!(Path::new(&to).strip_prefix(home).map_or(to.clone(), |p| p.display().to_string()));
        v[k] = l;
    }
    v
}

fn observe(home: &Path) -> Value {
    let mut out = Map::new();
    for f in ["build", "dev", "release", "check", "script", "launch"] {
        let d = home.join(".hemttout").join(f);
        if d.is_dir() {
            out.insert(f.to_string(), folder(&d, home));
        }
    }
    let mut raw = BTreeMap::new();
    let mut links = Map::new();
    gather(home, home, &mut raw, &mut links, &[home.join(".hemttout"), home.join("releases")]);
    let mut disk = Map::new();
    for (k, b) in raw {
        disk.insert(format!("/{k}"), String::from_utf8(b.clone()).map_or_else(|_| json!(b), |s| json!(s)));
    }
    for (k, l) in links {
        disk.insert(format!("/{k}"), l);
    }
    json!({"out": out, "releases": folder(&home.join("releases"), home), "disk": disk})
}

fn command(work: &Path, home: &Path, exe: &Path, args: &[String]) -> Value {
    let mut c = Command::new(exe);
    c.arg("cli").args(args);
    #[cfg(debug_assertions)]
    c.arg("--in-test");
    c.current_dir(home)
        .env_clear()
        .env("HOME", work.join("user"))
        .env("TMPDIR", work.join("tmp"))
        .env("PATH", "/usr/bin:/bin")
        .env("CI", "1")
        .env("RAYON_NUM_THREADS", "3")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if root() {
        c.uid(NOBODY).gid(NOBODY);
    }
    match c.output() {
        Err(e) => json!({"tool_error": format!("cannot start the command line: {e}")}),
        Ok(o) => {
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            let mut v = json!({"code": o.status.code(), "said": String::from_utf8_lossy(&o.stdout).to_string()});
            if o.status.code().is_none() || err.contains("panicked at") {
                v = json!({"panic": err.lines().take(4).collect::<Vec<_>>().join(" ")});
            }
            if std::env::var("HXQ_SHOW").is_ok() {
                eprintln!("{args:?} {v}\n{err}");
            }
            v
        }
    }
}

pub fn run(case: &Value) -> Value {
    let n = COUNT.fetch_add(1, Ordering::Relaxed);
    let work = std::env::temp_dir().join(format!("hxq-{}-{n}", std::process::id()));
    let _ = fs::remove_dir_all(&work);
    let home = work.join("p");
    for d in [work.clone(), home.clone(), work.join("user"), work.join("tmp")] {
        fs::create_dir(&d).expect("mkdir");
        fs::set_permissions(&d, fs::Permissions::from_mode(0o755)).expect("mode");
        own(&d);
    }
    // (the executor may lie where that user cannot go)
    let exe = std::env::current_exe().expect("exe");
    for (p, t) in case["disk"].as_object().expect("disk") {
        put(&home, p, t);
    }
    let mut out = Vec::new();
    for op in case["ops"].as_array().expect("ops") {
        match op["op"].as_str().unwrap_or("") {
            "put" => {
                put(&home, op["path"].as_str().expect("path"), &op["text"]);
                out.push(json!({}));
            }
            "del" => {
                let _ = fs::remove_file(home.join(op["path"].as_str().expect("path").trim_start_matches('/')));
                out.push(json!({}));
            }
            _ => {
                let args: Vec<String> = op["args"].as_array().expect("args").iter().map(|a| a.as_str().expect("arg").to_string()).collect();
                let mut v = command(&work, &home, &exe, &args);
                if v.get("tool_error").is_some() {
                    let _ = fs::remove_dir_all(&work);
                    return v;
                }
                if let (Some(m), Value::Object(o)) = (v.as_object_mut(), observe(&home)) {
                    m.extend(o);
                }
                out.push(v);
            }
        }
    }
    let _ = chown(&work, None, None);
    let _ = fs::remove_dir_all(&work);
    json!({"ran": out})
}
