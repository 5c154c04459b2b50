//! Archives: a history of operations on a writable archive, and reading of bytes.
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

use hemtt_pbo::{Error, Header, Mime, ReadablePbo, WritablePbo};
use serde_json::{json, Value};
use sha1::{Digest, Sha1};

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .expect("bytes")
        .iter()
        .map(|b| b.as_u64().expect("byte") as u8)
        .collect()
}

pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("utf-8")
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// A medium that moves at most so many bytes at a time (0: no limit).
pub struct Slow(pub Cursor<Vec<u8>>, pub usize);

impl Slow {
    fn room(&self, n: usize) -> usize {
        if self.1 == 0 { n } else { n.min(self.1) }
    }
}

impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.room(buf.len());
        self.0.read(&mut buf[..n])
    }
}

impl Write for Slow {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.room(buf.len());
        self.0.write(&buf[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Seek for Slow {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(pos)
    }
}

/// Contents of files: bytes as they are, or large ones by their number.
pub struct Blobs(Vec<Vec<u8>>, usize);

impl Blobs {
    pub fn new(case: &Value) -> Self {
        let blobs = case["blobs"].as_array().map_or_else(Vec::new, |b| {
            b.iter()
                .map(|b| {
                    let mut x = b["seed"].as_u64().expect("seed") * 2 + 1;
                    (0..b["len"].as_u64().expect("len"))
                        .map(|_| {
                            x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
                            (x >> 56) as u8
                        })
                        .collect()
                })
                .collect()
        });
        Self(blobs, case["chunk"].as_u64().unwrap_or(0) as usize)
    }
    fn big(&self) -> bool {
        !self.0.is_empty()
    }
    fn data(&self, v: &Value) -> Vec<u8> {
        if self.big() {
            self.0[bytes(v)[0] as usize - 1].clone()
        } else {
            bytes(v)
        }
    }
    fn show(&self, d: &[u8]) -> Value {
        if self.big() {
            json!([self.0.iter().position(|b| b == d).map_or(0, |i| i + 1)])
        } else {
            json!(d)
        }
    }
}

fn mime_name(m: &Mime) -> String {
    m.to_string()
}

pub fn header_bytes(name: &[u8], mime: u32, rest: [u32; 4]) -> Vec<u8> {
    let mut v = name.to_vec();
    v.push(0);
    v.extend(mime.to_le_bytes());
    for r in rest {
        v.extend(r.to_le_bytes());
    }
    v
}

/// a header with the given fields, as it would come out of another archive
pub fn header(op: &Value, size: u32) -> Header {
    let num = |k: &str| op[k].as_u64().expect("number") as u32;
    let mut v = header_bytes(&bytes(&op["name"]), num("mime"), [num("original"), num("reserved"), num("timestamp"), size]);
    v.extend(header_bytes(b"", 0, [0; 4]));
    v.extend(vec![0; size as usize + 21]);
    ReadablePbo::from(Cursor::new(v)).expect("header archive").files()[0].clone()
}

fn show_header(h: &Header) -> Value {
    json!({"name": h.filename().as_bytes(), "mime": mime_name(h.mime()), "original": h.original(),
           "reserved": h.reserved(), "timestamp": h.timestamp(), "size": h.size()})
}

fn err(e: &Error) -> &'static str {
    match e {
        Error::Io(_) => "io",
        Error::UnsupportedMime(_) => "mime",
        Error::UnexpectedDataAfterChecksum => "trailing",
        Error::FileTooLarge => "large",
        Error::NoFiles => "nofiles",
    }
}

/// everything a reader can find out about an archive
fn read(raw: &[u8], queries: &[Vec<u8>], blobs: &Blobs) -> Value {
    let mut pbo = match ReadablePbo::from(Slow(Cursor::new(raw.to_vec()), blobs.1)) {
        Ok(p) => p,
        Err(e) => return json!({"err": err(&e)}),
    };
    let files: Vec<Value> = pbo.files().iter().map(show_header).collect();
    let sorted: Vec<Value> = pbo.files_sorted().iter().map(show_header).collect();
    let mut found = Vec::new();
    for q in queries {
        let q = String::from_utf8(q.clone()).expect("query");
        let off = pbo.file_offset(&q).expect("offset");
        let exact = pbo.header(&q).map(show_header);
        let got = pbo.file(&q).expect("file").map(|mut f| {
            // in small pieces and then the rest
            let mut d = Vec::new();
            let mut buf = [0; 3];
            let n = f.read(&mut buf).expect("read");
            d.extend(&buf[..n]);
            let mut again = [0; 0];
            let _ = f.read(&mut again);
            f.read_to_end(&mut d).expect("read");
            d
        });
        let mut r = json!({"found": got.is_some(), "located": off.is_some()});
        if let (Some(d), Some(o)) = (&got, off) {
            let at = raw.get(o as usize..o as usize + d.len()).unwrap_or(&[]);
            r["data"] = blobs.show(d);
            r["at"] = blobs.show(at);
            r["len"] = json!(d.len());
        }
        if let Some(h) = exact {
            r["header"] = h;
        }
        found.push(r);
    }
    let props: Vec<Value> = pbo.properties().iter().map(|(k, v)| json!([k.as_bytes(), v.as_bytes()])).collect();
    let regen = pbo.gen_checksum().map_or_else(|e| err(&e).to_string(), |c| hex(c.as_bytes()));
    json!({"files": files, "sorted": sorted, "props": props, "found": found, "inorder": pbo.is_sorted().is_ok(),
           "stored": hex(pbo.checksum().as_bytes()), "trailer": pbo.checksum().as_bytes(),
           "regen": regen})
}

/// the writable archive a list of operations makes, with an answer per operation
pub fn build(ops: &[Value], blobs: &Blobs, queries: &[Vec<u8>], log: &mut Vec<Value>) -> WritablePbo<Slow> {
    let mut pbo = WritablePbo::new();
    for op in ops {
        let r = match op["op"].as_str().expect("op") {
            "add" => {
                let old = pbo.add_file(text(&op["name"]), Slow(Cursor::new(blobs.data(&op["data"])), blobs.1)).expect("add");
                old.map_or_else(|| json!({}), |(c, h)| json!({"old": blobs.show(c.0.get_ref()), "hdr": show_header(&h)}))
            }
            "addh" => {
                let d = blobs.data(&op["data"]);
                let h = header(op, d.len() as u32);
                let old = pbo.add_file_with_header(h, Slow(Cursor::new(d), blobs.1)).expect("add");
                old.map_or_else(|| json!({}), |(c, h)| json!({"old": blobs.show(c.0.get_ref()), "hdr": show_header(&h)}))
            }
            "prop" => {
                let old = pbo.add_property(text(&op["k"]), text(&op["v"]));
                old.map_or_else(|| json!({}), |o| json!({"old": o.as_bytes()}))
            }
            "unprop" => {
                let old = pbo.remove_property(&text(&op["k"]));
                old.map_or_else(|| json!({}), |o| json!({"old": o.as_bytes()}))
            }
            "get" => {
                let got = pbo.file(&text(&op["name"])).expect("file").map(|f| {
                    let mut d = Vec::new();
                    f.read_to_end(&mut d).expect("read");
                    d
                });
                got.map_or_else(|| json!({}), |d| json!({"data": blobs.show(&d)}))
            }
            "peek" => pbo.property(&text(&op["k"])).map_or_else(|| json!({}), |v| json!({"v": v.as_bytes()})),
            "list" => json!({"sorted": pbo.files_sorted().iter().map(show_header).collect::<Vec<_>>(), "n": pbo.files().len(),
                             "props": pbo.properties().iter().map(|(k, v)| json!([k.as_bytes(), v.as_bytes()])).collect::<Vec<_>>()}),
            "write" => {
                let mut out = Slow(Cursor::new(Vec::new()), blobs.1);
                let done = pbo.write(&mut out, op["props"].as_bool().expect("props"));
                let out = out.0.into_inner();
                match done {
                    Err(e) => json!({"err": err(&e)}),
                    Ok(sum) => {
                        let body = &out[..out.len().saturating_sub(21)];
                        let mut h = Sha1::new();
                        h.update(body);
                        let mut r = json!({"len": out.len(), "ret": hex(sum.as_bytes()), "sha": hex(&h.finalize()),
                                           "tail": hex(&out[out.len().saturating_sub(20)..]), "gap": out.get(out.len().wrapping_sub(21)),
                                           "read": read(&out, queries, blobs)});
                        if !blobs.big() {
                            r["body"] = json!(body);
                        }
                        r
                    }
                }
            }
            other => panic!("op {other}"),
        };
        log.push(r);
    }
    pbo
}

pub fn run(case: &Value) -> Value {
    let blobs = Blobs::new(case);
    let queries: Vec<Vec<u8>> = case["queries"].as_array().expect("queries").iter().map(bytes).collect();
    if let Some(raw) = case.get("bytes") {
        return read(&bytes(raw), &queries, &blobs);
    }
    let ops = case["ops"].as_array().expect("ops");
    let mut log = Vec::new();
    build(ops, &blobs, &queries, &mut log);
    // the same files and properties put together along another history
    let mut other = Vec::new();
    if let Some(ops) = case["other"].as_array() {
        build(ops, &blobs, &queries, &mut other);
    }
    json!({"log": log, "other": other})
}
