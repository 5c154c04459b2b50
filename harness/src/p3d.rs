//! Model files: reading, writing, writing into a place that gives out.
use std::io::{Cursor, Write};

use hemtt_p3d::{Face, Point, Vertex, LOD, P3D};
use serde_json::{json, Value};

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("bytes").iter().map(|b| u8::try_from(b.as_u64().expect("byte")).expect("byte")).collect()
}
fn at(b: &[u8], i: usize) -> [u8; 4] {
    b[i..i + 4].try_into().expect("4")
}
fn u(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes(at(b, i))
}
fn f(b: &[u8], i: usize) -> f32 {
    f32::from_bits(u(b, i))
}
fn list(v: &Value) -> impl Iterator<Item = &Value> {
    v.as_array().expect("list").iter()
}
fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("a model holds text")
}

pub fn face(verts: Vec<Vertex>, flags: u32, texture: String, material: String) -> Face {
    let mut f = Face::new();
    f.vertices = verts;
    f.flags = flags;
    f.texture = texture;
    f.material = material;
    f
}

fn model(v: &Value) -> P3D {
    let lods = list(&v["lods"])
        .map(|l| LOD {
            version_major: u(&bytes(&l["major"]), 0),
            version_minor: u(&bytes(&l["minor"]), 0),
            resolution: f(&bytes(&l["res"]), 0),
            points: list(&l["points"])
                .map(|p| {
                    let (a, g) = (bytes(&p["at"]), bytes(&p["flags"]));
                    Point { coords: (f(&a, 0), f(&a, 4), f(&a, 8)), flags: u(&g, 0) }
                })
                .collect(),
            face_normals: list(&l["normals"])
                .map(|n| {
                    let n = bytes(n);
                    (f(&n, 0), f(&n, 4), f(&n, 8))
                })
                .collect(),
            faces: list(&l["faces"])
                .map(|x| {
                    let verts = list(&x["verts"])
                        .map(|w| {
                            let w = bytes(w);
                            Vertex { point_index: u(&w, 0), normal_index: u(&w, 4), uv: (f(&w, 8), f(&w, 12)) }
                        })
                        .collect();
                    face(verts, u(&bytes(&x["flags"]), 0), text(&x["texture"]), text(&x["material"]))
                })
                .collect(),
            taggs: list(&l["tags"]).map(|t| (text(&t["name"]), bytes(&t["data"]).into_boxed_slice())).collect(),
        })
        .collect();
    P3D { version: u(&bytes(&v["version"]), 0), lods }
}

fn le(x: u32) -> [u8; 4] {
    x.to_le_bytes()
}
fn fl(x: f32) -> [u8; 4] {
    le(x.to_bits())
}
fn three(c: (f32, f32, f32)) -> Vec<u8> {
    [fl(c.0), fl(c.1), fl(c.2)].concat()
}
fn show(p: &P3D) -> Value {
    let lods: Vec<Value> = p
        .lods
        .iter()
        .map(|l| {
            json!({
                "major": le(l.version_major), "minor": le(l.version_minor), "res": fl(l.resolution),
                "points": l.points.iter().map(|p| json!({
                    "at": three(p.coords), "flags": le(p.flags)})).collect::<Vec<_>>(),
                "normals": l.face_normals.iter().map(|n| three(*n)).collect::<Vec<_>>(),
                "faces": l.faces.iter().map(|x| json!({
                    "verts": x.vertices.iter().map(|w| [le(w.point_index), le(w.normal_index), fl(w.uv.0), fl(w.uv.1)].concat()).collect::<Vec<_>>(),
                    "flags": le(x.flags), "texture": x.texture.as_bytes(), "material": x.material.as_bytes()})).collect::<Vec<_>>(),
                "tags": l.taggs.iter().map(|(n, d)| json!({"name": n.as_bytes(), "data": d})).collect::<Vec<_>>(),
            })
        })
        .collect();
    json!({"version": le(p.version), "lods": lods})
}

/// takes so many bytes, then fails
pub struct Scarce {
    pub left: usize,
    pub got: Vec<u8>,
}
impl Write for Scarce {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            return Err(std::io::Error::other("no space left"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn run(case: &Value) -> Value {
    match case["kind"].as_str().expect("kind") {
        "read" => match P3D::read(&mut Cursor::new(bytes(&case["file"]))) {
            Err(e) => json!({"err": e.to_string()}),
            Ok(p) => {
                let mut again = Vec::new();
                match p.write(&mut again) {
                    Err(e) => json!({"model": show(&p), "again": [], "why": e.to_string()}),
                    Ok(()) => json!({"model": show(&p), "again": again}),
                }
            }
        },
        "write" => {
            let mut out = Scarce { left: case.get("cap").map_or(usize::MAX, |c| usize::try_from(c.as_u64().expect("cap")).expect("cap")), got: Vec::new() };
            match model(&case["model"]).write(&mut out) {
                Err(e) => json!({"err": e.to_string()}),
                Ok(()) => match P3D::read(&mut Cursor::new(&out.got)) {
                    Err(e) => json!({"file": out.got, "back": {}, "why": e.to_string()}),
                    Ok(p) => json!({"file": out.got, "back": show(&p)}),
                },
            }
        }
        k => panic!("kind {k}"),
    }
}
