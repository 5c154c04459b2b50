//! Texture containers: reading, the picture of a mip map, writing.
use std::io::Cursor;

use hemtt_paa::Paa;
use serde_json::{json, Value};

use crate::p3d::{bytes, Scarce};

pub fn run(case: &Value) -> Value {
    let num = |k: &str| u32::try_from(case[k].as_u64().expect("number")).expect("number");
    match case["kind"].as_str().expect("kind") {
        "read" => match Paa::read(Cursor::new(bytes(&case["file"]))) {
            Err(e) => json!({"err": e.to_string()}),
            Ok(p) => {
                let mut tags: Vec<_> = p.taggs().iter().collect();
                tags.sort();
                json!({
                    "format": p.format().to_string(),
                    "tags": tags.iter().map(|(n, d)| json!({"name": n.as_bytes(), "data": d})).collect::<Vec<_>>(),
                    "maps": p.maps().iter().map(|m| json!({
                        "w": m.width(), "h": m.height(), "packed": m.is_compressed(), "data": m.data(), "format": m.format_display()
                    })).collect::<Vec<_>>(),
                })
            }
        },
        "image" => match Paa::read(Cursor::new(bytes(&case["file"]))) {
            Err(e) => json!({"err": e.to_string()}),
            Ok(p) => {
                let i = p.maps()[0].get_image().into_rgba8();
                json!({"w": i.width(), "h": i.height(), "px": i.as_raw()})
            }
        },
        "write" => {
            let (w, h) = (num("w"), num("h"));
            let image = if let Some(c) = case.get("fill") {
                let c = bytes(c);
                image::RgbaImage::from_pixel(w, h, image::Rgba([c[0], c[1], c[2], c[3]]))
            } else {
                image::RgbaImage::from_raw(w, h, bytes(&case["px"])).expect("pixels")
            };
            let mut out = Scarce { left: case.get("cap").map_or(usize::MAX, |c| usize::try_from(c.as_u64().expect("cap")).expect("cap")), got: Vec::new() };
            match Paa::write(&image, &mut out) {
                Err(e) => json!({"err": e.to_string()}),
                Ok(()) => json!({"file": out.got}),
            }
        }
        k => panic!("kind {k}"),
    }
}
