//! LZO: compression and decompression in buffers that end at unmapped memory.
use hemtt_lzo::{compress, compress_to_slice, decompress_to_slice, worst_compress};
use serde_json::{json, Value};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;

/// n bytes with unmapped pages next to them: behind them (`end`), or in front
struct Guarded {
    base: *mut u8,
    all: usize,
    at: *mut u8,
    n: usize,
}
impl Guarded {
    fn new(n: usize, end: bool) -> Self {
        let inner = n.div_ceil(PAGE).max(1) * PAGE;
        let all = inner + 2 * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), all, 3, 0x22, -1, 0);
            assert!(base as isize != -1);
            assert_eq!(mprotect(base, PAGE, 0), 0);
            assert_eq!(mprotect(base.add(PAGE + inner), PAGE, 0), 0);
            let at = if end { base.add(PAGE + inner - n) } else { base.add(PAGE) };
            // what is left of the pages must not change
            std::slice::from_raw_parts_mut(base.add(PAGE), inner).fill(0xA5);
            Self { base, all, at, n }
        }
    }
    fn of(data: &[u8], end: bool) -> Self {
        let g = Self::new(data.len(), end);
        g.bytes().copy_from_slice(data);
        g
    }
    #[allow(clippy::mut_from_ref)]
    fn bytes(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.at, self.n) }
    }
    fn intact(&self) -> bool {
        unsafe {
            let inner = std::slice::from_raw_parts(self.base.add(PAGE), self.all - 2 * PAGE);
            let from = self.at as usize - self.base as usize - PAGE;
            inner[..from].iter().chain(&inner[from + self.n..]).all(|b| *b == 0xA5)
        }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.all);
        }
    }
}

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("bytes").iter().map(|b| u8::try_from(b.as_u64().expect("byte")).expect("byte")).collect()
}

fn decode(stream: &[u8], cap: usize) -> Value {
    let mut got: Option<Value> = None;
    for end in [true, false] {
        let input = Guarded::of(stream, end);
        let room = Guarded::new(cap, end);
        let o = match decompress_to_slice(input.bytes(), room.bytes()) {
            Ok(b) => json!({"ok": b}),
            Err(e) => json!({"err": e.to_string()}),
        };
        assert!(room.intact() && input.intact() && input.bytes() == stream, "memory outside the buffers was written");
        assert!(got.as_ref().is_none_or(|g| *g == o), "the result depends on where the buffers are");
        got = Some(o);
    }
    got.expect("some")
}

fn pack(data: &[u8], cap: usize) -> Value {
    let mut got: Option<Value> = None;
    for end in [true, false] {
        let input = Guarded::of(data, end);
        let room = Guarded::new(cap, end);
        let o = match compress_to_slice(input.bytes(), room.bytes()) {
            Ok(b) => json!({"ok": b}),
            Err(e) => json!({"err": e.to_string()}),
        };
        assert!(room.intact() && input.intact() && input.bytes() == data, "memory outside the buffers was written");
        assert!(got.as_ref().is_none_or(|g| *g == o), "the result depends on where the buffers are");
        got = Some(o);
    }
    got.expect("some")
}

pub fn run(case: &Value) -> Value {
    let cap = || usize::try_from(case["cap"].as_u64().expect("cap")).expect("cap");
    match case["kind"].as_str().expect("kind") {
        "decode" => json!({"out": decode(&bytes(&case["stream"]), cap())}),
        "room" => json!({"comp": pack(&bytes(&case["data"]), cap())}),
        "round" => {
            let data = bytes(&case["data"]);
            let comp = pack(&data, worst_compress(data.len()));
            let mut v = Vec::with_capacity(worst_compress(data.len()));
            let same = compress(&data, &mut v).is_ok() && comp["ok"] == json!(v);
            let back = if comp.get("ok").is_some() { decode(&bytes(&comp["ok"]), data.len()) } else { json!({"err": "not compressed"}) };
            json!({"comp": comp, "same": same, "back": back})
        }
        k => panic!("kind {k}"),
    }
}
