//! Keys and signatures: signing an archive, altering things, verifying.
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Cursor;

use hemtt_pbo::{BISignVersion, ReadablePbo};
use hemtt_signing::{BIPrivateKey, BIPublicKey, BISign, Error};
use rsa::BigUint;
use serde_json::{json, Value};
use sha1::{Digest, Sha1};

use crate::pbo::{bytes, header_bytes, text, Slow};

thread_local! {
    static KEYS: RefCell<HashMap<String, BIPrivateKey>> = RefCell::new(HashMap::new());
}

/// {"id", "auth", "len"}: the same key for the same description
fn key(v: &Value) -> BIPrivateKey {
    KEYS.with(|k| {
        k.borrow_mut()
            .entry(v.to_string())
            .or_insert_with(|| BIPrivateKey::generate(v["len"].as_u64().expect("len") as u32, &text(&v["auth"])).expect("generate"))
            .clone()
    })
}

fn err(e: &Error) -> &'static str {
    match e {
        Error::Pbo(e) if matches!(**e, hemtt_pbo::Error::NoFiles) => "nofiles",
        Error::Pbo(_) => "pbo",
        Error::Io(_) => "io",
        Error::Rsa(_) => "rsa",
        _ => "rejected",
    }
}

/// an archive with its entries as listed
pub fn archive(v: &Value) -> Vec<u8> {
    let mut out = Vec::new();
    if v["vers"].as_bool().expect("vers") {
        out.extend(header_bytes(b"", 0x5665_7273, [0; 4]));
        for p in v["props"].as_array().expect("props") {
            for s in [&p[0], &p[1]] {
                out.extend(bytes(s));
                out.push(0);
            }
        }
        out.push(0);
    }
    let files = v["files"].as_array().expect("files");
    for f in files {
        let d = bytes(&f["data"]);
        out.extend(header_bytes(
            &bytes(&f["name"]),
            0,
            [d.len() as u32, 0, f["time"].as_u64().expect("time") as u32, d.len() as u32],
        ));
    }
    out.extend(header_bytes(b"", 0, [0; 4]));
    for f in files {
        out.extend(bytes(&f["data"]));
    }
    let mut h = Sha1::new();
    h.update(&out);
    out.push(0);
    out.extend(h.finalize());
    out
}

fn open(raw: &[u8], chunk: usize) -> ReadablePbo<Slow> {
    ReadablePbo::from(Slow(Cursor::new(raw.to_vec()), chunk)).expect("archive")
}

fn version(v: u64) -> BISignVersion {
    if v == 2 { BISignVersion::V2 } else { BISignVersion::V3 }
}

fn written(f: impl FnOnce(&mut Vec<u8>) -> Result<(), Error>) -> Vec<u8> {
    let mut o = Vec::new();
    f(&mut o).expect("write");
    o
}

/// changes the file of a signature: where its parts are follows from the sizes
fn alter(sig: &mut Vec<u8>, auth: usize, len: usize, how: &Value, other: &BIPrivateKey) {
    let n = len / 8;
    let e = auth + 1 + 4 + 8 + 4 + 4;
    let modulus = e + 4;
    let s1 = modulus + n + 4;
    let ver = s1 + n;
    let s2 = ver + 4 + 4;
    let s3 = s2 + n + 4;
    let at = how["at"].as_u64().unwrap_or(0) as usize % n;
    match how["what"].as_str().expect("what") {
        "none" => {}
        "sig1" => sig[s1 + at] ^= 1,
        "sig2" => sig[s2 + at] ^= 1,
        "sig3" => sig[s3 + at] ^= 1,
        "swap12" => (0..n).for_each(|i| sig.swap(s1 + i, s2 + i)),
        "swap23" => (0..n).for_each(|i| sig.swap(s2 + i, s3 + i)),
        "sig2is1" => (0..n).for_each(|i| sig[s2 + i] = sig[s1 + i]),
        "sig3is1" => (0..n).for_each(|i| sig[s3 + i] = sig[s1 + i]),
        "version" => sig[ver] = 5 - sig[ver],
        "auth" => sig[0] ^= 1,
        "exponent" => sig[e] ^= 2,
        "modulus" => {
            let w = written(|o| other.to_public_key().write(o));
            let from = w.len() - n;
            sig[modulus..modulus + n].copy_from_slice(&w[from..]);
        }
        other => panic!("alter {other}"),
    }
}

fn run_sign(case: &Value) -> Value {
    let signer = key(&case["key"]);
    let checker = key(&case["with"]);
    let chunk = case["chunk"].as_u64().unwrap_or(0) as usize;
    let raw = archive(&case["archive"]);
    let raw2 = archive(&case["checked"]);
    let files = case["files"].as_bool().unwrap_or(false);
    let signer = if files {
        BIPrivateKey::read(&mut Slow(Cursor::new(written(|o| signer.write_danger(o))), chunk)).expect("read")
    } else {
        signer
    };
    let sig = match signer.sign(&mut open(&raw, chunk), version(case["version"].as_u64().expect("version"))) {
        Ok(s) => s,
        Err(e) => return json!({"unsigned": err(&e)}),
    };
    let what = &case["alter"];
    let sig = if files || what["what"] != "none" {
        let mut b = written(|o| sig.write(o));
        alter(&mut b, bytes(&case["key"]["auth"]).len(), case["key"]["len"].as_u64().expect("len") as usize, what, &checker);
        match BISign::read(&mut Slow(Cursor::new(b), chunk)) {
            Ok(s) => s,
            Err(_) => return json!({"verified": false, "why": "unreadable"}),
        }
    } else {
        sig
    };
    let public = checker.to_public_key();
    let public = if files {
        BIPublicKey::read(&mut Slow(Cursor::new(written(|o| public.write(o))), chunk)).expect("read")
    } else {
        public
    };
    match public.verify(&mut open(&raw2, chunk), &sig) {
        Ok(()) => json!({"verified": true}),
        Err(e) => json!({"verified": false, "why": err(&e)}),
    }
}

/// the files of a key and of a signature, read, written again, cut and relabelled
fn run_files(case: &Value) -> Value {
    let private = key(&case["key"]);
    let chunk = case["chunk"].as_u64().unwrap_or(0) as usize;
    let raw = archive(&case["archive"]);
    let v = version(case["version"].as_u64().expect("version"));
    let public = private.to_public_key();
    let sig = private.sign(&mut open(&raw, chunk), v).expect("sign");
    let slow = |b: &[u8]| Slow(Cursor::new(b.to_vec()), chunk);

    let (fp, fu, fs) = (
        written(|o| private.write_danger(o)),
        written(|o| public.write(o)),
        written(|o| sig.write(o)),
    );
    let rp = BIPrivateKey::read(&mut slow(&fp)).expect("read");
    let ru = BIPublicKey::read(&mut slow(&fu)).expect("read");
    let rs = BISign::read(&mut slow(&fs)).expect("read");
    let again = (
        written(|o| rp.write_danger(o)),
        written(|o| ru.write(o)),
        written(|o| rs.write(o)),
    );
    let derived = written(|o| rp.to_public_key().write(o));
    let resigned = written(|o| rp.sign(&mut open(&raw, chunk), v).expect("sign").write(o));

    // the numbers in the private file belong together
    let len = case["key"]["len"].as_u64().expect("len") as usize;
    let mut at = bytes(&case["key"]["auth"]).len() + 1 + 4 + 8 + 4 + 4;
    let mut num = |n: usize| {
        let b = BigUint::from_bytes_le(fp.get(at..at + n).unwrap_or(&[]));
        at += n;
        b
    };
    let one = BigUint::from(1u8);
    let (e, n) = (num(4), num(len / 8));
    let (p, q, dp, dq, qinv) = (num(len / 16), num(len / 16), num(len / 16), num(len / 16), num(len / 16));
    let d = num(len / 8);
    let valid = p > one && q > one && &p * &q == n && dp == &d % (&p - &one) && dq == &d % (&q - &one)
        && (&qinv * &q) % &p == one && (&e * &d) % (&p - &one) == one && (&e * &d) % (&q - &one) == one;

    let tries = |file: &[u8], read: &dyn Fn(&[u8]) -> bool| -> Value {
        let cuts: Vec<usize> = (0..file.len()).filter(|n| read(&file[..*n])).collect();
        // other sizes in the label, other key lengths
        let a = bytes(&case["key"]["auth"]).len() + 1;
        let mut labels = Vec::new();
        for (at, by) in [(a, 1u32), (a, 16), (a, 256), (a + 16, 16), (a + 16, 512)] {
            let mut f = file.to_vec();
            let old = u32::from_le_bytes(f[at..at + 4].try_into().expect("4"));
            for new in [old.wrapping_add(by), old.wrapping_sub(by)] {
                f[at..at + 4].copy_from_slice(&new.to_le_bytes());
                f.extend([0; 600]);
                labels.push(read(&f));
                f.truncate(file.len());
            }
        }
        json!({"cuts": cuts, "labels": labels})
    };
    json!({
        "private": fp, "public": fu, "sig": fs,
        "again": [again.0, again.1, again.2], "derived": derived, "resigned": resigned, "valid": valid,
        "auth": [ru.authority().as_bytes(), rs.authority().as_bytes(), public.authority().as_bytes(), sig.authority().as_bytes()],
        "len": [ru.length(), rs.length(), public.length(), sig.length()],
        "version": [u32::from(rs.version()), u32::from(sig.version())],
        "verify": [ru.verify(&mut open(&raw, chunk), &rs).is_ok(), public.verify(&mut open(&raw, chunk), &rs).is_ok(),
                   ru.verify(&mut open(&raw, chunk), &sig).is_ok()],
        "shown": ru.modulus_display(2) == public.modulus_display(2) && rs.modulus_display(0) == sig.modulus_display(0),
        "tries": [
            tries(&fp, &|b| BIPrivateKey::read(&mut slow(b)).is_ok()),
            tries(&fu, &|b| BIPublicKey::read(&mut slow(b)).is_ok()),
            tries(&fs, &|b| BISign::read(&mut slow(b)).is_ok()),
        ],
        "mixed": [
            BIPrivateKey::read(&mut slow(&fu)).is_ok(), BIPrivateKey::read(&mut slow(&fs)).is_ok(),
            BIPublicKey::read(&mut slow(&fp)).is_ok(), BISign::read(&mut slow(&fp)).is_ok(), BISign::read(&mut slow(&fu)).is_ok(),
        ],
    })
}

pub fn run(case: &Value) -> Value {
    if case["kind"] == "files" { run_files(case) } else { run_sign(case) }
}
