//! C24: how much memory an operation needs does not depend on how much content it is given.
use super::faults::{mutate_zip, random_faults};
use super::scen::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use proto::*;
use std::collections::BTreeMap;

const KINDS: &[&str] = &["enc", "dec", "hash", "pack", "unpack", "erase", "erasedir", "dump", "strip", "restore", "kadd", "kchg", "kdel", "kver", "cli-encrypt", "cli-decrypt", "cli-pack", "cli-unpack", "cli-hash", "cli-erase"];
/// the first bytes of a content of any length
fn body(seed: u64, kind: u64, n: usize) -> Vec<u8> { let mut r = Rng::new(seed); if kind == 0 { vec![7; n] } else if kind == 1 { let p = r.bytes(1000); p.iter().cycle().take(n).copied().collect() } else { r.bytes(n) } }

/// the operation on content of `n` bytes, the same for every `n` otherwise
fn build(mut r: Rng, kind: &str, n: usize) -> Plan {
    let base = kind.strip_prefix("cli-").unwrap_or(kind);
    let iscli = base.len() != kind.len();
    let k = text_key(&mut r).into_bytes();
    let f = Fmt::v5(&mut r);
    let (seed, look, det, comp, passes, more) = (r.next(), r.below(4), r.chance(1, 3), r.chance(1, 2), r.range(1, 3), r.chance(1, 2));
    let pt = body(seed, look, n);
    let nf = r.range(1, 4) as usize;
    let mut fs = vec![];
    let mut v: Vec<String> = vec![];
    // content in parts
    let t: BTreeMap<String, Option<Vec<u8>>> = std::iter::once(("src".to_string(), None)).chain((0..nf).map(|i| (format!("src/f{i}"), Some(pt[n / nf * i..if i + 1 == nf { n } else { n / nf * (i + 1) }].to_vec())))).collect();
    let h = det.then_some("/w/hdr");
    match base {
        "enc" | "encrypt" | "hash" | "erase" => fs.push(file("/w/in", pt.clone())),
        "pack" | "erasedir" => for (p, d) in &t { fs.push(match d { None => dir(&format!("/w/{p}")), Some(b) => file(&format!("/w/{p}"), b.clone()) }) },
        _ => {
            let z = if base == "unpack" { zip_of(&t) } else { pt.clone() };
            let m = make(&mut r, 5, f.algo, true, &[(&k, f.hash), (b"another key", f.hash)], &z);
            match base {
                "dec" | "decrypt" | "unpack" if det => { fs.push(file("/w/in", m.payload.clone())); fs.push(file("/w/hdr", m.hdr.clone())) }
                "restore" => { fs.push(file("/w/in", [vec![0; 416], m.payload.clone()].concat())); fs.push(file("/w/hdr", m.hdr.clone())) }
                _ => fs.push(file("/w/in", m.file())),
            }
        }
    }
    if iscli {
        fs.push(file("/w/key", k.clone()));
        v.extend(["cli".into(), base.into()]);
        if base != "hash" { v.push("-f".into()) }
        if !matches!(base, "hash" | "erase") {
            v.extend(["-k".into(), "key".into()]);
            if more { v.push("-H".into()) }
            if det { v.extend(["--header".into(), "hdr".into()]) }
            if comp && base == "pack" { v.push("-z".into()) }
            if passes == 2 { match base { "encrypt" | "decrypt" => v.push("--erase=1".into()), "pack" => v.push("--erase".into()), _ => {} } }
        }
        if base == "erase" { v.push(format!("--passes={passes}")) }
        v.push(if base == "pack" { "src".into() } else { "in".into() });
        if !matches!(base, "hash" | "erase") { v.push("out".into()) }
    } else {
        let l = match base {
            "enc" => enc_line("/w/in", "/w/out", h, &k, &f),
            "dec" => dec_line("/w/in", "/w/out", h, &k),
            "hash" => line(&["hash", "/w/in", "0"]),
            "pack" => pack_line("/w/out", h, &k, &f, comp, &["/w/src"]),
            "unpack" => unpack_line("/w/in", h, &k, "/w/out"),
            "erase" => line(&["erase", "/w/in", &passes.to_string()]),
            "erasedir" => line(&["erasedir", "/w/src", &passes.to_string()]),
            "dump" => line(&["dump", "/w/in", "/w/was"]),
            "strip" => line(&["strip", "/w/in"]),
            "restore" => line(&["restore", "/w/hdr", "/w/in"]),
            "kadd" | "kchg" => line(&[base, "/w/in", &pct(&k), &pct(b"new key"), hash_name(f.hash)]),
            _ => line(&[base, "/w/in", &pct(&k)]),
        };
        v = drive(&[l]);
    }
    plan(&mut r, fs, v)
}

pub fn c24(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    if r.chance(1, 4) { return hostile(c) }
    let kind = *r.pick(KINDS);
    // where the small one ends, no buffer is larger
    let small = (5 << 20) + r.below(70_000) as usize;
    let large = small + if c.deep && r.chance(1, 4) { (40 << 20) + r.below(1 << 20) as usize } else { (8 << 20) + r.below(12 << 20) as usize };
    let (a, b) = (build(r.clone(), kind, small), build(r.clone(), kind, large));
    c.say(format!("{kind} with {small} and {large} bytes"));
    c.tag(kind);
    let x = c.exp(a, &|x| if x.said_ok() { Ok(()) } else { Err(format!("{kind} fails: {}", x.tail())) })?;
    let most = x.o.peak + (3 << 20);
    let check = |x: &Run| -> Result<(), String> {
        if x.o.peak > most { return Err(format!("{kind} needs {} KiB of memory for {large} bytes, but {} KiB for {small} bytes", x.o.peak >> 10, (most >> 10) - 3072)); }
        Ok(())
    };
    let y = c.exp(b.clone(), &|x| { if !x.said_ok() { return Err(format!("{kind} fails: {}", x.tail())); } check(x) })?;
    let t = targets(&y);
    if t.is_empty() { return Ok(()); }
    for _ in 0..if c.deep { 4 } else { 1 } {
        let mut q = b.clone();
        if r.chance(1, 2) { q.auto = chunky(&mut r) } else { q.faults = random_faults(&mut r, &t) }
        schedule(&mut r, &mut q.auto);
        c.exp(q, &check)?;
    }
    Ok(())
}

/// what a file claims about itself is not a reason to reserve memory
fn hostile(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let k = text_key(&mut r).into_bytes();
    let f = Fmt::v5(&mut r);
    let t = tree(&mut r, "/w/src", 5, false);
    let z = zip_of(&rel(&t, "/w"));
    let iscli = r.chance(1, 4);
    c.say(format!("unpacking archives with wrong records, command line {iscli}"));
    c.tag("hostile");
    for _ in 0..if c.deep { 40 } else { 12 } {
        let z = { let mut z = z.clone(); mutate_zip(&mut r, &mut z); z };
        let m = make(&mut r, 5, f.algo, true, &[(&k, f.hash)], &z);
        let fs = vec![file("/w/in", m.file()), file("/w/key", k.clone())];
        let p = plan(&mut r, fs, if iscli { cli(&["unpack", "-f", "-k", "key", "in", "out"]) } else { drive(&[unpack_line("/w/in", None, &k, "/w/out")]) });
        c.exp(p, &|x| if x.o.peak > 160 << 20 { Err(format!("unpacking an archive of {} bytes needs {} KiB of memory", z.len(), x.o.peak >> 10)) } else { Ok(()) })?;
    }
    Ok(())
}
