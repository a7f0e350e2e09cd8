//! Numbers and strings that the code under test has and the code these checks were made for does not:
//! what a change compares with is what inputs should be near. It only directs the generation of
//! inputs; on unchanged code there are none, and nothing is drawn.
use proto::Rng;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Clone)]
pub struct Dict { pub ints: Vec<u64>, pub strs: Vec<Vec<u8>> }
static DICT: OnceLock<Dict> = OnceLock::new();
const BASE: &str = include_str!("../literals.txt");

pub fn set(d: Dict) { let _ = DICT.set(d); }
pub fn get() -> &'static Dict { DICT.get_or_init(Dict::default) }

fn hex(b: &[u8]) -> String { b.iter().map(|c| format!("{c:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect() }
impl Dict {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for i in &self.ints { s.push_str(&format!("number {i}\n")) }
        for x in &self.strs { s.push_str(&format!("string {}\n", hex(x))) }
        s
    }
    pub fn line(&mut self, k: &str, v: &str) {
        match k { "number" => self.ints.extend(v.parse::<u64>().ok()), "string" => self.strs.push(unhex(v)), _ => {} }
    }
}

fn sources(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(l) = std::fs::read_dir(d) else { return };
    let mut l: Vec<PathBuf> = l.flatten().map(|e| e.path()).collect();
    l.sort();
    for p in l {
        if p.is_dir() { if !p.ends_with("tests") && !p.ends_with("target") { sources(&p, out) } } else if p.extension().is_some_and(|e| e == "rs") { out.push(p) }
    }
}
fn number(t: &str) -> Option<u64> {
    let mut t: String = t.chars().filter(|c| *c != '_').collect();
    for s in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"] { if let Some(x) = t.strip_suffix(s) { if !x.is_empty() && !t.starts_with("0x") { t = x.to_string(); break } } }
    if let Some(h) = t.strip_prefix("0x") { return u64::from_str_radix(h, 16).ok() }
    if let Some(h) = t.strip_prefix("0b") { return u64::from_str_radix(h, 2).ok() }
    if let Some(h) = t.strip_prefix("0o") { return u64::from_str_radix(h, 8).ok() }
    t.parse().ok()
}
/// how often each literal and each named number occurs in the sources
pub fn scan() -> BTreeMap<String, i64> {
    let root = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../../repo/crates");
    let mut fs = vec![];
    sources(&root, &mut fs);
    let mut n: BTreeMap<String, i64> = BTreeMap::new();
    for f in fs { if let Ok(b) = std::fs::read(&f) { tokens(&b, &mut n) } }
    n
}
fn tokens(b: &[u8], n: &mut BTreeMap<String, i64>) {
    let mut i = 0;
    let (mut run, mut sep): (Vec<u8>, bool) = (vec![], true);
    let mut put = |s: String| *n.entry(s).or_insert(0) += 1;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') { while i < b.len() && b[i] != b'\n' { i += 1 } continue }
        if c == b'/' && b.get(i + 1) == Some(&b'*') { i += 2; while i + 1 < b.len() && &b[i..i + 2] != b"*/" { i += 1 } i += 2; continue }
        if c.is_ascii_whitespace() { i += 1; continue }
        if c == b',' { sep = true; i += 1; continue }
        // several small numbers in a row may be a string of bytes
        if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
            if let Some(v) = number(&String::from_utf8_lossy(&b[s..i])) {
                put(format!("n{v}"));
                if sep && v < 256 { run.push(v as u8) } else { run.clear(); if v < 256 { run.push(v as u8) } }
                sep = false;
            }
            continue
        }
        if run.len() >= 2 && run.len() <= 40 { put(format!("s{}", hex(&run))) }
        run.clear(); sep = true;
        if c == b'"' {
            let mut v = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' { let (x, l) = escaped(&b[i..]); v.extend(x); i += l }
            i += 1;
            if !v.is_empty() && v.len() <= 60 { put(format!("s{}", hex(&v))) }
            continue
        }
        if c == b'\'' {
            // a character, or a lifetime
            let (x, l) = if i + 1 < b.len() { escaped(&b[i + 1..]) } else { (vec![], 1) };
            if b.get(i + 1 + l) == Some(&b'\'') && !x.is_empty() { put(format!("s{}", hex(&x))); if x.len() == 1 { put(format!("n{}", x[0])) } i += l + 2 } else { i += 1 }
            continue
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
            match &b[s..i] {
                b"BLOCK_SIZE" => put(format!("n{}", 1 << 20)),
                b"KIBI" | b"KB" | b"KIB" => put("n1024".into()),
                b"MASTER_KEY_LEN" => put("n32".into()), b"ENCRYPTED_MASTER_KEY_LEN" => put("n48".into()), b"SALT_LEN" => put("n16".into()),
                b"u8" if b[i..].starts_with(b"::MAX") => put("n255".into()),
                b"i8" if b[i..].starts_with(b"::MAX") => put("n127".into()),
                b"u16" if b[i..].starts_with(b"::MAX") => put("n65535".into()),
                b"i16" if b[i..].starts_with(b"::MAX") => put("n32767".into()),
                _ => {}
            }
            continue
        }
        // (what separates a product's factors must not be lost: `64 * 1024`)
        if c == b'*' || c == b'<' {
            let mut j = i + 1;
            while j < b.len() && (b[j] == b'<' || b[j] == b' ') { j += 1 }
            let e = (j..b.len()).find(|&k| !(b[k].is_ascii_alphanumeric() || b[k] == b'_')).unwrap_or(b.len());
            let mut k = i;
            while k > 0 && b[k - 1] == b' ' { k -= 1 }
            let s = (0..k).rev().find(|&k| !(b[k].is_ascii_alphanumeric() || b[k] == b'_')).map_or(0, |x| x + 1);
            let num = |t: &[u8]| if t == b"BLOCK_SIZE" { Some(1 << 20) } else { number(&String::from_utf8_lossy(t)) };
            if let (Some(x), Some(y)) = (num(&b[s..k]), num(&b[j..e])) {
                let v = if c == b'*' { x.checked_mul(y) } else if b.get(i + 1) == Some(&b'<') && y < 40 { x.checked_shl(y as u32) } else { None };
                if let Some(v) = v { put(format!("n{v}")) }
            }
        }
        i += 1;
    }
}
fn escaped(b: &[u8]) -> (Vec<u8>, usize) {
    if b[0] != b'\\' { let l = match b[0] { 0xf0.. => 4, 0xe0.. => 3, 0xc0.. => 2, _ => 1 }.min(b.len()); return (b[..l].to_vec(), l) }
    match b.get(1) {
        Some(b'n') => (vec![b'\n'], 2), Some(b't') => (vec![b'\t'], 2), Some(b'r') => (vec![b'\r'], 2), Some(b'0') => (vec![0], 2),
        Some(b'x') if b.len() >= 4 => (u8::from_str_radix(&String::from_utf8_lossy(&b[2..4]), 16).map(|x| vec![x]).unwrap_or_default(), 4),
        Some(b'u') => { let e = b.iter().position(|c| *c == b'}').unwrap_or(1); let c = u32::from_str_radix(&String::from_utf8_lossy(b.get(3..e).unwrap_or(b"")), 16).ok().and_then(char::from_u32); (c.map(|c| c.to_string().into_bytes()).unwrap_or_default(), e + 1) }
        Some(b'\n') => { let mut l = 2; while l < b.len() && b[l].is_ascii_whitespace() { l += 1 } (vec![], l) }
        Some(c) => (vec![*c], 2),
        None => (vec![], 1),
    }
}
pub fn listing() -> String { scan().iter().map(|(k, v)| format!("{v} {k}\n")).collect() }
/// what is new since the listing was made
pub fn novel() -> Dict {
    let base: BTreeMap<&str, i64> = BASE.lines().filter_map(|l| { let (v, k) = l.split_once(' ')?; Some((k, v.parse().ok()?)) }).collect();
    let mut d = Dict::default();
    for (k, v) in scan() { if v > base.get(&k[..]).copied().unwrap_or(0) { d.line(if k.starts_with('n') { "number" } else { "string" }, &k[1..]) } }
    d
}

/// a number near or made of one of the new ones, within bounds
pub fn int(r: &mut Rng, lo: i64, hi: i64) -> Option<i64> {
    let d = get();
    if d.ints.is_empty() || !r.chance(1, 3) { return None }
    let n = (*r.pick(&d.ints)).min(1 << 40) as i64;
    let near = |r: &mut Rng, m: i64| m + *r.pick(&[0, 0, 0, 1, 1, -1, -1, 2, 16, 17, -15, -16, -16, -17, -416, -432]);
    let v = match r.below(8) {
        0 if n > 1 && n <= hi => { let m = n * r.range(1, ((hi / n).clamp(1, 3000)) as u64) as i64; near(r, m) }
        1 => { let m = 1048576 + *r.pick(&[n, -n, n + 1]); if r.chance(1, 4) { m + 1048576 } else { m } }
        2 if n > 0 && n <= 4 => { let m = n * 1048576; near(r, m) }
        3 => -n,
        4 => n * 512 + *r.pick(&[0, 1]),
        5 => n + r.below(200) as i64,
        _ => near(r, n),
    };
    if v >= lo && v <= hi { Some(v) } else { None }
}
pub fn pick(r: &mut Rng) -> Option<Vec<u8>> {
    let d = get();
    if d.strs.is_empty() || !r.chance(1, 3) { return None }
    Some(r.pick(&d.strs).clone())
}
/// put one of the new strings, or a new number as bytes, somewhere into the content
pub fn sprinkle(r: &mut Rng, b: &mut [u8]) {
    let d = get();
    let w = if let Some(s) = pick(r) { s } else {
        if d.ints.is_empty() || !r.chance(1, 4) { return }
        let n = *r.pick(&d.ints);
        if n < 256 { vec![n as u8; *r.pick(&[1, 1, 2, 4, 16])] } else if n < 65536 { if r.chance(1, 2) { (n as u16).to_le_bytes().to_vec() } else { (n as u16).to_be_bytes().to_vec() } } else if r.chance(1, 2) { (n as u32).to_le_bytes().to_vec() } else { (n as u32).to_be_bytes().to_vec() }
    };
    if w.is_empty() || w.len() > b.len() { return }
    let l = b.len() - w.len();
    let at = match r.below(4) { 0 | 1 => 0, 2 => l, _ => r.below(l as u64 + 1) as usize };
    b[at..at + w.len()].copy_from_slice(&w);
    if r.chance(1, 8) { let n = b.len(); for i in 0..n { b[i] = w[i % w.len()] } }
}
/// a new string, made fit for a name
pub fn word(r: &mut Rng) -> Option<String> {
    let s = pick(r)?;
    let s: String = String::from_utf8_lossy(&s).chars().filter(|c| !matches!(c, '/' | '\0' | '\\')).take(60).collect();
    if s.is_empty() { None } else { Some(s) }
}
