//! Building blocks for cases: scripts, plans, random content.
use crate::model::*;
use proto::*;

pub fn pct(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b { if c.is_ascii_alphanumeric() || b"/._-".contains(&c) { s.push(c as char) } else { s.push_str(&format!("%{c:02x}")) } }
    s
}
pub fn line(parts: &[&str]) -> String { parts.join("\t") }
pub fn drive(lines: &[String]) -> Vec<String> { vec!["drive".into(), lines.join("\n")] }
pub fn cli(args: &[&str]) -> Vec<String> { let mut v = vec!["cli".to_string()]; v.extend(args.iter().map(|s| s.to_string())); v }
pub fn file(p: &str, b: Vec<u8>) -> FSEntry { FSEntry { path: p.into(), mode: 0o644, spec: FileSpec::File(b) } }
pub fn dir(p: &str) -> FSEntry { FSEntry { path: p.into(), mode: 0o755, spec: FileSpec::Dir } }
/// another name of the file `t`
pub fn hard(p: &str, t: &str) -> FSEntry { FSEntry { path: p.into(), mode: 0o644, spec: FileSpec::Hard(t.into()) } }
pub fn link(p: &str, t: &str) -> FSEntry { FSEntry { path: p.into(), mode: 0o777, spec: FileSpec::Link(path_bytes(t)) } }

/// a named pipe, or a socket, that nobody is at the other end of
pub fn special(p: &str, sock: bool) -> FSEntry { FSEntry { path: p.into(), mode: 0o644, spec: if sock { FileSpec::Sock } else { FileSpec::Pipe } } }

/// sizes that matter: empty, around cipher tags, buffers and blocks
pub fn size(r: &mut Rng, big: bool) -> usize {
    let b = BLOCK;
    if let Some(n) = crate::dict::int(r, 0, if big { 5 << 20 } else { 150_000 }) { return n as usize }
    match r.below(if big { 10 } else { 7 }) {
        0 => 0,
        1 => 1 + r.below(40) as usize,
        2 => *r.pick(&[15, 16, 17, 63, 64, 127, 128, 415, 416, 417, 511, 512, 513, 1023, 1024, 4095, 4096, 8191, 8192, 8193]),
        3 | 4 => r.below(3000) as usize,
        5 | 6 => r.below(70_000) as usize,
        7 => *r.pick(&[b - 17, b - 16, b - 1, b, b + 1, b + 15, b + 16, b + 17, b + 416]),
        8 => *r.pick(&[2 * b - 1, 2 * b, 2 * b + 1, 2 * b + 32, 3 * b]),
        _ => b + r.below(b as u64) as usize,
    }
}
/// now and then much larger than any buffer
pub fn large(r: &mut Rng) -> usize { if r.chance(1, 150) { (*r.pick(&[4usize, 8, 9, 16, 20, 33, 65]) << 20) + r.below(40_000) as usize } else { size(r, true) } }
pub fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = content0(r, n);
    crate::dict::sprinkle(r, &mut b);
    b
}
fn content0(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(12) {
        0 => vec![0; n],
        1 => vec![r.below(256) as u8; n],
        2 => { let p = r.bytes(1 + 64.min(n)); (0..n).map(|i| p[i % p.len()]).collect() }
        _ => r.bytes(n),
    }
}
pub fn key(r: &mut Rng) -> Vec<u8> {
    if let Some(n) = crate::dict::int(r, 1, 5000) { return r.bytes(n as usize) }
    if let Some(mut s) = crate::dict::pick(r) { let n = r.below(12) as usize; let k = r.bytes(n); if r.chance(1, 2) { s.extend(k) } else { s.splice(0..0, k); } return s }
    match r.below(10) {
        0 => { let n = 60 + r.below(540) as usize; r.bytes(n) }
        1 => vec![r.next() as u8],
        2 => b"pass word\twith \xc3\xa9\xff\x00 bytes".to_vec(),
        _ => { let n = r.range(4, 32) as usize; r.bytes(n) }
    }
}
/// a key usable on a command line's key file or environment
pub fn text_key(r: &mut Rng) -> String { let n = match crate::dict::int(r, 1, 400) { Some(n) => n as u64, None => r.range(3, 24) }; (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789") as char).collect() }

/// what a key file may hold: any bytes, often with ends that invite being trimmed
pub fn odd_key(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 20) { let n = *r.pick(&[1 << 12, 1 << 13, 1 << 16, 1 << 17]) + r.below(3000) as usize; return r.bytes(n) }
    let mut k = if r.chance(1, 2) { text_key(r).into_bytes() } else { key(r) };
    for _ in 0..r.below(3) { let t: &[u8] = r.pick(&[&b"\n"[..], b"\r\n", b" ", b"\0", b"\t", b"\n\n", b"\xef\xbb\xbf"]); if r.chance(1, 4) { k.splice(0..0, t.iter().copied()); } else { k.extend(t) } }
    k
}
/// keys that somebody might take for the same one
pub fn alike(r: &mut Rng, k: &[u8]) -> Vec<u8> {
    let mut v = k.to_vec();
    if let Some(n) = crate::dict::int(r, 0, k.len() as i64 - 1) { if r.chance(1, 2) && n > 0 { v.truncate(n as usize) } else { v[n as usize] ^= 1 << r.below(8) } return v }
    if let Some(s) = crate::dict::pick(r) { if r.chance(1, 2) { v.extend(s) } else { v.splice(0..0, s); } return v }
    match r.below(12) {
        0 => v.push(b'\n'), 1 => v.extend(b"\r\n"), 2 => v.push(b' '), 3 => v.push(0), 4 => v.insert(0, b' '), 5 => { v.pop(); }
        6 => v = v.trim_ascii().to_vec(), 7 => v = v.trim_ascii_end().to_vec(), 8 => v.make_ascii_uppercase(), 9 => v = String::from_utf8_lossy(&v).into_owned().into_bytes(),
        10 => { let l = v.len(); v.truncate(l.min(*r.pick(&[8, 16, 32, 64, 72, 128, 256, 512, 4096, 8192, 65536]))) } 11 if v.len() > 1 => { let i = v.len() - 1 - r.below(v.len().min(3) as u64) as usize; v[i] ^= 1 << r.below(8) } _ => { let i = r.below(v.len() as u64) as usize; v[i] ^= 1 << r.below(8) }
    }
    v
}

/// can be typed at a terminal
pub fn typable(k: &[u8]) -> bool { !k.is_empty() && std::str::from_utf8(k).is_ok() && !k.iter().any(|b| matches!(b, b'\n' | 4 | 0x15)) && k.last() != Some(&b'\r') }
/// can be put into the environment
pub fn environable(k: &[u8]) -> bool { !k.contains(&0) && k.len() < 60_000 && path_bytes(&path_str(k)) == k }
/// a key on its way into the program
pub struct Given { pub how: &'static str, pub args: Vec<String>, pub fs: Vec<FSEntry>, pub env: Vec<(String, String)>, pub stdin: Vec<u8>, pub tty: Vec<u8> }
impl Given {
    pub fn put(&self, p: &mut Plan) {
        p.fs.extend(self.fs.iter().cloned());
        p.env.extend(self.env.iter().cloned());
        if !self.stdin.is_empty() { p.stdin = self.stdin.clone() }
        if !self.tty.is_empty() { p.tty = self.tty.clone() }
    }
}
/// give a key by file, environment, standard input or typing (twice if `confirm`, perhaps after failed attempts)
pub fn give(r: &mut Rng, k: &[u8], confirm: bool) -> Given {
    let mut g = Given { how: "file", args: vec![], fs: vec![], env: vec![], stdin: vec![], tty: vec![] };
    match r.below(6) {
        0 if environable(k) => { g.how = "environment"; g.env.push(("VOLARIS_KEY".into(), path_str(k))) }
        1 => { g.how = "standard input"; g.args = vec!["-k".into(), "-".into()]; g.stdin = k.to_vec() }
        2 | 3 if typable(k) => {
            g.how = "typed";
            let nl: &[u8] = if r.chance(1, 8) { b"\r\n" } else { b"\n" };
            if confirm {
                for _ in 0..if r.chance(1, 2) { 0 } else { r.range(1, 3) } {
                    let other = alike(r, k);
                    let (a, b): (&[u8], &[u8]) = match r.below(5) { 0 => (b"", b""), 1 => (b"", k), 2 => (k, b""), 3 => (b"something else", k), _ if typable(&other) && other != k => (k, &other), _ => (k, b"x y") };
                    for l in [a, b] { g.tty.extend(l); g.tty.extend(nl) }
                }
                g.tty.extend(k); g.tty.extend(nl);
            }
            g.tty.extend(k); g.tty.extend(nl);
            if r.chance(1, 4) { g.tty.extend(b"more that nobody asked for\n") }
        }
        _ => { g.args = vec!["-k".into(), "key".into()]; g.fs.push(file("/w/key", k.to_vec())) }
    }
    g
}

#[derive(Clone, Copy, Debug)]
pub struct Fmt { pub ver: u8, pub stream: bool, pub algo: Algo, pub hash: u8 }
impl Fmt {
    pub fn v5(r: &mut Rng) -> Fmt { Fmt { ver: 5, stream: true, algo: *r.pick(&ALGOS), hash: *r.pick(&HASHES) } }
    pub fn writable(r: &mut Rng) -> Fmt { if r.chance(1, 4) { Fmt { ver: 4, stream: true, algo: *r.pick(&ALGOS), hash: 0xB4 } } else { Fmt::v5(r) } }
    pub fn args(&self) -> [String; 4] { [format!("V{}", self.ver), if self.stream { "S" } else { "M" }.into(), self.algo.name().into(), hash_name(self.hash).into()] }
}
pub fn enc_line(i: &str, o: &str, h: Option<&str>, k: &[u8], f: &Fmt) -> String {
    let a = f.args();
    line(&["enc", i, o, h.unwrap_or("-"), &pct(k), &a[0], &a[1], &a[2], &a[3]])
}
pub fn dec_line(i: &str, o: &str, h: Option<&str>, k: &[u8]) -> String { line(&["dec", i, o, h.unwrap_or("-"), &pct(k)]) }
pub fn pack_line(o: &str, h: Option<&str>, k: &[u8], f: &Fmt, comp: bool, dirs: &[&str]) -> String {
    let a = f.args();
    let mut v = vec!["pack", o, h.unwrap_or("-")];
    let kk = pct(k);
    v.extend([&kk[..], &a[0], &a[1], &a[2], &a[3], if comp { "1" } else { "0" }]);
    let ds: Vec<String> = dirs.iter().map(|d| pct(d.as_bytes())).collect();
    v.extend(ds.iter().map(|s| s.as_str()));
    line(&v)
}
pub fn unpack_line(i: &str, h: Option<&str>, k: &[u8], out: &str) -> String { line(&["unpack", i, h.unwrap_or("-"), &pct(k), out]) }

pub fn plan(r: &mut Rng, fs: Vec<FSEntry>, argv: Vec<String>) -> Plan { Plan { seed: r.next(), fs, argv, rng: RngMode::Prng(r.next()), ..Plan::default() } }
/// chunking noise: short transfers and interruptions, in various intensities
pub fn chunky(r: &mut Rng) -> Auto {
    let lvl = *r.pick(&[40u64, 150, 400, 800]);
    Auto { short_read: if r.chance(3, 4) { lvl } else { 0 }, short_write: if r.chance(3, 4) { lvl } else { 0 }, eintr: match r.below(24) { 0..=6 => 0, 7 | 8 => 1000, _ => lvl / 2 }, budget: r.range(1, 60), tiny: r.chance(1, 5), ..Auto::default() }
}
/// thousands of transfers of a few bytes
pub fn crawl(r: &mut Rng) -> Auto { Auto { short_read: 1024, short_write: if r.chance(1, 2) { 1024 } else { 0 }, budget: 60_000, tiny: true, ..Auto::default() } }
pub fn schedule(r: &mut Rng, a: &mut Auto) {
    match r.below(5) { 0 => {} 1 => a.preempt = 60, 2 => a.preempt = 350, 3 => a.preempt = 900, _ => a.pct = r.range(1, 6) }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {}", a.len(), b.len(), n)
}
/// compare two trees; None if equal
pub fn tree_diff(want: &std::collections::BTreeMap<String, FileSpec>, got: &std::collections::BTreeMap<String, FileSpec>) -> Option<String> {
    for (p, s) in want {
        match got.get(p) {
            None => return Some(format!("{p} is missing")),
            Some(t) if t != s => return Some(match (s, t) { (FileSpec::File(a), FileSpec::File(b)) => format!("{p} differs: {}", first_diff(a, b)), _ => format!("{p} is of another kind or target") }),
            _ => {}
        }
    }
    got.keys().find(|p| !want.contains_key(*p)).map(|p| format!("{p} was not there before"))
}
