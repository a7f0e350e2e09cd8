//! C20: what memory holds when it is given back.
use super::faults::{crash, random_faults};
use super::scen::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use proto::*;

/// a key that does not occur by accident
fn long_key(r: &mut Rng, text: bool) -> Vec<u8> {
    let n = *r.pick(&[12u64, 16, 24, 33, 64, 100, 600]);
    if text { (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789")).collect() } else { r.bytes(n as usize) }
}
/// content in which every 32 bytes contain the token
fn marked(n: usize, token: &[u8]) -> Vec<u8> { (0..n).map(|i| if i % 32 < 16 { token[i % 32] } else { (i / 32 >> (i % 4 * 8)) as u8 }).collect() }

const OWN_KEY: &str = "the master key";
/// an operation with keys and content that can be recognised
struct Op { kind: &'static str, base: &'static str, g: Given, plan: Plan, secrets: Vec<(&'static str, Vec<u8>)>, token: Vec<u8>, given: Option<Made>, n: usize, f: Fmt, det: bool }
fn keyed(c: &mut Case, r: &mut Rng) -> Op {
    let kinds = ["enc", "dec", "kadd", "kchg", "kdel", "kver", "pack", "unpack", "cli-encrypt", "cli-decrypt", "cli-pack", "cli-unpack"];
    let kind = kinds[(c.seed % kinds.len() as u64) as usize];
    let iscli = kind.starts_with("cli");
    let (k, k2) = (long_key(r, iscli), long_key(r, false));
    let token = r.bytes(16);
    let n = { let big = r.chance(1, 5); size(r, big) };
    let pt = marked(n, &token);
    let f = Fmt::writable(r);
    let det = r.chance(1, 3);
    let h = det.then_some("/w/hdr");
    let wrong = matches!(kind, "dec" | "unpack" | "cli-decrypt" | "cli-unpack" | "kadd" | "kchg" | "kdel" | "kver") && r.chance(1, 5);
    let used = if wrong { let mut x = k.clone(); x[3] ^= 1; x } else { k.clone() };
    let mut secrets: Vec<(&'static str, Vec<u8>)> = vec![("a raw key", used.clone())];
    let mut fs = vec![];
    let mut g = Given { how: "call", args: vec![], fs: vec![], env: vec![], stdin: vec![], tty: vec![] };
    let mut kargs: Vec<&str> = vec![];
    if iscli {
        g = give(r, &used, matches!(kind, "cli-encrypt" | "cli-pack"));
        kargs.extend(g.args.iter().map(|s| s.as_str()));
        kargs.push("-f");
        if det { kargs.extend(["--header", "hdr"]) }
    }
    let src = vec![dir("/w/src"), dir("/w/src/d"), file("/w/src/a", pt.clone()), file("/w/src/d/b", pt[..pt.len() / 2].to_vec())];
    let mut given: Option<Made> = None;
    let mut put = |fs: &mut Vec<FSEntry>, m: Made, det: bool| {
        if det { fs.push(file("/w/in", m.payload.clone())); fs.push(file("/w/hdr", m.hdr.clone())) } else { fs.push(file("/w/in", m.file())) }
        given = Some(m);
    };
    let base: &'static str = kind.trim_start_matches("cli-");
    let mut sub = |c: &str, pos: &[&str]| { let mut v = vec![c]; v.extend(&kargs); v.extend(pos); cli(&v) };
    let argv = match base {
        "enc" => { fs.push(file("/w/in", pt.clone())); drive(&[enc_line("/w/in", "/w/out", h, &used, &f)]) }
        "encrypt" => { fs.push(file("/w/in", pt.clone())); sub("encrypt", &["in", "out"]) }
        "dec" | "decrypt" => {
            let (ver, hid) = match r.below(4) { 0 => (r.range(1, 3) as u8, 0xA3), 1 => (4, 0xB4), _ => (5, *r.pick(&HASHES)) };
            let stream = r.chance(2, 3);
            let keys: Vec<(&[u8], u8)> = if ver == 5 && r.chance(1, 2) { vec![(&k2, *r.pick(&HASHES)), (&k, hid)] } else { vec![(&k, hid)] };
            let m = make(r, ver, f.algo, stream, &keys, &pt);
            let mut m = m;
            if r.chance(1, 6) && !m.payload.is_empty() { let i = r.below(m.payload.len() as u64) as usize; m.payload[i] ^= 4; c.tag("damage_at_rest") }
            put(&mut fs, m, det);
            if base == "dec" { drive(&[dec_line("/w/in", "/w/out", h, &used)]) } else { sub("decrypt", &["in", "out"]) }
        }
        "pack" => { fs.extend(src); if iscli { sub("pack", &["-r", "src", "out"]) } else { drive(&[pack_line("/w/out", h, &used, &f, r.chance(1, 2), &["src"])]) } }
        "unpack" => {
            let z = zip_of(&rel(&src, "/w/src"));
            let m = make(r, 5, f.algo, true, &[(&k, f.hash)], &z);
            put(&mut fs, m, det);
            if iscli { sub("unpack", &["in", "o"]) } else { drive(&[unpack_line("/w/in", h, &used, "o")]) }
        }
        _ => {
            let keys: Vec<(&[u8], u8)> = if r.chance(1, 2) { vec![(b"another key of the file", *r.pick(&HASHES)), (&k, *r.pick(&HASHES))] } else { vec![(&k, *r.pick(&HASHES))] };
            let m = make(r, 5, f.algo, true, &keys, &pt[..pt.len().min(100)]);
            put(&mut fs, m, false);
            let hn = hash_name(*r.pick(&HASHES));
            match base {
                "kadd" | "kchg" => { secrets.push(("a new raw key", k2.clone())); drive(&[line(&[base, "/w/in", &pct(&used), &pct(&k2), hn])]) }
                _ => drive(&[line(&[base, "/w/in", &pct(&used)])]),
            }
        }
    };
    c.say(format!("{kind} key by {}, {n} bytes {f:?} {}", g.how, if wrong { "wrong key" } else { "" }));
    let mut p = plan(r, fs, argv);
    g.put(&mut p);
    Op { kind, base, g, plan: p, secrets, token, given, n, f, det }
}
pub fn c20(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let Op { kind, base, g, plan: mut p, mut secrets, token, given, n, f, .. } = keyed(c, &mut r);
    let clean = c.plain(&p)?;
    // here the master key is content, elsewhere it is inside the cipher
    if let (Some(m), "kadd" | "kchg" | "kdel" | "kver") = (&given, base) { secrets.push(("the decrypted master key", m.mk.to_vec())) }
    else if let (Some(m), true) = (&given, f.algo != Algo::X) { secrets.push((OWN_KEY, m.mk.to_vec())) } // XChaCha20 keeps it in as small a block as everybody else
    if matches!(base, "enc" | "encrypt" | "dec" | "decrypt") && n >= 64 { secrets.push(("plaintext", token)) }
    p.secrets = secrets.iter().map(|s| s.1.clone()).collect();
    let names: Vec<&str> = secrets.iter().map(|s| s.0).collect();
    let check = |x: &Run| -> Result<(), String> {
        let l = x.o.leaks.iter().find(|l| {
            // the buffer of standard input, which belongs to the standard library
            if l.how == 2 && g.how == "standard input" && l.size >= 8192 { return false }
            // inside a cipher there is a copy of the key
            if names[l.secret as usize] == OWN_KEY && l.size > 72 { return false }
            true
        });
        if let Some(l) = l { return Err(format!("{kind}: {} was left in {} bytes of memory that were {}", names[l.secret as usize], l.size, match l.how { 0 => "released", 1 => "given up for a larger block", _ => "never released" })); }
        Ok(())
    };
    let x = c.exp(p.clone(), &check)?;
    c.st.count("blocks_of_memory_searched", x.o.freed);
    let t = targets(&clean);
    for _ in 0..if c.deep { 30 } else { 8 } {
        let mut p = p.clone();
        match r.below(4) {
            0 => p.auto = chunky(&mut r),
            _ => { let Some(e) = aim(&mut r, &t) else { break }; p.faults = vec![Fault { op: e.op, k: FK::Err(errno(&mut r, e.kind)) }]; if r.chance(1, 4) { p.auto = chunky(&mut r) } }
        }
        let x = c.exp(p, &check)?;
        c.st.count("blocks_of_memory_searched", x.o.freed);
    }
    Ok(())
}

/// how a secret might be written down
fn spelled(s: &[u8]) -> Vec<Vec<u8>> {
    let s = &s[..s.len().min(12)];
    let list = |f: &dyn Fn(&u8) -> String, sep: &str| s.iter().map(f).collect::<Vec<_>>().join(sep).into_bytes();
    const B: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let b64 = |alt: bool| s.chunks(3).filter(|c| c.len() == 3).flat_map(|c| { let v = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32; (0..4).map(move |i| match B[(v >> (18 - 6 * i)) as usize & 63] { b'+' if alt => b'-', b'/' if alt => b'_', x => x }) }).collect::<Vec<u8>>();
    vec![s.to_vec(), list(&|b| format!("{b:02x}"), ""), list(&|b| format!("{b:02X}"), ""), list(&|b| b.to_string(), ", "), list(&|b| b.to_string(), ","), list(&|b| b.to_string(), " "), list(&|b| format!("{b:02x}"), " "), list(&|b| format!("{b:02x}"), ":"),
        s.escape_ascii().to_string().into_bytes(), String::from_utf8_lossy(s).into_owned().into_bytes(), pct(s).into_bytes(), b64(false), b64(true)]
}
/// C25: keys and content are shown to nobody
pub fn c25(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let Op { kind, base, mut g, plan: mut p, secrets, token, given, n, det, .. } = keyed(c, &mut r);
    let making = matches!(base, "enc" | "encrypt" | "pack");
    // a passphrase that is made is for the user's eyes
    let auto = kind.starts_with("cli") && making && r.chance(1, 6);
    if auto {
        p.argv.retain(|a| a != "-k" && a != "key" && a != "-");
        p.argv.insert(2, r.pick(&["--auto", "--auto=9"]).to_string());
        p.env.clear(); p.tty.clear(); p.stdin.clear(); p.fs.retain(|e| e.path != "/w/key");
        g.how = "generated";
        c.say("a generated passphrase instead");
    }
    p.log_data = true;
    let used = secrets[0].1.clone();
    let mut find: Vec<(&str, Vec<u8>)> = vec![];
    if !auto { for (what, s) in &secrets { for v in spelled(s) { find.push((what, v)) } } }
    // what follows from a key that opens something
    let derived = |hdr: &[u8], find: &mut Vec<(&'static str, Vec<u8>)>, keys: &[&[u8]]| {
        let Some(h) = parse(hdr) else { return };
        for k in keys {
            for s in &h.slots { if let Some(x) = kdf(s.hash, k, &s.salt) { for v in spelled(&x) { find.push(("a derived key", v)) } } }
            if let Some(m) = master(&h, k) { for v in spelled(&m) { find.push(("the master key", v)) } }
        }
    };
    if let Some(m) = &given { for v in spelled(&m.mk) { find.push(("the master key", v)) } derived(&m.hdr, &mut find, &[&used]); }
    let clear = n >= 64;
    let content = |p: &[u8]| match base { "dec" | "decrypt" => p == b"/w/out", "unpack" => p.starts_with(b"/w/o") || p.starts_with(b"/tmp/"), "pack" => p.starts_with(b"/tmp/"), _ => false };
    let has = |b: &[u8], w: &[u8]| w.len() >= 8 && b.len() >= w.len() && b.windows(w.len()).any(|x| x == w);
    type Found<'a> = (&'a str, Vec<u8>);
    // one pass over the bytes for all that is looked for
    fn first<'a, 'b>(b: &[u8], find: &'b [Found<'a>], ix: &std::collections::HashMap<&[u8], Vec<usize>>) -> Option<&'b Found<'a>> {
        b.windows(8).enumerate().find_map(|(i, w)| ix.get(w)?.iter().map(|&j| &find[j]).find(|f| b[i..].starts_with(&f.1)))
    }
    let check = |x: &Run| -> Result<(), String> {
        let mut find = find.clone();
        let all = format!("{}{}", x.stdout(), String::from_utf8_lossy(&x.o.stderr));
        let mut shown = None;
        if auto { if let Some(k) = all.lines().find_map(|l| l.split_once("passphrase is: ").map(|x| x.1.trim().to_string())) { for v in spelled(k.as_bytes()) { find.push(("the generated passphrase", v)) } shown = Some(k) } }
        let keys: Vec<Vec<u8>> = shown.iter().map(|k| k.clone().into_bytes()).chain(secrets.iter().map(|s| s.1.clone())).collect();
        let keys: Vec<&[u8]> = keys.iter().map(|k| &k[..]).collect();
        // keys of what was made just now
        if making { if let Some(b) = x.file(if det { "/w/hdr" } else { "/w/out" }) { derived(b, &mut find, &keys) } } else if base.starts_with('k') { if let Some(b) = x.file("/w/in") { derived(b, &mut find, &keys) } }
        let mut ix: std::collections::HashMap<&[u8], Vec<usize>> = Default::default();
        for (j, f) in find.iter().enumerate() { if f.1.len() >= 8 { ix.entry(&f.1[..8]).or_default().push(j) } }
        for e in &x.o.trace {
            if e.kind == op::STDIN && e.off >> 32 & 1 == 1 && e.off >> 33 & 1 == 1 { return Err(format!("{kind}: the terminal shows what is typed as a key")); }
            if !e.text.is_empty() && matches!(e.kind, op::OPEN | op::MKDIR | op::RENAME | op::LINK) { if let Some(f) = first(&e.text, &find, &ix) { return Err(format!("{kind}: {} is in the name of a file", f.0)); } }
            // O_CREAT: the directory for temporary files is everybody's
            if e.kind == op::OPEN && e.ret >= 0 && e.off & 0o100 != 0 && abs(&e.text).starts_with(b"/tmp/") && e.len & 0o077 & !0o022 != 0 { return Err(format!("{kind}: what is unpacked or packed can be read by other users in {}", String::from_utf8_lossy(&e.text))); }
        }
        if let Some(n) = x.o.notes.iter().find(|n| n.contains("terminal")) { return Err(format!("{kind}: {n}")); }
        // what was written, whole files at a time where it was written in parts
        let mut whole: std::collections::BTreeMap<u64, Vec<u8>> = Default::default();
        for e in &x.o.trace { if e.kind == op::WRITE && !e.data.is_empty() { let w = whole.entry(e.ino).or_default(); let end = e.off as usize + e.data.len(); if w.len() < end && end < 1 << 26 { w.resize(end, 0) } if end <= w.len() { w[e.off as usize..end].copy_from_slice(&e.data) } } }
        let inos: std::collections::BTreeMap<u64, Vec<u8>> = x.o.trace.iter().filter(|e| e.kind == op::OPEN && e.ret >= 0).map(|e| (e.ino, abs(&e.text))).collect();
        for (ino, w) in &whole {
            let name = inos.get(ino).cloned().unwrap_or_default();
            if let Some(f) = first(w, &find, &ix) { return Err(format!("{kind}: {} was written to {}", f.0, String::from_utf8_lossy(&name))); }
            if clear && !content(&name) && has(w, &token) { return Err(format!("{kind}: content was written to {} in the clear", String::from_utf8_lossy(&name))); }
        }
        // the answers of the driver repeat nothing
        let others: Vec<Found> = find.iter().filter(|f| f.0 != "the generated passphrase").cloned().collect();
        for out in [&x.o.stdout, &x.o.stderr] {
            if let Some(f) = others.iter().find(|f| has(out, &f.1)) { return Err(format!("{kind}: {} was shown", f.0)); }
            if clear { if let Some(v) = spelled(&token).iter().find(|v| has(out, v)) { return Err(format!("{kind}: content was shown, as {}", String::from_utf8_lossy(v))); } }
        }
        if let Some(k) = shown { if all.matches(&k).count() > 1 { return Err(format!("{kind}: the passphrase was shown twice")); } }
        Ok(())
    };
    let clean = c.exp(p.clone(), &check)?;
    let t = targets(&clean);
    for _ in 0..if c.deep { 30 } else { 8 } {
        let mut q = p.clone();
        match r.below(5) {
            0 => q.auto = chunky(&mut r),
            1 => { let Some(e) = aim(&mut r, &t) else { break }; q.faults = vec![Fault { op: e.op, k: crash(&mut r, e) }] }
            2 => q.capacity = 1 + r.below(4000),
            _ => { q.faults = random_faults(&mut r, &t); if r.chance(1, 4) { q.auto = chunky(&mut r) } }
        }
        c.exp(q, &check)?;
    }
    Ok(())
}
/// a path of the program, seen from the root
fn abs(p: &[u8]) -> Vec<u8> { if p.starts_with(b"/") { p.to_vec() } else { [b"/w/", p].concat() } }
