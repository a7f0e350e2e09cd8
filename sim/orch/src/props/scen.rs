//! Complete operations with their surroundings, for the properties that range over all of them.
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use proto::*;
use std::collections::BTreeMap;

/// what an output has to mean, where its bytes may legitimately differ between executions
#[derive(Clone)]
pub enum Sem {
    None,
    Enc { out: String, hdr: Option<String>, key: Vec<u8>, pt: Vec<u8> },
    Pack { out: String, hdr: Option<String>, key: Vec<u8>, tree: BTreeMap<String, Option<Vec<u8>>> },
    Keys { file: String, opens: Vec<Vec<u8>>, not: Vec<Vec<u8>>, payload: Vec<u8> },
}
pub struct Scen {
    pub name: &'static str,
    pub plan: Plan,
    pub key: Vec<u8>,
    pub sem: Sem,
    /// must not change, whatever happens
    pub inputs: Vec<String>,
    /// the operation changes this file in place
    pub target: Option<String>,
    pub must_ok: bool,
}
pub const KINDS: [&str; 25] = ["enc", "encdet", "dec", "decdet", "hash", "pack", "unpack", "erase", "erasedir", "dump", "restore", "strip", "kadd", "kchg", "kdel", "kver",
    "cli-encrypt", "cli-decrypt", "cli-hash", "cli-pack", "cli-unpack", "cli-erase", "cli-encrypt-erase", "cli-decrypt-erase", "cli-pack-erase"];

pub fn name(r: &mut Rng) -> String {
    if let Some(w) = crate::dict::word(r) { let w = match r.below(3) { 0 => w, 1 => format!("{w}{}", r.below(9)), _ => format!("n{}{w}", r.below(9)) }; if w.len() < 200 && w != "." && w != ".." { return w } }
    if let Some(n) = crate::dict::int(r, 1, 255) { return "k".repeat(n as usize) }
    match r.below(18) {
        // names that mean something elsewhere
        12 => r.pick(&[".DS_Store", "Thumbs.db", "desktop.ini", ".gitignore", ".git", "node_modules", "target", "core", "lost+found", "__MACOSX", "CON", "nul.txt", "aux", "~", "x.lnk", ".nfs0001", ".Trash", "proc", "tmp", "META-INF", "mimetype", "[Content_Types].xml", "index", "...", ".a.", "hdr", "out", "key"]).to_string(),
        13 => format!("f{}{}", r.below(20), r.pick(&["~", ".bak", ".tmp", ".swp", ".part", ".lock", ".enc", ".zip", ".vol", ".", " ", "  ", ".zst", "#", "$"])),
        14 => format!("{}f{}", r.pick(&[" ", "~", "#", "$", "%", "._", "@", "+", "=", "\t", "\x01", "\u{7f}", "\u{feff}", "\u{202e}"]), r.below(20)),
        15 => format!("{}{}", r.pick(&["F", "f", "READme", "readME", "é", "e\u{301}", "ß", "SS", "ss", "ſ", "K", "k", "\u{212a}"]), r.below(4)),
        16 => format!("a{}b{}", r.pick(&[":", "*", "?", "\"", "<", ">", "|", "%2e", "&", ";", "'", "`", "$(x)", "C:", "::$DATA", "..", "=", ","]), r.below(9)),
        17 => format!("{}{}", r.below(5), "é".repeat(r.range(1, 120) as usize)),
        0 => format!(".h{}", r.below(50)),
        1 => format!("sp ace {}", r.below(50)),
        2 => format!("ünï-{}", r.below(50)),
        3 => format!("n{}.tar.gz", r.below(50)),
        4 => format!("..{}", r.below(9)),
        5 => format!("-{}", r.below(50)),
        6 => format!("{}{}", "L".repeat(r.range(50, 200) as usize), r.below(50)),
        _ => format!("f{}", r.below(300)),
    }
}
/// a directory tree below `root` (which is included)
pub fn tree(r: &mut Rng, root: &str, max: u64, big: bool) -> Vec<FSEntry> {
    let mut v = vec![dir(root)];
    let mut dirs = vec![root.to_string()];
    let mut used = std::collections::HashSet::new();
    // now and then many files in one directory, or directories far down in each other
    let shape = if max < 9 { 2 } else { r.below(25) };
    let few = if max < 9 { None } else { crate::dict::int(r, 1, 300) };
    let n = if let Some(n) = few { n as u64 } else { match shape { 0 => r.range(60, 300), 1 => r.range(9, 40), _ => r.below(max + 1) } };
    let (mut at, mut i) = (root.to_string(), 0);
    if shape == 1 { for _ in 0..n { at = format!("{at}/{}", r.pick(&["d", ".e", "ff", "g h"])); v.push(dir(&at)); dirs.push(at.clone()); if r.chance(1, 4) { let b = r.bytes(20); v.push(file(&format!("{at}/f{n}"), b)) } } let b = r.bytes(40); v.push(file(&format!("{at}/deepest"), b)); }
    if shape == 0 { at = r.pick(&[root.to_string(), format!("{root}/many")]).clone(); if at != root { v.push(dir(&at)) } }
    for _ in 0..n {
        if shape == 1 { break }
        if shape == 0 { i += 1; let l = r.below(90) as usize; let b = r.bytes(l); let p = format!("{at}/w{i}"); if r.chance(1, 20) { v.push(dir(&p)) } else { v.push(file(&p, b)) } continue; }
        let d = r.pick(&dirs).clone();
        let nm = name(r);
        let p = format!("{d}/{nm}");
        if !used.insert(p.clone()) || p.len() > 600 { continue; }
        // the same name in other letters
        if r.chance(1, 20) { let t = if r.chance(1, 2) { nm.to_uppercase() } else { nm.to_lowercase() }; let q = format!("{d}/{t}"); if t != nm && used.insert(q.clone()) { let b = r.bytes(30); v.push(file(&q, b)) } }
        if r.chance(1, 3) { v.push(dir(&p)); dirs.push(p) } else { let n = if big && r.chance(1, 12) { size(r, true) } else { match r.below(4) { 0 => 0, 1 => r.below(30) as usize, _ => r.below(5000) as usize } }; { let b = content(r, n); v.push(file(&p, b)) } }
    }
    v
}
/// the tree as an archive names it: relative to `base`
pub fn rel(fs: &[FSEntry], base: &str) -> BTreeMap<String, Option<Vec<u8>>> {
    fs.iter().filter_map(|e| {
        let n = e.path.strip_prefix(base)?.trim_start_matches('/').to_string();
        if n.is_empty() { return None; }
        match &e.spec { FileSpec::File(b) => Some((n, Some(b.clone()))), FileSpec::Dir => Some((n, None)), _ => None }
    }).collect()
}
pub fn zip_of(t: &BTreeMap<String, Option<Vec<u8>>>) -> Vec<u8> {
    let e: Vec<ZEnt> = t.iter().map(|(n, d)| ZEnt { name: if d.is_none() { format!("{n}/").into_bytes() } else { n.clone().into_bytes() }, data: d.clone().unwrap_or_default(), dir: d.is_none(), symlink: false }).collect();
    zip(&e)
}
fn junk(r: &mut Rng, p: &str) -> FSEntry { let n = r.range(1, 6000) as usize; file(p, r.bytes(n)) }

pub fn scen(r: &mut Rng, kind: &'static str, big: bool) -> Scen {
    let k = text_key(r).into_bytes();
    let bigger = big && r.chance(1, 3);
    let stream = r.chance(2, 3);
    let n = size(r, bigger);
    let pt = content(r, n);
    let f = Fmt::writable(r);
    let mut fs: Vec<FSEntry> = vec![];
    let mut sem = Sem::None;
    let mut inputs: Vec<String> = vec![];
    let mut target = None;
    let mut env = vec![];
    let mut tty = vec![];
    let base = kind.strip_prefix("cli-").unwrap_or(kind);
    let iscli = base.len() != kind.len();
    let mut cliargs: Vec<String> = vec![];
    if iscli {
        if r.chance(3, 4) || base.starts_with("pack") && r.chance(1, 2) { fs.push(file("/w/key", k.clone())); inputs.push("/w/key".into()); cliargs.extend(["-k".into(), "key".into()]); }
        else if r.chance(1, 2) { env.push(("VOLARIS_KEY".to_string(), String::from_utf8(k.clone()).unwrap())); }
        else { loop { let g = give(r, &k, base.starts_with("encrypt") || base.starts_with("pack")); if !g.tty.is_empty() { tty = g.tty; break } } }
        cliargs.push("-f".into());
        if r.chance(1, 3) { cliargs.push("-H".into()); }
    }
    let over = r.chance(1, 3); // outputs exist already
    let mut lines: Vec<String> = vec![];
    let det = match kind { "encdet" | "decdet" => true, "enc" | "dec" => false, _ => r.chance(1, 3) };
    let h = if det { Some("/w/hdr".to_string()) } else { None };
    let mut argv: Option<Vec<String>> = None;
    let mut run_cli = |sub: &str, extra: &[&str], pos: &[&str]| {
        let mut a = vec!["cli".to_string(), sub.to_string()];
        a.extend(cliargs.iter().cloned());
        a.extend(extra.iter().map(|s| s.to_string()));
        a.extend(pos.iter().map(|s| s.to_string()));
        argv = Some(a);
    };
    match base {
        "enc" | "encdet" | "encrypt" | "encrypt-erase" => {
            fs.push(file("/w/in", pt.clone()));
            if over { fs.push(junk(r, "/w/out")); if det { fs.push(junk(r, "/w/hdr")) } }
            sem = Sem::Enc { out: "/w/out".into(), hdr: h.clone(), key: k.clone(), pt };
            if base != "encrypt-erase" { inputs.push("/w/in".into()); }
            if iscli {
                let mut x = vec![];
                if det { x.extend(["--header", "hdr"]) }
                if r.chance(1, 3) { x.push("--argon") }
                if r.chance(1, 3) { x.push("--aes") }
                if base == "encrypt-erase" { x.push(*r.pick(&["--erase", "--erase=2", "--erase=1"])) }
                run_cli("encrypt", &x, &["in", "out"]);
            } else { lines.push(enc_line("/w/in", "/w/out", h.as_deref(), &k, &f)); }
        }
        "dec" | "decdet" | "decrypt" | "decrypt-erase" => {
            let (ver, hid) = match r.below(4) { 0 => (r.range(1, 3) as u8, 0xA3), 1 => (4, 0xB4), _ => (5, *r.pick(&HASHES)) };
            let m = make(r, ver, f.algo, stream, &[(&k, hid)], &pt);
            if det { fs.push(file("/w/in", m.payload.clone())); fs.push(file("/w/hdr", m.hdr.clone())); inputs.push("/w/hdr".into()); } else { fs.push(file("/w/in", m.file())); }
            if base != "decrypt-erase" { inputs.push("/w/in".into()); }
            if over { fs.push(junk(r, "/w/out")) }
            if iscli {
                let mut x = vec![];
                if det { x.extend(["--header", "hdr"]) }
                if base == "decrypt-erase" { x.push(*r.pick(&["--erase", "--erase=2"])) }
                run_cli("decrypt", &x, &["in", "out"]);
            } else { lines.push(dec_line("/w/in", "/w/out", h.as_deref(), &k)); }
        }
        "hash" => {
            fs.push(file("/w/in", pt.clone()));
            inputs.push("/w/in".into());
            if iscli { let m = r.bytes(40); fs.push(file("/w/in2", m)); inputs.push("/w/in2".into()); argv = Some(cli(&["hash", "in", "in2"])); }
            else { lines.push(line(&["hash", "/w/in", &r.below(n as u64 + 2).to_string()])); }
        }
        "pack" | "pack-erase" => {
            let t = tree(r, "/w/src", 7, bigger);
            if base == "pack" { for e in &t { if matches!(e.spec, FileSpec::File(_)) { inputs.push(e.path.clone()) } } }
            let mut w = rel(&t, "/w");
            fs.extend(t);
            if !iscli { w = w.into_iter().map(|(n, d)| (format!("w/{n}"), d)).collect(); }
            if over { fs.push(junk(r, "/w/out")); if det { fs.push(junk(r, "/w/hdr")) } }
            sem = Sem::Pack { out: "/w/out".into(), hdr: h.clone(), key: k.clone(), tree: w };
            let comp = r.chance(1, 3);
            if iscli {
                let mut x = vec![];
                if det { x.extend(["--header", "hdr"]) }
                if comp { x.push("-z") }
                if r.chance(1, 4) { x.push("--aes") }
                if r.chance(1, 2) { x.push("-r") }
                if base == "pack-erase" { x.push("--erase") }
                run_cli("pack", &x, &["src", "out"]);
            } else { lines.push(pack_line("/w/out", h.as_deref(), &k, &f, comp, &["/w/src"])); }
        }
        "unpack" => {
            let t = tree(r, "/w/src", 7, bigger);
            let z = zip_of(&rel(&t, "/w"));
            let m = make(r, 5, f.algo, true, &[(&k, f.hash)], &z);
            if det { fs.push(file("/w/in", m.payload.clone())); fs.push(file("/w/hdr", m.hdr.clone())); inputs.push("/w/hdr".into()); } else { fs.push(file("/w/in", m.file())); }
            inputs.push("/w/in".into());
            if over {
                fs.push(dir("/w/out"));
                if let Some(e) = t.iter().find(|e| matches!(e.spec, FileSpec::File(_))) {
                    let p = e.path.replacen("/w/", "/w/out/", 1);
                    fs.push(junk(r, &p));
                }
            }
            if iscli {
                let mut x = vec![];
                if det { x.extend(["--header", "hdr"]) }
                if r.chance(1, 3) { x.push("-v") }
                run_cli("unpack", &x, &["in", "out"]);
            } else { lines.push(unpack_line("/w/in", h.as_deref(), &k, "/w/out")); }
        }
        "erase" => {
            let isdir = iscli && r.chance(1, 2);
            let n = n.min(20_000);
            if isdir { fs.extend(tree(r, "/w/in", 6, false)); } else { fs.push(file("/w/in", content(r, n))); }
            let bystander = r.bytes(300);
            fs.push(file("/w/other", bystander));
            inputs.push("/w/other".into());
            if iscli { let ps = format!("--passes={}", r.range(1, 3)); argv = Some(cli(&["erase", "-f", &ps, "in"])); } else { lines.push(line(&["erase", "/w/in", &r.range(0, 3).to_string()])); }
        }
        "erasedir" => {
            fs.extend(tree(r, "/w/in", 8, false));
            let bystander = r.bytes(300);
            fs.push(file("/w/other", bystander));
            inputs.push("/w/other".into());
            lines.push(line(&["erasedir", "/w/in", &r.range(0, 2).to_string()]));
        }
        _ => {
            // header and key operations on a file of our own making
            let keys: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|i| format!("key{i}-{}", text_key(r)).into_bytes()).collect();
            let ks: Vec<(&[u8], u8)> = keys.iter().map(|k| (&k[..], *r.pick(&HASHES))).collect();
            let ver = if matches!(base, "dump" | "strip" | "restore") { r.range(3, 5) as u8 } else { 5 };
            let m = make(r, ver, f.algo, true, if ver == 5 { &ks } else { &ks[..1] }, &pt);
            let new = b"the new key".to_vec();
            let old = r.pick(&keys).clone();
            let hn = hash_name(*r.pick(&HASHES));
            let mut stripped = m.file();
            for b in &mut stripped[..m.hdr.len()] { *b = 0 }
            match base {
                "dump" => { fs.push(file("/w/f", m.file())); inputs.push("/w/f".into()); if over { fs.push(junk(r, "/w/hdr")) } lines.push(line(&["dump", "/w/f", "/w/hdr"])); }
                "restore" => { fs.push(file("/w/f", stripped)); fs.push(file("/w/hdr", m.hdr.clone())); inputs.push("/w/hdr".into()); target = Some("/w/f".into()); lines.push(line(&["restore", "/w/hdr", "/w/f"])); }
                "strip" => { fs.push(file("/w/f", m.file())); target = Some("/w/f".into()); lines.push(line(&["strip", "/w/f"])); }
                "kver" => { fs.push(file("/w/f", m.file())); inputs.push("/w/f".into()); lines.push(line(&["kver", "/w/f", &pct(&old)])); }
                _ => {
                    fs.push(file("/w/f", m.file()));
                    target = Some("/w/f".into());
                    let rest: Vec<Vec<u8>> = keys.iter().filter(|k| **k != old).cloned().collect();
                    let (mut opens, not) = match base { "kadd" => (keys.clone(), vec![]), _ => (rest, vec![old.clone()]) };
                    if base != "kdel" { opens.push(new.clone()) }
                    sem = Sem::Keys { file: "/w/f".into(), opens, not, payload: m.payload.clone() };
                    lines.push(match base { "kdel" => line(&["kdel", "/w/f", &pct(&old)]), b => line(&[b, "/w/f", &pct(&old), &pct(&new), hn]) });
                }
            }
        }
    }
    let argv = argv.unwrap_or_else(|| drive(&lines));
    let mut p = plan(r, fs, argv);
    p.env = env;
    p.tty = tty;
    Scen { name: kind, plan: p, key: k, sem, inputs, target, must_ok: true }
}

fn sem_files(s: &Sem) -> Vec<String> {
    match s {
        Sem::None => vec![],
        Sem::Enc { out, hdr, .. } | Sem::Pack { out, hdr, .. } => { let mut v = vec![out.clone()]; v.extend(hdr.iter().cloned()); v }
        Sem::Keys { file, .. } => vec![file.clone()],
    }
}
pub fn open_out(x: &Run, out: &str, hdr: &Option<String>, key: &[u8]) -> Result<Vec<u8>, String> {
    let e = x.file(out).ok_or(format!("{out} is missing"))?;
    match hdr {
        Some(h) => decrypt(x.file(h).ok_or(format!("{h} is missing"))?, e, key),
        None => decrypt_file(e, key),
    }.ok_or(format!("{out} does not decrypt with its key"))
}
pub fn sem_holds(s: &Sem, x: &Run) -> Result<(), String> {
    match s {
        Sem::None => Ok(()),
        Sem::Enc { out, hdr, key, pt } => { let got = open_out(x, out, hdr, key)?; if got != *pt { return Err(format!("{out} decrypts to something else: {}", first_diff(pt, &got))); } Ok(()) }
        Sem::Pack { out, hdr, key, tree } => {
            let z = unzip(&open_out(x, out, hdr, key)?).ok_or(format!("{out} does not contain a readable archive"))?;
            for (n, d) in tree {
                match z.get(n) {
                    None => return Err(format!("the archive lacks {n}")),
                    Some(g) if g != d => return Err(format!("the archive has another {n}")),
                    _ => {}
                }
            }
            Ok(())
        }
        Sem::Keys { file, opens, not, payload } => {
            let b = x.file(file).ok_or("the file is gone")?;
            let h = parse(b).ok_or("the header is not readable")?;
            if &b[h.len..] != payload { return Err("the payload changed".into()); }
            for k in opens { if master(&h, k).is_none() { return Err(format!("key {} no longer opens the file", pct(k))); } }
            for k in not { if master(&h, k).is_some() { return Err(format!("key {} still opens the file", pct(k))); } }
            Ok(())
        }
    }
}
/// the results of a faulty execution that reported success, against those of a clean one
pub fn same_result(s: &Scen, clean: &Run, x: &Run) -> Result<(), String> {
    let (mut a, mut b) = (clean.tree("/w"), x.tree("/w"));
    let differs = tree_diff(&a, &b);
    if let Some(d) = differs {
        if matches!(s.sem, Sem::None) { return Err(d); }
        for f in sem_files(&s.sem) { if a.contains_key(&f) != b.contains_key(&f) { return Err(format!("{f} is missing or superfluous")); } a.remove(&f); b.remove(&f); }
        if let Some(d) = tree_diff(&a, &b) { return Err(d); }
        sem_holds(&s.sem, x)?;
        if let Sem::Keys { file, .. } = &s.sem { if clean.file(file).map(|b| b.len()) != x.file(file).map(|b| b.len()) { return Err("the file has another length".into()); } }
    } else if s.plan.argv[0] == "drive" || !s.name.contains("encrypt") && !s.name.contains("pack") {
        if digest_lines(clean) != digest_lines(x) { return Err(format!("reported {:?} instead of {:?}", digest_lines(x), digest_lines(clean))); }
    }
    Ok(())
}
/// what was reported, without prompts and progress
fn digest_lines(x: &Run) -> Vec<String> {
    let s = x.stdout();
    let mut v = vec![];
    for l in s.lines() {
        if l.starts_with("R\t") { v.push(l.to_string()); continue; }
        // a line with a digest in it
        if l.split(|c: char| !c.is_ascii_hexdigit()).any(|w| w.len() == 64) { v.push(l.to_string()); }
    }
    v
}
/// the system refuses one thread that a clean execution starts, or all from one on
pub fn refusal(r: &mut Rng, x: &Run) -> Option<Vec<Fault>> {
    let v: Vec<u64> = x.o.trace.iter().filter(|e| e.kind == op::SPAWN).map(|e| e.op).collect();
    if v.is_empty() { return None; }
    Some(vec![Fault { op: *r.pick(&v), k: if r.chance(1, 2) { FK::Err(libc::EAGAIN) } else { FK::Sticky(libc::EAGAIN) } }])
}
/// calls of a clean execution that a fault can be aimed at
pub fn targets(x: &Run) -> Vec<&Event> { x.o.trace.iter().filter(|e| !matches!(e.kind, op::MARK | op::SCHED | op::SPAWN | op::CLOSE | op::RNG)).collect() }
/// pick a call, rare kinds as often as frequent ones
pub fn aim<'a>(r: &mut Rng, t: &[&'a Event]) -> Option<&'a Event> {
    if t.is_empty() { return None; }
    if r.chance(1, 2) { return Some(*r.pick(t)); }
    let mut groups: BTreeMap<(u8, u64), Vec<&Event>> = BTreeMap::new();
    for e in t { groups.entry((e.kind, e.ino)).or_default().push(e) }
    let keys: Vec<_> = groups.keys().cloned().collect();
    let k = r.pick(&keys);
    let g = &groups[k];
    Some(match r.below(3) { 0 => g[0], 1 => g[g.len() - 1], _ => *r.pick(g) })
}
pub fn errno(r: &mut Rng, kind: u8) -> i32 {
    use libc::*;
    let v: &[i32] = match kind {
        op::WRITE => &[EIO, ENOSPC, EDQUOT, EFBIG], op::OPEN => &[EIO, EMFILE, ENOSPC, EACCES, ENFILE], op::MKDIR => &[EIO, ENOSPC, EACCES], op::UNLINK | op::RMDIR => &[EIO, EPERM, EBUSY, EROFS],
        op::FSYNC => &[EIO, ENOSPC, EDQUOT], op::TRUNC => &[EIO, ENOSPC, EPERM], op::STAT | op::REALPATH => &[EIO, EACCES, ENOMEM], _ => &[EIO, ENOMEM],
    };
    *r.pick(v)
}
