//! C11, C12, C13: packing and unpacking.
use super::scen::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use proto::*;
use std::collections::BTreeMap;

/// suffixes of an absolute path, as prefixes an archive may use
fn suffixes(abs: &str) -> Vec<String> {
    let p: Vec<&str> = abs.split('/').filter(|s| !s.is_empty()).collect();
    (0..=p.len()).map(|i| p[i..].join("/")).collect()
}
fn join(a: &str, b: &str) -> String { if a.is_empty() { b.into() } else if b.is_empty() { a.into() } else { format!("{a}/{b}") } }
type Tree = BTreeMap<String, Option<Vec<u8>>>;
/// does `got` hold the directories, each below some suffix of its path, and no other files?
fn holds(got: &Tree, dirs: &[(String, Tree)]) -> Result<(), String> {
    let mut accounted: std::collections::HashSet<String> = Default::default();
    for (abs, want) in dirs {
        let mut why = String::new();
        let mut found = false;
        for s in suffixes(abs) {
            match want.iter().find(|(n, d)| got.get(&join(&s, n)) != Some(d)) {
                None if want.is_empty() && !s.is_empty() && !matches!(got.get(&s), Some(None)) => {}
                None => { found = true; for n in want.keys() { accounted.insert(join(&s, n)); } break }
                Some((n, _)) => { if why.is_empty() || s.len() > 1 { why = format!("{n} is {}", if got.contains_key(&join(&s, n)) { "different" } else { "missing" }) } }
            }
        }
        if !found && !(want.is_empty() && got.is_empty() ) { return Err(format!("{abs}: {why}")); }
    }
    if let Some((n, _)) = got.iter().find(|(n, d)| d.is_some() && !accounted.contains(*n)) { return Err(format!("{n} was never packed")); }
    Ok(())
}
fn tree_of(x: &Run, root: &str) -> Tree {
    x.tree(root).into_iter().filter_map(|(p, s)| { let n = p.strip_prefix(root)?.trim_start_matches('/').to_string(); if n.is_empty() { None } else { Some((n, match s { FileSpec::File(b) => Some(b), _ => None })) } }).collect()
}

/// C11: pack and unpack
pub fn c11(c: &mut Case) -> R {
    if c.seed % 12 == 5 { return super::hist::pack_hist(c) }
    let mut r = c.rng.clone();
    let big = r.chance(1, 6);
    let max = if c.deep { 24 } else { 10 };
    let ndirs = if r.chance(1, 4) { 2 } else { 1 };
    let mut fs = vec![dir("/o"), dir("/w/sub"), dir("/w/x")];
    let mut dirs: Vec<(String, Tree)> = vec![];
    let mut spelled: Vec<String> = vec![];
    let mut odd = false;
    let mut cwd = None;
    for i in 0..ndirs {
        let (abs, cands): (String, Vec<String>) = match r.below(6) {
            // the directory one is in, possibly empty
            0 if ndirs == 1 && r.chance(1, 2) => { cwd = Some("/w/here".to_string()); ("/w/here".into(), vec![".".into(), "./".into(), "./.".into()]) }
            0 if ndirs == 1 => ("/w".into(), vec![".".into(), "./".into(), "/w".into(), "../w".into(), "sub/..".into()]),
            1 => (format!("/w/x/dir{i}"), vec![format!("x/dir{i}"), format!("./x//dir{i}/"), format!("/w/x/dir{i}"), format!("sub/../x/dir{i}"), format!("x/../x/./dir{i}")]),
            _ => (format!("/w/src{i}"), vec![format!("src{i}"), format!("./src{i}"), format!("src{i}/"), format!("/w/src{i}"), format!("../w/src{i}"), format!("sub/../src{i}"), format!("../../w/src{i}/.")]),
        };
        let mut t = if abs == "/w" { vec![] } else { tree(&mut r, &abs, max, big) };
        if abs == "/w" { t = tree(&mut r, "/w/q", max, big); t.extend([dir("/w/sub"), dir("/w/x")]); }
        if r.chance(1, 10) { let n = r.pick(&["a\\b", "tail\\", "x\\..\\y", "c:d", "\\", "\\lead", "two\\\\", "nl\nin", "caf\u{f7e9}", "tab\t", "*?\"<>|"]).to_string(); odd |= n.ends_with('\\') || n.contains('\u{f7e9}'); t.push(file(&format!("{}/{n}", t[0].path), r.bytes(30))); }
        for e in &t { if !fs.iter().any(|f| f.path == e.path) { fs.push(e.clone()) } }
        dirs.push((abs.clone(), rel(&t, &abs)));
        spelled.push(r.pick(&cands).clone());
    }
    let comp = r.chance(1, 2);
    let iscli = r.chance(1, 3);
    let k = text_key(&mut r).into_bytes();
    let f = Fmt::v5(&mut r);
    let det = r.chance(1, 4);
    let hp = if det { Some("/o/hdr") } else { None };
    let ds: Vec<&str> = spelled.iter().map(|s| s.as_str()).collect();
    let argv = |sub: &str| -> Vec<String> {
        if iscli {
            let mut a = vec![sub, "-f", "-k", "/o/key"];
            if det { a.extend(["--header", "/o/hdr"]) }
            if sub == "pack" { if comp { a.push("-z") } a.push("-r"); a.extend(ds.iter().copied()); a.push("/o/enc"); } else { a.extend(["/o/enc", "/o/out"]) }
            cli(&a)
        } else if sub == "pack" { drive(&[pack_line("/o/enc", hp, &k, &f, comp, &ds)]) } else { drive(&[unpack_line("/o/enc", hp, &k, "/o/out")]) }
    };
    c.say(format!("{} entries, {:?}, zstd {comp}, detached {det}, command line {iscli}", dirs.iter().map(|d| d.1.len()).sum::<usize>(), spelled));
    fs.push(file("/o/key", k.clone()));
    let mut p = plan(&mut r, fs, argv("pack"));
    if let Some(d) = cwd { p.cwd = d }
    if r.chance(2, 3) { p.auto = chunky(&mut r) }
    let h = hp.map(String::from);
    let packed = |x: &Run, must: bool| -> Result<(), String> {
        if !x.said_ok() { return if must && !odd { Err(format!("packing fails without a fault: {}", x.tail())) } else { Ok(()) }; }
        let z = unzip(&open_out(x, "/o/enc", &h, &k)?).ok_or("the archive is not readable")?;
        holds(&z, &dirs).map_err(|m| format!("packing succeeded, but in the archive {m}"))
    };
    let x = c.exp(p.clone(), &|x| packed(x, true))?;
    let pt = targets(&x);
    for _ in 0..if c.deep { 10 } else { 3 } {
        let mut q = p.clone();
        let Some(e) = aim(&mut r, &pt) else { break };
        q.faults = vec![Fault { op: e.op, k: FK::Err(errno(&mut r, e.kind)) }];
        c.exp(q, &|x| packed(x, false).map_err(|m| format!("with a failing call: {m}")))?;
    }
    if !x.said_ok() { return Ok(()); }
    let mut fs = vec![dir("/o"), file("/o/key", k.clone()), file("/o/enc", x.file("/o/enc").unwrap().to_vec())];
    if det { fs.push(file("/o/hdr", x.file("/o/hdr").unwrap().to_vec())) }
    if r.chance(1, 3) {
        // something is there already
        fs.push(dir("/o/out"));
        let z = unzip(&open_out(&x, "/o/enc", &h, &k).unwrap_or_default()).unwrap_or_default();
        let v: Vec<&String> = z.iter().filter(|e| e.1.is_some()).map(|e| e.0).collect();
        if !v.is_empty() { let n = (*r.pick(&v)).clone(); fs.push(file(&format!("/o/out/{n}"), r.bytes(3000))); }
    }
    let unpacked = |x: &Run, must: bool| -> Result<(), String> {
        if !x.said_ok() { return if must && !odd { Err(format!("unpacking fails without a fault: {}", x.tail())) } else { Ok(()) }; }
        if !x.exists("/o/out") { return Err("unpacking succeeded, but there is no output directory".into()); }
        let got = tree_of(x, "/o/out");
        holds(&got, &dirs).map_err(|m| format!("unpacking succeeded, but {m}"))
    };
    let mut q = plan(&mut r, fs, argv("unpack"));
    let mut last = None;
    for _ in 0..if c.deep { 10 } else { 4 } {
        if r.chance(2, 3) { q.auto = chunky(&mut r) } else { q.auto = Auto::default() }
        schedule(&mut r, &mut q.auto);
        q.seed = r.next();
        last = Some(c.exp(q.clone(), &|x| unpacked(x, true))?);
    }
    let last = last.unwrap();
    let ut = targets(&last);
    for _ in 0..if c.deep { 16 } else { 5 } {
        let mut q = q.clone();
        let Some(e) = aim(&mut r, &ut) else { break };
        q.faults = vec![Fault { op: e.op, k: FK::Err(errno(&mut r, e.kind)) }];
        if r.chance(1, 6) { if let Some(f) = refusal(&mut r, &last) { q.faults = f } }
        c.exp(q, &|x| unpacked(x, false).map_err(|m| format!("with a failing call: {m}")))?;
    }
    Ok(())
}

/// C12: unpacking stays inside the output directory
pub fn c12(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut ents: Vec<ZEnt> = vec![];
    let mut safe: Tree = BTreeMap::new();
    let mut odd = false;
    let mut list = vec![];
    for i in 0..r.range(1, if c.deep { 14 } else { 8 }) {
        let l = r.below(400) as usize;
        let data = r.bytes(l);
        let hostile = r.chance(1, 2);
        if !hostile {
            let n = match r.below(5) { 0 => format!("s{i}"), 1 => format!("d{}/s{i}", r.below(3)), 2 => format!("d{}/e{}/s{i}", r.below(3), r.below(2)), 3 => format!(".hid{i}"), _ => format!("d{}/é {i}", r.below(3)) };
            let isdir = r.chance(1, 5);
            ents.push(ZEnt { name: if isdir { format!("{n}/") } else { n.clone() }.into_bytes(), data: if isdir { vec![] } else { data.clone() }, dir: isdir, symlink: false });
            safe.insert(n, if isdir { None } else { Some(data) });
            continue;
        }
        let v = ["victim", "evil", "w/victim", "key", "tmp/evil"];
        let tail = *r.pick(&v);
        let (n, o): (String, bool) = match r.below(16) {
            0 => (format!("../{tail}"), false), 1 => (format!("../../{tail}"), false), 2 => (format!("/{tail}"), true), 3 => (format!("/w/{tail}"), true), 4 => (format!("d0/../../{tail}"), false), 5 => (format!("a/b/../../../{tail}"), false),
            6 => (format!("..\\{tail}"), true), 7 => (format!("..\\..\\w\\{tail}"), true), 8 => (format!("./../{tail}"), false), 9 => (format!("d0/../{tail}"), true), 10 => (format!("nul\0/../../{tail}"), true), 11 => (".".into(), true), 12 => ("..".into(), false),
            13 => (format!("../out/{tail}"), false), 14 => (format!("../outside/{tail}"), false), _ => (format!("../out2{tail}"), false),
        };
        odd |= o;
        let isdir = r.chance(1, 5);
        let sym = r.chance(1, 6);
        list.push(n.clone());
        ents.push(ZEnt { name: if isdir { format!("{n}/") } else { n }.into_bytes(), data, dir: isdir, symlink: sym });
    }
    if r.chance(1, 3) {
        // a link, and a file through it
        odd = true;
        let to = *r.pick(&["/w", "..", "/w/victim", "../victim", "/"]);
        ents.push(ZEnt { name: b"lnk".to_vec(), data: to.as_bytes().to_vec(), dir: false, symlink: true });
        ents.push(ZEnt { name: if r.chance(1, 2) { b"lnk/victim".to_vec() } else { r.pick(&[&b"lnk"[..], b"./lnk", b"d0/../lnk", b"lnk/.", b".//lnk", b"./d0/../lnk"]).to_vec() }, data: b"evil".to_vec(), dir: false, symlink: false });
        list.push("lnk".into());
    }
    if r.chance(1, 2) { for i in (1..ents.len()).rev() { let j = r.below(i as u64 + 1) as usize; ents.swap(i, j) } }
    // a file where another entry needs a directory
    let files: Vec<&String> = safe.iter().filter(|e| e.1.is_some()).map(|e| e.0).collect();
    if safe.keys().any(|k| files.iter().any(|f| k.starts_with(&format!("{f}/")))) { odd = true }
    let z = zip(&ents);
    let k = text_key(&mut r).into_bytes();
    let f = Fmt::v5(&mut r);
    let m = make(&mut r, 5, f.algo, true, &[(&k, f.hash)], &z);
    let iscli = r.chance(1, 3);
    let outdir = *r.pick(&["/w/out", "/w/deep/er/out", "/w/out"]);
    let mut fs = vec![file("/w/enc", m.file()), file("/w/key", k.clone()), file("/w/victim", r.bytes(80)), dir("/w/outside"), file("/w/outside/victim", r.bytes(20)), file("/victim", r.bytes(30)), file("/key", r.bytes(3)), file("/w/evil", r.bytes(30)), dir("/w/deep"), file("/w/deep/victim", r.bytes(30))];
    if r.chance(1, 2) { fs.push(dir(outdir)) }
    let argv = if iscli { cli(&["unpack", "-f", "-k", "key", "enc", outdir]) } else { drive(&[unpack_line("/w/enc", None, &k, outdir)]) };
    c.say(format!("{} safe entries, odd {odd}, hostile {list:?}, command line {iscli}", safe.len()));
    let mut p = plan(&mut r, fs.clone(), argv);
    let check = |x: &Run, must: bool| -> Result<(), String> {
        for e in &fs { if !e.path.starts_with(outdir) && x.snap(&e.path).map(|s| &s.spec) != Some(&e.spec) { return Err(format!("{} outside of the output directory was changed or removed", e.path)); } }
        for s in &x.o.fs {
            let below = s.path == outdir || s.path.starts_with(&format!("{outdir}/")) || outdir.starts_with(&format!("{}/", s.path));
            if below || fs.iter().any(|e| e.path == s.path || e.path.starts_with(&format!("{}/", s.path))) || matches!(s.path.as_str(), "/" | "/w" | "/tmp") { continue; }
            if x.crashed() && s.path.starts_with("/tmp/") || s.path == "/tmp" { continue; }
            if s.path.starts_with("/tmp/") && !must { continue; }
            return Err(format!("{} appeared outside of the output directory", s.path));
        }
        // nothing outside was touched even for a moment
        for e in &fs { if matches!(e.spec, FileSpec::File(_)) { if let Some(ino) = x.ino0(&e.path) { if let Some(t) = x.o.trace.iter().find(|t| t.ino == ino && matches!(t.kind, op::WRITE | op::TRUNC) && !e.path.starts_with(outdir)) { return Err(format!("{} was written to (call {})", e.path, t.op)); } } } }
        if x.said_ok() || must && !odd {
            if !x.said_ok() { return Err(format!("unpacking fails without a fault: {}", x.tail())); }
            if odd { return Ok(()); }
            for (n, d) in &safe {
                match (d, x.snap(&format!("{outdir}/{n}")).map(|s| &s.spec)) { (None, Some(FileSpec::Dir)) => {} (Some(a), Some(FileSpec::File(b))) if a == b => {} _ => return Err(format!("the safe entry {n} was not restored")) }
            }
        }
        Ok(())
    };
    let mut clean = None;
    for _ in 0..if c.deep { 8 } else { 3 } {
        schedule(&mut r, &mut p.auto);
        p.seed = r.next();
        clean = Some(c.exp(p.clone(), &|x| check(x, true))?);
    }
    let clean = clean.unwrap();
    let t = targets(&clean);
    for _ in 0..if c.deep { 12 } else { 4 } {
        let mut q = p.clone();
        let Some(e) = aim(&mut r, &t) else { break };
        q.faults = vec![Fault { op: e.op, k: match r.below(5) { 0 => FK::Kill, 1 => FK::Power(r.next()), _ => FK::Err(errno(&mut r, e.kind)) } }];
        c.exp(q, &|x| if x.said_ok() { check(x, false) } else { check(x, false) })?;
    }
    Ok(())
}

/// C13: nothing readable is left in temporary storage
pub fn c13(c: &mut Case) -> R {
    if c.seed % 12 == 5 { return super::hist::pack_hist(c) }
    let mut r = c.rng.clone();
    let kind = *r.pick(&["pack", "unpack", "cli-pack", "cli-unpack"]);
    let unpacking = kind.ends_with("unpack");
    let big = r.chance(1, 5);
    // recognisable plaintext
    let mut t = tree(&mut r, "/w/src", 6, big);
    t.push(file("/w/src/canary", vec![0; 600]));
    for e in &mut t { if let FileSpec::File(b) = &mut e.spec { *b = r.bytes(b.len()) } }
    let mut marks: Vec<Vec<u8>> = vec![];
    for e in &t { if let FileSpec::File(b) = &e.spec { for w in b.chunks(700) { if w.len() >= 48 { marks.push(w[16..40].to_vec()) } } } }
    let k = text_key(&mut r).into_bytes();
    let f = Fmt::v5(&mut r);
    let comp = r.chance(1, 3);
    let mut fs = vec![file("/w/key", k.clone())];
    let mut bad = None;
    if unpacking {
        let z = zip_of(&rel(&t, "/w"));
        let mut z = z;
        if r.chance(1, 8) { let l = r.below(z.len() as u64) as usize; z.truncate(l); bad = Some("truncated archive") }
        let mut m = make(&mut r, 5, f.algo, true, &[(&k, f.hash)], &z);
        match r.below(8) {
            0 => { let i = m.payload.len() - 1 - r.below(30.min(m.payload.len() as u64)) as usize; m.payload[i] ^= 4; bad = Some("damaged input") }
            1 => { fs[0] = file("/w/key", b"wrong".to_vec()); bad = Some("wrong key") }
            2 => { fs.push(dir("/w/out")); fs.push(dir("/w/out/src")); fs.push(dir("/w/out/src/canary")); bad = Some("refused output") }
            3 => { fs.push(FSEntry { mode: 0o555, ..dir("/w/out") }); bad = Some("read-only output directory") }
            _ => {}
        }
        fs.push(file("/w/in", m.file()));
    } else { fs.extend(t.clone()); if r.chance(1, 8) { fs.iter_mut().find(|e| e.path == "/w/src/canary").unwrap().mode = 0; bad = Some("unreadable file") } }
    let kk = match &fs[0].spec { FileSpec::File(b) => b.clone(), _ => vec![] };
    let argv = match kind {
        "pack" => drive(&[pack_line("/w/out", None, &kk, &f, comp, &["/w/src"])]),
        "unpack" => drive(&[unpack_line("/w/in", None, &kk, "/w/out")]),
        "cli-pack" => { let mut a = vec!["pack", "-k", "key", "-r"]; if comp { a.push("-z") } a.extend(["src", "out"]); cli(&a) }
        _ => cli(&["unpack", "-k", "key", "-f", "in", "out"]),
    };
    c.say(format!("{kind}, {} files, zstd {comp}, {bad:?}", t.len()));
    let mut p = plan(&mut r, fs.clone(), argv);
    let set: std::collections::HashSet<&[u8]> = marks.iter().map(|m| &m[..]).collect();
    let readable = |b: &[u8]| b.windows(24).any(|w| set.contains(w));
    let check = |x: &Run| -> Result<(), String> {
        if !x.ended() { return Ok(()); }
        for s in &x.o.fs {
            if fs.iter().any(|e| e.path == s.path) || s.path == "/w/out" || s.path.starts_with("/w/out/") { continue; }
            if let FileSpec::File(b) = &s.spec {
                if readable(b) { return Err(format!("{} is left and holds plaintext", s.path)); }
                if s.path.starts_with("/tmp/") { return Err(format!("{} is left", s.path)); }
            }
        }
        for g in &x.o.graves {
            if g.path.starts_with("/w/out/") { continue; }
            for (at, b) in &g.nonzero { if readable(b) { return Err(format!("the space of {} was released with plaintext at {at} still on the medium", g.path)); } }
        }
        Ok(())
    };
    p.auto.writeback = *r.pick(&[0, 40, 600]);
    schedule(&mut r, &mut p.auto);
    if r.chance(1, 3) { let a = chunky(&mut r); p.auto = Auto { writeback: p.auto.writeback, preempt: p.auto.preempt, pct: p.auto.pct, ..a } }
    let clean = c.exp(p.clone(), &|x| { if bad.is_none() && !x.said_ok() { return Err(format!("fails without a fault: {}", x.tail())); } check(x) })?;
    // where the temporary file is and when it was last used
    let tmp = clean.o.trace.iter().find(|e| e.kind == op::OPEN && e.text.starts_with(b"/tmp/") && e.ret >= 0).cloned();
    let Some(tmp) = tmp else { return Ok(()) };
    let tino = clean.o.trace.iter().find(|e| e.op > tmp.op && e.ino != 0 && clean.o.graves.iter().any(|g| g.ino == e.ino && g.path.starts_with("/tmp/"))).map(|e| e.ino).unwrap_or(tmp.ino);
    let last_use = clean.o.trace.iter().filter(|e| e.ino == tino && e.kind == op::READ).map(|e| e.op).max().unwrap_or(0);
    let t = targets(&clean);
    for _ in 0..if c.deep { 40 } else { 14 } {
        let Some(e) = aim(&mut r, &t) else { break };
        let cleanup = e.op > last_use && (e.ino == tino || e.text.starts_with(b"/tmp/") || !bad.is_none());
        if cleanup || bad.is_some() && e.op > tmp.op { continue; }
        let mut q = p.clone();
        if r.chance(1, 8) { q.capacity = 1 + r.below(6000) } else { q.faults = vec![Fault { op: e.op, k: FK::Err(errno(&mut r, e.kind)) }] }
        c.exp(q, &|x| {
            // a fault that hit the clean-up after all, in another order of the threads
            let last = x.o.trace.iter().filter(|e| e.ino == tino && e.kind == op::READ).map(|e| e.op).max().unwrap_or(0);
            if x.o.trace.iter().any(|e| e.fault && e.ret < 0 && e.ret != -4 && (e.ino == tino && e.op > last && !matches!(e.kind, op::READ) || matches!(e.kind, op::UNLINK))) && x.o.faults.iter().all(|f| f.op > last) { return Ok(()); }
            check(x).map_err(|m| format!("after a failing call: {m}"))
        })?;
    }
    Ok(())
}
