//! Properties about what the user is asked and says: consent to replacing files, and where the key comes from.
use super::faults::{crash, random_faults};
use super::scen::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use proto::*;
use std::collections::BTreeMap;

/// what the program makes of its standard input, one question after the other
struct Answers<'a> { b: &'a [u8] }
impl Answers<'_> {
    fn ask(&mut self, default: bool) -> Option<bool> {
        loop {
            let n = self.b.iter().position(|&b| b == b'\n').map(|n| n + 1).unwrap_or(self.b.len());
            let (l, rest) = self.b.split_at(n);
            self.b = rest;
            match std::str::from_utf8(l).ok()?.to_lowercase().chars().next()? { '\n' | '\r' => return Some(default), 'y' => return Some(true), 'n' => return Some(false), _ => {} }
        }
    }
}
fn answers(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let mood = r.below(4);
    for _ in 0..r.below(7) {
        let l: &[u8] = match mood {
            0 => r.pick(&[&b"y"[..], b"Y", b"yes", b"YES", b""]), 1 => r.pick(&[&b"n"[..], b"N", b"no", b"NO", b"No"]),
            _ => r.pick(&[&b"y"[..], b"Y", b"yes", b"", b"n", b"N", b"no", b"maybe", b"1", b"?", b"q", b"\xc3\xa9", b"0000000000000000000000000000000000000000000000"]),
        };
        v.extend(l);
        if r.chance(1, 40) { v.extend(b"\xff\xfe") }
        v.extend(if r.chance(1, 10) { &b"\r\n"[..] } else { b"\n" });
    }
    if r.chance(1, 8) { v.pop(); }
    v
}
fn untouched(x: &Run, e: &FSEntry) -> Result<(), String> {
    let s = x.snap(&e.path).ok_or(format!("{} is gone, although nobody agreed to that", e.path))?;
    if s.spec != e.spec { return Err(match (&e.spec, &s.spec) { (FileSpec::File(a), FileSpec::File(b)) => format!("{} was replaced, although nobody agreed to that: {}", e.path, first_diff(a, b)), _ => format!("{} was replaced, although nobody agreed to that", e.path) }); }
    if s.mode & 0o7777 != e.mode & 0o7777 { return Err(format!("the permissions of {} were changed, although nobody agreed to that", e.path)); }
    Ok(())
}

/// C22: existing files are replaced, and directories erased, only with consent
pub fn c22(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let k = text_key(&mut r).into_bytes();
    let cmd = *r.pick(&["encrypt", "encrypt", "decrypt", "decrypt", "pack", "pack", "pack-erase", "unpack", "unpack", "unpack", "erase"]);
    let force = r.chance(1, 8);
    let det = cmd != "erase" && r.chance(1, 2);
    let n = size(&mut r, false);
    let pt = content(&mut r, n);
    let f = Fmt::v5(&mut r);
    let stdin = if force && r.chance(1, 2) { vec![] } else { answers(&mut r) };
    let mut fs = vec![file("/w/key", k.clone())];
    let mut v = vec!["cli".to_string(), cmd.strip_suffix("-erase").unwrap_or(cmd).to_string()];
    if force { v.push("-f".into()) }
    if cmd != "erase" { v.extend(["-k".into(), "key".into()]) }
    if det { v.extend(["--header".into(), "hdr".into()]) }
    let mut ans = Answers { b: &stdin };
    // what exists and may be replaced only after a yes; None: nobody was asked or answered
    let mut guarded: Vec<(FSEntry, Option<bool>)> = vec![];
    let old = |r: &mut Rng, p: &str, fs: &mut Vec<FSEntry>| -> FSEntry {
        let n = match r.below(4) { 0 => 0, 1 => r.range(1, 100) as usize, _ => r.range(1, 9000) as usize };
        let mut e = file(p, r.bytes(n));
        if r.chance(1, 4) { e.mode = *r.pick(&[0o600, 0o444, 0o640]) }
        // the path may be a link to it
        if r.chance(1, 6) { let t = format!("/w/t{}", fs.len()); fs.push(link(p, &t)); e.path = t }
        fs.push(e.clone());
        e
    };
    let mut ok = true; // the operation is carried out
    let mut says_no = false;
    let tree_in = tree(&mut r, "/w/src", 6, false);
    let mut dirs: Vec<String> = vec![];
    match cmd {
        "encrypt" | "decrypt" | "pack" | "pack-erase" => {
            let m = make(&mut r, 5, f.algo, true, &[(&k, f.hash)], &pt);
            match cmd {
                "encrypt" => fs.push(file("/w/in", pt.clone())),
                "decrypt" => { if det { fs.push(file("/w/in", m.payload.clone())); fs.push(file("/w/hdr", m.hdr.clone())) } else { fs.push(file("/w/in", m.file())) } }
                _ => { fs.extend(tree_in.clone()); dirs.push("/w/src".into()); if r.chance(1, 4) { fs.push(dir("/w/src2")); fs.push(file("/w/src2/x", pt.clone())); dirs.push("/w/src2".into()) } }
            }
            if cmd == "pack-erase" { v.push("--erase".into()) }
            if cmd.starts_with("pack") { v.extend(dirs.iter().map(|d| d[3..].to_string())) } else { v.push("in".into()) }
            v.push("out".into());
            let mut outs = vec!["/w/out"];
            if det && cmd != "decrypt" { outs.push("/w/hdr") }
            for o in outs {
                if !r.chance(3, 4) { continue }
                let e = old(&mut r, o, &mut fs);
                let a = if !ok { None } else if force { Some(true) } else { ans.ask(true) };
                if a != Some(true) { ok = false; says_no |= a == Some(false); }
                guarded.push((e, a));
            }
            // a no to one of them is a no to all of it
            if !ok { for g in guarded.iter_mut() { g.1 = None } }
            if cmd == "pack-erase" {
                let mut go = ok;
                for d in &dirs {
                    let a = if !go { None } else if force { Some(true) } else { ans.ask(false) };
                    if a != Some(true) { go = false }
                    if a.is_none() { ok = false }
                    for e in fs.iter().filter(|e| e.path == *d || e.path.starts_with(&format!("{d}/"))) { guarded.push((e.clone(), a)) }
                }
            } else { for e in fs.iter().filter(|e| dirs.iter().any(|d| e.path.starts_with(d.as_str()))) { guarded.push((e.clone(), None)) } }
        }
        "unpack" => {
            let t = rel(&tree_in, "/w");
            let m = make(&mut r, 5, f.algo, true, &[(&k, f.hash)], &zip_of(&t));
            if det { fs.push(file("/w/in", m.payload.clone())); fs.push(file("/w/hdr", m.hdr.clone())) } else { fs.push(file("/w/in", m.file())) }
            v.extend(["in".into(), "out".into()]);
            let mut made = std::collections::BTreeSet::new();
            // in the order of the archive
            for (n, d) in &t {
                let p = format!("/w/out/{n}");
                if made.contains(&p) { if d.is_none() { if !force { ans.ask(true); } } continue }
                if !r.chance(1, 2) { continue }
                let mut up = String::from("/w/out");
                for part in std::iter::once("").chain(n.split('/').take(n.matches('/').count())) { if !part.is_empty() { up = format!("{up}/{part}") } if made.insert(up.clone()) { fs.push(dir(&up)); } }
                if d.is_none() { made.insert(p.clone()); fs.push(dir(&p)); }
                else { let e = old(&mut r, &p, &mut fs); made.insert(p); guarded.push((e, None)); }
            }
            // directories that exist are asked about too, so go through the archive again
            ans = Answers { b: &stdin };
            let mut stop = false;
            for (n, _) in &t {
                let p = format!("/w/out/{n}");
                if !made.contains(&p) { continue }
                let a = if force { Some(true) } else { ans.ask(true) };
                stop |= a.is_none();
                says_no |= a == Some(false);
                let own = fs.iter().find_map(|e| match &e.spec { FileSpec::Link(t) if e.path == p => Some(String::from_utf8_lossy(t).into_owned()), _ => None }).unwrap_or(p);
                if let Some(g) = guarded.iter_mut().find(|g| g.0.path == own) { g.1 = a }
            }
            ok = !stop;
        }
        _ => {
            fs.extend(tree_in.clone());
            v.push("src".into());
            let a = if force { Some(true) } else { ans.ask(false) };
            ok = a == Some(true);
            says_no = a == Some(false);
            for e in tree_in.iter() { guarded.push((e.clone(), a)) }
        }
    }
    // what nobody ever agrees to
    let bystander = file("/w/other", b"not a part of this".to_vec());
    fs.push(bystander.clone());
    guarded.push((bystander, None));
    let links: Vec<FSEntry> = fs.iter().filter(|e| matches!(e.spec, FileSpec::Link(_)) && !(cmd == "pack-erase" || cmd == "erase")).cloned().collect();
    c.say(format!("{v:?}, {} asked about, answers {:?}", guarded.iter().filter(|g| g.1.is_some()).count(), String::from_utf8_lossy(&stdin)));
    let readonly = guarded.iter().any(|g| g.0.mode & 0o200 == 0);
    let mut p = plan(&mut r, fs, v.clone());
    p.stdin = stdin.clone();
    let kept = |x: &Run| -> Result<(), String> { for (e, a) in &guarded { if *a != Some(true) { untouched(x, e)? } } for l in &links { untouched(x, l)? } Ok(()) };
    let erased_any = |x: &Run| guarded.iter().filter(|g| g.0.path.starts_with("/w/src") && g.1 == Some(true)).all(|g| x.snap(&g.0.path).is_none());
    let clean = c.exp(p.clone(), &|x| {
        kept(x)?;
        if !x.ended() { return Err(format!("does not end: {}", x.tail())); }
        if !ok || readonly { return Ok(()); }
        if !x.said_ok() { return Err(format!("failed, although there was consent: {}", x.tail())); }
        match cmd {
            "encrypt" => { let b = open_out(x, "/w/out", &det.then(|| "/w/hdr".to_string()), &k).or_else(|e| if links.is_empty() { Err(e) } else { Ok(pt.clone()) })?; if b != pt { return Err("the result is wrong, although there was consent".into()); } }
            "decrypt" => if links.is_empty() && x.file("/w/out") != Some(&pt[..]) { return Err("the result is wrong, although there was consent".into()); },
            "erase" | "pack-erase" => if !erased_any(x) { return Err("the directory was not erased, although there was consent".into()); },
            "unpack" => for (n, d) in rel(&tree_in, "/w") {
                let path = format!("/w/out/{n}");
                if links.iter().any(|l| l.path == path) || guarded.iter().any(|g| g.0.path == path && g.1 != Some(true)) || says_no && d.is_none() { continue }
                match (d, x.snap(&path)) { (None, Some(s)) if s.spec == FileSpec::Dir => {} (Some(d), Some(s)) if s.spec == FileSpec::File(d.clone()) => {} _ => return Err(format!("{path} was not restored, although there was consent")) }
            },
            _ => {}
        }
        Ok(())
    })?;
    let t = targets(&clean);
    if t.is_empty() { return Ok(()); }
    let mut rest = Answers { b: &stdin };
    let mut all_no = !force;
    while !rest.b.is_empty() { all_no &= rest.ask(true) != Some(true) }
    for _ in 0..if c.deep { 30 } else { 8 } {
        let mut q = p.clone();
        q.auto = if r.chance(1, 3) { chunky(&mut r) } else { Auto::default() };
        match r.below(6) {
            0 => { let e = aim(&mut r, &t).unwrap(); q.faults = vec![Fault { op: e.op, k: crash(&mut r, e) }] }
            1 => q.capacity = 1 + r.below(3000),
            2 => {}
            _ => q.faults = random_faults(&mut r, &t),
        }
        schedule(&mut r, &mut q.auto);
        c.exp(q, &|x| {
            // when a question is left out, or its answer could not be read, the answers go to other questions
            if cmd == "unpack" && !all_no && x.o.trace.iter().any(|e| e.fault && matches!(e.kind, op::STDIN | op::STAT) && e.ret < 0) { return Ok(()); }
            kept(x)
        })?;
    }
    Ok(())
}

/// C23: the key comes, whole, from the one source that the user named
pub fn c23(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let cmd = *r.pick(&["encrypt", "encrypt", "pack", "decrypt", "decrypt", "unpack"]);
    let making = cmd == "encrypt" || cmd == "pack";
    let n = size(&mut r, false);
    let pt = content(&mut r, n);
    let f = Fmt::v5(&mut r);
    let tr = tree(&mut r, "/w/src", 4, false);
    let det = r.chance(1, 4);
    let txt = |r: &mut Rng, i: usize| format!("{i}{}", text_key(r)).into_bytes();
    let (kf, ke, kt) = (if r.chance(1, 3) { odd_key(&mut r) } else { txt(&mut r, 1) }, txt(&mut r, 2), txt(&mut r, 3));
    let ke = if r.chance(1, 3) { odd_key(&mut r) } else { ke };
    if !environable(&ke) || ke == kt || kf == ke || kf == kt || !typable(&kt) || kf.len() > 60_000 { return Ok(()); }
    // which sources there are
    let (has_f, has_e, has_a, has_t) = (r.chance(1, 2), r.chance(1, 2), making && r.chance(1, 3), r.chance(2, 3));
    let pipe = has_f && r.chance(1, 3);
    let has_a = has_a && !has_f; // these two exclude each other
    let mut fs = vec![];
    let mut v = vec!["cli".to_string(), cmd.to_string(), "-f".into()];
    let mut env = vec![];
    let mut stdin = vec![];
    let mut tty = vec![];
    // a source that yields nothing
    let broken = r.chance(1, 4);
    let words = r.range(1, 9);
    if has_f {
        let kb = if broken { vec![] } else { kf.clone() };
        let missing = broken && !pipe && r.chance(1, 2);
        if pipe { v.extend(["-k".into(), "-".into()]); stdin = kb } else { v.extend(["-k".into(), "key".into()]); if missing { if r.chance(1, 2) { fs.push(dir("/w/key")) } } else { fs.push(file("/w/key", kb)) } }
    } else if r.chance(1, 2) {
        // sources that nobody named
        fs.push(file("/w/key", kf.clone()));
        if r.chance(1, 2) { stdin = kf.clone() }
    }
    if has_e { env.push(("VOLARIS_KEY".to_string(), if broken && !has_f { String::new() } else { path_str(&ke) })) }
    if has_a { v.push(match r.below(3) { 0 => "--auto".into(), _ => format!("--auto={words}") }) }
    if has_t {
        let last = !has_f && !has_e && !has_a;
        let (mut l, mut again): (Vec<u8>, Vec<u8>) = (kt.clone(), kt.clone());
        if broken && last { if making { again = b"something else".to_vec(); if r.chance(1, 2) { l = vec![]; again = vec![] } } else { l = vec![] } }
        tty.extend(&l); tty.push(b'\n');
        if making { tty.extend(&again); tty.push(b'\n') }
    }
    let want: Option<Vec<u8>> = if has_f { Some(kf.clone()) } else if has_e { Some(ke.clone()) } else if has_a { None } else { Some(kt.clone()) };
    let usable = if has_f || has_e { !broken } else if has_a { true } else { has_t && !broken };
    // the files are made for the key that counts, or for one that doesn't
    let others: Vec<&Vec<u8>> = [&kf, &ke, &kt].into_iter().filter(|k| Some(*k) != want.as_ref()).collect();
    let decoy = !making && r.chance(1, 2);
    let fk = if decoy { (*r.pick(&others)).clone() } else { want.clone().unwrap_or_else(|| kt.clone()) };
    match cmd {
        "encrypt" => fs.push(file("/w/in", pt.clone())),
        "pack" => fs.extend(tr.clone()),
        _ => {
            let body = if cmd == "unpack" { zip_of(&rel(&tr, "/w")) } else { pt.clone() };
            let m = make(&mut r, 5, f.algo, true, &[(&fk, f.hash)], &body);
            if det { fs.push(file("/w/in", m.payload.clone())); fs.push(file("/w/hdr", m.hdr.clone())) } else { fs.push(file("/w/in", m.file())) }
        }
    }
    if det { v.extend(["--header".into(), "hdr".into()]) }
    let old = if r.chance(1, 3) && cmd != "unpack" { let n = r.range(1, 4000) as usize; let b = r.bytes(n); fs.push(file("/w/out", b.clone())); Some(b) } else { None };
    v.extend([if cmd == "pack" { "src".into() } else { "in".to_string() }, "out".into()]);
    c.say(format!("{v:?}, sources: file {has_f} (pipe {pipe}), environment {has_e}, generated {has_a}, typed {has_t}; broken {broken}, made for another {decoy}"));
    let hdr = det.then(|| "/w/hdr".to_string());
    let src = tr.clone();
    let good = |x: &Run| -> Result<(), String> {
        // the result is there and belongs to the right key
        match cmd {
            "encrypt" | "pack" => {
                let k = match &want { Some(k) => k.clone(), None => format!("{}{}", x.stdout(), String::from_utf8_lossy(&x.o.stderr)).lines().find_map(|l| l.split_once("passphrase is: ").map(|x| x.1.trim().as_bytes().to_vec())).ok_or("the generated passphrase was not shown")? };
                let b = open_out(x, "/w/out", &hdr, &k).map_err(|m| format!("{m}, the one from the source that was named"))?;
                if cmd == "encrypt" && b != pt { return Err("the result is wrong".into()); }
                if cmd == "pack" { let z = unzip(&b).ok_or("no archive")?; if src.iter().filter(|e| matches!(e.spec, FileSpec::File(_))).count() != z.values().filter(|d| d.is_some()).count() { return Err("the archive is not complete".into()); } }
                Ok(())
            }
            _ if decoy => Err("a file was opened that was made for another key than the one named".into()),
            "decrypt" => if x.file("/w/out") == Some(&pt[..]) { Ok(()) } else { Err("the result is wrong".into()) },
            _ => {
                let got = x.tree("/w/out");
                let w: BTreeMap<String, FileSpec> = src.iter().map(|e| (e.path.replacen("/w", "/w/out", 1), e.spec.clone())).chain([("/w/out".to_string(), FileSpec::Dir)]).collect();
                match tree_diff(&w, &got) { Some(d) => Err(d), None => Ok(()) }
            }
        }
    };
    let check = |x: &Run| -> Result<(), String> {
        if x.said_ok() { return good(x); }
        // nothing that belongs to a key that wasn't asked for
        if making { for k in &others { if open_out(x, "/w/out", &hdr, k).is_ok() { return Err("the output was made with a key from another source than the one named".into()); } } }
        else if decoy && cmd == "decrypt" && !pt.is_empty() && x.file("/w/out").is_some_and(|b| !b.is_empty() && pt.starts_with(b)) && old.is_none() { return Err("content was decrypted with a key from another source than the one named".into()); }
        Ok(())
    };
    let mut p = plan(&mut r, fs, v);
    p.env = env;
    p.stdin = stdin;
    p.tty = tty;
    if r.chance(1, 2) { p.auto = chunky(&mut r) }
    let clean = c.exp(p.clone(), &|x| {
        if !x.ended() { return Err(format!("does not end: {}", x.tail())); }
        if usable && !decoy && !x.said_ok() { return Err(format!("failed, although the source that was named has the key: {}", x.tail())); }
        if !usable {
            if x.said_ok() { return Err(format!("reported success, although the source that was named has no key: {}", x.tail())); }
            if x.file("/w/out") != old.as_deref() { return Err("the output was created or changed, although the source that was named has no key".into()); }
        }
        check(x)
    })?;
    let t = targets(&clean);
    if t.is_empty() { return Ok(()); }
    // before the key is complete, more often than later
    let early: Vec<&Event> = t.iter().take(40).cloned().collect();
    for _ in 0..if c.deep { 30 } else { 8 } {
        let mut q = p.clone();
        let firsts: Vec<&&Event> = t.iter().filter(|e| matches!(e.kind, op::READ | op::STDIN) && e.ret > 1).take(3).collect();
        if !firsts.is_empty() && r.chance(1, 4) {
            // the transfer of a key breaks off
            let e = *r.pick(&firsts);
            q.faults = vec![Fault { op: e.op, k: FK::Short(1 + r.below(e.ret as u64 - 1)) }];
            // and may stay broken for a while
            for i in 1..=r.range(1, 3) { q.faults.push(Fault { op: e.op + i, k: FK::Err(errno(&mut r, op::READ)) }) }
        } else if r.chance(1, 4) { let e = aim(&mut r, &t).unwrap(); q.faults = vec![Fault { op: e.op, k: crash(&mut r, e) }] } else { let at = if r.chance(2, 3) { &early } else { &t }; q.faults = random_faults(&mut r, at) }
        c.exp(q, &check)?;
    }
    Ok(())
}

/// C27: output that cannot be written
pub fn c27(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let kind = *r.pick(&["cli-encrypt", "cli-decrypt", "cli-hash", "cli-pack", "cli-pack", "cli-unpack", "cli-unpack", "cli-erase", "cli-encrypt-erase", "cli-decrypt-erase", "cli-pack-erase"]);
    let mut s = scen(&mut r, kind, false);
    let p = &mut s.plan;
    let makes = kind.contains("encrypt") || kind.contains("-pack");
    let word = |p: &mut Plan, w: &str| if !p.argv.iter().any(|a| a == w) { p.argv.insert(2, w.into()) };
    if (kind.contains("pack")) && r.chance(2, 3) { word(p, "-v") }
    if !kind.contains("hash") && kind != "cli-erase" && r.chance(1, 2) { word(p, "-H") }
    let auto = makes && r.chance(1, 3);
    if auto {
        p.argv.retain(|a| a != "-k" && a != "key");
        p.argv.insert(2, r.pick(&["--auto", "--auto=4", "--auto=x"]).to_string());
        p.env.clear();
        p.tty.clear();
    }
    let asks = r.chance(1, 3) && p.argv.iter().any(|a| a == "-f");
    if asks { p.argv.retain(|a| a != "-f"); p.stdin = b"y\n".repeat(400) }
    let before = s.plan.fs.clone();
    c.say(format!("{kind} {:?}", s.plan.argv));
    let seen = |x: &Run| format!("{}{}", x.stdout(), String::from_utf8_lossy(&x.o.stderr));
    // whole lines only
    let shown = |x: &Run| -> Option<String> { let o = x.stdout(); let at = o.split_once("passphrase is: ")?.1; at.split_once('\n').map(|l| l.0.trim().to_string()) };
    let digests = |x: &Run| x.stdout().split_inclusive('\n').filter(|l| l.ends_with('\n') && l.split(|c: char| !c.is_ascii_hexdigit()).any(|w| w.len() == 64)).count();
    let questions = |x: &Run| -> Vec<String> { seen(x).split_inclusive('?').filter(|l| l.ends_with('?')).map(|l| l.rsplit('\n').next().unwrap_or(l).to_string()).filter(|l| l.len() > 5).collect() };
    let opens = |x: &Run, k: &str| -> Result<(), String> {
        let mut sem = s.sem.clone();
        match &mut sem { Sem::Enc { key, .. } | Sem::Pack { key, .. } => *key = k.as_bytes().to_vec(), _ => {} }
        sem_holds(&sem, x)
    };
    let clean = c.exp(s.plan.clone(), &|x| {
        if !x.said_ok() { return Err(format!("{kind} fails without any fault: {}", x.tail())); }
        if auto { let k = shown(x).ok_or("no passphrase was shown")?; opens(x, &k)? }
        Ok(())
    })?;
    let asked = questions(&clean);
    let check = |x: &Run, only: bool| -> Result<(), String> {
        // the library of random numbers gives up when the system has none
        if x.crashed() || x.o.trace.iter().any(|e| e.kind == op::RNG && e.ret < 0) { return Ok(()); }
        if x.panicked() { return Err(format!("{kind} crashed: its output could not be written: {}", x.tail())); }
        if !x.ended() { return Err(format!("{kind} does not end: {}", x.tail())); }
        if only {
            for e in &x.o.fs { if e.path.starts_with("/tmp/") { return Err(format!("{kind}: {} is left", e.path)); } }
            for g in &x.o.graves { if g.path.starts_with("/tmp/") && g.nonzero.iter().any(|(_, b)| b.windows(4).any(|w| w == b"PK\x03\x04" || w == b"PK\x01\x02")) { return Err(format!("{kind}: the space of {} was released with the archive still on the medium", g.path)); } }
        }
        let is = |p: &str| x.snap(p).is_some();
        if auto {
            match shown(x) {
                None => {
                    if x.said_ok() { return Err(format!("{kind} reported success, but nobody was shown the passphrase")); }
                    if let Some(e) = before.iter().find(|e| e.path.starts_with("/w/in") || e.path.starts_with("/w/src")) { if !is(&e.path) { return Err(format!("{} was erased, but nobody was shown the passphrase", e.path)); } }
                    for o in ["/w/out", "/w/hdr"] { let was = before.iter().find(|e| e.path == o).map(|e| &e.spec); if let Some(n) = x.snap(o) { if Some(&n.spec) != was && n.spec != FileSpec::File(vec![]) { return Err(format!("{o} was written, but nobody was shown the passphrase")); } } }
                }
                Some(k) => if x.said_ok() { opens(x, &k)? },
            }
        } else if x.said_ok() && !asks { same_result(&s, &clean, x).map_err(|m| format!("{kind} reported success although its output could not be written, and {m}"))?; }
        if x.said_ok() && digests(x) < digests(&clean) { return Err(format!("{kind} reported success, but nobody was shown the hash")); }
        if asks && !asked.is_empty() {
            let n = questions(x).len();
            let may = |p: &str| n > 0 && !(kind == "cli-pack-erase" && n < asked.len() && p.starts_with("/w/src"));
            for e in &before { if !may(&e.path) { untouched(x, e).map_err(|m| m.replace("nobody agreed to that", "nobody was shown the question"))? } }
        }
        Ok(())
    };
    let all: Vec<&Event> = clean.o.trace.iter().filter(|e| e.kind == op::MARK).collect();
    let any: Vec<&Event> = clean.o.trace.iter().filter(|e| e.kind != op::SCHED).collect();
    let t = targets(&clean);
    for _ in 0..if c.deep { 30 } else { 8 } {
        let mut q = s.plan.clone();
        let e = if !all.is_empty() && r.chance(3, 4) { *r.pick(&all) } else { *r.pick(&any) };
        let how = *r.pick(&[1, 1, 1, 2, 2, 3, 4, 5]);
        q.faults = vec![Fault { op: e.op, k: FK::Sticky(how * 1000 + *r.pick(&[libc::EPIPE, libc::EPIPE, libc::ENOSPC, libc::EIO])) }];
        let mut only = true;
        match r.below(6) {
            0 => { let e = aim(&mut r, &t).unwrap(); if e.op != q.faults[0].op { let k = if r.chance(1, 3) { crash(&mut r, e) } else { FK::Err(errno(&mut r, e.kind)) }; q.faults.push(Fault { op: e.op, k }); q.faults.sort_by_key(|f| f.op); only = false } }
            1 => q.auto = chunky(&mut r),
            _ => {}
        }
        schedule(&mut r, &mut q.auto);
        c.exp(q, &|x| check(x, only))?;
    }
    Ok(())
}
