//! C02, C07, C08, C19: every operation under every fault.
use super::scen::*;
use crate::model::BLOCK;
use crate::sim::*;
use crate::util::*;
use proto::*;

pub fn random_faults(r: &mut Rng, t: &[&Event]) -> Vec<Fault> {
    let mut v = vec![];
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..n {
        let Some(e) = aim(r, t) else { break };
        match r.below(10) {
            0 if matches!(e.kind, op::WRITE | op::READ | op::STDIN) => { let most = if e.kind != op::WRITE && r.chance(3, 4) { e.ret.max(0) as u64 } else { e.len }; v.push(Fault { op: e.op, k: FK::Short(1 + r.below(most.max(2) - 1)) }); for i in 1..=*r.pick(&[1, 1, 2, 3]) { v.push(Fault { op: e.op + i, k: FK::Err(errno(r, e.kind)) }) } }
            1 if e.kind == op::WRITE => v.push(Fault { op: e.op, k: FK::Sticky(errno(r, op::WRITE)) }),
            _ => v.push(Fault { op: e.op, k: FK::Err(errno(r, e.kind)) }),
        }
    }
    v
}

/// C02: success is never reported for an operation the storage failed
pub fn c02(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let kind = KINDS[(c.seed % KINDS.len() as u64) as usize];
    let s = scen(&mut r, kind, true);
    c.say(format!("{kind} {:?}", s.plan.argv));
    let clean = c.exp(s.plan.clone(), &|x| {
        if !x.said_ok() { return Err(format!("{kind} fails without any fault: {}", x.tail())); }
        sem_holds(&s.sem, x)
    })?;
    let t = targets(&clean);
    let runs = if c.deep { 40 } else { 14 };
    for _ in 0..runs {
        let mut p = s.plan.clone();
        if r.chance(1, 10) {
            let grown: u64 = t.iter().filter(|e| e.kind == op::WRITE).map(|e| e.len).sum::<u64>().max(2);
            p.capacity = 1 + r.below(grown);
        } else { p.faults = random_faults(&mut r, &t); }
        if r.chance(1, 6) { p.auto = chunky(&mut r); }
        if kind.contains("pack") || kind.contains("erase") { schedule(&mut r, &mut p.auto); }
        c.exp(p, &|x| {
            if !x.said_ok() { return Ok(()); }
            same_result(&s, &clean, x).map_err(|m| format!("{kind} reported success although a storage call failed, and {m}"))
        })?;
    }
    Ok(())
}

pub fn crash(r: &mut Rng, e: &Event) -> FK {
    match r.below(4) {
        0 => FK::Kill,
        1 if e.kind == op::WRITE => FK::KillMid(r.below(e.len + 1)),
        2 if e.kind == op::WRITE => FK::PowerMid(r.below(e.len + 1), r.next()),
        _ => FK::Power(r.next()),
    }
}
fn same_inputs(x: &Run, want: &[FSEntry]) -> Result<(), String> {
    for e in want {
        let Some(s) = x.snap(&e.path) else { return Err(format!("{} is gone", e.path)) };
        if s.spec != e.spec {
            return Err(match (&e.spec, &s.spec) { (FileSpec::File(a), FileSpec::File(b)) => format!("{} was changed: {}", e.path, first_diff(a, b)), _ => format!("{} was replaced", e.path) });
        }
        if s.mode & 0o7777 != e.mode & 0o7777 { return Err(format!("the permissions of {} were changed", e.path)); }
    }
    Ok(())
}

/// C07: inputs stay as they are
pub fn c07(c: &mut Case) -> R {
    if c.seed % 3 == 0 { return alias(c); }
    let mut r = c.rng.clone();
    let kinds = ["enc", "encdet", "dec", "decdet", "hash", "pack", "unpack", "erase", "erasedir", "dump", "kver", "restore", "cli-encrypt", "cli-decrypt", "cli-hash", "cli-pack", "cli-unpack", "cli-erase", "cli-encrypt-erase", "cli-decrypt-erase", "cli-pack-erase"];
    let kind = *r.pick(&kinds);
    let base_kind = kind.strip_prefix("cli-").unwrap_or(kind);
    let mut s = scen(&mut r, kind, false);
    // sometimes with an input that makes it fail
    if r.chance(1, 4) {
        let i: Vec<usize> = s.plan.fs.iter().enumerate().filter(|(_, e)| matches!(&e.spec, FileSpec::File(b) if !b.is_empty()) && s.inputs.contains(&e.path)).map(|x| x.0).collect();
        if !i.is_empty() {
            let i = *r.pick(&i);
            if let FileSpec::File(b) = &mut s.plan.fs[i].spec { let at = r.below(b.len() as u64) as usize; if r.chance(1, 2) { b[at] ^= 1 << r.below(8) } else { b.truncate(at) } }
        }
    }
    if kind.starts_with("cli") && r.chance(1, 4) { s.plan.argv.retain(|a| a != "-f"); s.plan.stdin = r.pick(&[&b"y\n"[..], b"n\n", b"", b"maybe\ny\ny\ny\n", b"\n\n\n\n"]).to_vec(); }
    if r.chance(1, 3) {
        // from another working directory, often one that is worked on
        let dirs: Vec<&str> = s.plan.fs.iter().filter(|e| e.spec == FileSpec::Dir).map(|e| &e.path[..]).collect();
        let cwd = if dirs.is_empty() || r.chance(1, 6) { "/".to_string() } else { r.pick(&dirs).to_string() };
        for a in s.plan.argv.iter_mut().skip(2) {
            if matches!(a.as_str(), "key" | "hdr" | "in" | "in2" | "out" | "src") {
                let to = format!("/w/{a}");
                *a = if r.chance(1, 2) { to } else { format!("{}{}", "../".repeat(cwd.matches('/').count() - (cwd == "/") as usize), &to[1..]) };
            }
        }
        s.plan.cwd = cwd;
    }
    c.say(format!("{kind} {:?} in {}", s.plan.argv, s.plan.cwd));
    let want: Vec<FSEntry> = s.plan.fs.iter().filter(|e| s.inputs.contains(&e.path)).cloned().collect();
    let check = |x: &Run| {
        same_inputs(x, &want).map_err(|m| format!("{kind}: {m}"))?;
        // nothing appears in a directory that is only read
        if base_kind == "pack" { if let Some(p) = x.tree("/w/src").keys().find(|p| !s.plan.fs.iter().any(|e| e.path == **p)) { return Err(format!("{kind}: {p} was put into the directory that is packed")); } }
        Ok(())
    };
    let clean = c.exp(s.plan.clone(), &check)?;
    let t = targets(&clean);
    if t.is_empty() { return Ok(()); }
    for _ in 0..if c.deep { 40 } else { 12 } {
        let mut p = s.plan.clone();
        p.auto.writeback = *r.pick(&[0, 0, 100, 800]);
        match r.below(6) {
            0 | 1 => { let e = aim(&mut r, &t).unwrap(); p.faults = vec![Fault { op: e.op, k: crash(&mut r, e) }] }
            2 => p.capacity = 1 + r.below(3000),
            _ => p.faults = random_faults(&mut r, &t),
        }
        schedule(&mut r, &mut p.auto);
        c.exp(p, &check)?;
    }
    Ok(())
}
fn alias(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let k = text_key(&mut r).into_bytes();
    let n = r.range(0, 5000) as usize;
    let pt = content(&mut r, n);
    let f = Fmt::v5(&mut r);
    let m = crate::model::make(&mut r, 5, f.algo, true, &[(&k, f.hash)], &pt);
    let cmd = *r.pick(&["encrypt", "decrypt", "pack"]);
    let det = r.chance(2, 3);
    let mut fs = vec![dir("/w/sub"), file("/w/key", k.clone()), link("/w/lsub", "sub"), link("/w/lroot", "/w")];
    let input = match cmd { "encrypt" => { fs.push(file("/w/in", pt)); "in" } "decrypt" => { fs.push(file("/w/in", if det { m.payload.clone() } else { m.file() })); if det { fs.push(file("/w/hdr", m.hdr.clone())) } "in" } _ => { fs.push(dir("/w/in")); fs.push(file("/w/in/x", pt)); "in" } };
    // which two arguments are the same file
    let mut pairs = vec![("out", "key")];
    if cmd != "pack" { pairs.push(("out", "in")) }
    if det { match cmd { "decrypt" => pairs.push(("out", "hdr")), _ => { pairs.push(("hdr", "key")); pairs.push(("hdr", "out")); if cmd == "encrypt" { pairs.push(("hdr", "in")) } } } }
    let (dst, src) = *r.pick(&pairs);
    let mut spell = |base: &str, fs: &mut Vec<FSEntry>, i: usize| -> String {
        match r.below(9) {
            7 if i == 1 && matches!(src, "key" | "in" | "hdr") && base == src && !(src == "in" && cmd == "pack") => { fs.push(hard("/w/hardlink", &format!("/w/{base}"))); "hardlink".into() }
            0 => format!("./{base}"), 1 => format!("/w/{base}"), 2 => format!("sub/../{base}"), 3 => format!("lsub/../{base}"), 4 => format!("lroot/{base}"), 5 => format!("/w//./{base}"),
            6 => { let l = format!("link{i}"); fs.push(link(&format!("/w/{l}"), base)); l }
            _ => base.into(),
        }
    };
    let target = if src == "out" { "res" } else { src };
    let a = spell(target, &mut fs, 1);
    let b = spell(target, &mut fs, 2);
    let arg = |w: &str| -> String { if w == dst { a.clone() } else if w == src { b.clone() } else if w == "in" { input.into() } else if w == "out" { "result".into() } else { w.into() } };
    if src == "out" && r.chance(1, 2) { fs.push(file("/w/res", vec![7; 50])); }
    let mut v = vec!["cli".to_string(), cmd.into(), "-f".into(), "-k".into(), arg("key")];
    if det { v.push("--header".into()); v.push(arg("hdr")); }
    v.push(arg("in"));
    v.push(arg("out"));
    if dst == "out" && src == "in" && a == b && cmd == "pack" { return Ok(()); }
    c.say(format!("{v:?}: {dst} is {src}"));
    let protect: Vec<FSEntry> = fs.iter().filter(|e| matches!(e.path.as_str(), "/w/in" | "/w/key" | "/w/in/x") || e.path == "/w/hdr" && cmd == "decrypt").cloned().collect();
    let p = plan(&mut r, fs, v);
    c.exp(p, &|x| {
        same_inputs(x, &protect)?;
        if x.said_ok() { return Err(format!("accepted an {} that is the same file as {}", if dst == "hdr" { "header" } else { "output" }, src)); }
        Ok(())
    })?;
    Ok(())
}

/// C08: with erase requested, the source goes only after the result is safe
pub fn c08(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let kind = *r.pick(&["cli-encrypt-erase", "cli-decrypt-erase", "cli-pack-erase"]);
    let mut s = scen(&mut r, kind, c.deep);
    if r.chance(1, 8) { s.plan.env.clear(); s.plan.fs.retain(|e| e.path != "/w/key" ); }
    if kind == "cli-pack-erase" && r.chance(1, 4) {
        // the result ends up in the directory that goes
        let sub = s.plan.fs.iter().filter(|e| e.spec == FileSpec::Dir && (e.path == "/w/src" || e.path.starts_with("/w/src/"))).map(|e| e.path.clone()).collect::<Vec<_>>();
        let real = r.pick(&sub).clone();
        let which = if s.plan.argv.iter().any(|a| a == "hdr") && r.chance(1, 2) { "hdr" } else { "out" };
        let new = format!("{real}/res-{which}");
        let arg = match r.below(5) { 0 => new.clone(), 1 => format!("./{}", &new[3..]), 2 => format!("src/../{}", &new[3..]), 3 => { s.plan.fs.push(link("/w/lnk", &real)); format!("lnk/res-{which}") } _ => new[3..].to_string() };
        for a in s.plan.argv.iter_mut().skip(2) { if a == which { *a = arg.clone() } }
        for e in &mut s.plan.fs { if e.path == format!("/w/{which}") { e.path = new.clone() } }
        if let Sem::Pack { out, hdr, .. } = &mut s.sem { if which == "out" { *out = new } else { *hdr = Some(new) } }
    }
    c.say(format!("{kind} {:?}", s.plan.argv));
    let src: Vec<FSEntry> = s.plan.fs.iter().filter(|e| e.path == "/w/in" || e.path.starts_with("/w/src") && !e.path.contains("/res-") || kind == "cli-decrypt-erase" && e.path == "/w/hdr").cloned().collect();
    let sem = match &s.sem {
        // the decrypted content is what a decryption without erase produces
        Sem::None => {
            let mut p = s.plan.clone();
            p.argv.retain(|a| !a.starts_with("--erase"));
            let x = c.plain(&p)?;
            if !x.said_ok() { return Ok(()); }
            Err(x.file("/w/out").map(|b| b.to_vec()).unwrap_or_default())
        }
        s => Ok(s.clone()),
    };
    let check = |x: &Run| {
        let Err(why) = same_inputs(x, &src) else { return Ok(()) };
        let safe = match &sem { Ok(s) => sem_holds(s, x), Err(pt) => if x.file("/w/out") == Some(pt) { Ok(()) } else { Err("the result is not complete".to_string()) } };
        safe.map_err(|m| format!("{kind}: neither is the source complete ({why}) nor the result ({m})"))
    };
    let clean = c.exp(s.plan.clone(), &check)?;
    let t = targets(&clean);
    if t.is_empty() { return Ok(()); }
    // calls from the first change of the source on matter most
    let inos: Vec<u64> = src.iter().filter_map(|e| clean.ino0(&e.path)).collect();
    let first = t.iter().position(|e| inos.contains(&e.ino) && matches!(e.kind, op::WRITE | op::TRUNC | op::UNLINK)).unwrap_or(t.len() / 2);
    for _ in 0..if c.deep { 60 } else { 16 } {
        let mut p = s.plan.clone();
        p.auto.writeback = *r.pick(&[0, 0, 30, 300, 900]);
        let late = r.chance(1, 2) && first > 3;
        let e = if late { let lo = first.saturating_sub(8); t[lo + r.below((t.len() - lo) as u64) as usize] } else { aim(&mut r, &t).unwrap() };
        match r.below(5) {
            0 | 1 => p.faults = vec![Fault { op: e.op, k: crash(&mut r, e) }],
            2 => {
                // an error first, a crash later
                p.faults = random_faults(&mut r, &t);
                let o = p.faults.iter().map(|f| f.op).max().unwrap_or(0) + 1 + r.below(40);
                p.faults.push(Fault { op: o, k: if r.chance(1, 2) { FK::Power(r.next()) } else { FK::Kill } });
            }
            3 if r.chance(1, 3) => p.capacity = 1 + r.below(3000),
            _ => p.faults = random_faults(&mut r, &t),
        }
        if r.chance(1, 4) { let a = chunky(&mut r); p.auto = Auto { writeback: p.auto.writeback, ..a }; }
        schedule(&mut r, &mut p.auto);
        c.exp(p, &check)?;
    }
    Ok(())
}

fn rng_failed(x: &Run) -> bool { x.o.trace.iter().any(|e| e.fault && (e.kind == op::RNG || e.text.windows(6).any(|w| w == b"random"))) }
fn ends_well(x: &Run, limit: u64) -> Result<(), String> {
    if rng_failed(x) { return Ok(()); }
    match x.o.end {
        End::Exit => {}
        End::StepLimit => return Err(format!("still not finished after {} calls", x.o.ops)),
        End::Deadlock => return Err("it waits for something that never comes".into()),
        End::Killed | End::Power => return Ok(()),
        e => return Err(format!("ended by {e:?}, code {} {}", x.code, x.real_err.chars().take(300).collect::<String>())),
    }
    if x.panicked() { return Err(format!("panicked: {}", x.tail())); }
    if x.o.ops > limit { return Err(format!("needed {} storage calls where {} are plenty", x.o.ops, limit)); }
    Ok(())
}
/// C19: every operation ends with a result or an error
pub fn c19(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let kind = KINDS[(c.seed % KINDS.len() as u64) as usize];
    let mut s = scen(&mut r, kind, true);
    let hostile = r.below(4);
    if hostile > 0 {
        let i: Vec<usize> = s.plan.fs.iter().enumerate().filter(|(_, e)| matches!(&e.spec, FileSpec::File(_)) && e.path != "/w/out").map(|x| x.0).collect();
        if !i.is_empty() {
            let main: Vec<usize> = i.iter().copied().filter(|i| matches!(s.plan.fs[*i].path.as_str(), "/w/in" | "/w/f" | "/w/hdr")).collect();
            let i = if main.is_empty() || r.chance(1, 5) { *r.pick(&i) } else { *r.pick(&main) };
            if let FileSpec::File(b) = &mut s.plan.fs[i].spec { mutate(&mut r, b) }
        }
    }
    if kind.ends_with("unpack") && r.chance(2, 3) {
        // a damaged archive, properly encrypted
        let t = tree(&mut r, "/w/src", 6, false);
        let mut z = zip_of(&rel(&t, "/w"));
        if r.chance(1, 2) { for _ in 0..r.range(1, 4) { mutate(&mut r, &mut z) } } else { for _ in 0..r.range(1, 3) { mutate_zip(&mut r, &mut z) } }
        let k = if kind.starts_with("cli") { s.key.clone() } else { s.plan.argv[1].split('\t').nth(3).unwrap_or("k").as_bytes().to_vec() };
        let m = crate::model::make(&mut r, 5, crate::model::Algo::X, true, &[(&k, 0xB5)], &z);
        s.plan.fs.retain(|e| e.path != "/w/in" && e.path != "/w/hdr");
        s.plan.fs.push(file("/w/in", if s.plan.argv.iter().any(|a| a.contains("hdr")) { m.payload.clone() } else { m.file() }));
        s.plan.fs.push(file("/w/hdr", m.hdr));
    }
    if kind.starts_with("cli") && r.chance(1, 3) {
        s.plan.argv.retain(|a| a != "-f");
        s.plan.stdin = match r.below(5) { 0 => vec![], 1 => b"y\ny\ny\ny\n".to_vec(), 2 => b"\xff\xfe\n".to_vec(), 3 => b"x\nn\n".to_vec(), _ => { let n = r.below(200) as usize; r.bytes(n) } };
        if r.chance(1, 3) { s.plan.argv.retain(|a| a != "-k" && a != "key"); s.plan.env.clear(); s.plan.tty = typing(&mut r, &s.key); if r.chance(1, 2) && !kind.contains("decrypt") && !kind.contains("unpack") && !kind.contains("hash") && !kind.ends_with("cli-erase") { s.plan.argv.insert(2, format!("--auto{}", r.pick(&["", "=0", "=3", "=-4", "=x"]))) } }
    }
    // what a directory may hold besides files
    let dirs: Vec<String> = s.plan.fs.iter().filter(|e| e.spec == FileSpec::Dir && (e.path.starts_with("/w/src") || e.path.starts_with("/w/in"))).map(|e| e.path.clone()).collect();
    if !dirs.is_empty() && !kind.contains("unpack") && r.chance(1, 3) {
        for i in 0..r.range(1, 3) {
            let d = r.pick(&dirs).clone();
            match r.below(5) { 0 => s.plan.fs.push(special(&format!("{d}/z{i}"), true)), 1 => { s.plan.fs.push(special("/w/pipe", false)); s.plan.fs.push(link(&format!("{d}/z{i}"), "/w/pipe")) } _ => s.plan.fs.push(special(&format!("{d}/z{i}"), false)) }
        }
        c.tag("pipes_in_the_directory");
    }
    c.say(format!("{kind} {:?} hostile {hostile}", s.plan.argv.iter().map(|a| a.chars().take(200).collect::<String>()).collect::<Vec<_>>()));
    let bytes: u64 = s.plan.fs.iter().map(|e| match &e.spec { FileSpec::File(b) => b.len() as u64 + 4096, _ => 4096 }).sum();
    let limit = 4000 + bytes / 16;
    let mut p = s.plan.clone();
    if r.chance(1, 2) { p.auto = chunky(&mut r) }
    let l2 = limit + p.auto.budget * 20;
    schedule(&mut r, &mut p.auto);
    p.max_ops = l2 * 2 + 10_000;
    if hostile > 0 { c.tag("damaged_input") }
    let clean = c.exp(p.clone(), &|x| ends_well(x, l2).map_err(|m| format!("{kind}: {m}")))?;
    let t = targets(&clean);
    for _ in 0..if c.deep { 30 } else { 8 } {
        let mut q = p.clone();
        let no = if r.chance(1, 8) { refusal(&mut r, &clean) } else { None };
        if let Some(f) = no { q.faults = f }
        else { match r.below(6) { 0 => q.capacity = 1 + r.below(4000), 1 => { q.auto.err = *r.pick(&[10, 60, 300]); q.auto.err_budget = r.range(1, 8) } _ => q.faults = random_faults(&mut r, &t) } }
        schedule(&mut r, &mut q.auto);
        if hostile > 0 { c.tag("damaged_input") }
        c.exp(q, &|x| ends_well(x, l2).map_err(|m| format!("{kind}: {m}")))?;
    }
    Ok(())
}
/// somebody at the terminal, or nobody
fn typing(r: &mut Rng, k: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(9) {
        match r.below(12) {
            0 => v.push(4), 1 => v.extend(b"\n"), 2 => v.extend(b"\r\n"), 3 => v.extend(b"\xff\xfe\n"), 4 => v.extend(b"abc\x15def\n"), 5 => v.extend(b"\x15\n"),
            6 => { let n = *r.pick(&[100usize, 4095, 8191, 8192, 20_000]); v.extend(vec![b'p'; n]); v.push(b'\n') }
            7 => { let n = r.below(60) as usize; v.extend(r.bytes(n)) }
            _ => { v.extend(k); if r.chance(6, 7) { v.push(b'\n') } }
        }
    }
    if r.chance(1, 3) { for _ in 0..r.range(1, 300) { v.extend(b"one\nanother\n") } }
    v
}
/// wrong values in the records of an archive
pub fn mutate_zip(r: &mut Rng, b: &mut Vec<u8>) {
    let at: Vec<(usize, u8)> = b.windows(4).enumerate().filter(|(_, w)| w[..2] == *b"PK" && matches!(w[2..4], [1, 2] | [3, 4] | [5, 6])).map(|(i, w)| (i, w[2])).collect();
    if at.is_empty() { return mutate(r, b) }
    let (i, kind) = *r.pick(&at);
    // offset and width of the fields
    let f: &[(usize, usize)] = match kind {
        1 => &[(4, 2), (6, 2), (8, 2), (10, 2), (16, 4), (20, 4), (24, 4), (28, 2), (30, 2), (32, 2), (36, 2), (38, 4), (42, 4)],
        3 => &[(4, 2), (6, 2), (8, 2), (14, 4), (18, 4), (22, 4), (26, 2), (28, 2)],
        _ => &[(4, 2), (6, 2), (8, 2), (10, 2), (12, 4), (16, 4), (20, 2)],
    };
    let mut set = |o: usize, w: usize, v: u64| if i + o + w <= b.len() { b[i + o..i + o + w].copy_from_slice(&v.to_le_bytes()[..w]) };
    if kind == 1 && r.chance(1, 3) {
        // the true size is said to be elsewhere
        let n = u16::from_le_bytes([b[i + 28], b[i + 29]]) as usize;
        let big = *r.pick(&[u64::MAX, 1 << 63, 1 << 62, 1 << 60, 1 << 40, u32::MAX as u64, 0]);
        let mut x = vec![1, 0, 8, 0];
        x.extend(big.to_le_bytes());
        let mut set = |o: usize, v: &[u8]| if i + o + v.len() <= b.len() { b[i + o..i + o + v.len()].copy_from_slice(v) };
        set(24, &[0xff; 4]);
        set(30, &12u16.to_le_bytes());
        if i + 46 + n <= b.len() { b.splice(i + 46 + n..i + 46 + n, x); }
        let e = b.len().saturating_sub(22);
        if b.len() > 22 && b[e..e + 4] == *b"PK\x05\x06" { let l = u32::from_le_bytes(b[e + 12..e + 16].try_into().unwrap()) + 12; b[e + 12..e + 16].copy_from_slice(&l.to_le_bytes()) }
        return;
    }
    let (o, w) = *r.pick(f);
    let v = match r.below(6) { 0 => u64::MAX, 1 => 0, 2 => 1, 3 => 0x7fff_ffff_ffff_ffff >> (64 - 8 * w as u32), 4 => r.below(1 << 12), _ => r.next() };
    set(o, w, v);
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    let n = b.len() as u64;
    if let Some(at) = crate::dict::int(r, 0, n as i64 - 1) { match r.below(3) { 0 => b.truncate(at as usize), 1 => b[at as usize] ^= 1 << r.below(8), _ => b[at as usize] = r.next() as u8 } return }
    match r.below(10) {
        0 => b.truncate(r.below(n + 1) as usize),
        8 | 9 => {
            // where headers and blocks end
            let h = match b[..] { [0xDE, v @ 1..=5, ..] => crate::model::hdr_len(v) as u64, _ => 0 };
            let at = h + r.below(n.saturating_sub(h) / (BLOCK + 16) as u64 + 1) * (BLOCK + 16) as u64 + r.below(40);
            b.truncate(at as usize)
        }
        1 => { let k = r.range(1, 500) as usize; b.extend(r.bytes(k)) }
        2 => { let k = r.below(2000) as usize; *b = r.bytes(k) }
        3 if n > 0 => { let at = r.below(n) as usize; let k = (r.range(1, 60) as usize).min(b.len() - at); let v = r.bytes(k); b[at..at + k].copy_from_slice(&v) }
        4 if n > 0 => { let at = r.below(n.min(440)) as usize; b[at] = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 0xff, 0x7f, 0x80, 0xDE, 0xDF, 0xB4, 0xB5, 0xA1]) }
        5 if n > 4 => { let at = (n - 1 - r.below(n.min(80))) as usize; b[at] = *r.pick(&[0, 1, 0xff, 0x7f, 0x80]) }
        _ if n > 0 => { let at = if r.chance(1, 2) { r.below(n.min(420)) } else { r.below(n) } as usize; b[at] ^= 1 << r.below(8) }
        _ => b.push(r.next() as u8),
    }
}

/// C26: what failed or was interrupted can be repeated
pub fn c26(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    // what changes a file in place is not the same operation the second time (C05)
    let kinds: Vec<&str> = KINDS.iter().cloned().filter(|k| !matches!(*k, "kadd" | "kchg" | "kdel" | "strip" | "restore")).collect();
    let kind = kinds[(c.seed % kinds.len() as u64) as usize];
    let s = scen(&mut r, kind, true);
    c.say(format!("{kind} {:?}", s.plan.argv));
    let clean = c.plain(&s.plan)?;
    if !clean.said_ok() { return c.exp(s.plan.clone(), &|x| Err(format!("{kind} fails without a fault: {}", x.tail()))).map(|_| ()); }
    let consumes = kind.contains("erase");
    let t = targets(&clean);
    if t.is_empty() { return Ok(()); }
    for _ in 0..if c.deep { 16 } else { 5 } {
        let mut p = s.plan.clone();
        let mut before = "".to_string();
        for round in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            let mut q = p.clone();
            q.auto.writeback = *r.pick(&[0, 0, 100, 800]);
            match r.below(7) {
                0 => q.capacity = 1 + r.below(8000),
                1 => q.faults = random_faults(&mut r, &t),
                2 => { q.faults = random_faults(&mut r, &t); let e = aim(&mut r, &t).unwrap(); q.faults.push(Fault { op: e.op, k: crash(&mut r, e) }) }
                _ => { let e = aim(&mut r, &t).unwrap(); q.faults = vec![Fault { op: e.op, k: crash(&mut r, e) }] }
            }
            schedule(&mut r, &mut q.auto);
            let x = c.plain(&q)?;
            before.push_str(&format!(" attempt {}: {:?};", round + 1, x.o.faults.iter().map(|f| f.k.name()).collect::<Vec<_>>()));
            // links to one file stay that
            p.fs = x.o.fs.iter().map(|e| FSEntry { path: e.path.clone(), mode: e.mode, spec: e.spec.clone() }).collect();
            p.rng = RngMode::Prng(r.next());
        }
        // the source may be gone by now
        if consumes && s.plan.fs.iter().any(|e| (e.path == "/w/in" || e.path == "/w/src" || e.path.starts_with("/w/src/")) && !p.fs.iter().any(|f| f.path == e.path && (f.spec == e.spec || matches!(kind, "erase" | "erasedir" | "cli-erase")))) {
            if matches!(kind, "erase" | "erasedir" | "cli-erase") { c.tag("source_partly_gone") }
            if !matches!(kind, "erasedir" | "cli-erase") || !p.fs.iter().any(|f| f.path == "/w/in" || f.path == "/w/src") { continue; }
        }
        p.seed = r.next();
        c.exp(p, &|x| {
            if !x.said_ok() { return Err(format!("{kind} cannot be repeated after{before} {}", x.tail())); }
            same_result(&s, &clean, x).map_err(|m| format!("{kind}, repeated after{before} {m}"))
        })?;
    }
    Ok(())
}

/// C28: what has returned is over
pub fn c28(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let kind = if r.chance(1, 2) { *r.pick(&["unpack", "erasedir", "erasedir", "cli-unpack", "cli-erase", "cli-pack-erase"]) } else { *r.pick(&KINDS) };
    let s = scen(&mut r, kind, false);
    let mut p = s.plan.clone();
    let iscli = p.argv[0] == "cli";
    if !iscli {
        // something else to do afterwards
        let b = r.bytes(3000);
        p.fs.push(file("/w/zz", b));
        for _ in 0..6 { p.argv[1].push_str("\nhash\t/w/zz\t0") }
    }
    p.env.push(("VOLSIM_REST".into(), "1".into()));
    // what makes some of its parts fail
    let mut bad = None;
    match kind {
        "unpack" | "cli-unpack" if r.chance(1, 3) => { if !p.fs.iter().any(|e| e.path == "/w/out") { p.fs.push(FSEntry { mode: 0o555, ..dir("/w/out") }); bad = Some("read-only output directory") } }
        "unpack" if r.chance(1, 3) => { if !p.fs.iter().any(|e| e.path.starts_with("/w/out")) { p.fs.push(dir("/w/out")); p.fs.push(file("/w/out/src", vec![7; 9])); bad = Some("file in the way") } }
        "erasedir" | "cli-erase" | "cli-pack-erase" if r.chance(1, 2) => { let root = if kind == "cli-pack-erase" { "/w/src/" } else { "/w/in/" }; let mut v: Vec<&mut FSEntry> = p.fs.iter_mut().filter(|e| e.path.starts_with(root) && matches!(e.spec, FileSpec::File(_))).collect(); if !v.is_empty() { let i = r.below(v.len() as u64) as usize; v[i].mode = 0o444; bad = Some("read-only file") } }
        _ => {}
    }
    c.say(format!("{kind} {:?}, {bad:?}", p.argv));
    schedule(&mut r, &mut p.auto);
    let check = |x: &Run| -> Result<(), String> {
        if !x.ended() || x.panicked() { return Ok(()); }
        let t = &x.o.trace;
        // what the threads would do after the end of the program is in the trace, see `rest` in the kernel
        let end = if iscli { t.iter().position(|e| e.kind == op::SCHED && e.text == b"exit").unwrap_or(t.len()) } else {
            let Some(i) = t.iter().position(|e| e.kind == op::MARK && e.off == 1 && e.tid == 0 && e.text.starts_with(b"R\t0\t")) else { return Ok(()) };
            i
        };
        let how = if iscli { if x.code == 0 { "success" } else { "an error" } } else if x.res(0).k == Rk::Ok { "success" } else { "an error" };
        if let Some(e) = t[end..].iter().find(|e| e.tid != 0 && e.kind != op::SCHED) { return Err(format!("{kind} returned {how}, and afterwards a thread of it goes on (call {} on {})", e.op, x.name_of(e.ino))); }
        if iscli { return Ok(()); }
        // files that are still open
        let mut open: std::collections::BTreeMap<u64, i64> = Default::default();
        for e in &t[..end] { match e.kind { op::OPEN if e.ret >= 0 => *open.entry(e.ino).or_default() += 1, op::CLOSE => *open.entry(e.ino).or_default() -= 1, _ => {} } }
        if let Some((i, n)) = open.iter().find(|o| o.0 != &0 && *o.1 > 0) { return Err(format!("{kind} returned {how} and leaves {} open {n} times", x.name_of(*i))); }
        Ok(())
    };
    let clean = c.exp(p.clone(), &|x| { if bad.is_none() && !x.said_ok() { return Err(format!("{kind} fails without any fault: {}", x.tail())); } check(x) })?;
    let t = targets(&clean);
    for _ in 0..if c.deep { 30 } else { 8 } {
        let mut q = p.clone();
        match r.below(6) {
            0 => q.capacity = 1 + r.below(3000),
            1 => if let Some(f) = refusal(&mut r, &clean) { q.faults = f },
            2 => {}
            _ => q.faults = random_faults(&mut r, &t),
        }
        if r.chance(1, 5) { q.auto = chunky(&mut r) }
        schedule(&mut r, &mut q.auto);
        c.exp(q, &check)?;
    }
    Ok(())
}
