//! C09, C10: erasing.
use super::scen::*;
use crate::sim::*;
use crate::util::*;
use proto::*;

/// the images a file went through: the k-th value written to each byte, and how often each was written
fn images(x: &Run, ino: u64, len: usize) -> (Vec<Vec<u8>>, Vec<u16>, Vec<u8>) {
    let (mut img, mut n, mut last): (Vec<Vec<u8>>, _, _) = (vec![], vec![0u16; len], vec![0xffu8; len]);
    for e in x.o.trace.iter().filter(|e| e.kind == op::WRITE && e.ino == ino && e.ret > 0) {
        for i in 0..(e.ret as usize).min(e.data.len()) {
            let at = e.off as usize + i;
            if at >= len { continue }
            let k = n[at] as usize;
            if img.len() <= k { img.push(vec![0; len]) }
            img[k][at] = e.data[i];
            last[at] = e.data[i];
            n[at] = n[at].saturating_add(1);
        }
    }
    (img, n, last)
}
/// a successful erase of this file has overwritten it n times and with zeros, on the medium
fn erased(x: &Run, path: &str, content: &[u8], passes: i64) -> Result<(), String> {
    let ino = x.ino0(path).ok_or("no inode")?;
    if x.o.fs.iter().any(|s| s.ino == ino) { return Err(format!("{path} still exists")); }
    released_clean(x, path)?;
    let n = passes.max(0) as usize;
    let (img, w, last) = images(x, ino, content.len());
    if let Some(at) = w.iter().position(|v| (*v as usize) < n + 1) { return Err(format!("byte {at} of {path} was written {} times for {n} passes and the zeros", w[at])); }
    if let Some(at) = last.iter().position(|v| *v != 0) { return Err(format!("byte {at} of {path} does not end as zero")); }
    if content.len() >= 16 {
        for (i, g) in img[..n].iter().enumerate() {
            if g == content { return Err(format!("pass {i} over {path} wrote the content itself")); }
            for ch in g.chunks(64) { if ch.len() >= 16 && ch.iter().all(|b| *b == ch[0]) { return Err(format!("pass {i} over {path} did not write random bytes")); } }
            if img[..i].contains(g) { return Err(format!("pass {i} over {path} repeats another pass")); }
        }
    }
    Ok(())
}
/// what is released of this file was zero on the medium
fn released_clean(x: &Run, path: &str) -> Result<(), String> {
    let ino = x.ino0(path).ok_or("no inode")?;
    for g in x.o.graves.iter().filter(|g| g.ino == ino) {
        if let Some((at, b)) = g.nonzero.iter().find(|(_, b)| b.iter().any(|x| *x != 0)) { return Err(format!("space of {path} was released with {} bytes at {} not overwritten on the medium", b.len(), at)); }
    }
    Ok(())
}

/// C09: erase a file
pub fn c09(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = match r.below(10) { 0 => *r.pick(&[0, 1, 15, 16, 511, 512, 513, 1024, 4096, 65536]), 1 => 100_000 + r.below(60_000) as usize, 2 if c.deep => 600_000, _ => r.below(9000) as usize };
    let n = crate::dict::int(&mut r, 0, 300_000).map_or(n, |n| n as usize);
    if c.seed % 120 == 11 { return c09_large(c) }
    if c.seed % 12 == 5 { return erase_hist(c, false) }
    let mut b = r.bytes(n);
    // files have empty blocks, too
    if r.chance(1, 4) { let blk = *r.pick(&[1usize, 16, 512, 4096]); for ch in b.chunks_mut(blk) { if r.chance(1, 2) { ch.fill(0) } } }
    else if r.chance(1, 12) { b.fill(if r.chance(1, 2) { 0 } else { r.below(256) as u8 }) }
    let passes = if let Some(n) = crate::dict::int(&mut r, -70, 70) { n } else { *r.pick(&[0i64, 1, 1, 1, 2, 3, -2, 7]) };
    let iscli = r.chance(1, 3);
    let argv = if iscli { if passes == 1 && r.chance(1, 2) { cli(&["erase", "in"]) } else { cli(&["erase", &format!("--passes={passes}"), "in"]) } } else { drive(&[line(&["erase", "/w/in", &passes.to_string()])]) };
    c.say(format!("{n} bytes, {passes} passes, command line {iscli}"));
    let bystander = r.bytes(700);
    let mut p = plan(&mut r, vec![file("/w/in", b.clone()), file("/w/other", bystander.clone())], argv);
    p.log_data = true;
    p.auto.writeback = *r.pick(&[0, 0, 50, 500]);
    let other = |x: &Run| if x.file("/w/other") == Some(&bystander[..]) { Ok(()) } else { Err("another file was changed".to_string()) };
    let w = p.auto.writeback;
    let mut q = p.clone();
    if r.chance(1, 2) { q.auto = chunky(&mut r); q.auto.writeback = w }
    let clean = c.exp(q.clone(), &|x| {
        other(x)?;
        if !x.said_ok() { return Err(format!("fails without a fault: {}", x.tail())); }
        erased(x, "/w/in", &b, passes)
    })?;
    let t = targets(&clean);
    for _ in 0..if c.deep { 30 } else { 10 } {
        let mut p = q.clone();
        let Some(e) = aim(&mut r, &t) else { break };
        match r.below(6) {
            0 => p.faults = vec![Fault { op: e.op, k: FK::Sticky(errno(&mut r, op::WRITE)) }],
            1 => { p.faults = vec![Fault { op: e.op, k: if r.chance(1, 2) { FK::Power(r.next()) } else { FK::Kill } }] }
            2 => { p.auto.err = 60; p.auto.err_budget = 3 }
            _ => { p.faults = vec![Fault { op: e.op, k: FK::Err(errno(&mut r, e.kind)) }]; if r.chance(1, 3) { let e2 = aim(&mut r, &t).unwrap(); p.faults.push(Fault { op: e2.op, k: FK::Err(errno(&mut r, e2.kind)) }) } }
        }
        c.exp(p, &|x| {
            other(x)?;
            if x.said_ok() { return erased(x, "/w/in", &b, passes).map_err(|m| format!("reported success, but {m}")); }
            if x.ended() && !x.exists("/w/in") { released_clean(x, "/w/in")?; }
            Ok(())
        })?;
    }
    // what cannot be erased
    let (fs, arg) = match r.below(3) {
        0 => (vec![FSEntry { mode: 0o444, ..file("/w/ro", b.clone()) }], "ro"),
        1 => (vec![], "missing"),
        _ => (vec![dir("/w/d"), file("/w/d/x", b.clone())], "d"),
    };
    let before = fs.clone();
    let p = plan(&mut r, fs, drive(&[line(&["erase", &format!("/w/{arg}"), "1"])]));
    c.exp(p, &|x| {
        if x.said_ok() && arg != "ro" { return Err(format!("erasing {arg} reports success")); }
        if x.said_ok() { return Ok(()); }
        for e in &before { if x.snap(&e.path).map(|s| &s.spec) != Some(&e.spec) { return Err(format!("erasing {arg} failed, but {} was changed", e.path)); } }
        Ok(())
    })?;
    Ok(())
}

/// more blocks than small counters hold
fn c09_large(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = (*r.pick(&[2usize, 5, 17, 33, 33]) << 20) + *r.pick(&[0, 1, 511, 512, 700]);
    let b = r.bytes(n);
    let passes = *r.pick(&[0i64, 1, 2]);
    let iscli = r.chance(1, 3);
    c.say(format!("{n} bytes, {passes} passes, command line {iscli}"));
    let argv = if iscli { cli(&["erase", &format!("--passes={passes}"), "in"]) } else { drive(&[line(&["erase", "/w/in", &passes.to_string()])]) };
    let mut p = plan(&mut r, vec![file("/w/in", b.clone())], argv);
    p.log_data = true;
    p.max_ops = 2_000_000;
    c.exp(p, &|x| {
        if !x.said_ok() { return Err(format!("fails without a fault: {}", x.tail())); }
        erased(x, "/w/in", &b, passes)
    })?;
    Ok(())
}
/// C10: erase a directory
pub fn c10(c: &mut Case) -> R {
    if c.seed % 12 == 5 { return erase_hist(c, true) }
    let mut r = c.rng.clone();
    let max = if c.deep { 20 } else { 9 };
    let mut t = tree(&mut r, "/w/d", max, false);
    if r.chance(1, 6) { let b = r.bytes(300); let d = r.pick(&t).path.clone(); if t.iter().any(|e| e.path == d && e.spec == FileSpec::Dir) { t.push(file(&format!("{d}/not\u{f7ff}utf\u{f7c3}"), b.clone())); if r.chance(1, 2) { t.push(dir(&format!("{d}/\u{f780}"))); t.push(file(&format!("{d}/\u{f780}/x\u{f7fe}"), b)); } } }
    // content that is recognisable
    for e in &mut t { if let FileSpec::File(b) = &mut e.spec { *b = r.bytes(b.len()) } }
    let mut fs = t.clone();
    let outside = vec![dir("/w/o"), file("/w/o/x", r.bytes(900)), file("/w/y", r.bytes(600)), dir("/w/o/sub"), file("/w/o/sub/z", r.bytes(50))];
    fs.extend(outside.clone());
    let dirs: Vec<String> = t.iter().filter(|e| e.spec == FileSpec::Dir).map(|e| e.path.clone()).collect();
    let files: Vec<String> = t.iter().filter(|e| matches!(e.spec, FileSpec::File(_))).map(|e| e.path.clone()).collect();
    let mut may_fail = false;
    if r.chance(1, 2) {
        for i in 0..r.range(1, 3) {
            let d = r.pick(&dirs).clone();
            let to = match r.below(7) { 0 => "/w/y".into(), 1 => "/w/o".into(), 2 => "/w/o/x".into(), 3 => { may_fail = true; "/w/nowhere".into() } 4 => "/w/o/sub".into(), 5 => r.pick(&dirs).clone(), _ => files.first().cloned().unwrap_or("/w/y".into()) };
            fs.push(link(&format!("{d}/ln{i}"), &to));
        }
    }
    let ro = r.chance(1, 6) && !files.is_empty();
    if ro { let f = r.pick(&files).clone(); fs.iter_mut().find(|e| e.path == f).unwrap().mode = 0o444; }
    let passes = match crate::dict::int(&mut r, 0, 70) { Some(n) => n, None => *r.pick(&[0i64, 1, 1, 2, 2, 3, 6]) };
    let iscli = r.chance(1, 3);
    let spelled = *r.pick(&["/w/d", "d", "./d", "d/", "/w/o/../d"]);
    let argv = if iscli { cli(&["erase", "-f", &format!("--passes={passes}"), spelled]) } else { drive(&[line(&["erasedir", spelled, &passes.to_string()])]) };
    c.say(format!("{} files in {} directories, {} passes, {spelled}, links {}, read-only {ro}, command line {iscli}", files.len(), dirs.len(), passes, fs.len() - t.len() - outside.len()));
    let links: Vec<String> = fs.iter().filter(|e| matches!(e.spec, FileSpec::Link(_))).map(|e| e.path.clone()).collect();
    let mut p = plan(&mut r, fs.clone(), argv);
    p.log_data = true;
    let check = |x: &Run, must: bool| -> Result<(), String> {
        // outside
        for e in &outside {
            if x.snap(&e.path).map(|s| &s.spec) != Some(&e.spec) { return Err(format!("{} outside of the directory was changed", e.path)); }
            let ino = x.ino0(&e.path).ok_or("no inode")?;
            if let Some(w) = x.o.trace.iter().find(|t| t.ino == ino && matches!(t.kind, op::WRITE | op::TRUNC)) { return Err(format!("{} outside of the directory was written to (call {})", e.path, w.op)); }
        }
        if !x.crashed() { for s in &x.o.fs { if s.path.starts_with("/w/") && !s.path.starts_with("/w/d/") && s.path != "/w/d" && !outside.iter().any(|e| e.path == s.path) { return Err(format!("{} appeared", s.path)); } } }
        if x.said_ok() {
            if x.exists("/w/d") { return Err("reports success, but the directory is still there".into()); }
            for e in &t { if let FileSpec::File(b) = &e.spec { erased(x, &e.path, b, passes).map_err(|m| format!("reports success, but {m}"))? } }
            return Ok(());
        }
        if must && x.ended() { return Err(format!("fails without a fault: {}", x.tail())); }
        if x.ended() {
            for e in &t { if let FileSpec::File(b) = &e.spec { if !b.is_empty() {
                let ino = x.ino0(&e.path).ok_or("no inode")?;
                if !x.o.fs.iter().any(|s| s.ino == ino) { released_clean(x, &e.path).map_err(|m| format!("reports failure, but {m}"))? }
            } } }
        }
        Ok(())
    };
    let must = !may_fail && !ro;
    let mut clean = None;
    for _ in 0..if c.deep { 12 } else { 4 } {
        let mut q = p.clone();
        schedule(&mut r, &mut q.auto);
        if r.chance(1, 3) { let a = chunky(&mut r); q.auto = Auto { preempt: q.auto.preempt, pct: q.auto.pct, ..a } }
        q.auto.writeback = *r.pick(&[0, 100, 700]);
        q.seed = r.next();
        let x = c.exp(q.clone(), &|x| check(x, must))?;
        clean = Some((q, x));
    }
    let (q, x) = clean.unwrap();
    let tg = targets(&x);
    for _ in 0..if c.deep { 24 } else { 8 } {
        let mut q = q.clone();
        let Some(e) = aim(&mut r, &tg) else { break };
        match r.below(6) {
            0 => q.faults = vec![Fault { op: e.op, k: FK::Sticky(errno(&mut r, op::WRITE)) }],
            1 => { q.auto.err = 50; q.auto.err_budget = 4 }
            2 => q.faults = vec![Fault { op: e.op, k: if r.chance(1, 2) { FK::Kill } else { FK::Power(r.next()) } }],
            3 => q.faults = refusal(&mut r, &x).unwrap_or_default(),
            _ => q.faults = vec![Fault { op: e.op, k: FK::Err(errno(&mut r, e.kind)) }],
        }
        c.exp(q, &|x| check(x, false))?;
    }
    let _ = links;
    Ok(())
}

/// erasing in one long-lived process, with names that change hands in between
fn erase_hist(c: &mut Case, dirs: bool) -> R {
    let mut r = c.rng.clone();
    let n = r.range(2, 4) as usize;
    let mut fs = vec![];
    // the files at each name, by their first names
    let mut at: Vec<Option<Vec<(String, Vec<u8>)>>> = vec![];
    for i in 0..n {
        let p = format!("/w/x{i}");
        if dirs {
            let mut t = tree(&mut r, &p, 6, false);
            for e in &mut t { if let FileSpec::File(b) = &mut e.spec { *b = r.bytes(b.len()) } }
            at.push(Some(t.iter().filter_map(|e| match &e.spec { FileSpec::File(b) => Some((e.path.clone(), b.clone())), _ => None }).collect()));
            fs.extend(t);
        } else { let l = r.below(6000) as usize; let b = r.bytes(l); fs.push(file(&p, b.clone())); at.push(Some(vec![(p, b)])); }
    }
    let (mut lines, mut wants, mut gone) = (vec![], vec![], vec![]);
    for _ in 0..r.range(2, 9) {
        let i = r.below(n as u64) as usize;
        if r.chance(3, 5) {
            let passes = match crate::dict::int(&mut r, 0, 30) { Some(n) => n, None => r.below(4) as i64 };
            lines.push(line(&[if dirs { "erasedir" } else { "erase" }, &format!("/w/x{i}"), &passes.to_string()]));
            wants.push(at[i].is_some());
            for (p, b) in at[i].take().unwrap_or_default() { gone.push((p, b, passes)) }
        } else {
            let j = r.below(n as u64) as usize;
            if i == j || at[j].is_some() { continue }
            lines.push(line(&["mv", &format!("/w/x{i}"), &format!("/w/x{j}")]));
            wants.push(at[i].is_some());
            at[j] = at[i].take();
        }
    }
    c.say(format!("in one process: {}", lines.join(", ").replace('\t', " ")));
    if lines.is_empty() { return Ok(()) }
    let mut p = plan(&mut r, fs, drive(&lines));
    p.log_data = true;
    if r.chance(1, 2) { p.auto = chunky(&mut r) }
    schedule(&mut r, &mut p.auto);
    c.exp(p, &|x| {
        if !x.ended() { return Err(format!("did not end: {}", x.tail())); }
        for (i, ok) in wants.iter().enumerate() {
            let d = x.res(i);
            if (d.k == Rk::Ok) != *ok || !matches!(d.k, Rk::Ok | Rk::Err) { return Err(format!("step {i} ({}) {} instead of {}: {}", lines[i].replace('\t', " "), if d.k == Rk::Ok { "succeeded" } else { "failed" }, if *ok { "succeeding" } else { "failing" }, d.msg)); }
        }
        for (p, b, passes) in &gone { erased(x, p, b, *passes)?; }
        for (p, b) in at.iter().flatten().flatten() {
            let ino = x.ino0(p).ok_or("no inode")?;
            if !x.o.fs.iter().any(|s| s.ino == ino && s.spec == FileSpec::File(b.clone())) { return Err(format!("{p} was not to be erased and is changed or gone")); }
        }
        Ok(())
    })?;
    Ok(())
}
