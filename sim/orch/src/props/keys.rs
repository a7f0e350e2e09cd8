//! C04, C05, C06, C15: keys and headers.
use super::scen::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use proto::*;

/// C04: a file opens with exactly the keys its history says
pub fn c04(c: &mut Case) -> R {
    if c.seed % 5 == 0 { return c04_cli(c); }
    let mut r = c.rng.clone();
    let n = match r.below(12) { 0 => BLOCK + r.below(40) as usize, 1 => 0, _ => r.below(3000) as usize };
    let pt = content(&mut r, n);
    let mut pool: Vec<Vec<u8>> = (0..7).map(|i| { let mut k = key(&mut r); k.extend(format!("{i}").bytes()); k }).collect();
    // keys that resemble each other
    let near = { let mut k = pool[0].clone(); match r.below(3) { 0 => { k.push(0) } 1 => { k.pop(); } _ => { let i = r.below(k.len() as u64) as usize; k[i] ^= 0x20 } } k };
    if !near.is_empty() && !pool.contains(&near) { pool.push(near) }
    let algo = *r.pick(&ALGOS);
    let ver = if r.chance(1, 12) { r.range(1, 4) as u8 } else { 5 };
    let mut set: Vec<Vec<u8>> = vec![];
    for k in pool.iter().take(if ver == 5 { r.range(1, 4) as usize } else { 1 }) { set.push(k.clone()) }
    let keys: Vec<(&[u8], u8)> = set.iter().map(|k| (&k[..], if ver == 4 { 0xB4 } else { *r.pick(&HASHES) })).collect();
    let stream = r.chance(4, 5);
    let m = make(&mut r, ver, algo, stream, &keys, &pt);
    let mut cur = m.file();
    if ver == 5 && set.len() == 1 && r.chance(1, 2) {
        // from the program itself
        let f = Fmt { ver: 5, stream: true, algo, hash: *r.pick(&HASHES) };
        let p = plan(&mut r, vec![file("/w/in", pt.clone())], drive(&[enc_line("/w/in", "/w/f", None, &set[0], &f)]));
        let x = c.plain(&p)?;
        if let Some(b) = x.file("/w/f") { if decrypt_file(b, &set[0]).as_ref() == Some(&pt) { cur = b.to_vec() } }
    }
    let hl = hdr_len(ver);
    let payload = cur[hl..].to_vec();
    let mut hist = vec![];
    let steps = if c.deep { r.range(4, 40) } else { r.range(3, 14) };
    for _ in 0..steps {
        let old = if r.chance(3, 4) && !set.is_empty() { r.pick(&set).clone() } else { r.pick(&pool).clone() };
        let has = set.contains(&old);
        let fresh: Vec<Vec<u8>> = pool.iter().filter(|k| !set.contains(k)).cloned().collect();
        let h = hash_name(*r.pick(&HASHES));
        let what = r.below(10);
        let (name, l, want, next): (&str, String, bool, Vec<Vec<u8>>) = match what {
            0..=2 if !fresh.is_empty() => { let new = r.pick(&fresh).clone(); let ok = has && set.len() < 4; let mut s = set.clone(); if ok { s.push(new.clone()) } ("add", line(&["kadd", "/w/f", &pct(&old), &pct(&new), h]), ok, s) }
            3 | 4 if !fresh.is_empty() => { let new = r.pick(&fresh).clone(); let mut s = set.clone(); if let Some(i) = s.iter().position(|k| *k == old) { s[i] = new.clone() } ("change", line(&["kchg", "/w/f", &pct(&old), &pct(&new), h]), has, s) }
            5 if set.len() > 1 || !has || r.chance(1, 10) => { let mut s = set.clone(); s.retain(|k| *k != old); ("delete", line(&["kdel", "/w/f", &pct(&old)]), has, s) }
            6 | 7 => ("verify", line(&["kver", "/w/f", &pct(&old)]), has, set.clone()),
            _ => ("decrypt", dec_line("/w/f", "/w/dec", None, &old), has, set.clone()),
        };
        let manage = !matches!(name, "verify" | "decrypt");
        let (want, next) = if ver < 5 && manage { (false, set.clone()) } else { (want, next) };
        hist.push(format!("{name}{}", if want { "" } else { "(refused)" }));
        c.desc = format!("version {ver} {algo:?}, {} bytes; {}", n, hist.join(", "));
        let mut p = plan(&mut r, vec![file("/w/f", cur.clone())], drive(&[l]));
        if r.chance(2, 3) { p.auto = chunky(&mut r) }
        let before = cur.clone();
        let x = c.exp(p, &|x| {
            let d = x.res(0);
            let now = x.file("/w/f").ok_or("the file is gone")?;
            if d.k == Rk::Panic || d.k == Rk::None { return Err(format!("{name} crashed: {}", d.msg)); }
            let ok = d.k == Rk::Ok;
            if !(ver < 5 && name == "verify") && ok != want { return Err(format!("{name} with a key {} the set of {} keys: {}", if has { "in" } else { "not in" }, set.len(), if ok { "succeeded".into() } else { format!("failed: {}", d.msg) })); }
            if (!ok || !manage) && now != before { return Err(format!("{name} {} and changed the file: {}", if ok { "succeeded" } else { "failed" }, first_diff(&before, now))); }
            if now.len() != before.len() { return Err(format!("{name} changed the length of the file")); }
            if now[hl..] != payload[..] { return Err(format!("{name} changed the payload")); }
            if ver == 5 && now[..32] != before[..32] { return Err(format!("{name} changed the header outside of the key area")); }
            if name == "decrypt" && ok && x.file("/w/dec") != Some(&pt[..]) { return Err("decrypted to other content".into()); }
            let hd = parse(now).ok_or(format!("after {name} the header is not readable"))?;
            if ver == 5 && hd.slots.len() != next.len() { return Err(format!("after {name} the header has {} keys instead of {}", hd.slots.len(), next.len())); }
            for k in &pool {
                let opens = master(&hd, k).is_some_and(|mk| ver < 4 || mk != [0; 32]);
                if ver >= 4 && opens != next.contains(k) { return Err(format!("after {name} the key {} {}", pct(k), if opens { "opens the file and should not" } else { "no longer opens the file" })); }
            }
            if let Some(k) = next.first() { if manage && decrypt(&now[..hl], &now[hl..], k).as_ref() != Some(&pt) { return Err(format!("after {name} the content is not what it was")); } }
            Ok(())
        })?;
        cur = x.file("/w/f").unwrap().to_vec();
        set = next;
        if set.is_empty() && r.chance(2, 3) { break; }
    }
    Ok(())
}

/// the same through the command line, with key files and the environment
fn c04_cli(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = r.below(2000) as usize;
    let pt = content(&mut r, n);
    let base = odd_key(&mut r);
    let mut pool = vec![base.clone()];
    for _ in 0..5 { let k = alike(&mut r, &base); if !k.is_empty() && !pool.contains(&k) { pool.push(k) } }
    let algo = *r.pick(&ALGOS);
    let ver = if r.chance(1, 5) { r.range(1, 4) as u8 } else { 5 };
    let nset = if ver == 5 { r.range(1, pool.len().min(4) as u64) as usize } else { 1 };
    let det = r.chance(1, 4);
    let (set, cur) = if r.chance(1, 2) {
        let ks: Vec<(&[u8], u8)> = pool[..nset].iter().map(|k| (&k[..], if ver == 4 { 0xB4 } else { *r.pick(&HASHES) })).collect();
        let m = make(&mut r, ver, algo, true, &ks, &pt);
        (pool[..nset].to_vec(), (m.hdr, m.payload))
    } else {
        // from the program itself, with the first key
        let g = give(&mut r, &base, true);
        let mut a = vec!["encrypt", "--header", "hdr"];
        a.extend(g.args.iter().map(|s| s.as_str()));
        if r.chance(1, 2) { a.push("--argon") }
        a.extend(["in", "enc"]);
        let mut p = plan(&mut r, vec![file("/w/in", pt.clone())], cli(&a));
        g.put(&mut p);
        let x = c.plain(&p)?;
        let (Some(h), Some(b)) = (x.file("/w/hdr"), x.file("/w/enc")) else { return Ok(()) };
        (vec![base.clone()], (h.to_vec(), b.to_vec()))
    };
    c.say(format!("command line, version {ver}, {} keys of {}", set.len(), pool.len()));
    for k in &pool {
        let g = give(&mut r, k, false);
        let fs = if det { vec![file("/w/hdr", cur.0.clone()), file("/w/enc", cur.1.clone())] } else { vec![file("/w/enc", [&cur.0[..], &cur.1].concat())] };
        let mut a = vec!["decrypt"];
        a.extend(g.args.iter().map(|s| s.as_str()));
        if det { a.extend(["--header", "hdr"]) }
        a.extend(["enc", "dec"]);
        let mut p = plan(&mut r, fs, cli(&a));
        g.put(&mut p);
        if r.chance(1, 2) { p.auto = chunky(&mut r) }
        let want = set.contains(k);
        c.exp(p, &|x| {
            if x.said_ok() != want { return Err(format!("the key {} {} the file opens with {}: {}", pct(k), if want { "does not open the file, although" } else { "opens the file, although" }, set.iter().map(|k| pct(k)).collect::<Vec<_>>().join(" "), x.tail())); }
            if want && x.file("/w/dec") != Some(&pt[..]) { return Err("decrypted to other content".into()); }
            Ok(())
        })?;
    }
    Ok(())
}

/// C05: interrupted key and header changes
pub fn c05(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = match r.below(8) { 0 => BLOCK + 5, _ => r.below(3000) as usize };
    let pt = content(&mut r, n);
    let keys: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|i| format!("key{i}-{}", text_key(&mut r)).into_bytes()).collect();
    let opn = *r.pick(&["kadd", "kchg", "kchg", "kdel", "strip", "restore"]);
    let ver = if opn.starts_with('k') { 5 } else { r.range(3, 5) as u8 };
    let ks: Vec<(&[u8], u8)> = keys.iter().take(if ver == 5 { 4 } else { 1 }).map(|k| (&k[..], if ver == 4 { 0xB4 } else { *r.pick(&HASHES) })).collect();
    let algo = *r.pick(&ALGOS);
    let m = make(&mut r, ver, algo, true, &ks, &pt);
    let hl = m.hdr.len();
    let mut stripped = m.file();
    stripped[..hl].fill(0);
    let old = r.pick(&keys).clone();
    let new = b"the new key".to_vec();
    let l = match opn {
        "kdel" => line(&["kdel", "/w/f", &pct(&old)]), "strip" => line(&["strip", "/w/f"]), "restore" => line(&["restore", "/w/hdr", "/w/f"]),
        o => line(&[o, "/w/f", &pct(&old), &pct(&new), hash_name(*r.pick(&HASHES))]),
    };
    let mut cur = if opn == "restore" { stripped.clone() } else { m.file() };
    c.say(format!("{opn}, version {ver}, {} keys, {n} bytes", ks.len()));
    // an interrupted operation is repeated, and interrupted again
    for round in 0..if c.deep { 4 } else { 2 } {
        let mut base = plan(&mut r, vec![file("/w/f", cur.clone()), file("/w/hdr", m.hdr.clone())], drive(&[l.clone()]));
        base.auto.writeback = *r.pick(&[0, 0, 100, 900]);
        let clean = c.plain(&base)?;
        if !clean.said_ok() { if round == 0 { return c.exp(base, &|x| Err(format!("{opn} fails without a fault: {}", x.tail()))).map(|_| ()); } break; }
        let after = clean.file("/w/f").unwrap_or(&[]).to_vec();
        let before = cur.clone();
        let check = |x: &Run| -> Result<(), String> {
            let now = x.file("/w/f").ok_or("the file is gone")?;
            if now.len() != before.len() { return Err(format!("the file has {} instead of {} bytes", now.len(), before.len())); }
            if now[hl..] != before[hl..] { return Err("the payload was modified".into()); }
            if x.said_ok() && now != after && opn != "kadd" && opn != "kchg" { return Err("reported success without doing anything".into()); }
            if now == before || now == after { return Ok(()); }
            // other bytes are fine if they mean the same
            let hd = parse(now).ok_or("neither the old nor the new state: the header is not readable")?;
            let opens = |k: &Vec<u8>| master(&hd, k).is_some_and(|mk| mk == m.mk);
            let s = |ks: &[Vec<u8>]| ks.iter().all(&opens);
            let rest: Vec<Vec<u8>> = keys.iter().filter(|k| **k != old).cloned().collect();
            if now[..32] != m.hdr[..32] || ver != 5 { return Err(format!("neither the old nor the new state: {}", first_diff(&before, now))); }
            let good = match opn { "kadd" => s(&keys), "kchg" => s(&rest) && (opens(&old) || opens(&new)), "kdel" => s(&rest), _ => false };
            if !good { return Err(format!("neither the old nor the new state: {}", first_diff(&before, now))); }
            Ok(())
        };
        // every call of the operation
        let mut crashed = None;
        for e in targets(&clean) {
            let kinds: Vec<FK> = if c.deep || r.chance(1, 2) { vec![FK::Kill, FK::Power(r.next()), FK::Power(r.next()), FK::Err(errno(&mut r, e.kind))] } else { vec![if r.chance(1, 4) { FK::Kill } else { FK::Power(r.next()) }, FK::Err(errno(&mut r, e.kind))] };
            for k in kinds {
                let mut p = base.clone();
                p.faults = vec![Fault { op: e.op, k }];
                // an error, and then the power fails
                if matches!(p.faults[0].k, FK::Err(_)) && r.chance(1, 3) { let o = e.op + 1 + r.below(6); p.faults.push(Fault { op: o, k: FK::Power(r.next()) }) }
                let x = c.exp(p, &|x| check(x).map_err(|m| format!("{opn}: {m}")))?;
                if x.crashed() && r.chance(1, 3) { crashed = x.file("/w/f").map(|b| b.to_vec()) }
            }
        }
        // and what was reported as done survives the next power failure
        let mut p = base.clone();
        let two = drive(&[l.clone(), line(&["kver", "/w/hdr", "x"])]);
        p.argv = two;
        if let Some(e) = clean.o.trace.last() { p.faults = vec![Fault { op: e.op + 1 + r.below(4), k: FK::Power(r.next()) }]; }
        c.exp(p, &|x| {
            check(x).map_err(|m| format!("{opn}: {m}"))?;
            if x.res(0).k == Rk::Ok && x.file("/w/f") == Some(&before[..]) && before != after { return Err(format!("{opn} was reported as done, but did not survive a power failure")); }
            Ok(())
        })?;
        match crashed { Some(b) => cur = b, None => break }
    }
    Ok(())
}

/// C06: dump, strip and restore
pub fn c06(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = match r.below(8) { 0 => BLOCK + 5, 1 => 0, _ => r.below(2000) as usize };
    let pt = content(&mut r, n);
    let k = key(&mut r);
    let ver = *r.pick(&[1, 2, 3, 4, 5, 5, 5]);
    let keys: Vec<(&[u8], u8)> = if ver == 5 { let mut v: Vec<(&[u8], u8)> = vec![(&k, *r.pick(&HASHES))]; if r.chance(1, 2) { v.push((b"second", 0xB5)) } if r.chance(1, 4) { v.push((b"third", 0xA3)); v.push((b"fourth", 0xB4)) } v } else { vec![(&k, 0xB4)] };
    let stream = r.chance(3, 4);
    let algo = *r.pick(&ALGOS);
    let m = make(&mut r, ver, algo, stream, &keys, &pt);
    let orig = m.file();
    let hl = m.hdr.len();
    let mut stripped = orig.clone();
    stripped[..hl].fill(0);
    c.say(format!("version {ver}, {algo:?}, stream {stream}, {} keys, {n} bytes", keys.len()));
    let step = |c: &mut Case, r: &mut Rng, fs: Vec<FSEntry>, lines: &[String], check: &dyn Fn(&Run) -> Result<(), String>| -> R<Run> {
        let mut p = plan(r, fs, drive(lines));
        if r.chance(3, 4) { p.auto = chunky(r) }
        c.exp(p, &|x| { for (i, d) in x.results() { if d.k == Rk::Panic { return Err(format!("step {i} panicked: {}", d.msg)); } } check(x) })
    };
    // dump, strip, decrypt with the dumped header, restore
    let lines = [line(&["dump", "/w/f", "/w/h"]), line(&["strip", "/w/f"]), dec_line("/w/f", "/w/dec", Some("/w/h"), &k), line(&["restore", "/w/h", "/w/f"])];
    let mut fs = vec![file("/w/f", orig.clone())];
    if r.chance(1, 3) { let j = r.bytes(900); fs.push(file("/w/h", j)) }
    let dumped = step(c, &mut r, vec![file("/w/f", orig.clone())], &lines[..1], &|x| {
        if x.file("/w/f") != Some(&orig[..]) { return Err("dumping the header changed the file".into()); }
        if ver >= 3 && x.res(0).k != Rk::Ok { return Err(format!("dumping a valid header fails: {}", x.res(0).msg)); }
        if x.res(0).k == Rk::Ok && decrypt(x.file("/w/h").ok_or("no dump")?, &m.payload, &k).as_ref() != Some(&pt) { return Err("the dumped header does not decrypt the payload".into()); }
        Ok(())
    })?;
    step(c, &mut r, vec![file("/w/f", orig.clone())], &lines[1..2], &|x| {
        if x.res(0).k != Rk::Ok { return if x.file("/w/f") == Some(&orig[..]) && ver < 3 { Ok(()) } else { Err(format!("stripping a valid header fails: {}", x.res(0).msg)) }; }
        let b = x.file("/w/f").ok_or("the file is gone")?;
        if b != stripped { return Err(format!("stripping did not zero exactly the header: {}", first_diff(&stripped, b))); }
        Ok(())
    })?;
    if dumped.res(0).k == Rk::Ok {
        step(c, &mut r, fs, &lines, &|x| {
            for i in 0..4 { if x.res(i).k != Rk::Ok { return Err(format!("step {i} of dump, strip, decrypt, restore fails: {}", x.res(i).msg)); } }
            if x.file("/w/dec") != Some(&pt[..]) { return Err("the stripped file with the dumped header decrypts to something else".into()); }
            let b = x.file("/w/f").ok_or("the file is gone")?;
            if b != orig { return Err(format!("restoring did not give back the original: {}", first_diff(&orig, b))); }
            Ok(())
        })?;
    }
    // targets that must be refused
    for _ in 0..if c.deep { 12 } else { 5 } {
        let mut t = stripped.clone();
        let mut h = m.hdr.clone();
        let (what, must) = match r.below(8) {
            0 => { let i = if r.chance(1, 3) { *r.pick(&[0, hl - 1, hl / 2]) } else { r.below(hl as u64) as usize }; t[i] = *r.pick(&[1, 0x80, 0xff]); ("a header area that is not entirely zero", false) }
            1 => { t = orig.clone(); ("a file with its header in place", false) }
            2 => { let l = r.below(hl as u64) as usize; t.truncate(l); ("a target that is too short", false) }
            3 => { t = vec![0; hl - 1]; ("a target one byte too short", false) }
            4 => { t = vec![]; ("an empty target", false) }
            5 => { let l = r.below(hl as u64) as usize; h.truncate(l); ("a truncated header", false) }
            6 => { let i = r.below(6) as usize; h[i] ^= 0x50; ("a damaged header", false) }
            _ => { t.truncate(hl); ("a target that just holds the header", ver >= 3) }
        };
        let long = r.chance(1, 3);
        if long && !h.is_empty() { let j = r.bytes(50); if h.len() == hl { h.extend(j) } }
        let hh = h.clone();
        step(c, &mut r, vec![file("/w/h", h), file("/w/f", t.clone())], &lines[3..], &|x| {
            let b = x.file("/w/f").ok_or("the target is gone")?;
            if x.file("/w/h") != Some(&hh[..]) { return Err("restoring changed the header file".into()); }
            if must { let mut w = t.clone(); w[..hl].copy_from_slice(&m.hdr); if x.res(0).k != Rk::Ok || b != w { return Err(format!("{what} is not restored: {}", x.res(0).msg)); } return Ok(()); }
            if x.res(0).k == Rk::Ok && what != "a damaged header" && what != "a target that just holds the header" { return Err(format!("{what} was not refused")); }
            if x.res(0).k != Rk::Ok && b != t { return Err(format!("{what} was refused, but changed: {}", first_diff(&t, b))); }
            Ok(())
        })?;
    }
    // files without a header of this kind are left alone
    let l = r.below(1000) as usize;
    let mut g = r.bytes(l);
    if let Some(b) = g.first_mut() { *b = 0x11 }
    let junk = if r.chance(1, 2) { g } else { let l = r.below(hl as u64) as usize; orig[..l].to_vec() };
    let which = r.below(2) as usize;
    step(c, &mut r, vec![file("/w/f", junk.clone())], &lines[which..which + 1], &|x| {
        if x.res(0).k == Rk::Ok { return Err("a file without a valid header was accepted".into()); }
        if x.file("/w/f") != Some(&junk[..]) { return Err("a file without a valid header was changed".into()); }
        Ok(())
    })?;
    Ok(())
}

/// C15: fresh randomness
pub fn c15(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let algo = *r.pick(&ALGOS);
    let k = text_key(&mut r).into_bytes();
    let k2 = b"second key".to_vec();
    let pt = r.bytes(200);
    let f = Fmt { ver: if r.chance(1, 5) { 4 } else { 5 }, stream: true, algo, hash: *r.pick(&HASHES) };
    let f = if f.ver == 4 { Fmt { hash: 0xB4, ..f } } else { f };
    if r.chance(1, 3) {
        // the random source fails
        let kind = *r.pick(&["enc", "encdet", "pack", "kadd", "kchg", "cli-encrypt", "cli-pack"]);
        let s = scen(&mut r, kind, false);
        c.say(format!("{kind} with a failing random source"));
        let clean = c.plain(&s.plan)?;
        if !clean.said_ok() { return Ok(()); }
        let rng: Vec<u64> = clean.o.trace.iter().filter(|e| e.kind == op::RNG).map(|e| e.op).collect();
        for &o in rng.iter().take(if c.deep { 20 } else { 6 }) {
            let mut p = s.plan.clone();
            // every further attempt fails, too
            p.faults = (o..o + 400).filter(|x| *x == o || r.chance(1, 1) && rng.contains(x)).map(|op| Fault { op, k: FK::Err(libc::EIO) }).collect();
            let seeding = clean.o.trace.iter().any(|e| e.op == o && e.len >= 24);
            // what is made from random numbers
            let (at, key) = match &s.sem { Sem::Keys { file, .. } => (file.clone(), None), Sem::Enc { out, hdr, .. } | Sem::Pack { out, hdr, .. } => (hdr.clone().unwrap_or(out.clone()), Some(s.key.clone())), _ => continue };
            let before = s.plan.fs.iter().find(|e| e.path == at).and_then(|e| if let FileSpec::File(b) = &e.spec { parse(b) } else { None });
            let made = |x: &Run| -> Vec<Vec<u8>> {
                let Some(h) = x.file(&at).and_then(parse) else { return vec![] };
                let mut v: Vec<Vec<u8>> = h.slots.iter().filter(|s| key.is_some() || before.as_ref().is_none_or(|b| !b.slots.iter().any(|t| t.enc == s.enc))).flat_map(|s| [s.salt.to_vec(), s.nonce.clone()]).collect();
                if let Some(k) = &key { v.push(h.nonce.clone()); if let Some(m) = master(&h, k) { v.push(m.to_vec()) } }
                v
            };
            // succeeds under the same failures with other random numbers, if it does at all
            let other = std::cell::RefCell::new(None);
            {
                let mut q = p.clone();
                q.rng = RngMode::Prng(r.next());
                c.exp(q, &|x| { *other.borrow_mut() = Some(if x.said_ok() { made(x) } else { vec![] }); Ok(()) })?;
            }
            let other = other.into_inner().unwrap_or_default();
            c.exp(p, &|x| {
                if x.said_ok() && seeding { return Err(format!("{kind} succeeds although the random source failed")); }
                if x.said_ok() {
                    if let Some(f) = made(x).iter().find(|f| other.contains(f) || f.iter().all(|b| *b == 0)) { return Err(format!("{kind} succeeds although the random source failed, with a salt, nonce or key that does not depend on it: {f:02x?}")); }
                    return Ok(());
                }
                match &s.sem {
                    Sem::Keys { file, .. } => { let b = s.plan.fs.iter().find(|e| e.path == *file).map(|e| &e.spec); if x.snap(file).map(|s| &s.spec) != b { return Err(format!("{kind} failed and changed the file")); } }
                    Sem::Enc { out, hdr, .. } | Sem::Pack { out, hdr, .. } => { let p = hdr.as_ref().unwrap_or(out); let pre = s.plan.fs.iter().find(|e| e.path == *p).map(|e| &e.spec); if x.snap(p).map(|s| &s.spec) != pre && x.file(p).is_some_and(|b| parse(b).is_some()) { return Err(format!("{kind} failed for want of randomness and left an output with a valid header")); } }
                    _ => {}
                }
                Ok(())
            })?;
        }
        return Ok(());
    }
    // a history in one or several processes
    let long = r.chance(1, 8);
    let nenc = if long { r.range(50, 260) } else { r.range(1, 4) } as usize;
    let mut lines = vec![];
    let mut fs = vec![dir("/w/src"), file("/w/src/a", pt.clone())];
    for i in 0..nenc {
        fs.push(file(&format!("/w/in{i}"), if r.chance(1, 2) { pt.clone() } else { r.bytes(100) }));
        if r.chance(1, 4) { lines.push(pack_line(&format!("/w/out{i}"), None, &k, &f, false, &["/w/src"])) } else { lines.push(enc_line(&format!("/w/in{i}"), &format!("/w/out{i}"), None, &k, &f)) }
        if f.ver == 5 {
            if r.chance(1, 2) { lines.push(line(&["kadd", &format!("/w/out{i}"), &pct(&k), &pct(&k2), hash_name(f.hash)])) }
            if r.chance(1, 2) { lines.push(line(&["kadd", &format!("/w/out{i}"), &pct(&k), &pct(b"third key"), hash_name(f.hash)])) }
            if r.chance(1, 2) { lines.push(line(&["kchg", &format!("/w/out{i}"), &pct(&k), &pct(&k), hash_name(f.hash)])) }
        }
    }
    // the header as it was after every step
    if f.ver == 5 { lines = lines.into_iter().flat_map(|l| { let o = l.split('\t').find(|w| w.starts_with("/w/out")).unwrap().to_string(); [l, o] }).enumerate().map(|(i, l)| if l.starts_with("/w/out") { line(&["dump", &l, &format!("/w/was{i}")]) } else { l }).collect() }
    let runs = if long { 1 } else if c.deep { 60 } else { 26 };
    c.say(format!("{f:?}, {nenc} files, {} operations, {runs} processes", lines.len()));
    let mut seen: std::collections::HashMap<Vec<u8>, String> = Default::default();
    let mut cols: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    let base = plan(&mut r, fs, drive(&lines));
    for run in 0..runs {
        let mut p = base.clone();
        p.rng = RngMode::Prng(r.next());
        let mut fields: Vec<(String, Vec<u8>)> = vec![];
        let cell = std::cell::RefCell::new((&mut seen, &mut cols, &mut fields));
        let last = run + 1 == runs;
        let first_only = std::cell::Cell::new(true);
        c.exp(p, &|x| {
            if !x.said_ok() { return Err(format!("fails without a fault: {}", x.tail())); }
            let mut g = cell.borrow_mut();
            let fresh = first_only.replace(false);
            let (seen, cols, fields) = &mut *g;
            if !fresh { seen.retain(|_, v| !v.starts_with(&format!("process {run} "))); fields.clear(); }
            for i in 0..nenc {
                let b = x.file(&format!("/w/out{i}")).ok_or("no output")?;
                let h = parse(b).ok_or("no header")?;
                let mk = master(&h, &k).ok_or("the key does not open the file")?;
                fields.push((format!("file {i} nonce"), h.nonce.clone()));
                fields.push((format!("file {i} master key"), mk.to_vec()));
                for (j, s) in h.slots.iter().enumerate() {
                    fields.push((format!("file {i} slot {j} salt"), s.salt.to_vec()));
                    fields.push((format!("file {i} slot {j} nonce"), s.nonce.clone()));
                }
                // slots that were replaced since
                let mut gone: std::collections::BTreeSet<Vec<u8>> = h.slots.iter().map(|s| s.enc.to_vec()).collect();
                for t in 0..lines.len() {
                    if !lines[t].starts_with(&format!("dump\t/w/out{i}\t")) { continue; }
                    let d = parse(x.file(&format!("/w/was{t}")).ok_or("no dump")?).ok_or("no header")?;
                    for (j, s) in d.slots.iter().enumerate() {
                        if !gone.insert(s.enc.to_vec()) { continue; }
                        fields.push((format!("file {i} earlier({t}) slot {j} salt"), s.salt.to_vec()));
                        fields.push((format!("file {i} earlier({t}) slot {j} nonce"), s.nonce.clone()));
                    }
                }
            }
            for (n, v) in fields.iter() {
                let me = format!("process {run} {n}");
                if let Some(o) = seen.insert(v.clone(), me.clone()) { return Err(format!("{me} repeats {o}")); }
                if fresh { cols.entry(n.split(' ').skip(2).collect::<Vec<_>>().join(" ").trim_start_matches(|c: char| c.is_ascii_digit()).trim().to_string()).or_default().push(v.clone()); }
            }
            // no field contains a part of another one
            let mut win: std::collections::HashMap<&[u8], &str> = Default::default();
            for (n, v) in fields.iter() { for w in v.windows(8) { if let Some(o) = win.insert(w, n) { if o != n { return Err(format!("{n} shares bytes with {o}")); } } } }
            if last {
                for (n, vs) in cols.iter() {
                    for at in 0..vs[0].len() { if vs.len() >= 24 && vs.iter().all(|v| v[at] == vs[0][at]) { return Err(format!("byte {at} of the {n} is the same in {} samples", vs.len())); } }
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}
