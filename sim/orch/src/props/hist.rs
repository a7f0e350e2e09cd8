//! Histories of operations in one long-lived process: what an operation does must not depend on what
//! happened before, whether that succeeded or failed. Names are given to other files in between.
use super::scen::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use proto::*;
use std::collections::BTreeMap;

fn want(x: &Run, i: usize, ok: bool, l: &str) -> Result<String, String> {
    let d = x.res(i);
    if (d.k == Rk::Ok) != ok || !matches!(d.k, Rk::Ok | Rk::Err) { return Err(format!("step {i} ({}) {} instead of {}: {}", l.split('\t').next().unwrap_or(""), if d.k == Rk::Ok { "succeeded" } else if d.k == Rk::Err { "failed" } else { "crashed" }, if ok { "succeeding" } else { "failing" }, d.msg)); }
    Ok(d.msg)
}

/// C01, C16: encrypting, decrypting and hashing files whose names change hands
pub fn content_hist(c: &mut Case, hashing: bool) -> R {
    let mut r = c.rng.clone();
    let nf = r.range(2, 4) as usize;
    let mut plain: Vec<Option<Vec<u8>>> = (0..nf).map(|_| { let big = r.chance(1, 12); let n = size(&mut r, big); Some(content(&mut r, n)) }).collect();
    let fs: Vec<FSEntry> = plain.iter().enumerate().map(|(i, b)| file(&format!("/w/p{i}"), b.clone().unwrap())).collect();
    let keys: Vec<Vec<u8>> = (0..3).map(|i| { let mut k = key(&mut r); k.push(b'0' + i); k }).collect();
    // encrypted files: content, key, detached
    let mut enc: BTreeMap<usize, (Vec<u8>, usize, bool)> = BTreeMap::new();
    let mut lines = vec![];
    let mut wants: Vec<(bool, Option<String>)> = vec![];
    let mut outs: Vec<(String, Vec<u8>)> = vec![];
    for s in 0..r.range(4, if c.deep { 24 } else { 12 }) {
        let i = r.below(nf as u64) as usize;
        match if hashing && r.chance(1, 2) { 7 } else { r.below(9) } {
            0 | 1 => {
                let (e, k, det, f) = (r.below(3) as usize, r.below(3) as usize, r.chance(1, 3), Fmt::writable(&mut r));
                let h = format!("/w/h{e}");
                lines.push(enc_line(&format!("/w/p{i}"), &format!("/w/e{e}"), if det { Some(&h) } else { None }, &keys[k], &f));
                wants.push((plain[i].is_some(), None));
                if let Some(p) = &plain[i] { enc.insert(e, (p.clone(), k, det)); } 
            }
            2..=4 => {
                let (e, k) = (r.below(3) as usize, r.below(3) as usize);
                let Some((p, kk, det)) = enc.get(&e) else { continue };
                let k = if r.chance(2, 3) { *kk } else { k };
                let h = format!("/w/h{e}");
                let o = format!("/w/d{s}");
                lines.push(dec_line(&format!("/w/e{e}"), &o, if *det { Some(&h) } else { None }, &keys[k]));
                wants.push((k == *kk, None));
                if k == *kk { outs.push((o, p.clone())) }
            }
            5 | 6 => {
                let j = r.below(nf as u64) as usize;
                if i == j { continue }
                lines.push(line(&["mv", &format!("/w/p{i}"), &format!("/w/p{j}")]));
                wants.push((plain[i].is_some(), None));
                if plain[i].is_some() { plain[j] = plain[i].take() }
            }
            _ => {
                lines.push(line(&["hash", &format!("/w/p{i}"), &r.below(2000).to_string()]));
                wants.push((plain[i].is_some(), plain[i].as_ref().map(|b| blake3::hash(b).to_hex().to_string())));
            }
        }
    }
    c.say(format!("in one process: {}", lines.iter().map(|l| l.split('\t').next().unwrap_or("")).collect::<Vec<_>>().join(", ")));
    if lines.is_empty() { return Ok(()) }
    let mut p = plan(&mut r, fs, drive(&lines));
    if r.chance(1, 2) { p.auto = chunky(&mut r) }
    c.exp(p, &|x| {
        if !x.ended() { return Err(format!("did not end: {}", x.tail())); }
        for (i, (ok, m)) in wants.iter().enumerate() {
            let got = want(x, i, *ok, &lines[i])?;
            if let Some(m) = m { if got != *m { return Err(format!("step {i} returned the digest {got} instead of {m}")); } }
        }
        for (o, p) in &outs { if x.file(o) != Some(&p[..]) { return Err(format!("{o} is not what was encrypted: {}", first_diff(p, x.file(o).unwrap_or(b"")))); } }
        for (e, (p, k, det)) in &enc {
            let b = open_out(x, &format!("/w/e{e}"), &if *det { Some(format!("/w/h{e}")) } else { None }, &keys[*k])?;
            if b != *p { return Err(format!("/w/e{e} holds other content: {}", first_diff(p, &b))); }
        }
        for (i, p) in plain.iter().enumerate() { if x.file(&format!("/w/p{i}")) != p.as_deref() { return Err(format!("/w/p{i} was changed")); } }
        Ok(())
    })?;
    Ok(())
}

/// C11, C13: packing and unpacking directories whose names change hands
pub fn pack_hist(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let nd = r.range(2, 3) as usize;
    let mut fs = vec![];
    let mut trees: Vec<Option<BTreeMap<String, Option<Vec<u8>>>>> = vec![];
    for i in 0..nd { let t = tree(&mut r, &format!("/w/s{i}"), 6, false); trees.push(Some(rel(&t, &format!("/w/s{i}")))); fs.extend(t); }
    let secrets: Vec<Vec<u8>> = fs.iter().filter_map(|e| match &e.spec { FileSpec::File(b) if b.len() >= 32 && b[..32].iter().collect::<std::collections::BTreeSet<_>>().len() > 12 => Some(b[..32].to_vec()), _ => None }).collect();
    let keys: Vec<Vec<u8>> = (0..2).map(|i| { let mut k = key(&mut r); k.push(b'0' + i); k }).collect();
    let mut enc: BTreeMap<usize, (BTreeMap<String, Option<Vec<u8>>>, usize)> = BTreeMap::new();
    let (mut lines, mut wants, mut outs) = (vec![], vec![], vec![]);
    for s in 0..r.range(3, if c.deep { 16 } else { 8 }) {
        let i = r.below(nd as u64) as usize;
        match r.below(7) {
            0..=2 => {
                let (e, k, f) = (r.below(2) as usize, r.below(2) as usize, Fmt::v5(&mut r));
                lines.push(pack_line(&format!("/w/e{e}"), None, &keys[k], &f, r.chance(1, 2), &[&format!("/w/s{i}")]));
                wants.push(trees[i].is_some());
                if let Some(t) = &trees[i] { enc.insert(e, (t.iter().map(|(n, d)| (format!("w/s{i}/{n}"), d.clone())).collect(), k)); }
            }
            3 | 4 => {
                let e = r.below(2) as usize;
                let Some((t, kk)) = enc.get(&e) else { continue };
                let k = if r.chance(2, 3) { *kk } else { 1 - *kk };
                lines.push(unpack_line(&format!("/w/e{e}"), None, &keys[k], &format!("/w/o{s}")));
                wants.push(k == *kk);
                if k == *kk { outs.push((format!("/w/o{s}"), t.clone())) }
            }
            _ => {
                let j = r.below(nd as u64) as usize;
                if i == j { continue }
                // make room first
                if trees[j].is_some() { lines.push(line(&["mv", &format!("/w/s{j}"), &format!("/w/away{s}")])); wants.push(true); trees[j] = None; }
                lines.push(line(&["mv", &format!("/w/s{i}"), &format!("/w/s{j}")]));
                wants.push(trees[i].is_some());
                trees[j] = trees[i].take();
            }
        }
    }
    c.say(format!("in one process: {}", lines.iter().map(|l| l.split('\t').next().unwrap_or("")).collect::<Vec<_>>().join(", ")));
    if lines.is_empty() { return Ok(()) }
    let mut p = plan(&mut r, fs, drive(&lines));
    if r.chance(1, 2) { p.auto = chunky(&mut r) }
    schedule(&mut r, &mut p.auto);
    c.exp(p, &|x| {
        if !x.ended() { return Err(format!("did not end: {}", x.tail())); }
        for (i, ok) in wants.iter().enumerate() { want(x, i, *ok, &lines[i])?; }
        let same = |got: &BTreeMap<String, Option<Vec<u8>>>, t: &BTreeMap<String, Option<Vec<u8>>>, wh: &str| -> Result<(), String> {
            for (n, d) in t { if got.get(n) != Some(d) { return Err(format!("{wh}: {n} is {}", if got.contains_key(n) { "different" } else { "missing" })); } }
            if let Some((n, _)) = got.iter().find(|(n, d)| d.is_some() && !t.contains_key(*n)) { return Err(format!("{wh}: {n} was never packed")); }
            Ok(())
        };
        for (e, (t, k)) in &enc { same(&unzip(&open_out(x, &format!("/w/e{e}"), &None, &keys[*k])?).ok_or("the archive is not readable")?, t, &format!("/w/e{e}"))?; }
        for (o, t) in &outs { same(&rel(&x.o.fs.iter().map(|s| FSEntry { path: s.path.clone(), mode: 0o755, spec: s.spec.clone() }).collect::<Vec<_>>(), &format!("{o}/")), t, o)?; }
        if let Some(s) = x.o.fs.iter().find(|s| s.path.starts_with("/tmp/")) { return Err(format!("{} is left", s.path)); }
        for g in &x.o.graves { if let Some((at, _)) = g.nonzero.iter().find(|(_, b)| secrets.iter().any(|s| b.windows(s.len()).any(|w| w == &s[..]))) { return Err(format!("a temporary file was released with content at {at}")); } }
        Ok(())
    })?;
    Ok(())
}
