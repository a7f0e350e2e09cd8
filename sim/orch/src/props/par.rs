//! C14: operations at the same time.
use super::scen::*;
use crate::sim::*;
use crate::util::*;
use proto::*;

fn moved(s: &str, i: usize) -> String { s.replace("/w/", &format!("/w{i}/")) }
pub fn c14(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let kinds = ["enc", "encdet", "dec", "decdet", "hash", "pack", "pack", "unpack", "unpack", "erase", "erasedir", "dump", "restore", "strip", "kadd", "kchg", "kdel", "kver"];
    let n = r.range(2, 4) as usize;
    let shared = r.chance(1, 4);
    // the working directory belongs to the whole process, too
    let relative = r.chance(1, 2);
    let mut fs: Vec<FSEntry> = vec![];
    let mut ops: Vec<Scen> = vec![];
    let mut lines: Vec<String> = vec![];
    let mut solo: Vec<Plan> = vec![];
    for i in 0..n {
        let kind = if shared { *r.pick(&["enc", "hash", "encdet", "dec"]) } else { *r.pick(&kinds) };
        let mut s = scen(&mut r, kind, false);
        let mut l = s.plan.argv[1].clone();
        l = moved(&l, i);
        for e in &mut s.plan.fs { e.path = moved(&e.path, i) }
        s.sem = match s.sem {
            Sem::Enc { out, hdr, key, pt } => Sem::Enc { out: moved(&out, i), hdr: hdr.map(|h| moved(&h, i)), key, pt },
            Sem::Pack { out, hdr, key, tree } => Sem::Pack { out: moved(&out, i), hdr: hdr.map(|h| moved(&h, i)), key, tree: tree.into_iter().map(|(n, d)| (n.replacen("w/", &format!("w{i}/"), 1), d)).collect() },
            Sem::Keys { file, opens, not, payload } => Sem::Keys { file: moved(&file, i), opens, not, payload },
            x => x,
        };
        if shared && i > 0 && matches!(kind, "enc" | "encdet" | "hash") {
            // the same input for all
            if let Some(FSEntry { spec: FileSpec::File(b), .. }) = ops.iter().flat_map(|o: &Scen| o.plan.fs.iter()).find(|e| e.path == "/w0/in").cloned() {
                l = l.replace(&format!("/w{i}/in"), "/w0/in");
                if let Sem::Enc { pt, .. } = &mut s.sem { *pt = b.clone() }
            }
        }
        if relative { l = l.split('\t').map(|a| if a.starts_with("/w") { a[1..].to_string() } else { a.to_string() }).collect::<Vec<_>>().join("\t"); }
        s.plan.argv[1] = l.clone();
        s.name = kind;
        fs.extend(s.plan.fs.clone());
        lines.push(l);
        ops.push(s);
    }
    for s in &ops { let mut p = s.plan.clone(); p.fs = fs.clone(); if relative { p.cwd = "/".into() } solo.push(p) }
    c.say(format!("{}{}", ops.iter().map(|o| o.name).collect::<Vec<_>>().join(" | "), if shared { ", sharing an input" } else { "" }));
    if relative { c.say("relative paths") }
    let mut alone: Vec<Run> = vec![];
    for (i, p) in solo.iter().enumerate() {
        let s = &ops[i];
        alone.push(c.exp(p.clone(), &|x| { if !x.said_ok() { return Err(format!("{} alone fails: {}", s.name, x.tail())); } sem_holds(&s.sem, x) })?);
    }
    let mut script = vec!["par".to_string()];
    let mut at = vec![];
    for (i, l) in lines.iter().enumerate() { if i > 0 { script.push("thr".into()) } at.push(script.len()); script.push(l.clone()); }
    script.push("endpar".into());
    let mut p = plan(&mut r, fs.clone(), drive(&script));
    if relative { p.cwd = "/".into() }
    // all of these hand out the same names
    for round in 0..if c.deep { 24 } else { 8 } {
        let mut q = p.clone();
        q.seed = r.next();
        match r.below(4) { 0 => q.auto.preempt = 100, 1 => q.auto.preempt = 500, 2 => q.auto.preempt = 1000, _ => q.auto.pct = r.range(1, 8) }
        if r.chance(1, 4) { let a = chunky(&mut r); q.auto = Auto { preempt: q.auto.preempt, pct: q.auto.pct, ..a } }
        let same_random = round % 4 == 3;
        let mut collide = false;
        if same_random { q.rng = match r.below(3) { 0 => RngMode::Const(r.next() as u8), 1 => RngMode::Cycle(r.bytes(32)), _ => { collide = true; RngMode::Prng(r.next()) } }; }
        if collide { q.faults = (0..60).map(|i| Fault { op: 1 + i * 3 + r.below(3), k: FK::Collide }).collect(); }
        c.exp(q, &|x| {
            if !x.ended() { return Err(format!("did not end: {}", x.tail())); }
            // (replacing an output in its way is unpack's business; a name of its own choice must be its own)
            for p in x.o.collided.iter().filter(|p| !alone.iter().any(|a| a.exists(p))) {
                match x.file(p) { Some(b) if b == b"belongs to someone else" || !b.is_empty() => {} Some(_) => return Err(format!("{p} belongs to another operation and was emptied")), None => return Err(format!("{p} belongs to another operation and was removed")) }
            }
            for (i, s) in ops.iter().enumerate() {
                let d = x.res(at[i]);
                if d.k != Rk::Ok {
                    if same_random && d.k == Rk::Err && matches!(s.name, "pack" | "unpack" | "enc" | "encdet" | "dump" | "dec" | "decdet") { continue; }
                    return Err(format!("{} fails next to others: {}", s.name, d.msg));
                }
                if d.msg != alone[i].res(0).msg { return Err(format!("{} reports {:?} instead of {:?}", s.name, d.msg, alone[i].res(0).msg)); }
                let pre = format!("/w{i}");
                if matches!(s.sem, Sem::None) { if let Some(m) = tree_diff(&alone[i].tree(&pre), &x.tree(&pre)) { return Err(format!("{} next to others: {m}", s.name)); } }
                else {
                    sem_holds(&s.sem, x).map_err(|m| format!("{} next to others: {m}", s.name))?;
                    let (a, b): (Vec<_>, Vec<_>) = (alone[i].tree(&pre).into_keys().collect(), x.tree(&pre).into_keys().collect());
                    if a != b { return Err(format!("{} next to others leaves {b:?} instead of {a:?}", s.name)); }
                }
            }
            if !collide { if let Some(s) = x.o.fs.iter().find(|s| s.path.starts_with("/tmp/")) { return Err(format!("{} is left", s.path)); } }
            Ok(())
        })?;
    }
    p.fs.clear();
    Ok(())
}
