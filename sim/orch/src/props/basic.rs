//! C01, C03, C16, C17, C18: content and digests go through unchanged whatever the storage does.
use super::scen::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use proto::*;

pub fn c01(c: &mut Case) -> R {
    if c.seed % 2500 == 1111 { return c01_huge(c) }
    if c.seed % 6 == 0 { return c01_cli(c); }
    if c.seed % 12 == 5 { return super::hist::content_hist(c, false) }
    let mut r = c.rng.clone();
    let n = large(&mut r);
    let pt = content(&mut r, n);
    let k = if r.chance(1, 15) { let n = r.range(1000, 18_000) as usize; r.bytes(n) } else { key(&mut r) };
    let fmt = if r.chance(1, 8) { Fmt { ver: r.range(1, 5) as u8, stream: r.chance(2, 3), algo: *r.pick(&ALGOS), hash: *r.pick(&HASHES) } } else { Fmt::writable(&mut r) };
    let must = fmt.stream && (fmt.ver == 5 || fmt.ver == 4 && fmt.hash == 0xB4);
    let det = r.chance(1, 3);
    c.say(format!("{} bytes, {:?}, detached {}", n, fmt, det));
    let h = if det { Some("/w/hdr") } else { None };
    let mut lines = [enc_line("/w/in", "/w/enc", h, &k, &fmt), dec_line("/w/enc", "/w/dec", h, &k)];
    if r.chance(1, 5) {
        let at: Vec<String> = (0..3).map(|_| match r.below(4) { 0 => 0, 1 => n as u64, 2 => n as u64 + 100, _ => r.below(n as u64 + 1) }.to_string()).collect();
        lines[0] = format!("{}\t{}", lines[0], at.join("\t"));
    }
    let mut fs = vec![file("/w/in", pt.clone())];
    if r.chance(1, 4) { let j = r.bytes(n + 900); fs.push(file("/w/enc", j.clone())); fs.push(file("/w/dec", j.clone())); fs.push(file("/w/hdr", j)); }
    let mut p = plan(&mut r, fs, drive(&lines));
    p.auto = chunky(&mut r);
    c.exp(p, &|x| {
        let (e, d) = (x.res(0), x.res(1));
        if e.k == Rk::Panic || d.k == Rk::Panic || !x.ended() { return Err(format!("crashed: {} / {} ({})", e.msg, d.msg, x.tail())); }
        if must && e.k != Rk::Ok { return Err(format!("encrypting failed without any fault but short or interrupted transfers: {}", e.msg)); }
        if e.k != Rk::Ok { return Ok(()); }
        if d.k != Rk::Ok { return Err(format!("encrypted successfully, but decrypting fails: {}", d.msg)); }
        let got = x.file("/w/dec").ok_or("no output")?;
        if got != pt { return Err(format!("decrypted content differs: {}", first_diff(&pt, got))); }
        let b = open_out(x, "/w/enc", &h.map(String::from), &k).map_err(|m| format!("for the reference implementation {m}"))?;
        if b != pt { return Err(format!("the reference implementation gets other content: {}", first_diff(&pt, &b))); }
        Ok(())
    })?;
    Ok(())
}
/// more blocks than small counters hold
fn c01_huge(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = (*r.pick(&[128usize, 256]) << 20) + BLOCK + r.below(5000) as usize;
    let pt = r.bytes(n);
    let k = key(&mut r);
    let fmt = Fmt { ver: 5, stream: true, algo: *r.pick(&[Algo::X, Algo::A]), hash: 0xB5 };
    c.say(format!("{n} bytes, {fmt:?}"));
    let mut p = plan(&mut r, vec![file("/w/in", pt.clone())], drive(&[enc_line("/w/in", "/w/enc", None, &k, &fmt)]));
    p.trace = false;
    let x = c.exp(p, &|x| {
        if !x.said_ok() { return Err(format!("encrypting fails without a fault: {}", x.tail())); }
        let b = open_out(x, "/w/enc", &None, &k).map_err(|m| format!("for the reference implementation {m}"))?;
        if b != pt { return Err(format!("the reference implementation gets other content: {}", first_diff(&pt, &b))); }
        Ok(())
    })?;
    let enc = x.file("/w/enc").unwrap_or_default().to_vec();
    drop(x);
    let mut p = plan(&mut r, vec![file("/w/enc", enc)], drive(&[dec_line("/w/enc", "/w/dec", None, &k)]));
    p.trace = false;
    c.exp(p, &|x| {
        if !x.said_ok() { return Err(format!("decrypting fails without a fault: {}", x.tail())); }
        let got = x.file("/w/dec").ok_or("no output")?;
        if got != pt { return Err(format!("decrypted content differs: {}", first_diff(&pt, got))); }
        Ok(())
    })?;
    Ok(())
}
fn c01_cli(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = size(&mut r, true);
    let pt = content(&mut r, n);
    let k = if r.chance(1, 2) { text_key(&mut r).into_bytes() } else { odd_key(&mut r) };
    let (ge, gd) = (give(&mut r, &k, true), give(&mut r, &k, false));
    let (aes, argon, det, over) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 3), r.chance(1, 3));
    c.say(format!("command line: {n} bytes, aes {aes}, argon {argon}, detached {det}, key by {}, then {}", ge.how, gd.how));
    let mut e = vec!["encrypt"];
    let mut d = vec!["decrypt"];
    if aes { e.push("--aes") }
    if argon { e.push("--argon") }
    e.extend(ge.args.iter().map(|s| s.as_str()));
    d.extend(gd.args.iter().map(|s| s.as_str()));
    if det { e.extend(["--header", "h"]); d.extend(["--header", "h"]); }
    if over { e.push("-f"); d.push("-f"); }
    e.extend(["in", "enc"]);
    d.extend(["enc", "dec"]);
    let mut fs = vec![file("/w/in", pt.clone())];
    let junk = |r: &mut Rng, p: &str| { let l = match r.below(3) { 0 => r.below(600) as usize, 1 => n / 2, _ => n + r.range(1, 3000) as usize }; file(p, r.bytes(l)) };
    if over { fs.push(junk(&mut r, "/w/enc")); if det { fs.push(junk(&mut r, "/w/h")) } }
    let mut p = plan(&mut r, fs, cli(&e));
    ge.put(&mut p);
    p.auto = chunky(&mut r);
    let hdr = if det { Some("/w/h".to_string()) } else { None };
    let x = c.exp(p.clone(), &|x| {
        if !x.said_ok() { return Err(format!("encrypting failed without any fault but short or interrupted transfers: {}", x.tail())); }
        let b = open_out(x, "/w/enc", &hdr, &k).map_err(|m| format!("for the reference implementation {m}"))?;
        if b != pt { return Err(format!("the reference implementation gets other content: {}", first_diff(&pt, &b))); }
        Ok(())
    })?;
    let mut fs = vec![file("/w/enc", x.file("/w/enc").unwrap().to_vec())];
    if over { fs.push(junk(&mut r, "/w/dec")) }
    if det { fs.push(file("/w/h", x.file("/w/h").unwrap().to_vec())) }
    let mut q = plan(&mut r, fs, cli(&d));
    gd.put(&mut q);
    q.auto = chunky(&mut r);
    c.exp(q, &|x| {
        if !x.said_ok() { return Err(format!("decrypting failed without any fault but short or interrupted transfers: {}", x.tail())); }
        let got = x.file("/w/dec").ok_or("no output")?;
        if got != pt { return Err(format!("decrypted content differs: {}", first_diff(&pt, got))); }
        Ok(())
    })?;
    Ok(())
}

/// C03: damaged ciphertext never decrypts to different data
pub fn c03(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let packed = r.chance(1, 5);
    let big = r.chance(1, 2);
    let n = if big { size(&mut r, true) + if r.chance(1, 2) { BLOCK * r.range(1, 2) as usize } else { 0 } } else { size(&mut r, false) };
    let t = tree(&mut r, "/w/src", 6, false);
    let pt = if packed { zip_of(&rel(&t, "/w")) } else if r.chance(1, 6) { vec![0u8; n] } else { content(&mut r, n) };
    let k = key(&mut r);
    let f = Fmt { ver: *r.pick(&[1, 2, 3, 4, 4, 5, 5, 5, 5, 5]), stream: r.chance(4, 5), algo: *r.pick(&ALGOS), hash: *r.pick(&HASHES) };
    let hid = match f.ver { 4 => 0xB4, _ => f.hash };
    let nkeys = if f.ver == 5 { r.range(1, 4) } else { 1 };
    let others: Vec<Vec<u8>> = (1..nkeys).map(|i| format!("other{i}").into_bytes()).collect();
    let mut keys: Vec<(&[u8], u8)> = others.iter().map(|k| (&k[..], 0xB5)).collect();
    let at = r.below(nkeys) as usize;
    keys.insert(at, (&k, hid));
    let m = make(&mut r, f.ver, f.algo, f.stream, &keys, &pt);
    // another file encrypted with the same keys
    let n2 = if r.chance(1, 2) { pt.len() } else { size(&mut r, big) };
    let pt2 = if r.chance(1, 4) { pt.clone() } else { r.bytes(n2) };
    let m2 = make(&mut r, f.ver, f.algo, f.stream, &keys, &pt2);
    let det = r.chance(1, 3);
    let runs = if c.deep { 24 } else { 9 };
    c.say(format!("{} bytes, {:?}, {} keys, detached {det}, packed {packed}", pt.len(), f, nkeys));
    let eb = BLOCK + 16;
    for _ in 0..runs {
        let (mut h, mut b) = (m.hdr.clone(), m.payload.clone());
        let what;
        match r.below(14) {
            0 | 1 => { let i = r.below(h.len() as u64) as usize; h[i] ^= 1 << r.below(8); what = format!("header bit at {i}") }
            2 => { let i = r.below(h.len() as u64) as usize; h[i] = r.next() as u8; what = format!("header byte at {i}") }
            3 | 4 => { let i = if r.chance(1, 3) { b.len() - 1 - r.below(40.min(b.len() as u64)) as usize } else { r.below(b.len() as u64) as usize }; b[i] ^= 1 << r.below(8); what = format!("payload bit at {i}") }
            5 => {
                let cut = match r.below(5) { 0 => 16.min(b.len()), 1 => b.len() - b.len() % eb, 2 => (r.below(b.len() as u64 / eb as u64 + 1) as usize) * eb, 3 => b.len() - 1, _ => r.below(b.len() as u64) as usize };
                b.truncate(cut); what = format!("payload cut to {cut}")
            }
            6 => { let l = match r.below(3) { 0 => 16, 1 => 1, _ => r.range(1, 3000) } as usize; let e = if r.chance(1, 2) { vec![0; l] } else { r.bytes(l) }; b.extend(e); what = format!("{l} bytes appended") }
            7 if b.len() > eb => { let i = r.below((b.len() / eb) as u64) as usize; b.drain(i * eb..(i + 1) * eb); what = format!("block {i} lost") }
            8 if b.len() > eb => { let i = r.below((b.len() / eb) as u64) as usize; let x = b[i * eb..(i + 1) * eb].to_vec(); let j = (i + r.below(2) as usize) * eb; b.splice(j..j, x); what = format!("block {i} duplicated") }
            9 if b.len() >= 2 * eb => { let (x, y) = b.split_at_mut(eb); x.swap_with_slice(&mut y[..eb]); what = "first two blocks swapped".into() }
            10 => { let l = b.len().min(m2.payload.len()); let i = r.below((l / eb) as u64 + 1) as usize * eb; let e = (i + eb).min(l); b[i..e].copy_from_slice(&m2.payload[i..e]); what = format!("block at {i} from another file") }
            11 => { if r.chance(1, 2) { h = m2.hdr.clone(); what = "header of another file".into() } else { b = m2.payload.clone(); what = "payload of another file".into() } }
            12 => {
                // sectors: lost, stale, misdirected
                let ns = b.len().div_ceil(512) as u64;
                let (i, j) = (r.below(ns) as usize * 512, r.below(ns) as usize * 512);
                let (ei, ej) = ((i + 512).min(b.len()), (j + 512).min(b.len()));
                match r.below(3) { 0 => { b[i..ei].fill(0); what = format!("sector at {i} lost") } 1 => { let s = b[j..ej].to_vec(); let l = s.len().min(ei - i); b[i..i + l].copy_from_slice(&s[..l]); what = format!("sector at {j} written at {i}") } _ => { b.truncate(i); what = format!("torn at sector {i}") } }
            }
            _ => { if h.len() == 416 { let (i, j) = (r.below(4) as usize, r.below(4) as usize); let s = h[32 + i * 96..128 + i * 96].to_vec(); h[32 + j * 96..128 + j * 96].copy_from_slice(if r.chance(1, 2) { &m2.hdr[32 + i * 96..128 + i * 96] } else { &s }); what = format!("key slot {j} replaced") } else { let cut = r.below(h.len() as u64) as usize; h.truncate(cut); what = format!("header cut to {cut}") } }
        }
        let aad = parse(&m.hdr).unwrap().aad;
        let changed = h != m.hdr || b != m.payload;
        let mut must_fail = b != m.payload;
        if f.ver >= 3 && parse(&h).is_none_or(|x| x.aad != aad) { must_fail = true }
        if !must_fail && changed { must_fail = decrypt(&h, &b, &k).as_ref() != Some(&pt) }
        // an embedded header that lost bytes shifts everything
        if !det && h.len() != m.hdr.len() { must_fail = true }
        let mut fs = vec![];
        if det { fs.push(file("/w/enc", b)); fs.push(file("/w/hdr", h)); } else { h.extend(b); fs.push(file("/w/enc", h)); }
        let hp = if det { Some("/w/hdr") } else { None };
        let l = if packed { unpack_line("/w/enc", hp, &k, "/w/out") } else { dec_line("/w/enc", "/w/dec", hp, &k) };
        let mut p = plan(&mut r, fs, drive(&[l]));
        if r.chance(1, 4) { p.auto = chunky(&mut r) }
        let transfer = !changed || r.chance(1, 4);
        if transfer { let o = if r.chance(1, 2) { r.range(1, 14) } else { r.range(1, 30) }; p.faults = vec![Fault { op: o, k: FK::Flip(r.below(BLOCK as u64 + 16), 1 << r.below(8)) }]; }
        let want = rel(&t, "/w");
        if changed { c.tag("damage_at_rest") }
        c.exp(p, &|x| {
            let d = x.res(0);
            // a flipped bit may have repaired nothing: the file as stored decides
            if must_fail && !transfer && d.k == Rk::Ok { return Err(format!("decrypting succeeds although: {what}")); }
            if packed {
                // names in the temporary archive are not authenticated
                if x.o.trace.iter().any(|e| e.fault && e.kind == op::READ && !matches!(&x.name_of(e.ino)[..], "/w/enc" | "/w/hdr")) { return Ok(()); }
                let got = x.tree("/w/out");
                if d.k == Rk::Ok {
                    for (n, e) in &want { match (e, got.get(&format!("/w/out/{n}"))) { (None, Some(FileSpec::Dir)) => {} (Some(a), Some(FileSpec::File(b))) if a == b => {} _ => return Err(format!("unpacking succeeds with another {n} although: {what}")) } }
                } else if x.ended() && got.values().any(|s| matches!(s, FileSpec::File(_))) && !transfer { return Err(format!("unpacking failed, but left files, although: {what}")); }
                return Ok(());
            }
            let got = x.file("/w/dec").unwrap_or(&[]);
            if d.k == Rk::Ok && got != pt { return Err(format!("decrypting succeeds with other content ({}) although: {what}", first_diff(&pt, got))); }
            if !pt.starts_with(got) { return Err(format!("wrote data that is no prefix of the original ({}) although: {what}", first_diff(&pt, got))); }
            Ok(())
        })?;
    }
    Ok(())
}

/// C16: the hash is the BLAKE3 of the whole file or an error
/// the digest an operation prints when asked for it (-H): of the file that is encrypted
fn hash_along(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let kind = *r.pick(&["cli-encrypt", "cli-decrypt", "cli-pack", "cli-unpack", "cli-encrypt-erase", "cli-decrypt-erase", "cli-pack-erase"]);
    let mut s = super::scen::scen(&mut r, kind, false);
    if !s.plan.argv.iter().any(|a| a == "-H") { s.plan.argv.insert(2, "-H".into()) }
    c.say(format!("{kind} {:?}", s.plan.argv));
    let input = s.plan.fs.iter().find(|e| e.path == "/w/in").and_then(|e| match &e.spec { FileSpec::File(b) => Some(b.clone()), _ => None });
    let after = kind.contains("encrypt") || kind.contains("pack") && !kind.contains("unpack");
    let check = |x: &Run| -> Result<(), String> {
        let b = if after { x.file("/w/out") } else { input.as_deref() };
        let want = b.map(|b| blake3::hash(b).to_hex().to_string());
        let out = x.stdout();
        let said: Vec<&str> = out.split(|c: char| !c.is_ascii_hexdigit()).filter(|w| w.len() == 64).collect();
        if !x.ended() { return Ok(()) }
        if let Some(w) = said.iter().find(|w| Some(w.to_string()) != want) { return Err(format!("{kind} -H printed {w}, but the digest is {want:?}")) }
        if x.said_ok() && said.is_empty() { return Err(format!("{kind} -H succeeded without a digest: {out:?}")) }
        Ok(())
    };
    if r.chance(2, 3) { s.plan.auto = chunky(&mut r) }
    let x = c.exp(s.plan.clone(), &check)?;
    let t = super::scen::targets(&x);
    for _ in 0..if c.deep { 16 } else { 5 } {
        let mut q = s.plan.clone();
        let Some(e) = super::scen::aim(&mut r, &t) else { break };
        q.faults = vec![Fault { op: e.op, k: FK::Err(errno(&mut r, e.kind)) }];
        c.exp(q, &check)?;
    }
    Ok(())
}
pub fn c16(c: &mut Case) -> R {
    if c.seed % 8 == 5 { return hash_along(c) }
    if c.seed % 8 == 3 { return super::hist::content_hist(c, true) }
    let mut r = c.rng.clone();
    let iscli = r.chance(1, 4);
    let many = iscli && r.chance(1, 4);
    let nf = if many { r.range(5, 300) } else if iscli { r.range(1, 4) } else { 1 } as usize;
    let files: Vec<Vec<u8>> = (0..nf).map(|_| { let n = if many { r.range(1, 3000) as usize } else { match r.below(12) { 0 => 8 * BLOCK + r.below(3) as usize, 1 => *r.pick(&[4, 5, 8]) * BLOCK - r.below(2) as usize, _ => large(&mut r) } }; content(&mut r, n) }).collect();
    let digests: Vec<String> = files.iter().map(|b| blake3::hash(b).to_hex().to_string()).collect();
    let n = files[0].len();
    let pos = match r.below(4) { 0 => 0, 1 => n as u64, 2 => n as u64 + r.below(5000), _ => r.below(n as u64 + 1) };
    c.say(format!("{nf} files, first {n} bytes, position {pos}, command line {iscli}"));
    let fs: Vec<FSEntry> = files.iter().enumerate().map(|(i, b)| file(&format!("/w/f{i}"), b.clone())).collect();
    let names: Vec<String> = (0..nf).map(|i| format!("f{i}")).collect();
    let argv = if iscli { let mut a = vec!["hash"]; a.extend(names.iter().map(|s| s.as_str())); cli(&a) } else { drive(&[line(&["hash", "/w/f0", &pos.to_string()])]) };
    let mut p = plan(&mut r, fs, argv);
    let right = |x: &Run, all: bool| -> Result<(), String> {
        if iscli {
            let out = x.stdout();
            // every digest that was printed belongs to the file it is printed with
            for l in out.lines() {
                if let Some(i) = names.iter().position(|n| l.contains(&format!("{n}: "))) { if l.split(|c: char| !c.is_ascii_hexdigit()).any(|w| w.len() == 64 && w != digests[i]) { return Err(format!("printed a wrong digest: {l}")); } }
            }
            if x.said_ok() { for (i, d) in digests.iter().enumerate() { if !out.contains(d) { return Err(format!("success without the digest of file {i}: {out:?}")); } } }
            else if all { return Err(format!("failed without a failing read: {}", x.tail())); }
            return Ok(());
        }
        let d = x.res(0);
        match d.k {
            Rk::Ok => if d.msg.trim().to_lowercase() == digests[0] { Ok(()) } else { Err(format!("{} instead of {}", d.msg, digests[0])) },
            Rk::Err if !all => if d.msg.contains(&digests[0][..16]) { Err("an error that gives a digest".into()) } else { Ok(()) },
            _ => Err(format!("failed without a failing read: {} {}", d.msg, x.tail())),
        }
    };
    p.auto = chunky(&mut r);
    if n > 20_000 && n < 150_000 && r.chance(1, 8) { p.auto = crawl(&mut r) }
    let clean = c.exp(p.clone(), &|x| right(x, true))?;
    let reads: Vec<&Event> = clean.o.trace.iter().filter(|e| matches!(e.kind, op::READ | op::SEEK | op::OPEN)).collect();
    for _ in 0..if c.deep { 12 } else { 4 } {
        let mut q = p.clone();
        let e = *r.pick(&reads);
        q.faults = vec![Fault { op: e.op, k: FK::Err(errno(&mut r, e.kind)) }];
        c.exp(q, &|x| {
            let fired = x.o.trace.iter().any(|e| e.fault && e.kind == op::READ && e.ret < 0 && e.ret != -4);
            if fired && x.said_ok() { return Err("reports success although a read failed".into()); }
            right(x, false)
        })?;
    }
    Ok(())
}

/// C17: files in every supported older format still decrypt
pub fn c17(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = large(&mut r);
    let pt = content(&mut r, n);
    let iscli = r.chance(1, 4);
    let k = if iscli { text_key(&mut r).into_bytes() } else { key(&mut r) };
    let f = Fmt { ver: r.range(1, 5) as u8, stream: r.chance(1, 2), algo: *r.pick(&ALGOS), hash: *r.pick(&HASHES) };
    let nkeys = if f.ver == 5 { r.range(1, 4) } else { 1 };
    let others: Vec<Vec<u8>> = (1..nkeys).map(|i| format!("other key {i}").into_bytes()).collect();
    let mut keys: Vec<(&[u8], u8)> = others.iter().map(|k| (&k[..], *r.pick(&HASHES))).collect();
    let at = r.below(nkeys) as usize;
    keys.insert(at, (&k, if f.ver == 4 { 0xB4 } else { f.hash }));
    let m = make(&mut r, f.ver, f.algo, f.stream, &keys, &pt);
    let det = r.chance(1, 3);
    let hp = if det { Some("/w/hdr") } else { None };
    c.say(format!("{n} bytes, {f:?}, key {at} of {nkeys}, detached {det}, command line {iscli}"));
    let mut wrong = k.clone();
    match r.below(4) { 0 => wrong.push(b'x'), 1 if wrong.len() > 1 => { wrong.pop(); } 2 => wrong = b"entirely different".to_vec(), _ => { let i = r.below(wrong.len() as u64) as usize; wrong[i] ^= 1 } }
    if iscli && std::str::from_utf8(&wrong).is_err() { wrong = b"another".to_vec() }
    for (kk, good) in [(&k, true), (&wrong, false)] {
        let mut fs = if det { vec![file("/w/enc", m.payload.clone()), file("/w/hdr", m.hdr.clone())] } else { vec![file("/w/enc", m.file())] };
        let argv = if iscli {
            fs.push(file("/w/key", kk.clone()));
            let mut a = vec!["decrypt", "-k", "key"];
            if det { a.extend(["--header", "hdr"]) }
            a.extend(["enc", "dec"]);
            cli(&a)
        } else { drive(&[dec_line("/w/enc", "/w/dec", hp, kk)]) };
        let mut p = plan(&mut r, fs, argv);
        p.auto = chunky(&mut r);
        c.exp(p, &|x| {
            if good {
                if !x.said_ok() { return Err(format!("a valid file does not decrypt: {}", x.tail())); }
                let got = x.file("/w/dec").ok_or("no output")?;
                if got != pt { return Err(format!("decrypts to something else: {}", first_diff(&pt, got))); }
            } else if x.said_ok() { return Err("decrypts with a wrong key".into()); }
            Ok(())
        })?;
    }
    Ok(())
}

pub fn words() -> &'static Vec<&'static str> {
    static W: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    W.get_or_init(|| include_str!("../wordlist.lst").lines().collect())
}
/// in how many words of the list can a phrase be read (the list has words with dashes)?
pub fn word_counts(p: &str) -> Vec<usize> {
    static S: std::sync::OnceLock<std::collections::HashSet<&'static str>> = std::sync::OnceLock::new();
    let set = S.get_or_init(|| words().iter().copied().collect());
    let parts: Vec<&str> = p.split('-').collect();
    // counts[i]: possible numbers of words in the first i parts
    let mut counts: Vec<Vec<usize>> = vec![vec![]; parts.len() + 1];
    counts[0].push(0);
    for i in 0..parts.len() {
        if counts[i].is_empty() { continue; }
        let from = counts[i].clone();
        for l in 1..=3.min(parts.len() - i) {
            if set.contains(parts[i..i + l].join("-").as_str()) { for n in &from { if !counts[i + l].contains(&(n + 1)) { counts[i + l].push(n + 1) } } }
        }
        if i > 0 { counts[i] = vec![] }
    }
    counts.pop().unwrap()
}
/// C18: passphrase generation
pub fn c18(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    if c.seed % 40 == 0 { return coverage(c); }
    if c.seed % 40 == 7 { return draws(c); }
    let n = match r.below(8) { 0 => r.range(0, 2) as i64, 1 => -(r.below(5) as i64), 2 => r.range(50, 300) as i64, _ => r.range(1, 12) as i64 };
    let n = crate::dict::int(&mut r, -5, 400).unwrap_or(n);
    let mode = match r.below(7) {
        0 => RngMode::Const(0xff), 1 => RngMode::Const(0), 2 => RngMode::Const(r.next() as u8), 3 => { let l = r.range(1, 40) as usize; RngMode::Cycle(r.bytes(l)) }
        4 => { let w = (0..r.range(1, 30)).map(|_| *r.pick(&[0, u64::MAX, 1, u64::MAX - 1, 7775, 7776, 7777, 1 << 63, u64::MAX >> 1, u32::MAX as u64, (u32::MAX as u64) << 32])).collect(); RngMode::Words(w, r.next()) }
        _ => RngMode::Prng(r.next()),
    };
    let iscli = r.chance(1, 5);
    c.say(format!("{n} words, {mode:?}, command line {iscli}"));
    if iscli {
        let pt = r.bytes(100);
        let auto = match n { 7 => "--auto".to_string(), n => format!("--auto={n}") };
        let mut p = plan(&mut r, vec![file("/w/in", pt.clone())], cli(&["encrypt", &auto, "in", "out"]));
        if !matches!(mode, RngMode::Const(_) | RngMode::Cycle(_)) { p.rng = mode; }
        c.exp(p, &|x| {
            let out = format!("{}{}", x.stdout(), String::from_utf8_lossy(&x.o.stderr));
            if n <= 0 { return if x.said_ok() { Err("encrypted with an empty passphrase".into()) } else { Ok(()) } }
            if !x.said_ok() { return Err(format!("failed: {}", x.tail())); }
            let phrase = out.lines().find_map(|l| l.split_once("passphrase is: ").map(|x| x.1.trim().to_string())).ok_or("the passphrase was not shown")?;
            if !word_counts(&phrase).contains(&(n as usize)) { return Err(format!("{phrase:?} is not {n} words of the list")); }
            if open_out(x, "/w/out", &None, phrase.as_bytes())? != pt { return Err("the shown passphrase opens other content".into()); }
            Ok(())
        })?;
        return Ok(());
    }
    let mut p = plan(&mut r, vec![], drive(&[line(&["gen", &n.to_string()])]));
    p.rng = mode;
    c.exp(p, &|x| {
        let d = x.res(0);
        if d.k != Rk::Ok { return Err(format!("failed: {} {}", d.msg, x.tail())); }
        if n <= 0 { return if d.msg.is_empty() { Ok(()) } else { Err(format!("{n} words gave {:?}", d.msg)) } }
        if !word_counts(&d.msg).contains(&(n as usize)) { return Err(format!("{:?} is not {n} words of the list", d.msg)); }
        Ok(())
    })?;
    Ok(())
}
/// what is drawn decides every word
fn draws(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = *r.pick(&[1usize, 2, 3, 4, 7, 12]);
    let iscli = r.chance(1, 3);
    c.say(format!("24 passphrases of {n} words, command line {iscli}"));
    let mut seen: Vec<std::collections::HashSet<String>> = vec![Default::default(); n];
    let last = 23;
    for i in 0..=last {
        let p = plan(&mut r, vec![file("/w/in", vec![1])], if iscli { cli(&["encrypt", &format!("--auto={n}"), "in", "out"]) } else { drive(&[line(&["gen", &n.to_string()])]) });
        let mut words = vec![];
        let s2 = seen.clone();
        let x = c.exp(p.clone(), &|x| {
            let w = phrase_of(x, iscli).ok_or("no passphrase")?;
            let w: Vec<&str> = w.split('-').collect();
            if i == last && w.len() == n { for (at, s) in s2.iter().enumerate() { if s.len() + (!s.contains(w[at])) as usize <= 12 { return Err(format!("word {at} took only {} values in {} passphrases from different random draws", s.len(), last + 1)); } } }
            Ok(())
        })?;
        if let Some(w) = phrase_of(&x, iscli) { words = w.split('-').map(String::from).collect() }
        if words.len() == n { for (s, w) in seen.iter_mut().zip(words) { s.insert(w); } }
    }
    Ok(())
}
fn phrase_of(x: &Run, iscli: bool) -> Option<String> {
    if !iscli { return Some(x.res(0).msg.trim().to_string()); }
    format!("{}{}", x.stdout(), String::from_utf8_lossy(&x.o.stderr)).lines().find_map(|l| l.split_once("passphrase is: ").map(|x| x.1.trim().to_string()))
}
fn coverage(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = 200_000;
    c.say("200,000 words: every word of the list occurs");
    let mut p = plan(&mut r, vec![], drive(&[line(&["gen", &n.to_string()])]));
    p.max_ops = 3_000_000;
    p.trace = false;
    c.exp(p, &|x| {
        let d = x.res(0);
        if d.k != Rk::Ok { return Err(format!("failed: {}", d.msg.chars().take(200).collect::<String>())); }
        if !word_counts(&d.msg).contains(&n) { return Err("not 200,000 words of the list".into()); }
        let got: std::collections::HashSet<&str> = d.msg.split('-').collect();
        let parts: Vec<&str> = d.msg.split('-').collect();
        let pairs: std::collections::HashSet<String> = parts.windows(2).map(|w| w.join("-")).collect();
        if let Some(w) = words().iter().find(|w| !got.contains(*w) && !pairs.contains(**w)) { return Err(format!("{w:?} does not occur in 200,000 words")); }
        Ok(())
    })?;
    Ok(())
}
