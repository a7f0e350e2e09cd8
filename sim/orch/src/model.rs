//! Reference implementation of the documented file format, written from the format description:
//! header versions 1 to 5, stream (LE31, 1 MiB blocks) and memory mode, three ciphers, five key
//! hashing settings. Shares with the code under test only the cipher and hash primitives.
use aes_gcm::Aes256Gcm;
use chacha20poly1305::aead::{Aead, KeyInit, Payload};
use chacha20poly1305::XChaCha20Poly1305;
use deoxys::DeoxysII256;
use proto::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Algo { X, A, D }
pub const ALGOS: [Algo; 3] = [Algo::X, Algo::A, Algo::D];
impl Algo {
    pub fn name(self) -> &'static str { match self { Algo::X => "X", Algo::A => "A", Algo::D => "D" } }
    fn id(self) -> u8 { match self { Algo::X => 1, Algo::A => 2, Algo::D => 3 } }
    fn full_nonce(self) -> usize { match self { Algo::X => 24, Algo::A => 12, Algo::D => 15 } }
    pub fn nonce_len(self, stream: bool) -> usize { self.full_nonce() - if stream { 4 } else { 0 } }
}
pub const HASHES: [u8; 5] = [0xA1, 0xA2, 0xA3, 0xB4, 0xB5];
pub fn hash_name(h: u8) -> &'static str { match h { 0xA1 => "A1", 0xA2 => "A2", 0xA3 => "A3", 0xB4 => "B4", _ => "B5" } }
pub const BLOCK: usize = 1 << 20;

pub fn kdf(h: u8, key: &[u8], salt: &[u8]) -> Option<[u8; 32]> {
    let mut out = [0u8; 32];
    match h {
        0xA1 | 0xA2 | 0xA3 => {
            let (m, t, p) = match h { 0xA1 => (8192, 8, 4), 0xA2 => (262_144, 8, 4), _ => (262_144, 10, 4) };
            let a = argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, argon2::Params::new(m, t, p, Some(32)).ok()?);
            a.hash_password_into(key, salt, &mut out).ok()?;
        }
        0xB4 | 0xB5 => {
            let s = if h == 0xB4 { 262_144 } else { 278_528 };
            let b = balloon_hash::Balloon::<blake3::Hasher>::new(balloon_hash::Algorithm::Balloon, balloon_hash::Params::new(s, 1, 1).ok()?, None);
            b.hash_into(key, salt, &mut out).ok()?;
        }
        _ => return None,
    }
    Some(out)
}
pub fn seal(a: Algo, key: &[u8; 32], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    let p = Payload { msg, aad };
    match a {
        Algo::X => XChaCha20Poly1305::new(key.into()).encrypt(nonce.into(), p).unwrap(),
        Algo::A => Aes256Gcm::new(key.into()).encrypt(nonce.into(), p).unwrap(),
        Algo::D => DeoxysII256::new(key.into()).encrypt(nonce.into(), p).unwrap(),
    }
}
pub fn open(a: Algo, key: &[u8; 32], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
    if nonce.len() != a.full_nonce() { return None; }
    let p = Payload { msg, aad };
    match a {
        Algo::X => XChaCha20Poly1305::new(key.into()).decrypt(nonce.into(), p).ok(),
        Algo::A => Aes256Gcm::new(key.into()).decrypt(nonce.into(), p).ok(),
        Algo::D => DeoxysII256::new(key.into()).decrypt(nonce.into(), p).ok(),
    }
}
fn stream_nonce(n: &[u8], ctr: u32, last: bool) -> Vec<u8> { let mut v = n.to_vec(); v.extend_from_slice(&(ctr | (last as u32) << 31).to_le_bytes()); v }
pub fn stream_seal(a: Algo, mk: &[u8; 32], nonce: &[u8], aad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(pt.len() + 64);
    let full = pt.len() / BLOCK;
    for i in 0..full { out.extend(seal(a, mk, &stream_nonce(nonce, i as u32, false), aad, &pt[i * BLOCK..(i + 1) * BLOCK])); }
    out.extend(seal(a, mk, &stream_nonce(nonce, full as u32, true), aad, &pt[full * BLOCK..]));
    out
}
pub fn stream_open(a: Algo, mk: &[u8; 32], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let full = ct.len() / (BLOCK + 16);
    for i in 0..full { out.extend(open(a, mk, &stream_nonce(nonce, i as u32, false), aad, &ct[i * (BLOCK + 16)..(i + 1) * (BLOCK + 16)])?); }
    out.extend(open(a, mk, &stream_nonce(nonce, full as u32, true), aad, &ct[full * (BLOCK + 16)..])?);
    Some(out)
}

#[derive(Clone, Debug)]
pub struct Slot { pub hash: u8, pub enc: [u8; 48], pub nonce: Vec<u8>, pub salt: [u8; 16] }
#[derive(Clone, Debug)]
pub struct Hdr { pub ver: u8, pub algo: Algo, pub stream: bool, pub nonce: Vec<u8>, pub salt: [u8; 16], pub slots: Vec<Slot>, pub aad: Vec<u8>, pub len: usize }
pub fn hdr_len(ver: u8) -> usize { match ver { 1..=3 => 64, 4 => 128, _ => 416 } }

pub fn parse(b: &[u8]) -> Option<Hdr> {
    if b.len() < 6 || b[0] != 0xDE || !(1..=5).contains(&b[1]) { return None; }
    let ver = b[1];
    let len = hdr_len(ver);
    if b.len() < len { return None; }
    let b = &b[..len];
    let algo = match (b[2], b[3]) { (0x0E, 1) => Algo::X, (0x0E, 2) => Algo::A, (0x0E, 3) => Algo::D, _ => return None };
    let stream = match (b[4], b[5]) { (0x0C, 1) => true, (0x0C, 2) => false, _ => return None };
    let nl = algo.nonce_len(stream);
    let ml = algo.nonce_len(false);
    let mut h = Hdr { ver, algo, stream, nonce: vec![], salt: [0; 16], slots: vec![], aad: vec![], len };
    match ver {
        1 | 3 => { h.salt.copy_from_slice(&b[6..22]); h.nonce = b[38..38 + nl].to_vec(); if ver == 3 { h.aad = b.to_vec() } }
        2 => { h.salt.copy_from_slice(&b[6..22]); h.nonce = b[22..22 + nl].to_vec(); }
        4 => {
            h.salt.copy_from_slice(&b[6..22]);
            h.nonce = b[22..22 + nl].to_vec();
            let mut s = Slot { hash: 0xB4, enc: [0; 48], nonce: b[96..96 + ml].to_vec(), salt: h.salt };
            s.enc.copy_from_slice(&b[48..96]);
            h.slots.push(s);
            h.aad = b[..48].to_vec();
            h.aad.extend_from_slice(&b[96 + ml..128]);
        }
        _ => {
            h.nonce = b[6..6 + nl].to_vec();
            h.aad = b[..32].to_vec();
            for i in 0..4 {
                let s = &b[32 + i * 96..32 + (i + 1) * 96];
                if s[0] != 0xDF { continue; }
                let mut k = Slot { hash: s[1], enc: [0; 48], nonce: s[50..50 + ml].to_vec(), salt: [0; 16] };
                k.enc.copy_from_slice(&s[2..50]);
                k.salt.copy_from_slice(&s[74..90]);
                h.slots.push(k);
            }
        }
    }
    Some(h)
}
pub fn master(h: &Hdr, key: &[u8]) -> Option<[u8; 32]> {
    match h.ver {
        1 => kdf(0xA1, key, &h.salt), 2 => kdf(0xA2, key, &h.salt), 3 => kdf(0xA3, key, &h.salt),
        _ => h.slots.iter().find_map(|s| { let k = kdf(s.hash, key, &s.salt)?; open(h.algo, &k, &s.nonce, b"", &s.enc)?.try_into().ok() }),
    }
}
/// decrypt with header and payload given separately
pub fn decrypt(hdr: &[u8], payload: &[u8], key: &[u8]) -> Option<Vec<u8>> {
    let h = parse(hdr)?;
    let mk = master(&h, key)?;
    if h.stream { stream_open(h.algo, &mk, &h.nonce, &h.aad, payload) } else { open(h.algo, &mk, &h.nonce, &h.aad, payload) }
}
/// decrypt a file with its header in front
pub fn decrypt_file(f: &[u8], key: &[u8]) -> Option<Vec<u8>> { let h = parse(f)?; decrypt(&f[..h.len], &f[h.len..], key) }

pub struct Made { pub hdr: Vec<u8>, pub payload: Vec<u8>, pub mk: [u8; 32] }
impl Made { pub fn file(&self) -> Vec<u8> { let mut v = self.hdr.clone(); v.extend_from_slice(&self.payload); v } }
/// encrypt in any version; for V5 one slot per key
pub fn make(r: &mut Rng, ver: u8, algo: Algo, stream: bool, keys: &[(&[u8], u8)], pt: &[u8]) -> Made {
    let nl = algo.nonce_len(stream);
    let ml = algo.nonce_len(false);
    let nonce = r.bytes(nl);
    let salt: [u8; 16] = r.bytes(16).try_into().unwrap();
    let mut h = vec![0xDE, ver, 0x0E, algo.id(), 0x0C, if stream { 1 } else { 2 }];
    let mut mk: [u8; 32] = r.bytes(32).try_into().unwrap();
    match ver {
        1 | 3 => { h.extend_from_slice(&salt); h.extend_from_slice(&[0; 16]); h.extend_from_slice(&nonce); h.resize(64, 0); }
        2 => { h.extend_from_slice(&salt); h.extend_from_slice(&nonce); h.resize(64, 0); }
        4 => {
            let mn = r.bytes(ml);
            let k = kdf(0xB4, keys[0].0, &salt).unwrap();
            h.extend_from_slice(&salt); h.extend_from_slice(&nonce); h.resize(48, 0);
            h.extend(seal(algo, &k, &mn, b"", &mk));
            h.extend_from_slice(&mn); h.resize(128, 0);
        }
        _ => {
            h.extend_from_slice(&nonce); h.resize(32, 0);
            for (key, hid) in keys {
                let salt = r.bytes(16);
                let mn = r.bytes(ml);
                let k = kdf(*hid, key, &salt).unwrap();
                let at = h.len();
                h.extend_from_slice(&[0xDF, *hid]);
                h.extend(seal(algo, &k, &mn, b"", &mk));
                h.extend_from_slice(&mn);
                h.resize(at + 74, 0);
                h.extend_from_slice(&salt);
                h.resize(at + 96, 0);
            }
            h.resize(416, 0);
        }
    }
    let p = parse(&h).unwrap();
    if ver <= 3 { mk = master(&p, keys[0].0).unwrap() }
    let payload = if stream { stream_seal(algo, &mk, &nonce, &p.aad, pt) } else { seal(algo, &mk, &nonce, &p.aad, pt) };
    Made { hdr: h, payload, mk }
}

// ------------------------------------------------------------------ a zip writer (stored entries, any names)
pub struct ZEnt { pub name: Vec<u8>, pub data: Vec<u8>, pub dir: bool, pub symlink: bool }
fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for &x in b { c ^= x as u32; for _ in 0..8 { c = if c & 1 != 0 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 } } }
    !c
}
pub fn zip(ents: &[ZEnt]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut cd: Vec<u8> = vec![];
    let utf = |n: &[u8]| -> u16 { if std::str::from_utf8(n).is_ok() && !n.is_ascii() { 0x0800 } else { 0 } };
    for e in ents {
        let off = o.len() as u32;
        let crc = crc32(&e.data);
        let mut common = vec![];
        common.extend_from_slice(&20u16.to_le_bytes());
        common.extend_from_slice(&utf(&e.name).to_le_bytes());
        common.extend_from_slice(&0u16.to_le_bytes());
        common.extend_from_slice(&[0, 0, 0x21, 0x50]);
        common.extend_from_slice(&crc.to_le_bytes());
        common.extend_from_slice(&(e.data.len() as u32).to_le_bytes());
        common.extend_from_slice(&(e.data.len() as u32).to_le_bytes());
        common.extend_from_slice(&(e.name.len() as u16).to_le_bytes());
        common.extend_from_slice(&0u16.to_le_bytes());
        o.extend_from_slice(b"PK\x03\x04"); o.extend_from_slice(&common); o.extend_from_slice(&e.name); o.extend_from_slice(&e.data);
        cd.extend_from_slice(b"PK\x01\x02"); cd.extend_from_slice(&0x031Eu16.to_le_bytes()); cd.extend_from_slice(&common);
        cd.extend_from_slice(&0u16.to_le_bytes()); cd.extend_from_slice(&0u16.to_le_bytes()); cd.extend_from_slice(&0u16.to_le_bytes());
        let mode: u32 = if e.symlink { 0o120777 } else if e.dir { 0o40755 } else { 0o100644 };
        cd.extend_from_slice(&(mode << 16).to_le_bytes());
        cd.extend_from_slice(&off.to_le_bytes());
        cd.extend_from_slice(&e.name);
    }
    let co = o.len() as u32;
    let cl = cd.len() as u32;
    o.extend_from_slice(&cd);
    o.extend_from_slice(b"PK\x05\x06\0\0\0\0");
    o.extend_from_slice(&(ents.len() as u16).to_le_bytes());
    o.extend_from_slice(&(ents.len() as u16).to_le_bytes());
    o.extend_from_slice(&cl.to_le_bytes());
    o.extend_from_slice(&co.to_le_bytes());
    o.extend_from_slice(&0u16.to_le_bytes());
    o
}

/// read an archive: name -> content (None for a directory), in the archive's own spelling
pub fn unzip(b: &[u8]) -> Option<std::collections::BTreeMap<String, Option<Vec<u8>>>> {
    use std::io::Read;
    let mut a = zip::ZipArchive::new(std::io::Cursor::new(b)).ok()?;
    let mut m = std::collections::BTreeMap::new();
    for i in 0..a.len() {
        let mut f = a.by_index(i).ok()?;
        let name = f.name().to_string();
        if f.is_dir() { m.insert(name.trim_end_matches('/').to_string(), None); continue; }
        let mut v = vec![];
        f.read_to_end(&mut v).ok()?;
        m.insert(name, Some(v));
    }
    Some(m)
}
