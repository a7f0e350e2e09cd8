//! The simulated file system: volatile page cache over a durable medium of 512-byte sectors,
//! an ordered metadata journal, and a record of the medium content of released sectors.
use libc::*;
use proto::{FileSpec, Grave, Rng, Snap, FSEntry};
use std::collections::{BTreeMap, BTreeSet};

pub const SECTOR: usize = 512;
pub type Ino = usize;
pub type R<T> = Result<T, i32>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { File, Dir, Link, Pipe, Sock }

pub struct Inode {
    pub kind: Kind,
    pub mode: u32,
    pub nlink: u32,
    pub opens: u32,
    pub data: Vec<u8>,
    pub disk: Vec<u8>,
    pub dirty: BTreeSet<u32>,
    pub dents: BTreeMap<Vec<u8>, Ino>,
    pub target: Vec<u8>,
    pub parent: Ino,
    pub path: String,
    pub sticky: i32,
    pub released: bool,
    pub mtime: u64,
}

#[derive(Clone)]
pub enum Meta {
    Create { dir: Ino, name: Vec<u8>, ino: Ino },
    Remove { dir: Ino, name: Vec<u8> },
    Rename { od: Ino, on: Vec<u8>, nd: Ino, nn: Vec<u8>, ino: Ino },
    SetLen { ino: Ino, len: u64, saved: Vec<u8>, from: u32 },
}

pub struct Fs {
    pub nodes: Vec<Inode>,
    pub root: Ino,
    pub cwd: Ino,
    pub log: Vec<Meta>,
    pub committed: usize,
    pub base: BTreeMap<Ino, BTreeMap<Vec<u8>, Ino>>, // durable directories before the log
    pub base_len: BTreeMap<Ino, u64>,
    pub graves: Vec<Grave>,
    pub capacity: i64, // remaining growth, <0 = unlimited
    pub now_op: u64,
    pub now: u64,
}

pub struct Lookup { pub dir: Ino, pub name: Vec<u8>, pub ino: Option<Ino> }

impl Fs {
    pub fn new(capacity: u64) -> Fs {
        let mut f = Fs { nodes: vec![], root: 1, cwd: 1, log: vec![], committed: 0, base: BTreeMap::new(), base_len: BTreeMap::new(), graves: vec![],
            capacity: if capacity == 0 { -1 } else { capacity as i64 }, now_op: 0, now: 0 };
        f.alloc(Kind::Dir, 0o755); // ino 0 unused
        let r = f.alloc(Kind::Dir, 0o755);
        f.nodes[r].parent = r;
        f.nodes[r].path = "/".into();
        f
    }
    pub fn alloc(&mut self, kind: Kind, mode: u32) -> Ino {
        self.nodes.push(Inode { kind, mode, nlink: 1, opens: 0, data: vec![], disk: vec![], dirty: BTreeSet::new(), dents: BTreeMap::new(), target: vec![], parent: 0, path: String::new(), sticky: 0, released: false, mtime: self.now });
        self.nodes.len() - 1
    }
    /// put an entry of the initial image in place (durable from the start)
    pub fn install(&mut self, e: &FSEntry) {
        let pb = proto::path_bytes(&e.path);
        if let FileSpec::Hard(t) = &e.spec {
            let Ok(n) = self.get(self.root, &proto::path_bytes(t), true) else { return };
            let at = pb.iter().rposition(|&c| c == b'/').unwrap_or(0);
            let Ok(d) = self.get(self.root, if at == 0 { b"/" } else { &pb[..at] }, true) else { return };
            if self.nodes[d].dents.insert(pb[at + 1..].to_vec(), n).is_none() { self.nodes[n].nlink += 1 }
            return;
        }
        let comps: Vec<&[u8]> = pb.split(|&c| c == b'/').filter(|c| !c.is_empty()).collect();
        let mut d = self.root;
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if let Some(&n) = self.nodes[d].dents.get(*c) {
                d = n;
                if last { self.nodes[n].mode = e.mode; if let FileSpec::File(b) = &e.spec { self.nodes[n].data = b.clone(); } }
                continue;
            }
            let (k, mode) = if !last { (Kind::Dir, 0o755) } else { (match e.spec { FileSpec::File(_) => Kind::File, FileSpec::Dir => Kind::Dir, FileSpec::Pipe => Kind::Pipe, FileSpec::Sock => Kind::Sock, _ => Kind::Link }, e.mode) };
            let n = self.alloc(k, mode);
            let pp = self.nodes[d].path.clone();
            self.nodes[n].path = format!("{}/{}", if pp == "/" { "" } else { &pp }, proto::path_str(c));
            self.nodes[n].parent = d;
            self.nodes[d].dents.insert(c.to_vec(), n);
            if last { match &e.spec { FileSpec::File(b) => self.nodes[n].data = b.clone(), FileSpec::Link(t) => self.nodes[n].target = t.clone(), _ => {} } }
            d = n;
        }
    }
    pub fn seal(&mut self) {
        for i in 1..self.nodes.len() {
            let n = &mut self.nodes[i];
            n.disk = n.data.clone();
            let l = (n.disk.len() + SECTOR - 1) / SECTOR * SECTOR;
            n.disk.resize(l, 0);
            self.base.insert(i, n.dents.clone());
            self.base_len.insert(i, n.data.len() as u64);
        }
    }
    fn may(&self, i: Ino, bit: u32) -> bool { self.nodes[i].mode >> 6 & bit != 0 }

    pub fn lookup(&self, at: Ino, path: &[u8], follow_last: bool) -> R<Lookup> { self.walk(at, path, follow_last, 0) }
    fn walk(&self, at: Ino, path: &[u8], follow_last: bool, depth: u32) -> R<Lookup> {
        if path.is_empty() { return Err(ENOENT); }
        if depth > 40 { return Err(ELOOP); }
        if path.len() > 4095 { return Err(ENAMETOOLONG); }
        let mut d = if path[0] == b'/' { self.root } else { at };
        let trailing = path.last() == Some(&b'/');
        let comps: Vec<&[u8]> = path.split(|&c| c == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() { return Ok(Lookup { dir: d, name: b".".to_vec(), ino: Some(d) }); }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if self.nodes[d].kind != Kind::Dir { return Err(ENOTDIR); }
            if !self.may(d, 1) { return Err(EACCES); }
            if c.len() > 255 { return Err(ENAMETOOLONG); }
            let next = match *c {
                b"." => Some(d),
                b".." => Some(self.nodes[d].parent),
                _ => self.nodes[d].dents.get(*c).copied(),
            };
            let Some(n) = next else {
                if last { return Ok(Lookup { dir: d, name: c.to_vec(), ino: None }); }
                return Err(ENOENT);
            };
            if self.nodes[n].kind == Kind::Link && (!last || follow_last || trailing) {
                let t = self.nodes[n].target.clone();
                if last {
                    return self.walk(d, &t, true, depth + 1);
                }
                let l = self.walk(d, &t, true, depth + 1)?;
                d = l.ino.ok_or(ENOENT)?;
                continue;
            }
            if last {
                if trailing && self.nodes[n].kind != Kind::Dir { return Err(ENOTDIR); }
                return Ok(Lookup { dir: d, name: c.to_vec(), ino: Some(n) });
            }
            d = n;
        }
        unreachable!()
    }
    pub fn get(&self, at: Ino, path: &[u8], follow: bool) -> R<Ino> { self.lookup(at, path, follow)?.ino.ok_or(ENOENT) }
    pub fn abspath(&self, mut i: Ino) -> Vec<u8> {
        if i == self.root { return b"/".to_vec(); }
        let mut parts: Vec<Vec<u8>> = vec![];
        while i != self.root {
            let p = self.nodes[i].parent;
            let Some((n, _)) = self.nodes[p].dents.iter().find(|(_, &v)| v == i) else { parts.push(b"(deleted)".to_vec()); break; };
            parts.push(n.clone());
            i = p;
        }
        let mut r = vec![];
        for p in parts.iter().rev() { r.push(b'/'); r.extend_from_slice(p) }
        r
    }
    fn child_path(&self, dir: Ino, name: &[u8]) -> String {
        let p = &self.nodes[dir].path;
        format!("{}/{}", if p == "/" { "" } else { p }, proto::path_str(name))
    }
    pub fn create(&mut self, dir: Ino, name: &[u8], kind: Kind, mode: u32) -> R<Ino> {
        if !self.may(dir, 2) { return Err(EACCES); }
        if self.nodes[dir].nlink == 0 { return Err(ENOENT); }
        let n = self.alloc(kind, mode);
        self.nodes[n].parent = dir;
        self.nodes[n].path = self.child_path(dir, name);
        self.nodes[dir].dents.insert(name.to_vec(), n);
        self.log.push(Meta::Create { dir, name: name.to_vec(), ino: n });
        Ok(n)
    }
    pub fn unlink(&mut self, dir: Ino, name: &[u8]) -> R<()> {
        if !self.may(dir, 2) { return Err(EACCES); }
        let n = *self.nodes[dir].dents.get(name).ok_or(ENOENT)?;
        if self.nodes[n].kind == Kind::Dir { return Err(EISDIR); }
        self.nodes[dir].dents.remove(name);
        self.log.push(Meta::Remove { dir, name: name.to_vec() });
        self.nodes[n].nlink -= 1;
        self.maybe_release(n);
        Ok(())
    }
    pub fn rmdir(&mut self, dir: Ino, name: &[u8]) -> R<()> {
        if name == b"." { return Err(EINVAL); }
        if !self.may(dir, 2) { return Err(EACCES); }
        let n = *self.nodes[dir].dents.get(name).ok_or(ENOENT)?;
        if self.nodes[n].kind != Kind::Dir { return Err(ENOTDIR); }
        if !self.nodes[n].dents.is_empty() { return Err(ENOTEMPTY); }
        self.nodes[dir].dents.remove(name);
        self.nodes[n].nlink = 0;
        self.log.push(Meta::Remove { dir, name: name.to_vec() });
        Ok(())
    }
    pub fn rename(&mut self, od: Ino, on: &[u8], nd: Ino, nn: &[u8]) -> R<()> {
        if !self.may(od, 2) || !self.may(nd, 2) { return Err(EACCES); }
        let n = *self.nodes[od].dents.get(on).ok_or(ENOENT)?;
        if let Some(&t) = self.nodes[nd].dents.get(nn) {
            if t == n { return Ok(()); }
            if self.nodes[t].kind == Kind::Dir { if self.nodes[n].kind != Kind::Dir { return Err(EISDIR); } if !self.nodes[t].dents.is_empty() { return Err(ENOTEMPTY); } }
            else if self.nodes[n].kind == Kind::Dir { return Err(ENOTDIR); }
            self.nodes[t].nlink -= 1;
            self.nodes[nd].dents.remove(nn);
            self.maybe_release(t);
        }
        self.nodes[od].dents.remove(on);
        self.nodes[nd].dents.insert(nn.to_vec(), n);
        self.nodes[n].parent = nd;
        self.nodes[n].path = self.child_path(nd, nn);
        self.log.push(Meta::Rename { od, on: on.to_vec(), nd, nn: nn.to_vec(), ino: n });
        Ok(())
    }
    pub fn link(&mut self, n: Ino, nd: Ino, nn: &[u8]) -> R<()> {
        if !self.may(nd, 2) { return Err(EACCES); }
        if self.nodes[nd].dents.contains_key(nn) { return Err(EEXIST); }
        self.nodes[nd].dents.insert(nn.to_vec(), n);
        self.nodes[n].nlink += 1;
        self.log.push(Meta::Create { dir: nd, name: nn.to_vec(), ino: n });
        Ok(())
    }
    pub fn maybe_release(&mut self, n: Ino) {
        let nd = &mut self.nodes[n];
        if nd.nlink == 0 && nd.opens == 0 && nd.kind == Kind::File && !nd.released {
            nd.released = true;
            nd.dirty.clear(); // pages of a deleted file never reach the medium
            let disk = nd.disk.clone();
            self.bury(n, 0, &disk);
        }
    }
    fn bury(&mut self, ino: Ino, off: u64, disk: &[u8]) {
        let mut nz: Vec<(u64, Vec<u8>)> = vec![];
        for (i, s) in disk.chunks(SECTOR).enumerate() {
            if s.iter().any(|&b| b != 0) {
                let o = off + (i * SECTOR) as u64;
                match nz.last_mut() { Some((lo, b)) if *lo + b.len() as u64 == o => b.extend_from_slice(s), _ => nz.push((o, s.to_vec())) }
            }
        }
        let (op, path) = (self.now_op, self.nodes[ino].path.clone());
        self.graves.push(Grave { ino: ino as u64, op, path, total: disk.len() as u64, nonzero: nz });
    }
    pub fn set_len(&mut self, ino: Ino, len: u64) -> R<()> {
        let cur = self.nodes[ino].data.len() as u64;
        if len == cur { return Ok(()); }
        if len > 1 << 34 { return Err(EFBIG); }
        if len > cur {
            self.nodes[ino].data.resize(len as usize, 0);
            self.log.push(Meta::SetLen { ino, len, saved: vec![], from: 0 });
            return Ok(());
        }
        let n = &mut self.nodes[ino];
        n.data.truncate(len as usize);
        n.data.shrink_to_fit();
        let keep = (len as usize + SECTOR - 1) / SECTOR;
        n.dirty.retain(|&s| (s as usize) < keep);
        let saved = if n.disk.len() > keep * SECTOR { n.disk.split_off(keep * SECTOR) } else { vec![] };
        if len as usize % SECTOR != 0 { n.dirty.insert((keep - 1) as u32); }
        if !saved.is_empty() { self.bury(ino, (keep * SECTOR) as u64, &saved); }
        self.log.push(Meta::SetLen { ino, len, saved, from: keep as u32 });
        if self.capacity >= 0 { self.capacity += (cur - len) as i64; }
        Ok(())
    }
    pub fn write(&mut self, ino: Ino, off: u64, b: &[u8]) -> R<usize> {
        if b.is_empty() { return Ok(0); }
        let mut b = b;
        let end = off + b.len() as u64;
        let cur = self.nodes[ino].data.len() as u64;
        if end > cur && self.capacity >= 0 {
            let grow = (end - cur) as i64;
            if grow > self.capacity {
                let fit = b.len() as i64 - (grow - self.capacity);
                if fit <= 0 { return Err(ENOSPC); }
                b = &b[..fit as usize];
            }
        }
        let end = off + b.len() as u64;
        if end > cur {
            if self.capacity >= 0 { self.capacity -= (end - cur) as i64; }
            self.nodes[ino].data.resize(end as usize, 0);
            // a hole left before the write is zeros that never were on the medium
            self.log.push(Meta::SetLen { ino, len: end, saved: vec![], from: 0 });
        }
        let n = &mut self.nodes[ino];
        n.mtime = self.now;
        n.data[off as usize..end as usize].copy_from_slice(b);
        let first = if off > cur { cur as usize } else { off as usize } / SECTOR;
        for s in first..=(end as usize - 1) / SECTOR { n.dirty.insert(s as u32); }
        Ok(b.len())
    }
    pub fn flush_sector(&mut self, ino: Ino, s: u32) {
        let n = &mut self.nodes[ino];
        if !n.dirty.remove(&s) { return; }
        let o = s as usize * SECTOR;
        if o >= n.data.len() { return; }
        if n.disk.len() < o + SECTOR { n.disk.resize(o + SECTOR, 0); }
        let e = (o + SECTOR).min(n.data.len());
        let l = e - o;
        n.disk[o..e].copy_from_slice(&n.data[o..e]);
        for x in &mut n.disk[o + l..o + SECTOR] { *x = 0; }
    }
    /// dirty sectors fall back to what the medium has
    pub fn evict(&mut self, ino: Ino) {
        let n = &mut self.nodes[ino];
        for &s in &n.dirty {
            let o = s as usize * SECTOR;
            let e = (o + SECTOR).min(n.data.len());
            for i in o..e { n.data[i] = n.disk.get(i).copied().unwrap_or(0) }
        }
    }
    pub fn fsync(&mut self, ino: Ino) {
        let d: Vec<u32> = self.nodes[ino].dirty.iter().copied().collect();
        for s in d { self.flush_sector(ino, s); }
        self.committed = self.log.len();
    }
    pub fn sync_all(&mut self) {
        for i in 1..self.nodes.len() { if !self.nodes[i].released { let d: Vec<u32> = self.nodes[i].dirty.iter().copied().collect(); for s in d { self.flush_sector(i, s); } } }
        self.committed = self.log.len();
    }
    /// some dirty sectors and journal entries reach the medium in the background
    pub fn writeback(&mut self, rng: &mut Rng) {
        let cands: Vec<Ino> = (1..self.nodes.len()).filter(|&i| !self.nodes[i].dirty.is_empty()).collect();
        if !cands.is_empty() {
            let i = *rng.pick(&cands);
            let d: Vec<u32> = self.nodes[i].dirty.iter().copied().collect();
            if rng.chance(1, 4) { for s in d { self.flush_sector(i, s); } }
            else { for _ in 0..rng.range(1, 16) { let s = *rng.pick(&d); self.flush_sector(i, s); } }
        }
        if rng.chance(1, 4) && self.committed < self.log.len() { self.committed += 1 + rng.below((self.log.len() - self.committed) as u64) as usize; }
    }
    pub fn snapshot(&self) -> Vec<Snap> {
        let mut out = vec![];
        let mut q = vec![(self.root, String::new())];
        while let Some((d, p)) = q.pop() {
            for (name, &i) in &self.nodes[d].dents {
                let path = format!("{}/{}", p, proto::path_str(name));
                let n = &self.nodes[i];
                let spec = match n.kind { Kind::File => FileSpec::File(n.data.clone()), Kind::Dir => FileSpec::Dir, Kind::Link => FileSpec::Link(n.target.clone()), Kind::Pipe => FileSpec::Pipe, Kind::Sock => FileSpec::Sock };
                out.push(Snap { path: path.clone(), ino: i as u64, mode: n.mode, spec });
                if n.kind == Kind::Dir { q.push((i, path)); }
            }
        }
        out.sort_by(|a, b| a.path.cmp(&b.path));
        out
    }
    /// what is found after a power loss: a prefix of the journal not shorter than what was
    /// committed, and an arbitrary subset of the dirty sectors
    pub fn power_loss(&mut self, rng: &mut Rng) -> Vec<Snap> {
        // which dirty sectors made it
        let style = rng.below(4);
        for i in 1..self.nodes.len() {
            if self.nodes[i].released { continue; }
            let d: Vec<u32> = self.nodes[i].dirty.iter().copied().collect();
            for s in d {
                let go = match style { 0 => false, 1 => true, 2 => rng.chance(1, 2), _ => rng.chance(1, 16) };
                if go { self.flush_sector(i, s); }
            }
        }
        let span = (self.log.len() - self.committed) as u64;
        let keep = self.committed + match rng.below(3) { 0 => 0, 1 => span as usize, _ => rng.below(span + 1) as usize };
        // undo journal entries that were lost, newest first
        for m in self.log[keep..].iter().rev() {
            if let Meta::SetLen { ino, saved, from, .. } = m {
                if !saved.is_empty() {
                    let n = &mut self.nodes[*ino];
                    let o = *from as usize * SECTOR;
                    n.disk.resize(o, 0);
                    n.disk.extend_from_slice(saved);
                }
            }
        }
        let mut dirs = self.base.clone();
        let mut lens = self.base_len.clone();
        for m in &self.log[..keep] {
            match m {
                Meta::Create { dir, name, ino } => { dirs.entry(*dir).or_default().insert(name.clone(), *ino); if self.nodes[*ino].kind == Kind::Dir { dirs.entry(*ino).or_default(); } lens.entry(*ino).or_insert(0); }
                Meta::Remove { dir, name } => { dirs.entry(*dir).or_default().remove(name); }
                Meta::Rename { od, on, nd, nn, ino } => { dirs.entry(*od).or_default().remove(on); dirs.entry(*nd).or_default().insert(nn.clone(), *ino); }
                Meta::SetLen { ino, len, .. } => { lens.insert(*ino, *len); }
            }
        }
        let mut out = vec![];
        let mut q = vec![(self.root, String::new())];
        while let Some((d, p)) = q.pop() {
            for (name, &i) in dirs.get(&d).into_iter().flatten() {
                let path = format!("{}/{}", p, proto::path_str(name));
                let n = &self.nodes[i];
                let spec = match n.kind {
                    Kind::File => { let l = lens.get(&i).copied().unwrap_or(0) as usize; let mut b = n.disk.clone(); b.resize(l, 0); FileSpec::File(b) }
                    Kind::Dir => FileSpec::Dir,
                    Kind::Link => FileSpec::Link(n.target.clone()),
                    Kind::Pipe => FileSpec::Pipe,
                    Kind::Sock => FileSpec::Sock,
                };
                out.push(Snap { path: path.clone(), ino: i as u64, mode: n.mode, spec });
                if n.kind == Kind::Dir { q.push((i, path)); }
            }
        }
        out.sort_by(|a, b| a.path.cmp(&b.path));
        out
    }
    /// at the end of a run, what unlinked-but-open files leave on the medium
    pub fn finish(&mut self) {
        for i in 1..self.nodes.len() { if self.nodes[i].nlink == 0 && self.nodes[i].kind == Kind::File { self.nodes[i].opens = 0; self.maybe_release(i); } }
    }
}
