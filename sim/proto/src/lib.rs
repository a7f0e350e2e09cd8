//! Plan (what the simulator is told) and Outcome (what it reports), with a small binary codec.
//! Shared by the kernel and the orchestrator. No dependencies, no I/O.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn sub(seed: u64, label: &str) -> Self {
        Rng::new(mix(seed, hash(label.as_bytes())))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 { lo + self.below(hi_incl - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; self.fill(&mut v); v }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut x = a ^ b.rotate_left(32).wrapping_mul(0x9E37_79B9_7F4A_7C15); splitmix(&mut x) }
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &c in b { h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3); }
    let mut x = h; splitmix(&mut x)
}

// ---------------------------------------------------------------- codec
#[derive(Default)]
pub struct Enc { pub b: Vec<u8> }
pub struct Dec<'a> { b: &'a [u8], pub bad: bool }
impl Enc {
    pub fn u(&mut self, mut v: u64) { while v >= 0x80 { self.b.push(v as u8 | 0x80); v >>= 7; } self.b.push(v as u8) }
    pub fn i(&mut self, v: i64) { self.u(((v << 1) ^ (v >> 63)) as u64) }
    pub fn s(&mut self, v: &[u8]) { self.u(v.len() as u64); self.b.extend_from_slice(v) }
}
impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self { Dec { b, bad: false } }
    pub fn u(&mut self) -> u64 {
        let (mut r, mut sh) = (0u64, 0);
        loop {
            if self.b.is_empty() || sh > 63 { self.bad = true; return 0; }
            let c = self.b[0]; self.b = &self.b[1..];
            r |= ((c & 0x7f) as u64) << sh; sh += 7;
            if c & 0x80 == 0 { return r; }
        }
    }
    pub fn i(&mut self) -> i64 { let v = self.u(); ((v >> 1) as i64) ^ -((v & 1) as i64) }
    pub fn s(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        if n > self.b.len() { self.bad = true; return vec![]; }
        let r = self.b[..n].to_vec(); self.b = &self.b[n..]; r
    }
    pub fn n(&mut self) -> usize { let n = self.u() as usize; if n > self.b.len() { self.bad = true; 0 } else { n } }
}

// ---------------------------------------------------------------- operation kinds
pub mod op {
    pub const OPEN: u8 = 1;
    pub const READ: u8 = 2;
    pub const WRITE: u8 = 3;
    pub const SEEK: u8 = 4;
    pub const STAT: u8 = 5;
    pub const TRUNC: u8 = 6;
    pub const FSYNC: u8 = 7;
    pub const CLOSE: u8 = 8;
    pub const UNLINK: u8 = 9;
    pub const RMDIR: u8 = 10;
    pub const MKDIR: u8 = 11;
    pub const RENAME: u8 = 12;
    pub const OPENDIR: u8 = 13;
    pub const READDIR: u8 = 14;
    pub const READLINK: u8 = 15;
    pub const REALPATH: u8 = 16;
    pub const CHMOD: u8 = 17;
    pub const RNG: u8 = 18;
    pub const LINK: u8 = 19;
    pub const MARK: u8 = 20; // text written to stdout / stderr
    pub const SCHED: u8 = 21; // yield, sleep, futex, spawn, join
    pub const STDIN: u8 = 22;
    pub const OTHER: u8 = 23;
    pub const SPAWN: u8 = 24;
    pub fn name(k: u8) -> &'static str {
        match k {
            OPEN => "open", READ => "read", WRITE => "write", SEEK => "seek", STAT => "stat", TRUNC => "truncate",
            FSYNC => "fsync", CLOSE => "close", UNLINK => "unlink", RMDIR => "rmdir", MKDIR => "mkdir",
            RENAME => "rename", OPENDIR => "opendir", READDIR => "readdir", READLINK => "readlink",
            REALPATH => "realpath", CHMOD => "chmod", RNG => "getrandom", LINK => "link", MARK => "print",
            SCHED => "sched", SPAWN => "spawn", STDIN => "stdin", _ => "other",
        }
    }
}

// ---------------------------------------------------------------- faults
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FK {
    Err(i32),       // fail with errno, no effect
    Short(u64),     // transfer at most n bytes
    Kill,           // process dies before the call
    KillMid(u64),   // process dies after n bytes of the call were applied
    Power(u64),     // power fails before the call (seed of what survives)
    PowerMid(u64, u64),
    Flip(u64, u8),  // a read returns its data with byte off^=mask (corruption in transfer)
    Collide,        // an exclusive create finds the name taken
    Sticky(i32),    // from here on every write-like call on this inode fails; from 1000 on: streams of output do
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fault { pub op: u64, pub k: FK }
impl FK {
    pub fn name(&self) -> &'static str {
        match self {
            FK::Err(4) => "eintr", FK::Err(5) => "eio", FK::Err(28) => "enospc", FK::Err(13) => "eacces", FK::Err(24) => "emfile",
            FK::Err(_) => "errno", FK::Short(_) => "short_transfer", FK::Kill => "kill", FK::KillMid(_) => "kill_mid_write",
            FK::Power(_) => "power_loss", FK::PowerMid(..) => "power_loss_mid_write", FK::Flip(..) => "corrupt_read",
            FK::Collide => "name_collision", FK::Sticky(1000..) => "output_lost", FK::Sticky(_) => "sticky_write_error",
        }
    }
    fn enc(&self, e: &mut Enc) {
        match self {
            FK::Err(x) => { e.u(0); e.i(*x as i64) }
            FK::Short(n) => { e.u(1); e.u(*n) }
            FK::Kill => e.u(2),
            FK::KillMid(n) => { e.u(3); e.u(*n) }
            FK::Power(s) => { e.u(4); e.u(*s) }
            FK::PowerMid(n, s) => { e.u(5); e.u(*n); e.u(*s) }
            FK::Flip(o, m) => { e.u(6); e.u(*o); e.u(*m as u64) }
            FK::Collide => e.u(7),
            FK::Sticky(x) => { e.u(8); e.i(*x as i64) }
        }
    }
    fn dec(d: &mut Dec) -> FK {
        match d.u() {
            0 => FK::Err(d.i() as i32), 1 => FK::Short(d.u()), 2 => FK::Kill, 3 => FK::KillMid(d.u()), 4 => FK::Power(d.u()),
            5 => FK::PowerMid(d.u(), d.u()), 6 => FK::Flip(d.u(), d.u() as u8), 7 => FK::Collide, 8 => FK::Sticky(d.i() as i32),
            _ => { d.bad = true; FK::Kill }
        }
    }
}

// ---------------------------------------------------------------- plan
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FileSpec { File(Vec<u8>), Dir, Link(Vec<u8>),
    /// another name of a file of the initial image; found as a file afterwards
    Hard(String),
    /// a named pipe that nobody has open
    Pipe,
    /// a socket that nobody listens on
    Sock }
/// Names are bytes that need not be UTF-8: U+F780..U+F7FF stand for the bytes 0x80..0xff.
pub fn path_bytes(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() { match c as u32 { n @ 0xf780..=0xf7ff => v.push(n as u8), _ => v.extend(c.encode_utf8(&mut [0; 4]).bytes()) } }
    v
}
pub fn path_str(b: &[u8]) -> String {
    b.utf8_chunks().map(|c| c.valid().chars().chain(c.invalid().iter().map(|&b| char::from_u32(0xf700 + b as u32).unwrap())).collect::<String>()).collect()
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FSEntry { pub path: String, pub mode: u32, pub spec: FileSpec }

/// Automatic (seeded) decisions; probabilities in 1/1024 per applicable call.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Auto {
    pub short_read: u64,
    pub short_write: u64,
    pub eintr: u64,
    pub budget: u64, // at most this many short transfers and interrupts
    pub preempt: u64,
    pub pct: u64, // > 0: priority scheduling with this many change points instead of random preemption
    pub writeback: u64,
    pub err: u64,
    pub err_budget: u64,
    pub tiny: bool, // prefer transfers of a few bytes
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RngMode { Prng(u64), Const(u8), Words(Vec<u64>, u64), Cycle(Vec<u8>) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    pub seed: u64,
    pub cwd: String,
    pub fs: Vec<FSEntry>,
    pub stdin: Vec<u8>,
    pub tty: Vec<u8>, // what is typed at the controlling terminal (empty: there is none); byte 4 is the end-of-file key
    pub auto: Auto,
    pub faults: Vec<Fault>,
    pub sched: Vec<(u64, u64)>,
    pub rng: RngMode,
    pub max_ops: u64,
    pub capacity: u64, // bytes of growth before ENOSPC, 0 = unlimited
    pub log_data: bool,
    pub trace: bool,
    pub argv: Vec<String>, // of the simulated program (argv[0] names the program: drive | cli)
    pub env: Vec<(String, String)>,
    pub secrets: Vec<Vec<u8>>, // byte strings looked for in memory that the program releases
}
impl Default for Plan {
    fn default() -> Self {
        Plan { seed: 0, cwd: "/w".into(), fs: vec![], stdin: vec![], tty: vec![], auto: Auto::default(), faults: vec![], sched: vec![], rng: RngMode::Prng(1),
            max_ops: 400_000, capacity: 0, log_data: false, trace: true, argv: vec![], env: vec![], secrets: vec![] }
    }
}
impl Plan {
    pub fn encode(&self) -> Vec<u8> {
        let mut e = Enc::default();
        e.u(self.seed);
        e.s(self.cwd.as_bytes());
        e.u(self.fs.len() as u64);
        for f in &self.fs {
            e.s(f.path.as_bytes()); e.u(f.mode as u64);
            match &f.spec { FileSpec::File(c) => { e.u(0); e.s(c) } FileSpec::Dir => e.u(1), FileSpec::Link(t) => { e.u(2); e.s(t) } FileSpec::Hard(t) => { e.u(3); e.s(t.as_bytes()) } FileSpec::Pipe => e.u(4), FileSpec::Sock => e.u(5) }
        }
        e.s(&self.stdin);
        e.s(&self.tty);
        let a = &self.auto;
        for v in [a.short_read, a.short_write, a.eintr, a.budget, a.preempt, a.pct, a.writeback, a.err, a.err_budget, a.tiny as u64] { e.u(v) }
        e.u(self.faults.len() as u64);
        for f in &self.faults { e.u(f.op); f.k.enc(&mut e) }
        e.u(self.sched.len() as u64);
        for (p, t) in &self.sched { e.u(*p); e.u(*t) }
        match &self.rng {
            RngMode::Prng(s) => { e.u(0); e.u(*s) }
            RngMode::Const(c) => { e.u(1); e.u(*c as u64) }
            RngMode::Words(w, s) => { e.u(2); e.u(w.len() as u64); for x in w { e.u(*x) } e.u(*s) }
            RngMode::Cycle(c) => { e.u(3); e.s(c) }
        }
        e.u(self.max_ops); e.u(self.capacity); e.u(self.log_data as u64); e.u(self.trace as u64);
        e.u(self.argv.len() as u64);
        for a in &self.argv { e.s(a.as_bytes()) }
        e.u(self.env.len() as u64);
        for (k, v) in &self.env { e.s(k.as_bytes()); e.s(v.as_bytes()) }
        e.u(self.secrets.len() as u64);
        for x in &self.secrets { e.s(x) }
        e.b
    }
    pub fn decode(b: &[u8]) -> Option<Plan> {
        let mut d = Dec::new(b);
        let st = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned();
        let mut p = Plan { seed: d.u(), cwd: st(d.s()), ..Plan::default() };
        for _ in 0..d.n() {
            let path = st(d.s()); let mode = d.u() as u32;
            let spec = match d.u() { 0 => FileSpec::File(d.s()), 1 => FileSpec::Dir, 2 => FileSpec::Link(d.s()), 4 => FileSpec::Pipe, 5 => FileSpec::Sock, _ => FileSpec::Hard(String::from_utf8(d.s()).unwrap_or_default()) };
            p.fs.push(FSEntry { path, mode, spec });
        }
        p.stdin = d.s();
        p.tty = d.s();
        p.auto = Auto { short_read: d.u(), short_write: d.u(), eintr: d.u(), budget: d.u(), preempt: d.u(), pct: d.u(), writeback: d.u(), err: d.u(), err_budget: d.u(), tiny: d.u() != 0 };
        for _ in 0..d.n() { let op = d.u(); p.faults.push(Fault { op, k: FK::dec(&mut d) }) }
        for _ in 0..d.n() { p.sched.push((d.u(), d.u())) }
        p.rng = match d.u() {
            0 => RngMode::Prng(d.u()), 1 => RngMode::Const(d.u() as u8),
            2 => { let mut w = vec![]; for _ in 0..d.n() { w.push(d.u()) } RngMode::Words(w, d.u()) }
            _ => RngMode::Cycle(d.s()),
        };
        p.max_ops = d.u(); p.capacity = d.u(); p.log_data = d.u() != 0; p.trace = d.u() != 0;
        for _ in 0..d.n() { p.argv.push(st(d.s())) }
        for _ in 0..d.n() { p.env.push((st(d.s()), st(d.s()))) }
        for _ in 0..d.n() { p.secrets.push(d.s()) }
        if d.bad { None } else { Some(p) }
    }
}

// ---------------------------------------------------------------- outcome
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End { Exit, Killed, Power, StepLimit, Deadlock, Abort, Bug }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event { pub op: u64, pub tid: u32, pub kind: u8, pub ino: u64, pub off: u64, pub len: u64, pub ret: i64, pub fault: bool, pub text: Vec<u8>, pub data: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap { pub path: String, pub ino: u64, pub mode: u32, pub spec: FileSpec }
/// durable content of sectors that were released (truncated or unlinked), runs of non-zero sectors only
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Grave { pub ino: u64, pub op: u64, pub path: String, pub total: u64, pub nonzero: Vec<(u64, Vec<u8>)> }
/// a secret found in a block of memory when the program released it (how 0), moved its content (1), or was done without releasing it (2)
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Leak { pub op: u64, pub secret: u64, pub size: u64, pub off: u64, pub how: u8 }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    pub end: End,
    pub ops: u64,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub faults: Vec<Fault>,      // that fired (explicit or automatic)
    pub sched: Vec<(u64, u64)>,  // non-default scheduling decisions
    pub trace: Vec<Event>,
    pub fs: Vec<Snap>,           // what survives (after recovery from the crash, if any)
    pub graves: Vec<Grave>,
    pub initial_inos: Vec<(String, u64)>,
    pub notes: Vec<String>,
    pub threads: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub trace_hash: u64,
    pub sim_ns: u64,
    pub rng_bytes: u64,
    pub collided: Vec<String>,
    pub leaks: Vec<Leak>,
    pub freed: u64, // blocks of memory searched for secrets
    pub peak: u64,  // most memory in use at a time
}
impl Outcome {
    pub fn encode(&self) -> Vec<u8> {
        let mut e = Enc::default();
        e.u(match self.end { End::Exit => 0, End::Killed => 1, End::Power => 2, End::StepLimit => 3, End::Deadlock => 4, End::Abort => 5, End::Bug => 6 });
        e.u(self.ops); e.s(&self.stdout); e.s(&self.stderr);
        e.u(self.faults.len() as u64);
        for f in &self.faults { e.u(f.op); f.k.enc(&mut e) }
        e.u(self.sched.len() as u64);
        for (a, b) in &self.sched { e.u(*a); e.u(*b) }
        e.u(self.trace.len() as u64);
        for t in &self.trace { e.u(t.op); e.u(t.tid as u64); e.u(t.kind as u64); e.u(t.ino); e.u(t.off); e.u(t.len); e.i(t.ret); e.u(t.fault as u64); e.s(&t.text); e.s(&t.data) }
        e.u(self.fs.len() as u64);
        for f in &self.fs {
            e.s(f.path.as_bytes()); e.u(f.ino); e.u(f.mode as u64);
            match &f.spec { FileSpec::File(c) => { e.u(0); e.s(c) } FileSpec::Dir => e.u(1), FileSpec::Link(t) => { e.u(2); e.s(t) } FileSpec::Hard(t) => { e.u(3); e.s(t.as_bytes()) } FileSpec::Pipe => e.u(4), FileSpec::Sock => e.u(5) }
        }
        e.u(self.graves.len() as u64);
        for g in &self.graves { e.u(g.ino); e.u(g.op); e.s(g.path.as_bytes()); e.u(g.total); e.u(g.nonzero.len() as u64); for (o, b) in &g.nonzero { e.u(*o); e.s(b) } }
        e.u(self.initial_inos.len() as u64);
        for (p, i) in &self.initial_inos { e.s(p.as_bytes()); e.u(*i) }
        e.u(self.notes.len() as u64);
        for n in &self.notes { e.s(n.as_bytes()) }
        for v in [self.threads, self.switches, self.sched_hash, self.trace_hash, self.sim_ns, self.rng_bytes] { e.u(v) }
        e.u(self.collided.len() as u64);
        for n in &self.collided { e.s(n.as_bytes()) }
        e.u(self.leaks.len() as u64);
        for l in &self.leaks { e.u(l.op); e.u(l.secret); e.u(l.size); e.u(l.off); e.u(l.how as u64) }
        e.u(self.freed); e.u(self.peak);
        e.u(0xC0FFEE);
        e.b
    }
    pub fn decode(b: &[u8]) -> Option<Outcome> {
        let mut d = Dec::new(b);
        let st = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned();
        let end = match d.u() { 0 => End::Exit, 1 => End::Killed, 2 => End::Power, 3 => End::StepLimit, 4 => End::Deadlock, 5 => End::Abort, _ => End::Bug };
        let mut o = Outcome { end, ops: d.u(), stdout: d.s(), stderr: d.s(), faults: vec![], sched: vec![], trace: vec![], fs: vec![], graves: vec![], initial_inos: vec![],
            notes: vec![], threads: 0, switches: 0, sched_hash: 0, trace_hash: 0, sim_ns: 0, rng_bytes: 0, collided: vec![], leaks: vec![], freed: 0, peak: 0 };
        for _ in 0..d.n() { let op = d.u(); o.faults.push(Fault { op, k: FK::dec(&mut d) }) }
        for _ in 0..d.n() { o.sched.push((d.u(), d.u())) }
        for _ in 0..d.n() {
            o.trace.push(Event { op: d.u(), tid: d.u() as u32, kind: d.u() as u8, ino: d.u(), off: d.u(), len: d.u(), ret: d.i(), fault: d.u() != 0, text: d.s(), data: d.s() })
        }
        for _ in 0..d.n() {
            let path = st(d.s()); let ino = d.u(); let mode = d.u() as u32;
            let spec = match d.u() { 0 => FileSpec::File(d.s()), 1 => FileSpec::Dir, 2 => FileSpec::Link(d.s()), 4 => FileSpec::Pipe, 5 => FileSpec::Sock, _ => FileSpec::Hard(String::from_utf8(d.s()).unwrap_or_default()) };
            o.fs.push(Snap { path, ino, mode, spec });
        }
        for _ in 0..d.n() {
            let mut g = Grave { ino: d.u(), op: d.u(), path: st(d.s()), total: d.u(), nonzero: vec![] };
            for _ in 0..d.n() { g.nonzero.push((d.u(), d.s())) }
            o.graves.push(g);
        }
        for _ in 0..d.n() { o.initial_inos.push((st(d.s()), d.u())) }
        for _ in 0..d.n() { o.notes.push(st(d.s())) }
        o.threads = d.u(); o.switches = d.u(); o.sched_hash = d.u(); o.trace_hash = d.u(); o.sim_ns = d.u(); o.rng_bytes = d.u();
        for _ in 0..d.n() { o.collided.push(st(d.s())) }
        for _ in 0..d.n() { o.leaks.push(Leak { op: d.u(), secret: d.u(), size: d.u(), off: d.u(), how: d.u() as u8 }) }
        o.freed = d.u(); o.peak = d.u();
        if d.u() != 0xC0FFEE || d.bad { None } else { Some(o) }
    }
}
