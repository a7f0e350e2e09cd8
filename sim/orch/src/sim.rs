//! Runs one simulated execution in a process of its own, and the bookkeeping around cases:
//! experiments, violations, minimisation, replay and coverage.
use proto::*;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::{ffi::OsStringExt, process::ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

// ------------------------------------------------------------------ one execution
pub struct Run { pub o: Outcome, pub code: i32, pub hang: bool, pub real_err: String }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rk { Ok, Err, Panic, None }
#[derive(Clone, Debug)]
pub struct Res { pub k: Rk, pub msg: String }

pub fn scratch() -> PathBuf {
    static D: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let base = if std::fs::create_dir("/dev/shm/.volsim-probe").is_ok() { let _ = std::fs::remove_dir("/dev/shm/.volsim-probe"); "/dev/shm" } else { "/tmp" };
        let d = PathBuf::from(format!("{base}/volsim-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch");
        d
    }).clone()
}
pub fn cleanup() { let _ = std::fs::remove_dir_all(scratch()); }
pub fn bin_dir() -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().to_path_buf() }

fn empty_outcome(end: End) -> Outcome {
    Outcome { end, ops: 0, stdout: vec![], stderr: vec![], faults: vec![], sched: vec![], trace: vec![], fs: vec![], graves: vec![], initial_inos: vec![], notes: vec![], threads: 0,
        switches: 0, sched_hash: 0, trace_hash: 0, sim_ns: 0, rng_bytes: 0, collided: vec![], leaks: vec![], freed: 0, peak: 0 }
}
static SEQ: AtomicU64 = AtomicU64::new(0);
pub const WALL: i32 = 60_000;

pub fn run(plan: &Plan) -> Run {
    let n = SEQ.fetch_add(1, Ordering::Relaxed);
    let d = scratch();
    let (pp, op, ep) = (d.join(format!("p{n}")), d.join(format!("o{n}")), d.join(format!("e{n}")));
    std::fs::write(&pp, plan.encode()).expect("write plan");
    let prog = match plan.argv[0].as_str() { "cli" => "volaris-cli-sim", _ => "drive" };
    let mut c = Command::new(bin_dir().join(prog));
    c.args(plan.argv[1..].iter().map(|a| std::ffi::OsString::from_vec(proto::path_bytes(a)))).env_clear().env("LD_PRELOAD", bin_dir().join("libkernel.so")).env("VOLSIM_PLAN", &pp).env("VOLSIM_OUT", &op).env("RUST_BACKTRACE", "0");
    for (k, v) in &plan.env { c.env(k, std::ffi::OsString::from_vec(proto::path_bytes(v))); }
    let bt = std::env::var_os("VOLSIM_LEAKBT").is_some();
    if bt { c.env("VOLSIM_LEAKBT", "1"); }
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&ep).expect("err file"));
    let mut ch = c.spawn().expect("spawn");
    let mut hang = false;
    unsafe {
        let lim = libc::rlimit64 { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::prlimit64(ch.id() as i32, libc::RLIMIT_AS, &lim, std::ptr::null_mut());
        let fd = libc::syscall(libc::SYS_pidfd_open, ch.id() as libc::pid_t, 0) as i32;
        if fd >= 0 {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, WALL) == 0 { hang = true; let _ = ch.kill(); }
            libc::close(fd);
        }
    }
    let st = ch.wait().expect("wait");
    let code = st.code().unwrap_or_else(|| 128 + st.signal().unwrap_or(0));
    let o = std::fs::read(&op).ok().and_then(|b| Outcome::decode(&b));
    let real_err = std::fs::read(&ep).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    if bt && code == 77 { eprintln!("{real_err}"); std::process::exit(77) }
    for f in [&pp, &op, &ep] { let _ = std::fs::remove_file(f); }
    let o = o.unwrap_or_else(|| empty_outcome(if (97..=99).contains(&code) { End::Bug } else { End::Abort }));
    Run { o, code, hang, real_err }
}

impl Run {
    pub fn results(&self) -> BTreeMap<usize, Res> {
        let mut m = BTreeMap::new();
        for l in String::from_utf8_lossy(&self.o.stdout).lines() {
            let f: Vec<&str> = l.splitn(4, '\t').collect();
            if f.len() >= 3 && f[0] == "R" {
                let k = match f[2] { "ok" => Rk::Ok, "err" => Rk::Err, _ => Rk::Panic };
                m.insert(f[1].parse().unwrap_or(999), Res { k, msg: f.get(3).unwrap_or(&"").to_string() });
            }
        }
        m
    }
    pub fn res(&self, i: usize) -> Res { self.results().get(&i).cloned().unwrap_or(Res { k: Rk::None, msg: String::new() }) }
    pub fn snap(&self, p: &str) -> Option<&Snap> { self.o.fs.iter().find(|s| s.path == p) }
    pub fn file(&self, p: &str) -> Option<&[u8]> { match &self.snap(p)?.spec { FileSpec::File(b) => Some(b), _ => None } }
    pub fn name_of(&self, ino: u64) -> String {
        self.o.fs.iter().find(|s| s.ino == ino).map(|s| s.path.clone())
            .or_else(|| self.o.graves.iter().find(|g| g.ino == ino).map(|g| g.path.clone()))
            .or_else(|| self.o.trace.iter().find(|e| e.ino == ino && !e.text.is_empty()).map(|e| String::from_utf8_lossy(&e.text).into_owned()))
            .unwrap_or_else(|| format!("inode {ino}"))
    }
    pub fn exists(&self, p: &str) -> bool { self.snap(p).is_some() }
    pub fn ino(&self, p: &str) -> Option<u64> { self.snap(p).map(|s| s.ino) }
    pub fn ino0(&self, p: &str) -> Option<u64> { self.o.initial_inos.iter().find(|x| x.0 == p).map(|x| x.1) }
    pub fn ended(&self) -> bool { self.o.end == End::Exit }
    pub fn crashed(&self) -> bool { matches!(self.o.end, End::Killed | End::Power) }
    pub fn panicked(&self) -> bool {
        self.code == 101 || self.results().values().any(|r| r.k == Rk::Panic) || String::from_utf8_lossy(&self.o.stderr).contains("panicked at")
    }
    /// the program, as a whole, said it succeeded
    pub fn said_ok(&self) -> bool { self.ended() && self.code == 0 && self.results().values().all(|r| r.k == Rk::Ok) }
    pub fn inconclusive(&self) -> Option<String> {
        if self.o.end == End::Bug { return Some(format!("simulator: code {} {}", self.code, self.real_err)); }
        if let Some(n) = self.o.notes.iter().find(|n| n.contains("refused") || n.contains("futex operation") || n.contains("creation failed")) { return Some(n.clone()); }
        None
    }
    /// contents of a set of paths below a prefix, for comparisons
    pub fn tree(&self, prefix: &str) -> BTreeMap<String, FileSpec> {
        self.o.fs.iter().filter(|s| s.path == prefix || s.path.starts_with(&format!("{prefix}/"))).map(|s| (s.path.clone(), s.spec.clone())).collect()
    }
    pub fn stdout(&self) -> String { String::from_utf8_lossy(&self.o.stdout).into_owned() }
    pub fn tail(&self) -> String {
        let mut s = String::from_utf8_lossy(&self.o.stderr).into_owned();
        if s.len() > 300 { s = s[s.len() - 300..].to_string(); }
        format!("end {:?} code {} out {:?} err {:?}", self.o.end, self.code, self.stdout().chars().rev().take(300).collect::<String>().chars().rev().collect::<String>(), s)
    }
}

// ------------------------------------------------------------------ cases
#[derive(Clone, Debug)]
pub struct Viol { pub prop: String, pub case_seed: u64, pub exp: usize, pub msg: String, pub over: Over, pub desc: String, pub trace: String, pub trace_hash: u64, pub sched_hash: u64, pub minimised: bool }
/// what a replay file overrides in the plan a case generates
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Over { pub auto: Auto, pub faults: Vec<Fault>, pub sched: Vec<(u64, u64)>, pub capacity: u64 }
pub enum Stop { Viol(Box<Viol>), Incon(String), Skip }
pub type R<T = ()> = Result<T, Stop>;

#[derive(Default)]
pub struct Inner {
    pub runs: u64, pub cases: u64, pub ops: u64, pub sim_ns: u64, pub switches: u64, pub threaded: u64,
    pub faults: BTreeMap<String, u64>, pub fault_at: BTreeMap<String, u64>, pub ends: BTreeMap<String, u64>,
    pub traces: HashSet<u64>, pub scheds: HashSet<u64>, pub nontrivial: HashSet<u64>, pub points: HashSet<u64>,
    pub incon: BTreeMap<String, u64>, pub samples: Vec<String>, pub counters: BTreeMap<String, u64>,
    pub rechecked: u64, pub nondet: u64, pub minimise_runs: u64, pub ok: u64, pub failed: u64, pub skipped: u64,
}
#[derive(Default)]
pub struct Stats { pub i: Mutex<Inner>, pub stop: AtomicBool }
impl Stats { pub fn count(&self, k: &str, n: u64) { *self.i.lock().unwrap().counters.entry(k.into()).or_insert(0) += n } }

pub struct Replay { pub exp: usize, pub over: Over }
pub struct Case<'a> { pub prop: &'static str, pub seed: u64, pub rng: Rng, pub deep: bool, pub desc: String, pub st: &'a Stats, n: usize, rep: Option<&'a Replay>, pub rep_out: Option<(u64, u64)>, pub last_plan: Option<Plan>, pub tags: Vec<&'static str> }

fn apply(plan: &mut Plan, o: &Over) { plan.auto = o.auto.clone(); plan.faults = o.faults.clone(); plan.sched = o.sched.clone(); plan.capacity = o.capacity; }
fn over_of(p: &Plan) -> Over { Over { auto: p.auto.clone(), faults: p.faults.clone(), sched: p.sched.clone(), capacity: p.capacity } }

impl<'a> Case<'a> {
    pub fn new(prop: &'static str, seed: u64, deep: bool, st: &'a Stats, rep: Option<&'a Replay>) -> Self {
        Case { prop, seed, rng: Rng::sub(seed, prop), deep, desc: String::new(), st, n: 0, rep, rep_out: None, last_plan: None, tags: vec![] }
    }
    pub fn say(&mut self, s: impl Into<String>) { if !self.desc.is_empty() { self.desc.push_str("; ") } self.desc.push_str(&s.into()) }
    fn record(&self, plan: &Plan, r: &Run) {
        let mut i = self.st.i.lock().unwrap();
        i.runs += 1; i.ops += r.o.ops; i.sim_ns += r.o.sim_ns; i.switches += r.o.switches;
        if r.o.threads > 1 { i.threaded += 1; i.scheds.insert(mix(r.o.sched_hash, r.o.trace_hash)); }
        for f in &r.o.faults { *i.faults.entry(f.k.name().into()).or_insert(0) += 1; }
        for e in r.o.trace.iter().filter(|e| e.fault) { *i.fault_at.entry(op::name(e.kind).into()).or_insert(0) += 1; }
        for t in &self.tags { *i.faults.entry((*t).into()).or_insert(0) += 1; }
        let odd = match plan.rng { RngMode::Prng(_) => false, _ => { *i.faults.entry("chosen_randomness".into()).or_insert(0) += 1; true } };
        if plan.capacity > 0 { *i.faults.entry("limited_space".into()).or_insert(0) += 1; }
        *i.ends.entry(format!("{:?}", r.o.end)).or_insert(0) += 1;
        if r.said_ok() { i.ok += 1 } else { i.failed += 1 }
        i.traces.insert(r.o.trace_hash);
        if !r.o.faults.is_empty() || r.o.switches > 0 || plan.capacity > 0 || odd || !self.tags.is_empty() {
            let mut h = mix(r.o.trace_hash, mix(r.o.sched_hash, hash(&plan.argv.join("\0").into_bytes())));
            for f in &r.o.faults { h = mix(h, hash(format!("{f:?}").as_bytes())) }
            i.nontrivial.insert(h);
        }
    }
    /// a fault that lies in the stored files themselves, of the next execution
    pub fn tag(&mut self, t: &'static str) { if !self.tags.contains(&t) { self.tags.push(t) } }
    /// an execution without a check of its own
    pub fn plain(&mut self, plan: &Plan) -> R<Run> { self.exp(plan.clone(), &|_| Ok(())) }
    /// an execution and what must be true of it
    pub fn exp(&mut self, mut plan: Plan, check: &dyn Fn(&Run) -> Result<(), String>) -> R<Run> {
        let idx = self.n;
        self.n += 1;
        let mut replaying = false;
        if let Some(rep) = self.rep { if rep.exp == idx { apply(&mut plan, &rep.over); replaying = true } }
        let mut r = run(&plan);
        if r.hang { r = run(&plan); }
        self.record(&plan, &r);
        self.tags.clear();
        self.last_plan = Some(plan.clone());
        if self.st.i.lock().unwrap().runs % 64 == 1 && !r.hang {
            let mut r2 = run(&plan);
            // threads that have ended release their last bit of memory a little sooner or later
            if r2.o.peak.abs_diff(r.o.peak) < 65_536 { r2.o.peak = r.o.peak }
            let same = r2.o == r.o && r2.code == r.code;
            let mut i = self.st.i.lock().unwrap();
            i.rechecked += 1;
            if !same { i.nondet += 1; if std::env::var("VOLSIM_DEBUG").is_ok() { eprintln!("nondeterministic: {} seed {} exp {}: {} | {}", self.prop, self.seed, idx, run_diff(&r, &r2), self.desc); } }
        }
        if let Some(why) = r.inconclusive() { return Err(Stop::Incon(why)); }
        let verdict = if r.hang { Err("the operation did not end within a minute of real time without making a system call".to_string()) } else { check(&r) };
        if replaying { self.rep_out = Some((r.o.trace_hash, r.o.sched_hash)); }
        let Err(msg) = verdict else { return Ok(r) };
        if replaying || self.st.stop.swap(true, Ordering::SeqCst) && self.rep.is_none() {
            if !replaying { return Err(Stop::Skip); }
            return Err(Stop::Viol(Box::new(self.viol(idx, msg, over_of(&plan), &r, false))));
        }
        // make every decision explicit, then remove what is not needed
        let began = std::time::Instant::now();
        let budget = AtomicU64::new(if r.hang { 0 } else { 160 });
        let attempt = |o: &Over| -> Option<(String, Run)> {
            if budget.load(Ordering::Relaxed) == 0 || began.elapsed().as_secs() > 150 { return None; }
            budget.fetch_sub(1, Ordering::Relaxed);
            let mut p = plan.clone();
            apply(&mut p, o);
            let r = run(&p);
            self.st.i.lock().unwrap().minimise_runs += 1;
            if r.inconclusive().is_some() || r.hang { return None; }
            check(&r).err().map(|m| (m, r))
        };
        let mut best = Over { auto: Auto { writeback: plan.auto.writeback, ..Auto::default() }, faults: r.o.faults.clone(), sched: r.o.sched.clone(), capacity: plan.capacity };
        let Some((mut bm, mut br)) = attempt(&best) else { return Err(Stop::Viol(Box::new(self.viol(idx, msg, over_of(&plan), &r, false)))); };
        { let mut t = best.clone(); t.auto.writeback = 0; if best.auto.writeback > 0 { if let Some((m, r)) = attempt(&t) { best = t; bm = m; br = r } } }
        { let mut t = best.clone(); t.sched.clear(); if !best.sched.is_empty() { if let Some((m, r)) = attempt(&t) { best = t; bm = m; br = r } } }
        { let mut t = best.clone(); t.faults.clear(); if !best.faults.is_empty() { if let Some((m, r)) = attempt(&t) { best = t; bm = m; br = r } } }
        for which in 0..2 {
            let mut chunk = (if which == 0 { best.faults.len() } else { best.sched.len() } / 2).max(1);
            loop {
                let mut i = 0;
                let mut any = false;
                loop {
                    let len = if which == 0 { best.faults.len() } else { best.sched.len() };
                    if i >= len { break; }
                    let mut t = best.clone();
                    let e = (i + chunk).min(len);
                    if which == 0 { t.faults.drain(i..e); } else { t.sched.drain(i..e); }
                    if let Some((m, r)) = attempt(&t) { best = t; bm = m; br = r; any = true } else { i += chunk }
                }
                if chunk == 1 && !any { break; }
                if budget.load(Ordering::Relaxed) == 0 || began.elapsed().as_secs() > 150 { break; }
                chunk = (chunk / 2).max(1);
                if chunk == 1 && (if which == 0 { best.faults.len() } else { best.sched.len() }) == 0 { break; }
            }
        }
        Err(Stop::Viol(Box::new(self.viol(idx, bm, best, &br, true))))
    }
    fn viol(&self, exp: usize, msg: String, over: Over, r: &Run, minimised: bool) -> Viol {
        Viol { prop: self.prop.into(), case_seed: self.seed, exp, msg, over, desc: self.desc.clone(), trace: trace_text(r), trace_hash: r.o.trace_hash, sched_hash: r.o.sched_hash, minimised }
    }
}
pub fn trace_text(r: &Run) -> String {
    let mut s = String::new();
    let n = r.o.trace.len();
    for (i, e) in r.o.trace.iter().enumerate() {
        if n > 600 && i > 150 && i < n - 450 { if i == 151 { s.push_str(&format!("  ... {} calls ...\n", n - 600)) } continue; }
        let t: String = String::from_utf8_lossy(&e.text).chars().take(100).collect::<String>().replace('\n', "\\n");
        s.push_str(&format!("  {:>5} t{} {:<8} ino {} off {} len {} -> {}{} {}\n", e.op, e.tid, op::name(e.kind), e.ino, e.off, e.len, e.ret, if e.fault { "  <== FAULT" } else { "" }, t));
    }
    s.push_str(&format!("  end: {:?}, exit code {}\n", r.o.end, r.code));
    s
}
pub fn fault_text(f: &Fault) -> String {
    match &f.k {
        FK::Err(e) => format!("{} err {}", f.op, e), FK::Short(n) => format!("{} short {}", f.op, n), FK::Kill => format!("{} kill", f.op), FK::KillMid(n) => format!("{} killmid {}", f.op, n),
        FK::Power(s) => format!("{} power {}", f.op, s), FK::PowerMid(n, s) => format!("{} powermid {} {}", f.op, n, s), FK::Flip(o, m) => format!("{} flip {} {}", f.op, o, m),
        FK::Collide => format!("{} collide", f.op), FK::Sticky(e) => format!("{} sticky {}", f.op, e),
    }
}
pub fn fault_parse(s: &str) -> Option<Fault> {
    let w: Vec<&str> = s.split_whitespace().collect();
    let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let k = match *w.get(1)? {
        "err" => FK::Err(n(2) as i32), "short" => FK::Short(n(2)), "kill" => FK::Kill, "killmid" => FK::KillMid(n(2)), "power" => FK::Power(n(2)), "powermid" => FK::PowerMid(n(2), n(3)),
        "flip" => FK::Flip(n(2), n(3) as u8), "collide" => FK::Collide, "sticky" => FK::Sticky(n(2) as i32), _ => return None,
    };
    Some(Fault { op: n(0), k })
}

/// where two executions of one plan part ways
pub fn run_diff(a: &Run, b: &Run) -> String {
    if a.code != b.code { return format!("exit codes {} and {}", a.code, b.code); }
    for (x, y) in a.o.trace.iter().zip(&b.o.trace) { if x != y { return format!("call {}: {} {:?} -> {} and {} {:?} -> {}", x.op, op::name(x.kind), (x.tid, x.ino, x.off, x.len, String::from_utf8_lossy(&x.text)), x.ret, op::name(y.kind), (y.tid, y.ino, y.off, y.len, String::from_utf8_lossy(&y.text)), y.ret); } }
    if a.o.trace.len() != b.o.trace.len() { return format!("{} and {} calls, ends {:?} {:?}", a.o.trace.len(), b.o.trace.len(), a.o.end, b.o.end); }
    let d = |n: &str, same: bool| if same { String::new() } else { format!("{n} ") };
    format!("differ in {}{}{}{}{}{}{}{}{}{}", d("fs", a.o.fs == b.o.fs), d("graves", a.o.graves == b.o.graves), d("stdout", a.o.stdout == b.o.stdout), d("stderr", a.o.stderr == b.o.stderr), d("faults", a.o.faults == b.o.faults), d("sched", a.o.sched == b.o.sched), d("notes", a.o.notes == b.o.notes), d("memory", a.o.peak == b.o.peak), d("time", a.o.sim_ns == b.o.sim_ns), d("hash", a.o.trace_hash == b.o.trace_hash && a.o.sched_hash == b.o.sched_hash))
}
