//! The simulated operating system, put in front of libc with LD_PRELOAD.
//!
//! Every file, directory, thread, futex, clock and random call of the program lands here. One
//! thread runs at a time; this code decides which, what each call transfers, and what fails.
#![allow(static_mut_refs, clippy::missing_safety_doc, non_snake_case, non_upper_case_globals, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unused_unsafe)]

mod fs;

use fs::{Fs, Ino, Kind};
use libc::*;
use proto::{op, Dec, End, Event, Fault, Outcome, Plan, Rng, RngMode, FK};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

// ------------------------------------------------------------------ raw system calls
pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn raw3(n: i64, a: usize, b: usize, c: usize) -> i64 { raw6(n, a, b, c, 0, 0, 0) }
unsafe fn raw_exit(code: i32) -> ! { raw3(SYS_exit_group, code as usize, 0, 0); loop {} }
fn raw_msg(s: &str) { unsafe { raw3(SYS_write, 2, s.as_ptr() as usize, s.len()); } }

unsafe fn set_errno(e: i32) { *__errno_location() = e }
macro_rules! ret { ($r:expr) => { match $r { Ok(v) => v as _, Err(e) => { set_errno(e); -1 } } } }

// ------------------------------------------------------------------ memory
// The kernel's own memory comes straight from libc; what the program releases passes `free` and
// `realloc` below, where it is searched for the secrets of the plan.
extern "C" {
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_calloc(n: usize, m: usize) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
    fn __libc_memalign(a: usize, n: usize) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
}
struct Own;
unsafe impl std::alloc::GlobalAlloc for Own {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if l.align() <= 16 { __libc_malloc(l.size()) as _ } else { __libc_memalign(l.align(), l.size()) as _ } }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.align() <= 16 { return __libc_calloc(l.size(), 1) as _ }
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()) }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if l.align() <= 16 && !WIPE { return __libc_realloc(p as _, n) as _ }
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l) }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { if WIPE { std::ptr::write_bytes(p, 0, l.size()) } __libc_free(p as _) }
}
static mut WIPE: bool = true; // the program may get this memory next: leave nothing of the plan in it
#[global_allocator]
static OWN: Own = Own;
static mut SCAN_ALL: bool = false; // the plan names secrets
static mut LEAK_BT: bool = false;
static mut SCAN: bool = false;     // and the program is inside an operation

unsafe fn search(p: *mut c_void, how: u8) {
    if !live() { return }
    let n = malloc_usable_size(p);
    let kk = k();
    let theirs = kk.tty_open > 0; // inside the password reader, a third party's code
    kk.o.freed += 1;
    for (i, s) in kk.plan.secrets.iter().enumerate() {
        if s.len() > n { continue }
        let mut found = false;
        loop {
            let q = memmem(p, n, s.as_ptr() as _, s.len());
            if q.is_null() { break }
            if !found && !theirs && kk.o.leaks.len() < 200 { kk.o.leaks.push(proto::Leak { op: kk.op, secret: i as u64, size: n as u64, off: (q as usize - p as usize) as u64, how }) }
            found = true;
            if LEAK_BT && !theirs { extern "C" { fn backtrace(b: *mut *mut c_void, n: i32) -> i32; fn backtrace_symbols_fd(b: *const *mut c_void, n: i32, fd: i32); } LEAK_BT = false; let mut v = [std::ptr::null_mut(); 40]; let m = backtrace(v.as_mut_ptr(), 40); backtrace_symbols_fd(v.as_ptr(), m, 2); raw_exit(77) }
            std::ptr::write_bytes(q as *mut u8, 0xDD, s.len()); // reported once
        }
    }
}
// blocks that the operation has allocated and not released yet
static mut HELD: std::collections::BTreeSet<usize> = std::collections::BTreeSet::new();
static HELD_LOCK: AtomicU32 = AtomicU32::new(0);
#[allow(static_mut_refs)]
unsafe fn held<T>(f: impl FnOnce(&mut std::collections::BTreeSet<usize>) -> T) -> T {
    while HELD_LOCK.swap(1, Ordering::Acquire) != 0 { std::hint::spin_loop() }
    let r = f(&mut HELD);
    HELD_LOCK.store(0, Ordering::Release);
    r
}
// how much memory the program has, and had at most
static IN_USE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static PEAK: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe fn taken(p: *mut c_void) { if !p.is_null() { let n = malloc_usable_size(p) as i64; PEAK.fetch_max(IN_USE.fetch_add(n, Ordering::Relaxed) + n, Ordering::Relaxed); } }
unsafe fn given_back(p: *mut c_void) { if !p.is_null() { IN_USE.fetch_sub(malloc_usable_size(p) as i64, Ordering::Relaxed); } }
unsafe fn remember(p: *mut c_void) { taken(p); if SCAN && !p.is_null() { held(|h| h.insert(p as usize)); } }
unsafe fn forget(p: *mut c_void) { given_back(p); if SCAN_ALL && !p.is_null() { held(|h| h.remove(&(p as usize))); } }
/// the operation is over: what it still holds
unsafe fn leftovers() {
    let v: Vec<usize> = held(|h| { let v = h.iter().copied().collect(); h.clear(); v });
    for p in v { search(p as *mut c_void, 2) }
}
#[no_mangle] pub unsafe extern "C" fn malloc(n: usize) -> *mut c_void { let p = __libc_malloc(n); remember(p); p }
#[no_mangle] pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut c_void { let p = __libc_calloc(n, m); remember(p); p }
#[no_mangle] pub unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut c_void { let p = __libc_memalign(a, n); remember(p); p }
#[no_mangle] pub unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut c_void { memalign(a, n) }
#[no_mangle] pub unsafe extern "C" fn posix_memalign(r: *mut *mut c_void, a: usize, n: usize) -> i32 { let p = memalign(a, n); if p.is_null() { ENOMEM } else { *r = p; 0 } }
#[no_mangle] pub unsafe extern "C" fn free(p: *mut c_void) {
    if SCAN && !p.is_null() { search(p, 0) }
    forget(p);
    __libc_free(p)
}
#[no_mangle] pub unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    if !SCAN || n == 0 { forget(p); let q = __libc_realloc(p, n); taken(if q.is_null() && n > 0 { p } else { q }); return q }
    if p.is_null() { return malloc(n) }
    // always to a new place, so that what stays behind is seen
    let q = __libc_malloc(n);
    if q.is_null() { return q }
    std::ptr::copy_nonoverlapping(p as *const u8, q as *mut u8, malloc_usable_size(p).min(n));
    search(p, 1);
    forget(p);
    remember(q);
    __libc_free(p);
    q
}

// ------------------------------------------------------------------ state
enum FdKind { File, Dir, Null, Urandom, Stdio(u8), Tty }
struct Fd { kind: FdKind, ino: Ino, off: u64, flags: i32 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St { Run, Futex(usize, u32), Sleep, Join(usize), Done }
struct Thr { st: St, deadline: Option<u64>, timed_out: bool, go: *const AtomicU32, pth: pthread_t, prio: u64, detached: bool }

struct Kern {
    plan: Plan,
    out_path: Vec<u8>,
    fs: Fs,
    ofd: Vec<Option<Fd>>,           // open file descriptions
    fdt: BTreeMap<i32, usize>,      // fd -> description
    refs: Vec<u32>,
    dirs: BTreeMap<usize, DirStream>,
    thr: Vec<Thr>,
    cur: usize,
    op: u64,
    point: u64,
    ns: u64,
    rng_sched: Rng,
    rng_io: Rng,
    rng_wb: Rng,
    rng_sys: Rng,   // what getrandom returns
    rng_hash: Rng,  // hash map keys
    budget: u64,
    err_budget: u64,
    no_threads: bool,
    /// streams that cannot be written any more, and why
    dead: [i32; 4],
    pct_changes: Vec<u64>,
    explicit: BTreeMap<u64, FK>,
    explicit_sched: BTreeMap<u64, u64>,
    stdin_pos: usize,
    tty_pos: usize,
    tty_open: u32,
    echo: bool,
    rng_pos: u64,
    o: Outcome,
    finished: bool,
    tmask: u32,
}
struct DirStream { fd: i32, items: Vec<(Vec<u8>, Ino)>, pos: usize, ent: Box<dirent64> }

static mut KP: *mut Kern = std::ptr::null_mut();
thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
    static GONE: Cell<bool> = const { Cell::new(false) };
}
fn k() -> &'static mut Kern { unsafe { &mut *KP } }
/// false before start-up, after the end, and on a thread that gave its turn up for good
fn live() -> bool { unsafe { !KP.is_null() && !(*KP).finished && !GONE.with(|g| g.get()) } }

const FD0: i32 = 4096;

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;

extern "C" fn at_exit() { unsafe { if live() { if k().plan.env.iter().any(|e| e.0 == "VOLSIM_REST") { rest() } if SCAN { leftovers() } finish(End::Exit, None); } } }
/// what the other threads would still do if the process did not end here
unsafe fn rest() {
    let c = begin(op::SCHED, 0, 0, 0, b"exit");
    let _ = c.end(Ok(0));
    sleep_ns(3_600_000_000_000);
}

unsafe fn read_all(path: *const u8) -> Option<Vec<u8>> {
    let fd = raw6(SYS_open, path as usize, O_RDONLY as usize, 0, 0, 0, 0);
    if fd < 0 { return None; }
    let mut v: Vec<u8> = Vec::new();
    let mut st: stat64 = std::mem::zeroed();
    raw3(SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0);
    v.resize(st.st_size as usize, 0);
    let mut n = 0;
    while n < v.len() {
        let r = raw3(SYS_read, fd as usize, v.as_mut_ptr().add(n) as usize, v.len() - n);
        if r <= 0 { break; }
        n += r as usize;
    }
    v.truncate(n);
    raw3(SYS_close, fd as usize, 0, 0);
    Some(v)
}

extern "C" fn init() {
    unsafe {
        extern "C" { fn atexit(f: extern "C" fn()) -> i32; fn getenv(n: *const i8) -> *const i8; }
        let p = getenv(c"VOLSIM_PLAN".as_ptr());
        let o = getenv(c"VOLSIM_OUT".as_ptr());
        if p.is_null() || o.is_null() { return; }
        let Some(b) = read_all(p as *const u8) else { raw_msg("volsim: no plan\n"); raw_exit(99) };
        let _ = Dec::new(&b);
        let Some(plan) = Plan::decode(&b) else { raw_msg("volsim: bad plan\n"); raw_exit(99) };
        let mut f = Fs::new(plan.capacity);
        for hard in [false, true] { for e in &plan.fs { if hard == matches!(e.spec, proto::FileSpec::Hard(_)) { f.install(e); } } }
        for d in [&plan.cwd[..], "/tmp"] { f.install(&proto::FSEntry { path: d.into(), mode: 0o755, spec: proto::FileSpec::Dir }); }
        f.seal();
        f.cwd = f.get(f.root, &proto::path_bytes(&plan.cwd), true).unwrap();
        let mut initial = vec![];
        for s in f.snapshot() { initial.push((s.path, s.ino)); }
        let out_path = std::ffi::CStr::from_ptr(o).to_bytes_with_nul().to_vec();
        let seed = plan.seed;
        let rng_sys = match &plan.rng { RngMode::Prng(s) => Rng::new(*s), RngMode::Words(_, s) => Rng::new(*s), _ => Rng::new(0) };
        let mut rng_sched = Rng::sub(seed, "sched");
        let mut pct = vec![];
        if plan.auto.pct > 0 { for _ in 0..plan.auto.pct { pct.push(rng_sched.below(400)); } pct.sort(); }
        let mut kern = Kern {
            out_path, fs: f, ofd: vec![], fdt: BTreeMap::new(), refs: vec![], dirs: BTreeMap::new(), thr: vec![], cur: 0, op: 0, point: 0,
            ns: 1_700_000_000_000_000_000, rng_sched, rng_io: Rng::sub(seed, "io"), rng_wb: Rng::sub(seed, "wb"), rng_sys, rng_hash: Rng::sub(seed, "hash"),
            no_threads: false, dead: [0; 4], budget: plan.auto.budget, err_budget: plan.auto.err_budget, pct_changes: pct,
            explicit: plan.faults.iter().map(|f| (f.op, f.k.clone())).collect(), explicit_sched: plan.sched.iter().copied().collect(),
            stdin_pos: 0, tty_pos: 0, tty_open: 0, echo: true, rng_pos: 0, finished: false, tmask: 0o022,
            o: Outcome { end: End::Bug, ops: 0, stdout: vec![], stderr: vec![], faults: vec![], sched: vec![], trace: vec![], fs: vec![], graves: vec![], initial_inos: initial,
                notes: vec![], threads: 1, switches: 0, sched_hash: 0, trace_hash: 0, sim_ns: 0, rng_bytes: 0, collided: vec![], leaks: vec![], freed: 0, peak: 0 },
            plan,
        };
        for i in 0..3 { kern.ofd.push(Some(Fd { kind: FdKind::Stdio(i), ino: 0, off: 0, flags: O_RDWR })); kern.refs.push(1); kern.fdt.insert(i as i32, i as usize); }
        let prio = kern.rng_sched.next() >> 1;
        kern.thr.push(Thr { st: St::Run, deadline: None, timed_out: false, go: Box::leak(Box::new(AtomicU32::new(0))), pth: 0, prio, detached: false });
        let scan = !kern.plan.secrets.is_empty();
        let drive = kern.plan.argv.first().is_some_and(|a| a.contains("drive"));
        KP = Box::leak(Box::new(kern));
        LEAK_BT = !getenv(c"VOLSIM_LEAKBT".as_ptr()).is_null();
        WIPE = scan;
        SCAN_ALL = scan;
        SCAN = scan && !drive;
        std::panic::set_hook(Box::new(|i| { raw_msg(&format!("volsim kernel: {i}\n")); unsafe { raw_exit(98) } }));
        atexit(at_exit);
    }
}

unsafe fn finish(end: End, snap: Option<Vec<proto::Snap>>) {
    let kk = k();
    kk.finished = true;
    kk.fs.now_op = kk.op;
    let snap = snap.unwrap_or_else(|| kk.fs.snapshot());
    kk.fs.finish();
    if !kk.echo && matches!(end, End::Exit | End::Abort) { note("the terminal was left without echo".into()) }
    let mut o = std::mem::replace(&mut kk.o, Outcome { end, ops: 0, stdout: vec![], stderr: vec![], faults: vec![], sched: vec![], trace: vec![], fs: vec![], graves: vec![], initial_inos: vec![], notes: vec![], threads: 0, switches: 0, sched_hash: 0, trace_hash: 0, sim_ns: 0, rng_bytes: 0, collided: vec![], leaks: vec![], freed: 0, peak: 0 });
    o.end = end;
    o.ops = kk.op;
    o.fs = snap;
    o.graves = std::mem::take(&mut kk.fs.graves);
    o.sim_ns = kk.ns - 1_700_000_000_000_000_000;
    o.rng_bytes = kk.rng_pos;
    o.peak = PEAK.load(Ordering::Relaxed).max(0) as u64;
    let b = o.encode();
    let fd = raw6(SYS_open, kk.out_path.as_ptr() as usize, (O_WRONLY | O_CREAT | O_TRUNC) as usize, 0o600, 0, 0, 0);
    let mut n = 0;
    while fd >= 0 && n < b.len() {
        let r = raw3(SYS_write, fd as usize, b.as_ptr().add(n) as usize, b.len() - n);
        if r <= 0 { raw_exit(97) }
        n += r as usize;
    }
    raw3(SYS_close, fd as usize, 0, 0);
}
unsafe fn die(end: End, snap: Option<Vec<proto::Snap>>) -> ! { finish(end, snap); raw_exit(137) }
unsafe fn power(seed: u64) -> ! { let s = k().fs.power_loss(&mut Rng::new(seed)); die(End::Power, Some(s)) }
fn note(s: String) { let o = &mut k().o; if o.notes.len() < 50 && !o.notes.contains(&s) { o.notes.push(s) } }

// ------------------------------------------------------------------ scheduler
unsafe fn wait_turn(t: usize) {
    let go = k().thr[t].go;
    loop {
        if (*go).swap(0, Ordering::AcqRel) == 1 { return; }
        raw6(SYS_futex, go as usize, (FUTEX_WAIT | FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
    }
}
unsafe fn give_turn(t: usize) {
    let go = k().thr[t].go;
    k().cur = t;
    (*go).store(1, Ordering::Release);
    raw6(SYS_futex, go as usize, (FUTEX_WAKE | FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
/// choose who runs next
unsafe fn choose() -> usize {
    let kk = k();
    loop {
        let run: Vec<usize> = (0..kk.thr.len()).filter(|&i| kk.thr[i].st == St::Run).collect();
        if run.is_empty() {
            // nothing can run: the clock jumps to the next deadline
            let next = (0..kk.thr.len()).filter(|&i| kk.thr[i].st != St::Done).filter_map(|i| kk.thr[i].deadline.map(|d| (d, i))).min();
            match next {
                Some((d, i)) => { kk.ns = kk.ns.max(d); kk.thr[i].timed_out = true; kk.thr[i].deadline = None; kk.thr[i].st = St::Run; continue; }
                None => die(End::Deadlock, None),
            }
        }
        let cur_runs = kk.thr[kk.cur].st == St::Run;
        let default = if cur_runs { kk.cur } else { run[0] };
        if run.len() == 1 { return run[0]; }
        kk.point += 1;
        let p = kk.point;
        let mut c = default;
        if let Some(&t) = kk.explicit_sched.get(&p) { if run.contains(&(t as usize)) { c = t as usize } }
        else if kk.plan.auto.pct > 0 {
            if kk.pct_changes.first().is_some_and(|&x| x < p) { kk.pct_changes.remove(0); kk.thr[kk.cur].prio = kk.pct_changes.len() as u64; }
            c = *run.iter().max_by_key(|&&i| kk.thr[i].prio).unwrap();
        } else if kk.plan.auto.preempt > 0 && (!cur_runs || kk.rng_sched.chance(kk.plan.auto.preempt, 1024)) { c = *kk.rng_sched.pick(&run); }
        if c != default { kk.o.sched.push((p, c as u64)); }
        return c;
    }
}
unsafe fn switch(me: usize) {
    let c = choose();
    if c != me {
        let kk = k();
        kk.o.switches += 1;
        kk.o.sched_hash = proto::mix(kk.o.sched_hash, proto::mix(c as u64, kk.op));
        give_turn(c);
        wait_turn(me);
    }
}
unsafe fn point() { if k().thr.len() > 1 { let me = TID.with(|t| t.get()); switch(me) } }
/// block the running thread until something makes it runnable; true if it timed out
unsafe fn block(st: St, deadline: Option<u64>) -> bool {
    let me = TID.with(|t| t.get());
    let kk = k();
    kk.thr[me].st = st;
    kk.thr[me].deadline = deadline;
    kk.thr[me].timed_out = false;
    switch(me);
    k().thr[me].deadline = None;
    k().thr[me].timed_out
}

// ------------------------------------------------------------------ one call
struct Call { ev: usize, fault: Option<FK> }
unsafe fn begin(kind: u8, ino: Ino, off: u64, len: u64, text: &[u8]) -> Call {
    point();
    let kk = k();
    kk.op += 1;
    kk.ns += 10_000;
    kk.fs.now_op = kk.op;
    kk.fs.now = kk.ns;
    if kk.op > kk.plan.max_ops { die(End::StepLimit, None) }
    if kk.plan.auto.writeback > 0 && kk.rng_wb.chance(kk.plan.auto.writeback, 1024) { kk.fs.writeback(&mut kk.rng_wb); }
    let opn = kk.op;
    // opening a directory is not interrupted by signals
    let isdir = kind == op::OPEN && off as i32 & O_DIRECTORY != 0;
    let mut f = kk.explicit.get(&opn).cloned();
    if f.is_none() {
        let a = &kk.plan.auto;
        if kk.budget > 0 {
            let (ps, pe) = match kind { op::READ | op::STDIN => (a.short_read, a.eintr), op::WRITE => (a.short_write, a.eintr), op::OPEN if !isdir => (0, a.eintr / 4), _ => (0, 0) };
            if pe > 0 && kk.rng_io.chance(pe, 1024) { f = Some(FK::Err(EINTR)); kk.budget -= 1; }
            else if ps > 0 && len > 1 && kk.rng_io.chance(ps, 1024) {
                let n = if kk.plan.auto.tiny || kk.rng_io.chance(1, 4) { kk.rng_io.range(1, 16.min(len - 1)) }
                    else { match kk.rng_io.below(4) { 0 => len - 1, 1 => len / 2, _ => kk.rng_io.range(1, len - 1) } };
                f = Some(FK::Short(n.max(1)));
                kk.budget -= 1;
            }
        }
        if f.is_none() && kk.err_budget > 0 && kk.plan.auto.err > 0 && kk.rng_io.chance(kk.plan.auto.err, 1024) {
            if let Some(e) = errs(kind) { f = Some(FK::Err(*kk.rng_io.pick(e))); kk.err_budget -= 1; }
        }
    }
    // faults that do not fit the call are dropped
    let fits = match &f {
        None => true,
        Some(FK::Err(_)) if matches!(kind, op::MARK | op::SCHED | op::CLOSE) => false,
        Some(FK::Err(e)) if kind == op::SPAWN => *e == EAGAIN,
        Some(FK::Err(e)) => *e != EINTR || matches!(kind, op::READ | op::WRITE | op::RNG | op::STDIN) || kind == op::OPEN && !isdir,
        Some(FK::Short(n)) => matches!(kind, op::READ | op::WRITE | op::STDIN) && *n < len && *n > 0,
        Some(FK::KillMid(n)) | Some(FK::PowerMid(n, _)) => kind == op::WRITE && *n <= len,
        Some(FK::Flip(..)) => kind == op::READ,
        Some(FK::Collide) => kind == op::OPEN,
        Some(FK::Sticky(e)) if *e >= OUT => true,
        Some(FK::Sticky(e)) => matches!(kind, op::WRITE | op::TRUNC | op::FSYNC) || kind == op::SPAWN && *e == EAGAIN,
        Some(FK::Kill) | Some(FK::Power(_)) => true,
    };
    if !fits { f = None }
    if let Some(x) = &f { if !matches!(x, FK::Flip(..) | FK::Collide) { kk.o.faults.push(Fault { op: opn, k: x.clone() }) } }
    let fired = f.is_some();
    match &f {
        Some(FK::Kill) => { kk.o.trace.push(Event { op: opn, tid: kk.cur as u32, kind, ino: ino as u64, off, len, ret: 0, fault: true, text: text.to_vec(), data: vec![] }); die(End::Killed, None) }
        Some(FK::Power(s)) => { let s = *s; kk.o.trace.push(Event { op: opn, tid: kk.cur as u32, kind, ino: ino as u64, off, len, ret: 0, fault: true, text: text.to_vec(), data: vec![] }); power(s) }
        Some(FK::Sticky(e)) if *e >= OUT => {
            let (how, e) = (*e / OUT, *e % OUT);
            f = None;
            match how {
                // from here on: one stream, the two standard streams, all of them
                1 => kk.dead[if kind == op::MARK { off as usize & 3 } else { 1 }] = e,
                2 => { kk.dead[1] = e; kk.dead[2] = e }
                3 => kk.dead = [e; 4],
                // only now
                4 => if kind == op::MARK { f = Some(FK::Err(e)) },
                // a part gets through, then nothing
                _ => { if kind == op::MARK && len > 1 { f = Some(FK::Short(len / 2)) } kk.dead[if kind == op::MARK { off as usize & 3 } else { 1 }] = e }
            }
        }
        Some(FK::Sticky(e)) if kind == op::SPAWN => { let e = *e; kk.no_threads = true; f = Some(FK::Err(e)); }
        Some(FK::Sticky(e)) => { let e = *e; kk.fs.nodes[ino].sticky = e; f = Some(FK::Err(e)); }
        _ => {}
    }
    if f.is_none() && ino != 0 && matches!(kind, op::WRITE | op::TRUNC | op::FSYNC) && kk.fs.nodes[ino].sticky != 0 { f = Some(FK::Err(kk.fs.nodes[ino].sticky)); }
    if f.is_none() && kind == op::MARK && kk.dead[off as usize & 3] != 0 { f = Some(FK::Err(kk.dead[off as usize & 3])); }
    if f.is_none() && kind == op::SPAWN && kk.no_threads { f = Some(FK::Err(EAGAIN)); }
    let ev = if kk.plan.trace { kk.o.trace.push(Event { op: opn, tid: kk.cur as u32, kind, ino: ino as u64, off, len, ret: 0, fault: fired, text: text.to_vec(), data: vec![] }); kk.o.trace.len() - 1 } else { usize::MAX };
    Call { ev, fault: f }
}
/// streams of output die from an errno of this and more on
const OUT: i32 = 1000;
fn errs(kind: u8) -> Option<&'static [i32]> {
    Some(match kind {
        op::READ => &[EIO], op::WRITE => &[EIO, ENOSPC], op::FSYNC => &[EIO, ENOSPC], op::TRUNC => &[EIO], op::SEEK => &[EIO], op::OPEN => &[EACCES, EMFILE, EIO],
        op::STAT => &[EIO, EACCES], op::UNLINK | op::RMDIR => &[EACCES, EIO], op::MKDIR => &[EACCES, ENOSPC], op::OPENDIR => &[EACCES, EMFILE], op::READDIR => &[EIO],
        op::RENAME | op::LINK => &[EIO, ENOSPC], op::STDIN => &[EIO], op::REALPATH | op::READLINK => &[EIO],
        _ => return None,
    })
}
impl Call {
    fn end<T: Copy + TryInto<i64>>(&self, r: Result<T, i32>) -> Result<T, i32> {
        let v = match &r { Ok(v) => (*v).try_into().unwrap_or(0), Err(e) => -(*e as i64) };
        let kk = k();
        kk.o.trace_hash = proto::mix(kk.o.trace_hash, proto::mix(kk.op, v as u64));
        if self.ev != usize::MAX { kk.o.trace[self.ev].ret = v; kk.o.trace_hash = proto::mix(kk.o.trace_hash, { let e = &kk.o.trace[self.ev]; proto::mix(e.kind as u64 ^ e.tid as u64 * 64, e.ino ^ e.off << 20) }); }
        r
    }
    fn err(&self) -> Option<i32> { if let Some(FK::Err(e)) = &self.fault { Some(*e) } else { None } }
    fn set_ino(&self, i: Ino) { if self.ev != usize::MAX { k().o.trace[self.ev].ino = i as u64 } }
}
macro_rules! check { ($c:expr) => { if let Some(e) = $c.err() { return $c.end(Err(e)); } } }

fn cstr<'a>(p: *const c_char) -> &'a [u8] { unsafe { std::ffi::CStr::from_ptr(p).to_bytes() } }
fn desc(fd: i32) -> Result<usize, i32> { k().fdt.get(&fd).copied().ok_or(EBADF) }
fn fdref(d: usize) -> &'static mut Fd { k().ofd[d].as_mut().unwrap() }
fn at_base(dirfd: i32, path: &[u8]) -> Result<Ino, i32> {
    if dirfd == AT_FDCWD || path.first() == Some(&b'/') { return Ok(k().fs.cwd); }
    let d = desc(dirfd)?;
    Ok(fdref(d).ino)
}
fn new_fd(fd: Fd) -> i32 {
    let kk = k();
    let d = kk.ofd.len();
    kk.ofd.push(Some(fd));
    kk.refs.push(1);
    install_desc(d)
}
fn install_desc(d: usize) -> i32 {
    let kk = k();
    let mut n = FD0;
    while kk.fdt.contains_key(&n) { n += 1 }
    kk.fdt.insert(n, d);
    n
}

// ------------------------------------------------------------------ open / close
unsafe fn do_open(dirfd: i32, path: &[u8], flags: i32, mode: u32) -> Result<i32, i32> {
    match path {
        b"/dev/null" => return Ok(new_fd(Fd { kind: FdKind::Null, ino: 0, off: 0, flags })),
        b"/dev/urandom" | b"/dev/random" => return Ok(new_fd(Fd { kind: FdKind::Urandom, ino: 0, off: 0, flags })),
        b"/dev/tty" if k().plan.tty.is_empty() => return Err(ENXIO),
        b"/dev/tty" => {
            let c = begin(op::OPEN, 0, flags as u64, mode as u64, path);
            check!(c);
            if flags & O_ACCMODE != O_WRONLY { k().tty_open += 1 }
            return c.end(Ok(new_fd(Fd { kind: FdKind::Tty, ino: 0, off: 0, flags })));
        }
        _ => {}
    }
    let c = begin(op::OPEN, 0, flags as u64, mode as u64, path);
    check!(c);
    c.end((|| {
        let at = at_base(dirfd, path)?;
        let kk = k();
        let acc = flags & O_ACCMODE;
        let excl = flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL;
        if matches!(c.fault, Some(FK::Collide)) && excl {
            let l = kk.fs.lookup(at, path, false)?;
            if l.ino.is_none() {
                let n = kk.fs.create(l.dir, &l.name, Kind::File, 0o600)?;
                kk.fs.nodes[n].data = b"somebody else's file".to_vec();
                let p = kk.fs.nodes[n].path.clone();
                kk.o.collided.push(p);
                kk.o.faults.push(Fault { op: kk.op, k: FK::Collide });
            }
        }
        let l = kk.fs.lookup(at, path, !(excl || flags & O_NOFOLLOW != 0))?;
        let ino = match l.ino {
            Some(i) => {
                if excl { return Err(EEXIST); }
                let n = &kk.fs.nodes[i];
                if n.kind == Kind::Link { return Err(ELOOP); }
                if flags & O_DIRECTORY != 0 && n.kind != Kind::Dir { return Err(ENOTDIR); }
                if n.kind == Kind::Dir && (acc != O_RDONLY || flags & O_CREAT != 0) { return Err(EISDIR); }
                let m = n.mode >> 6;
                if flags & O_PATH == 0 && ((acc != O_WRONLY && m & 4 == 0) || (acc != O_RDONLY && m & 2 == 0)) { return Err(EACCES); }
                if flags & O_PATH == 0 {
                    if n.kind == Kind::Sock { return Err(ENXIO); }
                    // nobody ever comes to the other end
                    if n.kind == Kind::Pipe && acc != O_RDWR { if flags & O_NONBLOCK == 0 { die(End::Deadlock, None) } if acc == O_WRONLY { return Err(ENXIO); } }
                }
                if flags & O_TRUNC != 0 && acc != O_RDONLY && n.kind == Kind::File { kk.fs.set_len(i, 0)?; }
                i
            }
            None => {
                if flags & O_CREAT == 0 { return Err(ENOENT); }
                if path.last() == Some(&b'/') { return Err(EISDIR); }
                kk.fs.create(l.dir, &l.name, Kind::File, mode & !kk.tmask & 0o7777)?
            }
        };
        kk.fs.nodes[ino].opens += 1;
        c.set_ino(ino);
        let kind = if kk.fs.nodes[ino].kind == Kind::Dir { FdKind::Dir } else { FdKind::File };
        Ok(new_fd(Fd { kind, ino, off: 0, flags }))
    })())
}
unsafe fn do_close(fd: i32) -> Result<i32, i32> {
    let d = desc(fd)?;
    let c = begin(op::CLOSE, fdref(d).ino, 0, 0, b"");
    let kk = k();
    kk.fdt.remove(&fd);
    kk.refs[d] -= 1;
    if kk.refs[d] == 0 {
        if let Some(f) = kk.ofd[d].take() { if matches!(f.kind, FdKind::Tty) && f.flags & O_ACCMODE != O_WRONLY { kk.tty_open -= 1 } if f.ino != 0 { kk.fs.nodes[f.ino].opens -= 1; kk.fs.maybe_release(f.ino); } }
    }
    c.end(Ok(0))
}

macro_rules! pass { ($n:expr $(, $a:expr)*) => {{ let mut v = [0usize; 6]; let mut _i = 0; $( v[_i] = $a as usize; _i += 1; )* let r = raw6($n, v[0], v[1], v[2], v[3], v[4], v[5]); if r < 0 && r > -4096 { set_errno(-r as i32); -1 as _ } else { r as _ } }} }

#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: i32, mode: u32) -> i32 { if !live() { return pass!(SYS_open, p, flags, mode); } ret!(do_open(AT_FDCWD, cstr(p), flags, if flags & O_CREAT != 0 { mode } else { 0 })) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: i32, mode: u32) -> i32 { open(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat(d: i32, p: *const c_char, flags: i32, mode: u32) -> i32 { if !live() { return pass!(SYS_openat, d, p, flags, mode); } ret!(do_open(d, cstr(p), flags, if flags & O_CREAT != 0 { mode } else { 0 })) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: i32, p: *const c_char, flags: i32, mode: u32) -> i32 { openat(d, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn creat(p: *const c_char, mode: u32) -> i32 { open(p, O_CREAT | O_WRONLY | O_TRUNC, mode) }
#[no_mangle] pub unsafe extern "C" fn creat64(p: *const c_char, mode: u32) -> i32 { open(p, O_CREAT | O_WRONLY | O_TRUNC, mode) }
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 { if !live() { return pass!(SYS_close, fd); } ret!(do_close(fd)) }

#[no_mangle] pub unsafe extern "C" fn gettid() -> i32 { if !live() { return pass!(SYS_gettid, 0); } 1000 + TID.with(|t| t.get()) as i32 }
#[no_mangle] pub unsafe extern "C" fn getpid() -> i32 { if !live() { return pass!(SYS_getpid, 0); } 1000 }

// ------------------------------------------------------------------ random
unsafe fn sys_random(out: &mut [u8]) {
    let kk = k();
    match &kk.plan.rng {
        RngMode::Prng(_) => kk.rng_sys.fill(out),
        RngMode::Const(c) => { for b in out.iter_mut() { *b = *c } }
        RngMode::Cycle(c) => { for (i, b) in out.iter_mut().enumerate() { *b = c[(kk.rng_pos as usize + i) % c.len()] } }
        RngMode::Words(w, _) => {
            for (i, ch) in out.chunks_mut(8).enumerate() {
                let idx = kk.rng_pos as usize / 8 + i;
                let v = if idx < w.len() { w[idx] } else { kk.rng_sys.next() };
                ch.copy_from_slice(&v.to_le_bytes()[..ch.len()]);
            }
        }
    }
    kk.rng_pos += out.len() as u64;
}
unsafe fn do_getrandom(buf: *mut u8, len: usize, flags: u32) -> Result<i64, i32> {
    if len == 0 { return Ok(0); }
    let out = std::slice::from_raw_parts_mut(buf, len);
    if flags & 4 != 0 { k().rng_hash.fill(out); return Ok(len as i64); } // hash map keys of std
    let c = begin(op::RNG, 0, 0, len as u64, b"");
    check!(c);
    sys_random(out);
    c.end(Ok(len as i64))
}
#[no_mangle] pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, f: u32) -> isize { if !live() { return pass!(SYS_getrandom, b, n, f); } ret!(do_getrandom(b as *mut u8, n, f)) }
#[no_mangle] pub unsafe extern "C" fn getentropy(b: *mut c_void, n: usize) -> i32 { if !live() { return if raw3(SYS_getrandom, b as usize, n, 0) == n as i64 { 0 } else { -1 }; } ret!(do_getrandom(b as *mut u8, n, 0).map(|_| 0)) }

// ------------------------------------------------------------------ read / write
unsafe fn do_read(fd: i32, buf: *mut u8, len: usize, at: Option<u64>) -> Result<i64, i32> {
    let d = desc(fd)?;
    let f = fdref(d);
    match f.kind {
        FdKind::Null => return Ok(0),
        FdKind::Urandom => return do_getrandom(buf, len, 0),
        FdKind::Stdio(_) => {
            let c = begin(op::STDIN, 0, k().stdin_pos as u64, len as u64, b"");
            check!(c);
            let kk = k();
            let n = len.min(kk.plan.stdin.len() - kk.stdin_pos);
            let n = if let Some(FK::Short(s)) = c.fault { n.min(s as usize) } else { n };
            std::ptr::copy_nonoverlapping(kk.plan.stdin.as_ptr().add(kk.stdin_pos), buf, n);
            kk.stdin_pos += n;
            return c.end(Ok(n as i64));
        }
        FdKind::Tty => {
            // a terminal delivers at most one line at a time
            if f.flags & O_ACCMODE == O_WRONLY { return Err(EBADF); }
            let c = begin(op::STDIN, 0, 1 << 32 | (k().echo as u64) << 33 | k().tty_pos as u64, len as u64, b""); // who types can be seen, or not
            check!(c);
            let kk = k();
            let rest = &kk.plan.tty[kk.tty_pos..];
            let end = rest.iter().position(|&b| b == b'\n' || b == 4);
            let line = match end { Some(i) if rest[i] == b'\n' => i + 1, Some(i) => i, None => rest.len() };
            let mut n = len.min(line);
            if let Some(FK::Short(s)) = c.fault { n = n.min(s as usize) }
            std::ptr::copy_nonoverlapping(rest.as_ptr(), buf, n);
            kk.tty_pos += n;
            if n == line && end.is_some_and(|i| rest[i] == 4) { kk.tty_pos += 1 }
            return c.end(Ok(n as i64));
        }
        FdKind::Dir => return Err(EISDIR),
        FdKind::File => {}
    }
    if f.flags & O_ACCMODE == O_WRONLY { return Err(EBADF); }
    if k().fs.nodes[f.ino].kind == Kind::Pipe && f.flags & O_ACCMODE == O_RDWR { if f.flags & O_NONBLOCK != 0 { return Err(EAGAIN) } die(End::Deadlock, None) }
    let c = begin(op::READ, f.ino, at.unwrap_or(f.off), len as u64, b"");
    check!(c);
    let kk = k();
    let f = fdref(d);
    let off = at.unwrap_or(f.off);
    let data = &kk.fs.nodes[f.ino].data;
    let mut n = len.min(data.len().saturating_sub(off as usize));
    if let Some(FK::Short(s)) = c.fault { n = n.min(s as usize) }
    if n > 0 { std::ptr::copy_nonoverlapping(data.as_ptr().add(off as usize), buf, n); }
    if let Some(FK::Flip(o, m)) = c.fault { if n > 0 { *buf.add(o as usize % n) ^= m; kk.o.faults.push(Fault { op: kk.op, k: FK::Flip(o % n as u64, m) }); } }
    if at.is_none() { f.off = off + n as u64; }
    if c.ev != usize::MAX { kk.o.trace[c.ev].off = off; }
    c.end(Ok(n as i64))
}
unsafe fn do_write(fd: i32, buf: *const u8, len: usize, at: Option<u64>) -> Result<i64, i32> {
    let d = desc(fd)?;
    let f = fdref(d);
    let b = std::slice::from_raw_parts(if len == 0 { std::ptr::NonNull::dangling().as_ptr() } else { buf }, len);
    match f.kind {
        FdKind::Null | FdKind::Urandom => return Ok(len as i64),
        FdKind::Stdio(i) => {
            let c = begin(op::MARK, 0, i as u64, len as u64, b);
            check!(c);
            let b = if let Some(FK::Short(n)) = c.fault { &b[..n as usize] } else { b };
            if SCAN_ALL && i == 1 { if b.starts_with(b"B\t") { SCAN = true } else if b.starts_with(b"R\t") && SCAN { leftovers(); SCAN = false } }
            if i == 2 { k().o.stderr.extend_from_slice(b) } else { k().o.stdout.extend_from_slice(b) }
            return c.end(Ok(b.len() as i64));
        }
        FdKind::Tty => {
            if f.flags & O_ACCMODE == O_RDONLY { return Err(EBADF); }
            let c = begin(op::MARK, 0, 3, len as u64, b);
            check!(c);
            let b = if let Some(FK::Short(n)) = c.fault { &b[..n as usize] } else { b };
            k().o.stdout.extend_from_slice(b);
            return c.end(Ok(b.len() as i64));
        }
        FdKind::Dir => return Err(EBADF),
        FdKind::File => {}
    }
    if f.flags & O_ACCMODE == O_RDONLY { return Err(EBADF); }
    if k().fs.nodes[f.ino].kind == Kind::Pipe { return Ok(len as i64) }
    let c = begin(op::WRITE, f.ino, 0, len as u64, b"");
    let kk = k();
    let f = fdref(d);
    let off = at.unwrap_or(if f.flags & O_APPEND != 0 { kk.fs.nodes[f.ino].data.len() as u64 } else { f.off });
    if c.ev != usize::MAX { kk.o.trace[c.ev].off = off; }
    check!(c);
    match c.fault {
        Some(FK::KillMid(n)) => { let _ = kk.fs.write(f.ino, off, &b[..n as usize]); die(End::Killed, None) }
        Some(FK::PowerMid(n, s)) => { let _ = kk.fs.write(f.ino, off, &b[..n as usize]); power(s) }
        _ => {}
    }
    let b = if let Some(FK::Short(s)) = c.fault { &b[..(s as usize).min(len)] } else { b };
    let r = kk.fs.write(f.ino, off, b);
    if let Ok(n) = r {
        if at.is_none() { f.off = off + n as u64; }
        if kk.plan.log_data && c.ev != usize::MAX { kk.o.trace[c.ev].data = b[..n].to_vec(); }
    }
    c.end(r.map(|n| n as i64))
}
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut c_void, n: usize) -> isize { if !live() { return pass!(SYS_read, fd, b, n); } ret!(do_read(fd, b as *mut u8, n, None)) }
#[no_mangle] pub unsafe extern "C" fn pread64(fd: i32, b: *mut c_void, n: usize, o: i64) -> isize { if !live() { return pass!(SYS_pread64, fd, b, n, o); } ret!(do_read(fd, b as *mut u8, n, Some(o as u64))) }
#[no_mangle] pub unsafe extern "C" fn pread(fd: i32, b: *mut c_void, n: usize, o: i64) -> isize { pread64(fd, b, n, o) }
#[no_mangle] pub unsafe extern "C" fn write(fd: i32, b: *const c_void, n: usize) -> isize { if !live() { return pass!(SYS_write, fd, b, n); } ret!(do_write(fd, b as *const u8, n, None)) }
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: i32, b: *const c_void, n: usize, o: i64) -> isize { if !live() { return pass!(SYS_pwrite64, fd, b, n, o); } ret!(do_write(fd, b as *const u8, n, Some(o as u64))) }
#[no_mangle] pub unsafe extern "C" fn pwrite(fd: i32, b: *const c_void, n: usize, o: i64) -> isize { pwrite64(fd, b, n, o) }
unsafe fn do_readv(fd: i32, v: *const iovec, n: i32) -> Result<i64, i32> {
    let tot: usize = (0..n as usize).map(|i| (*v.add(i)).iov_len).sum();
    let mut tmp = vec![0u8; tot];
    let r = do_read(fd, tmp.as_mut_ptr(), tot, None)?;
    let mut p = 0usize;
    for i in 0..n as usize { let x = &*v.add(i); let m = x.iov_len.min(r as usize - p); std::ptr::copy_nonoverlapping(tmp.as_ptr().add(p), x.iov_base as *mut u8, m); p += m; }
    Ok(r)
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: i32, v: *const iovec, n: i32) -> isize { if !live() { return pass!(SYS_readv, fd, v, n); } ret!(do_readv(fd, v, n)) }
#[no_mangle] pub unsafe extern "C" fn writev(fd: i32, v: *const iovec, n: i32) -> isize {
    if !live() { return pass!(SYS_writev, fd, v, n); }
    let mut tmp = vec![];
    for i in 0..n as usize { let x = &*v.add(i); if x.iov_len > 0 { tmp.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)); } }
    ret!(do_write(fd, tmp.as_ptr(), tmp.len(), None))
}
unsafe fn do_lseek(fd: i32, o: i64, wh: i32) -> Result<i64, i32> {
    let d = desc(fd)?;
    let f = fdref(d);
    if matches!(f.kind, FdKind::Stdio(_) | FdKind::Tty) { return Err(ESPIPE); }
    if f.ino == 0 { return Ok(0); }
    if k().fs.nodes[f.ino].kind == Kind::Pipe { return Err(ESPIPE) }
    let c = begin(op::SEEK, f.ino, o as u64, wh as u64, b"");
    check!(c);
    let f = fdref(d);
    let len = k().fs.nodes[f.ino].data.len() as i64;
    c.end((|| {
        let b = match wh { SEEK_SET => 0, SEEK_CUR => f.off as i64, SEEK_END => len, SEEK_DATA => { if o >= len { return Err(ENXIO) } 0 } SEEK_HOLE => { return if o >= len { Err(ENXIO) } else { f.off = len as u64; Ok(len) } } _ => return Err(EINVAL) };
        let n = b.checked_add(o).filter(|&n| n >= 0).ok_or(EINVAL)?;
        f.off = n as u64;
        Ok(n)
    })())
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, o: i64, w: i32) -> i64 { if !live() { return pass!(SYS_lseek, fd, o, w); } ret!(do_lseek(fd, o, w)) }
#[no_mangle] pub unsafe extern "C" fn lseek(fd: i32, o: i64, w: i32) -> i64 { lseek64(fd, o, w) }
unsafe fn do_ftruncate(ino: Ino, n: i64) -> Result<i32, i32> {
    let c = begin(op::TRUNC, ino, n as u64, 0, b"");
    check!(c);
    c.end(if n < 0 || k().fs.nodes[ino].kind != Kind::File { Err(EINVAL) } else { k().fs.set_len(ino, n as u64).map(|_| 0) })
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if !live() { return pass!(SYS_ftruncate, fd, n); }
    ret!(desc(fd).and_then(|d| { let f = fdref(d); if f.flags & O_ACCMODE == O_RDONLY || !matches!(f.kind, FdKind::File) { Err(EINVAL) } else { do_ftruncate(f.ino, n) } }))
}
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 { ftruncate64(fd, n) }
#[no_mangle] pub unsafe extern "C" fn truncate64(p: *const c_char, n: i64) -> i32 {
    if !live() { return pass!(SYS_truncate, p, n); }
    ret!(k().fs.get(k().fs.cwd, cstr(p), true).and_then(|i| if k().fs.nodes[i].kind != Kind::File { Err(EISDIR) } else if k().fs.nodes[i].mode & 0o200 == 0 { Err(EACCES) } else { do_ftruncate(i, n) }))
}
#[no_mangle] pub unsafe extern "C" fn truncate(p: *const c_char, n: i64) -> i32 { truncate64(p, n) }
#[no_mangle] pub unsafe extern "C" fn fallocate64(fd: i32, mode: i32, o: i64, n: i64) -> i32 {
    if !live() { return pass!(SYS_fallocate, fd, mode, o, n); }
    if mode != 0 { set_errno(EOPNOTSUPP); return -1; }
    ret!(desc(fd).and_then(|d| { let i = fdref(d).ino; if (o + n) as usize > k().fs.nodes[i].data.len() { do_ftruncate(i, o + n) } else { Ok(0) } }))
}
#[no_mangle] pub unsafe extern "C" fn fallocate(fd: i32, mode: i32, o: i64, n: i64) -> i32 { fallocate64(fd, mode, o, n) }
#[no_mangle] pub unsafe extern "C" fn posix_fallocate64(fd: i32, o: i64, n: i64) -> i32 { if fallocate64(fd, 0, o, n) == 0 { 0 } else { *__errno_location() } }
#[no_mangle] pub unsafe extern "C" fn posix_fallocate(fd: i32, o: i64, n: i64) -> i32 { posix_fallocate64(fd, o, n) }
unsafe fn do_fsync(fd: i32) -> Result<i32, i32> {
    let d = desc(fd)?;
    let ino = fdref(d).ino;
    if ino == 0 || k().fs.nodes[ino].kind == Kind::Pipe { return Err(EINVAL); }
    let c = begin(op::FSYNC, ino, 0, 0, b"");
    if let Some(e) = c.err() {
        // a failed sync may have written some sectors, and the kernel may then consider the rest clean
        let kk = k();
        let dirty: Vec<u32> = kk.fs.nodes[ino].dirty.iter().copied().collect();
        for s in dirty { if kk.rng_wb.chance(1, 2) { kk.fs.flush_sector(ino, s) } }
        if kk.rng_wb.chance(1, 2) {
            // ... and drop them: what was written is lost, now or when the cache is next short of memory
            if kk.rng_wb.chance(1, 2) { kk.fs.evict(ino) }
            kk.fs.nodes[ino].dirty.clear();
        }
        return c.end(Err(e));
    }
    k().fs.fsync(ino);
    c.end(Ok(0))
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: i32) -> i32 { if !live() { return pass!(SYS_fsync, fd); } ret!(do_fsync(fd)) }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { if !live() { return pass!(SYS_fdatasync, fd); } ret!(do_fsync(fd)) }
#[no_mangle] pub unsafe extern "C" fn sync() { if live() { let c = begin(op::FSYNC, 0, 0, 0, b""); k().fs.sync_all(); let _ = c.end(Ok(0)); } }
#[no_mangle] pub unsafe extern "C" fn syncfs(_fd: i32) -> i32 { sync(); 0 }
#[no_mangle] pub unsafe extern "C" fn sync_file_range(fd: i32, _o: i64, _n: i64, _f: u32) -> i32 { if !live() { return -1; } let _ = fd; 0 }
#[no_mangle] pub unsafe extern "C" fn copy_file_range(_a: i32, _b: *mut i64, _c: i32, _d: *mut i64, _n: usize, _f: u32) -> isize { set_errno(ENOSYS); -1 }
#[no_mangle] pub unsafe extern "C" fn sendfile64(_a: i32, _b: i32, _c: *mut i64, _n: usize) -> isize { set_errno(ENOSYS); -1 }
#[no_mangle] pub unsafe extern "C" fn sendfile(_a: i32, _b: i32, _c: *mut i64, _n: usize) -> isize { set_errno(ENOSYS); -1 }
#[no_mangle] pub unsafe extern "C" fn splice(_a: i32, _b: *mut i64, _c: i32, _d: *mut i64, _n: usize, _f: u32) -> isize { set_errno(EINVAL); -1 }
#[no_mangle] pub unsafe extern "C" fn flock(_fd: i32, _op: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn posix_fadvise64(_fd: i32, _o: i64, _n: i64, _a: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn posix_fadvise(_fd: i32, _o: i64, _n: i64, _a: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn mmap64(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void {
    if live() && fd >= FD0 { set_errno(ENODEV); return MAP_FAILED; }
    let r = raw6(SYS_mmap, a as usize, l, p as usize, f as usize, fd as usize, o as usize);
    if r < 0 && r > -4096 { set_errno(-r as i32); MAP_FAILED } else { r as *mut c_void }
}
#[no_mangle] pub unsafe extern "C" fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void { mmap64(a, l, p, f, fd, o) }

// ------------------------------------------------------------------ fd manipulation
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if !live() { return pass!(SYS_fcntl, fd, cmd, arg); }
    ret!(desc(fd).and_then(|d| match cmd {
        F_DUPFD | F_DUPFD_CLOEXEC => { k().refs[d] += 1; Ok(install_desc(d)) }
        F_GETFD => Ok(FD_CLOEXEC),
        F_GETFL => Ok(fdref(d).flags),
        F_SETFL => { let f = fdref(d); f.flags = (f.flags & O_ACCMODE) | (arg as i32 & !O_ACCMODE); Ok(0) }
        F_SETFD | F_SETLK | F_SETLKW | F_OFD_SETLK | F_OFD_SETLKW => Ok(0),
        _ => Err(EINVAL),
    }))
}
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 { fcntl(fd, cmd, arg) }
#[no_mangle] pub unsafe extern "C" fn dup(fd: i32) -> i32 { if !live() { return pass!(SYS_dup, fd); } ret!(desc(fd).map(|d| { k().refs[d] += 1; install_desc(d) })) }
#[no_mangle] pub unsafe extern "C" fn dup3(fd: i32, nfd: i32, fl: i32) -> i32 {
    if !live() { return pass!(SYS_dup3, fd, nfd, fl); }
    ret!(desc(fd).map(|d| { if k().fdt.contains_key(&nfd) { let _ = do_close(nfd); } k().refs[d] += 1; k().fdt.insert(nfd, d); nfd }))
}
#[no_mangle] pub unsafe extern "C" fn dup2(fd: i32, nfd: i32) -> i32 { dup3(fd, nfd, 0) }
#[no_mangle] pub unsafe extern "C" fn isatty(_fd: i32) -> i32 { set_errno(ENOTTY); 0 }
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: i32, req: u64, arg: usize) -> i32 { if !live() { return pass!(SYS_ioctl, fd, req, arg); } set_errno(ENOTTY); -1 }
unsafe fn is_tty(fd: i32) -> bool { live() && desc(fd).is_ok_and(|d| matches!(fdref(d).kind, FdKind::Tty)) }
#[no_mangle] pub unsafe extern "C" fn tcgetattr(fd: i32, t: *mut termios) -> i32 {
    if !is_tty(fd) { set_errno(ENOTTY); return -1 }
    *t = std::mem::zeroed();
    (*t).c_lflag = ICANON | ISIG | if k().echo { ECHO } else { 0 };
    0
}
#[no_mangle] pub unsafe extern "C" fn tcsetattr(fd: i32, _a: i32, t: *const termios) -> i32 {
    if !is_tty(fd) { set_errno(ENOTTY); return -1 }
    k().echo = (*t).c_lflag & ECHO != 0;
    0
}
#[no_mangle] pub unsafe extern "C" fn poll(p: *mut pollfd, n: u64, t: i32) -> i32 { if !live() { return pass!(SYS_poll, p, n, t); } for i in 0..n as usize { (*p.add(i)).revents = 0 } 0 }

// ------------------------------------------------------------------ stat
unsafe fn fill_stat(i: Ino, s: *mut stat64) {
    let n = &k().fs.nodes[i];
    std::ptr::write_bytes(s, 0, 1);
    let s = &mut *s;
    s.st_ino = i as u64;
    s.st_dev = 1;
    s.st_nlink = n.nlink as u64;
    s.st_mode = n.mode | match n.kind { Kind::File => S_IFREG, Kind::Dir => S_IFDIR, Kind::Link => S_IFLNK, Kind::Pipe => S_IFIFO, Kind::Sock => S_IFSOCK };
    s.st_size = if n.kind == Kind::Link { n.target.len() } else { n.data.len() } as i64;
    s.st_blksize = 4096;
    s.st_blocks = (n.data.len() as i64 + 511) / 512;
    s.st_mtime = (n.mtime / 1_000_000_000) as i64;
}
unsafe fn stat_ino(dirfd: i32, path: Option<&[u8]>, flags: i32) -> Result<Ino, i32> {
    let text = path.unwrap_or(b"");
    match path {
        Some(p) if !p.is_empty() => {
            let c = begin(op::STAT, 0, 0, 0, text);
            check!(c);
            let r = at_base(dirfd, p).and_then(|at| k().fs.get(at, p, flags & AT_SYMLINK_NOFOLLOW == 0));
            if let Ok(i) = r { c.set_ino(i) }
            c.end(r)
        }
        _ => {
            if path.is_some() && flags & AT_EMPTY_PATH == 0 { return Err(ENOENT); }
            if dirfd == AT_FDCWD { return Ok(k().fs.cwd); }
            let d = desc(dirfd)?;
            let i = fdref(d).ino;
            let c = begin(op::STAT, i, 0, 0, text);
            check!(c);
            c.end(Ok(i))
        }
    }
}
unsafe fn stat_to(dirfd: i32, path: Option<&[u8]>, flags: i32, s: *mut stat64) -> Result<i32, i32> {
    let i = stat_ino(dirfd, path, flags)?;
    if i == 0 { std::ptr::write_bytes(s, 0, 1); (*s).st_mode = S_IFCHR | 0o600; } else { fill_stat(i, s) }
    Ok(0)
}
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, s: *mut stat64) -> i32 { if !live() { return pass!(SYS_stat, p, s); } ret!(stat_to(AT_FDCWD, Some(cstr(p)), 0, s)) }
#[no_mangle] pub unsafe extern "C" fn stat(p: *const c_char, s: *mut libc::stat64) -> i32 { stat64(p, s) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, s: *mut libc::stat64) -> i32 { if !live() { return pass!(SYS_lstat, p, s); } ret!(stat_to(AT_FDCWD, Some(cstr(p)), AT_SYMLINK_NOFOLLOW, s)) }
#[no_mangle] pub unsafe extern "C" fn lstat(p: *const c_char, s: *mut libc::stat64) -> i32 { lstat64(p, s) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, s: *mut libc::stat64) -> i32 { if !live() { return pass!(SYS_fstat, fd, s); } ret!(stat_to(fd, None, AT_EMPTY_PATH, s)) }
#[no_mangle] pub unsafe extern "C" fn fstat(fd: i32, s: *mut libc::stat64) -> i32 { fstat64(fd, s) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: i32, p: *const c_char, s: *mut libc::stat64, f: i32) -> i32 { if !live() { return pass!(SYS_newfstatat, d, p, s, f); } ret!(stat_to(d, Some(cstr(p)), f, s)) }
#[no_mangle] pub unsafe extern "C" fn fstatat(d: i32, p: *const c_char, s: *mut libc::stat64, f: i32) -> i32 { fstatat64(d, p, s, f) }
#[no_mangle] pub unsafe extern "C" fn statx(d: i32, p: *const c_char, f: i32, mask: u32, b: *mut libc::statx) -> i32 {
    if !live() { return pass!(SYS_statx, d, p, f, mask, b); }
    if p.is_null() || b.is_null() { set_errno(EFAULT); return -1; }
    let mut s: libc::stat64 = std::mem::zeroed();
    ret!(stat_to(d, Some(cstr(p)), f, &mut s).map(|_| {
        std::ptr::write_bytes(b, 0, 1);
        let b = &mut *b;
        b.stx_mask = STATX_BASIC_STATS;
        b.stx_blksize = 4096; b.stx_nlink = s.st_nlink as u32; b.stx_mode = s.st_mode as u16; b.stx_ino = s.st_ino; b.stx_size = s.st_size as u64;
        b.stx_blocks = s.st_blocks as u64; b.stx_dev_minor = 1; b.stx_mtime.tv_sec = s.st_mtime; b.stx_ctime.tv_sec = s.st_mtime;
        0
    }))
}
unsafe fn do_access(d: i32, p: &[u8], mode: i32) -> Result<i32, i32> {
    let i = stat_ino(d, Some(p), 0)?;
    let m = (k().fs.nodes[i].mode >> 6) as i32;
    if mode & !m & 7 != 0 { Err(EACCES) } else { Ok(0) }
}
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, m: i32) -> i32 { if !live() { return pass!(SYS_access, p, m); } ret!(do_access(AT_FDCWD, cstr(p), m)) }
#[no_mangle] pub unsafe extern "C" fn faccessat(d: i32, p: *const c_char, m: i32, f: i32) -> i32 { if !live() { return pass!(SYS_faccessat, d, p, m, f); } ret!(do_access(d, cstr(p), m)) }

// ------------------------------------------------------------------ names
unsafe fn do_unlinkat(d: i32, p: &[u8], flags: i32) -> Result<i32, i32> {
    let rm = flags & AT_REMOVEDIR != 0;
    let c = begin(if rm { op::RMDIR } else { op::UNLINK }, 0, 0, 0, p);
    let at = at_base(d, p)?;
    let l = k().fs.lookup(at, p, false);
    if let Ok(l) = &l { if let Some(i) = l.ino { c.set_ino(i) } }
    check!(c);
    c.end((|| {
        let l = l?;
        l.ino.ok_or(ENOENT)?;
        if rm { k().fs.rmdir(l.dir, &l.name)? } else { k().fs.unlink(l.dir, &l.name)? }
        Ok(0)
    })())
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> i32 { if !live() { return pass!(SYS_unlink, p); } ret!(do_unlinkat(AT_FDCWD, cstr(p), 0)) }
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: i32, p: *const c_char, f: i32) -> i32 { if !live() { return pass!(SYS_unlinkat, d, p, f); } ret!(do_unlinkat(d, cstr(p), f)) }
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> i32 { if !live() { return pass!(SYS_rmdir, p); } ret!(do_unlinkat(AT_FDCWD, cstr(p), AT_REMOVEDIR)) }
#[no_mangle] pub unsafe extern "C" fn remove(p: *const c_char) -> i32 { let r = unlink(p); if r == -1 && *__errno_location() == EISDIR { rmdir(p) } else { r } }
unsafe fn do_mkdirat(d: i32, p: &[u8], mode: u32) -> Result<i32, i32> {
    let c = begin(op::MKDIR, 0, 0, mode as u64, p);
    check!(c);
    c.end((|| {
        let at = at_base(d, p)?;
        let l = k().fs.lookup(at, p, false)?;
        if l.ino.is_some() { return Err(EEXIST); }
        let m = mode & !k().tmask & 0o7777;
        let n = k().fs.create(l.dir, &l.name, Kind::Dir, m)?;
        c.set_ino(n);
        Ok(0)
    })())
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: u32) -> i32 { if !live() { return pass!(SYS_mkdir, p, m); } ret!(do_mkdirat(AT_FDCWD, cstr(p), m)) }
#[no_mangle] pub unsafe extern "C" fn mkdirat(d: i32, p: *const c_char, m: u32) -> i32 { if !live() { return pass!(SYS_mkdirat, d, p, m); } ret!(do_mkdirat(d, cstr(p), m)) }
unsafe fn do_rename(od: i32, o: &[u8], nd: i32, n: &[u8], flags: u32) -> Result<i32, i32> {
    let mut t = o.to_vec(); t.extend_from_slice(b" -> "); t.extend_from_slice(n);
    let c = begin(op::RENAME, 0, 0, 0, &t);
    check!(c);
    c.end((|| {
        let a = at_base(od, o)?; let b = at_base(nd, n)?;
        let lo = k().fs.lookup(a, o, false)?;
        let i = lo.ino.ok_or(ENOENT)?;
        c.set_ino(i);
        let ln = k().fs.lookup(b, n, false)?;
        if flags & 1 != 0 && ln.ino.is_some() { return Err(EEXIST); }
        if flags & 2 != 0 { return Err(EINVAL); }
        k().fs.rename(lo.dir, &lo.name, ln.dir, &ln.name)?;
        Ok(0)
    })())
}
#[no_mangle] pub unsafe extern "C" fn rename(o: *const c_char, n: *const c_char) -> i32 { if !live() { return pass!(SYS_rename, o, n); } ret!(do_rename(AT_FDCWD, cstr(o), AT_FDCWD, cstr(n), 0)) }
#[no_mangle] pub unsafe extern "C" fn renameat(od: i32, o: *const c_char, nd: i32, n: *const c_char) -> i32 { if !live() { return pass!(SYS_renameat, od, o, nd, n); } ret!(do_rename(od, cstr(o), nd, cstr(n), 0)) }
#[no_mangle] pub unsafe extern "C" fn renameat2(od: i32, o: *const c_char, nd: i32, n: *const c_char, f: u32) -> i32 { if !live() { return pass!(SYS_renameat2, od, o, nd, n, f); } ret!(do_rename(od, cstr(o), nd, cstr(n), f)) }
unsafe fn do_link(od: i32, o: &[u8], nd: i32, n: &[u8], flags: i32) -> Result<i32, i32> {
    let c = begin(op::LINK, 0, 0, 0, n);
    check!(c);
    c.end((|| {
        let a = at_base(od, o)?; let b = at_base(nd, n)?;
        let i = k().fs.get(a, o, flags & AT_SYMLINK_FOLLOW != 0)?;
        if k().fs.nodes[i].kind == Kind::Dir { return Err(EPERM); }
        let l = k().fs.lookup(b, n, false)?;
        if l.ino.is_some() { return Err(EEXIST); }
        k().fs.link(i, l.dir, &l.name)?;
        Ok(0)
    })())
}
#[no_mangle] pub unsafe extern "C" fn link(o: *const c_char, n: *const c_char) -> i32 { if !live() { return pass!(SYS_link, o, n); } ret!(do_link(AT_FDCWD, cstr(o), AT_FDCWD, cstr(n), 0)) }
#[no_mangle] pub unsafe extern "C" fn linkat(od: i32, o: *const c_char, nd: i32, n: *const c_char, f: i32) -> i32 { if !live() { return pass!(SYS_linkat, od, o, nd, n, f); } ret!(do_link(od, cstr(o), nd, cstr(n), f)) }
unsafe fn do_symlink(t: &[u8], d: i32, p: &[u8]) -> Result<i32, i32> {
    let c = begin(op::LINK, 0, 0, 0, p);
    check!(c);
    c.end((|| {
        let at = at_base(d, p)?;
        let l = k().fs.lookup(at, p, false)?;
        if l.ino.is_some() { return Err(EEXIST); }
        let n = k().fs.create(l.dir, &l.name, Kind::Link, 0o777)?;
        k().fs.nodes[n].target = t.to_vec();
        Ok(0)
    })())
}
#[no_mangle] pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> i32 { if !live() { return pass!(SYS_symlink, t, p); } ret!(do_symlink(cstr(t), AT_FDCWD, cstr(p))) }
#[no_mangle] pub unsafe extern "C" fn symlinkat(t: *const c_char, d: i32, p: *const c_char) -> i32 { if !live() { return pass!(SYS_symlinkat, t, d, p); } ret!(do_symlink(cstr(t), d, cstr(p))) }
unsafe fn do_readlink(d: i32, p: &[u8], b: *mut c_char, n: usize) -> Result<i64, i32> {
    let c = begin(op::READLINK, 0, 0, 0, p);
    check!(c);
    c.end((|| {
        let at = at_base(d, p)?;
        let i = k().fs.get(at, p, false)?;
        let nd = &k().fs.nodes[i];
        if nd.kind != Kind::Link { return Err(EINVAL); }
        let m = nd.target.len().min(n);
        std::ptr::copy_nonoverlapping(nd.target.as_ptr(), b as *mut u8, m);
        Ok(m as i64)
    })())
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize { if !live() { return pass!(SYS_readlink, p, b, n); } ret!(do_readlink(AT_FDCWD, cstr(p), b, n)) }
#[no_mangle] pub unsafe extern "C" fn readlinkat(d: i32, p: *const c_char, b: *mut c_char, n: usize) -> isize { if !live() { return pass!(SYS_readlinkat, d, p, b, n); } ret!(do_readlink(d, cstr(p), b, n)) }
unsafe fn do_realpath(p: &[u8]) -> Result<Vec<u8>, i32> {
    let c = begin(op::REALPATH, 0, 0, 0, p);
    if let Some(e) = c.err() { let _ = c.end::<i32>(Err(e)); return Err(e); }
    let r = k().fs.get(k().fs.cwd, p, true);
    let _ = c.end(r);
    Ok(k().fs.abspath(r?))
}
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !live() { return std::ptr::null_mut(); }
    match do_realpath(cstr(p)) {
        Ok(v) => {
            let o = if out.is_null() { malloc(v.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(v.as_ptr(), o as *mut u8, v.len());
            *o.add(v.len()) = 0;
            o
        }
        Err(e) => { set_errno(e); std::ptr::null_mut() }
    }
}
#[no_mangle] pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    if !live() { let r = raw3(SYS_getcwd, b as usize, n, 0); return if r < 0 { set_errno(-r as i32); std::ptr::null_mut() } else { b }; }
    let v = k().fs.abspath(k().fs.cwd);
    if v.len() + 1 > n { set_errno(ERANGE); return std::ptr::null_mut(); }
    std::ptr::copy_nonoverlapping(v.as_ptr(), b as *mut u8, v.len());
    *b.add(v.len()) = 0;
    b
}
#[no_mangle] pub unsafe extern "C" fn chdir(p: *const c_char) -> i32 {
    if !live() { return pass!(SYS_chdir, p); }
    ret!(k().fs.get(k().fs.cwd, cstr(p), true).and_then(|i| if k().fs.nodes[i].kind == Kind::Dir { k().fs.cwd = i; Ok(0) } else { Err(ENOTDIR) }))
}
unsafe fn do_chmod(i: Result<Ino, i32>, m: u32) -> Result<i32, i32> {
    let i = i?;
    let c = begin(op::CHMOD, i, m as u64, 0, b"");
    check!(c);
    k().fs.nodes[i].mode = m & 0o7777;
    c.end(Ok(0))
}
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> i32 { if !live() { return pass!(SYS_chmod, p, m); } ret!(do_chmod(k().fs.get(k().fs.cwd, cstr(p), true), m)) }
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: i32, m: u32) -> i32 { if !live() { return pass!(SYS_fchmod, fd, m); } ret!(do_chmod(desc(fd).map(|d| fdref(d).ino), m)) }
#[no_mangle] pub unsafe extern "C" fn fchmodat(d: i32, p: *const c_char, m: u32, _f: i32) -> i32 { if !live() { return pass!(SYS_fchmodat, d, p, m); } ret!(do_chmod(at_base(d, cstr(p)).and_then(|a| k().fs.get(a, cstr(p), true)), m)) }
#[no_mangle] pub unsafe extern "C" fn umask(m: u32) -> u32 { if !live() { return pass!(SYS_umask, m); } std::mem::replace(&mut k().tmask, m) }
#[no_mangle] pub unsafe extern "C" fn chown(_p: *const c_char, _u: u32, _g: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn fchown(_f: i32, _u: u32, _g: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn lchown(_p: *const c_char, _u: u32, _g: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn utimensat(_d: i32, _p: *const c_char, _t: *const c_void, _f: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn futimens(_d: i32, _t: *const c_void) -> i32 { 0 }

// ------------------------------------------------------------------ directories
unsafe fn open_stream(fd: i32) -> *mut DIR {
    let kk = k();
    let ino = fdref(desc(fd).unwrap()).ino;
    let mut items: Vec<(Vec<u8>, Ino)> = kk.fs.nodes[ino].dents.iter().map(|(n, &i)| (n.clone(), i)).collect();
    // the order of a directory is not specified: permute it (fixed per directory content and seed)
    let mut r = Rng::new(proto::mix(kk.plan.seed, 0xD1 + ino as u64));
    for i in (1..items.len()).rev() { let j = r.below(i as u64 + 1) as usize; items.swap(i, j); }
    items.insert(0, (b".".to_vec(), ino));
    items.insert(1, (b"..".to_vec(), kk.fs.nodes[ino].parent));
    let s = DirStream { fd, items, pos: 0, ent: Box::new(std::mem::zeroed()) };
    let handle = malloc(16) as usize;
    kk.dirs.insert(handle, s);
    handle as *mut DIR
}
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if !live() { set_errno(ENOSYS); return std::ptr::null_mut(); }
    match do_open(AT_FDCWD, cstr(p), O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0) { Ok(fd) => open_stream(fd), Err(e) => { set_errno(e); std::ptr::null_mut() } }
}
#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: i32) -> *mut DIR {
    if !live() { set_errno(ENOSYS); return std::ptr::null_mut(); }
    match desc(fd) { Ok(d) if matches!(fdref(d).kind, FdKind::Dir) => open_stream(fd), Ok(_) => { set_errno(ENOTDIR); std::ptr::null_mut() } Err(e) => { set_errno(e); std::ptr::null_mut() } }
}
unsafe fn do_readdir(h: usize) -> Result<*mut dirent64, i32> {
    let fd = k().dirs.get(&h).ok_or(EBADF)?.fd;
    let ino = fdref(desc(fd)?).ino;
    let c = begin(op::READDIR, ino, 0, 0, b"");
    if let Some(e) = c.err() { let _ = c.end::<i32>(Err(e)); return Err(e); }
    let kk = k();
    let s = kk.dirs.get_mut(&h).unwrap();
    loop {
        if s.pos >= s.items.len() { let _ = c.end(Ok(0)); return Ok(std::ptr::null_mut()); }
        let (name, i) = s.items[s.pos].clone();
        s.pos += 1;
        // removed meanwhile
        if s.pos > 2 && kk.fs.nodes[ino].dents.get(&name) != Some(&i) { continue; }
        let e = &mut *s.ent;
        e.d_ino = i as u64;
        e.d_off = s.pos as i64;
        e.d_reclen = 280;
        e.d_type = match kk.fs.nodes[i].kind { Kind::File => DT_REG, Kind::Dir => DT_DIR, Kind::Link => DT_LNK, Kind::Pipe => DT_FIFO, Kind::Sock => DT_SOCK };
        std::ptr::write_bytes(e.d_name.as_mut_ptr(), 0, e.d_name.len());
        std::ptr::copy_nonoverlapping(name.as_ptr(), e.d_name.as_mut_ptr() as *mut u8, name.len().min(255));
        let _ = c.end(Ok(1));
        return Ok(e);
    }
}
#[no_mangle] pub unsafe extern "C" fn readdir64(h: *mut DIR) -> *mut dirent64 { if !live() { return std::ptr::null_mut(); } match do_readdir(h as usize) { Ok(p) => p, Err(e) => { set_errno(e); std::ptr::null_mut() } } }
#[no_mangle] pub unsafe extern "C" fn readdir(h: *mut DIR) -> *mut dirent64 { readdir64(h) }
#[no_mangle] pub unsafe extern "C" fn rewinddir(h: *mut DIR) { if live() { if let Some(s) = k().dirs.get_mut(&(h as usize)) { s.pos = 0 } } }
#[no_mangle] pub unsafe extern "C" fn dirfd(h: *mut DIR) -> i32 { if !live() { return -1; } match k().dirs.get(&(h as usize)) { Some(s) => s.fd, None => { set_errno(EINVAL); -1 } } }
#[no_mangle] pub unsafe extern "C" fn closedir(h: *mut DIR) -> i32 { if !live() { return 0; } match k().dirs.remove(&(h as usize)) { Some(s) => { free(h as *mut c_void); ret!(do_close(s.fd)) } None => { set_errno(EBADF); -1 } } }

// ------------------------------------------------------------------ processes: none
#[no_mangle] pub unsafe extern "C" fn fork() -> i32 { if live() { note("fork refused".into()); } set_errno(EPERM); -1 }
#[no_mangle] pub unsafe extern "C" fn vfork() -> i32 { fork() }
#[no_mangle] pub unsafe extern "C" fn execve(_p: *const c_char, _a: *const c_void, _e: *const c_void) -> i32 { if live() { note("exec refused".into()); } set_errno(EPERM); -1 }
#[no_mangle] pub unsafe extern "C" fn execvp(_p: *const c_char, _a: *const c_void) -> i32 { set_errno(EPERM); -1 }
#[no_mangle] pub unsafe extern "C" fn posix_spawn(_a: *mut i32, _p: *const c_char, _b: *const c_void, _c: *const c_void, _d: *const c_void, _e: *const c_void) -> i32 { EPERM }
#[no_mangle] pub unsafe extern "C" fn posix_spawnp(_a: *mut i32, _p: *const c_char, _b: *const c_void, _c: *const c_void, _d: *const c_void, _e: *const c_void) -> i32 { EPERM }
#[no_mangle] pub unsafe extern "C" fn kill(_p: i32, _s: i32) -> i32 { if live() { note("kill refused".into()); } set_errno(EPERM); -1 }
#[no_mangle] pub unsafe extern "C" fn socket(_a: i32, _b: i32, _c: i32) -> i32 { if live() { note("socket refused".into()); } set_errno(EACCES); -1 }
#[no_mangle] pub unsafe extern "C" fn mount(_a: *const c_char, _b: *const c_char, _c: *const c_char, _d: u64, _e: *const c_void) -> i32 { set_errno(EPERM); -1 }
#[no_mangle] pub unsafe extern "C" fn chroot(_a: *const c_char) -> i32 { set_errno(EPERM); -1 }
#[no_mangle] pub unsafe extern "C" fn abort() -> ! { if live() { finish(End::Abort, None) } raw_exit(134) }

// ------------------------------------------------------------------ time
#[no_mangle] pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut timespec) -> i32 {
    if !live() { return pass!(SYS_clock_gettime, c, t); }
    let kk = k();
    kk.ns += 1000;
    let n = if c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE { kk.ns } else { kk.ns - 1_600_000_000_000_000_000 };
    (*t).tv_sec = (n / 1_000_000_000) as i64;
    (*t).tv_nsec = (n % 1_000_000_000) as i64;
    0
}
#[no_mangle] pub unsafe extern "C" fn time(p: *mut i64) -> i64 { let mut t: timespec = std::mem::zeroed(); clock_gettime(CLOCK_REALTIME, &mut t); if !p.is_null() { *p = t.tv_sec } t.tv_sec }
#[no_mangle] pub unsafe extern "C" fn gettimeofday(p: *mut timeval, _z: *mut c_void) -> i32 { let mut t: timespec = std::mem::zeroed(); clock_gettime(CLOCK_REALTIME, &mut t); (*p).tv_sec = t.tv_sec; (*p).tv_usec = t.tv_nsec / 1000; 0 }
unsafe fn sleep_ns(n: u64) { let c = begin(op::SCHED, 0, n, 0, b"sleep"); let _ = c.end(Ok(0)); let dl = k().ns + n; block(St::Sleep, Some(dl)); }
#[no_mangle] pub unsafe extern "C" fn nanosleep(t: *const timespec, _r: *mut timespec) -> i32 { if !live() { return pass!(SYS_nanosleep, t, _r); } sleep_ns((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64); 0 }
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, t: *const timespec, _r: *mut timespec) -> i32 {
    if !live() { return 0; }
    let n = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
    let now = if c == CLOCK_REALTIME { k().ns } else { k().ns - 1_600_000_000_000_000_000 };
    sleep_ns(if f & TIMER_ABSTIME != 0 { n.saturating_sub(now) } else { n });
    0
}
#[no_mangle] pub unsafe extern "C" fn usleep(n: u32) -> i32 { if live() { sleep_ns(n as u64 * 1000) } 0 }
#[no_mangle] pub unsafe extern "C" fn sleep(n: u32) -> u32 { if live() { sleep_ns(n as u64 * 1_000_000_000) } 0 }
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> i32 {
    if !live() { return pass!(SYS_sched_yield); }
    let c = begin(op::SCHED, 0, 0, 0, b"yield");
    let _ = c.end(Ok(0));
    // a yield lets somebody else run if anybody can
    let kk = k();
    let others: Vec<usize> = (0..kk.thr.len()).filter(|&i| i != kk.cur && kk.thr[i].st == St::Run).collect();
    if !others.is_empty() {
        let me = TID.with(|t| t.get());
        let o = pick_one(&others);
        kk.o.switches += 1;
        kk.o.sched_hash = proto::mix(kk.o.sched_hash, proto::mix(o as u64, kk.op));
        give_turn(o);
        wait_turn(me);
    }
    0
}
/// a recorded choice of one thread among several
unsafe fn pick_one(v: &[usize]) -> usize {
    if v.len() == 1 { return v[0]; }
    let kk = k();
    kk.point += 1;
    let p = kk.point;
    let mut c = v[0];
    if let Some(&t) = kk.explicit_sched.get(&p) { if v.contains(&(t as usize)) { c = t as usize } }
    else if kk.plan.auto.preempt > 0 || kk.plan.auto.pct > 0 { c = *kk.rng_sched.pick(v) }
    if c != v[0] { kk.o.sched.push((p, c as u64)); }
    c
}
#[no_mangle] pub unsafe extern "C" fn pause() -> i32 { if live() { block(St::Sleep, None); } -1 }

// ------------------------------------------------------------------ threads
struct Start { f: extern "C" fn(*mut c_void) -> *mut c_void, a: *mut c_void, t: usize }
unsafe fn next_fn<T: Copy>(name: &std::ffi::CStr) -> T { let p = dlsym(RTLD_NEXT, name.as_ptr()); std::mem::transmute_copy(&p) }
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        TID.with(|t| t.set(s.t));
        wait_turn(s.t);
        let r = (s.f)(s.a);
        if live() {
            let c = begin(op::SCHED, 0, 0, 0, b"thread end");
            let _ = c.end(Ok(0));
            let kk = k();
            kk.thr[s.t].st = St::Done;
            for i in 0..kk.thr.len() { if kk.thr[i].st == St::Join(s.t) { kk.thr[i].st = St::Run } }
            GONE.with(|g| g.set(true));
            let c = choose();
            kk.o.switches += 1;
            kk.o.sched_hash = proto::mix(kk.o.sched_hash, proto::mix(c as u64, kk.op));
            give_turn(c);
        }
        r
    }
}
#[no_mangle] pub unsafe extern "C" fn pthread_create(out: *mut pthread_t, attr: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, a: *mut c_void) -> i32 {
    type F = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> i32;
    let real: F = next_fn(c"pthread_create");
    if !live() { return real(out, attr, f, a); }
    let c = begin(op::SPAWN, 0, 0, 0, b"");
    if let Some(e) = c.err() { let _ = c.end::<i32>(Err(e)); return e; }
    let kk = k();
    let t = kk.thr.len();
    let prio = kk.rng_sched.next() >> 1;
    kk.thr.push(Thr { st: St::Run, deadline: None, timed_out: false, go: Box::leak(Box::new(AtomicU32::new(0))), pth: 0, prio, detached: false });
    let r = real(out, attr, trampoline, Box::into_raw(Box::new(Start { f, a, t })) as *mut c_void);
    if r != 0 { kk.thr[t].st = St::Done; note("real thread creation failed".into()); let _ = c.end::<i32>(Err(r)); return r; }
    kk.thr[t].pth = *out;
    kk.o.threads += 1;
    let _ = c.end(Ok(t as i32));
    point();
    0
}
#[no_mangle] pub unsafe extern "C" fn pthread_join(p: pthread_t, r: *mut *mut c_void) -> i32 {
    type F = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> i32;
    let real: F = next_fn(c"pthread_join");
    if !live() { return real(p, r); }
    let c = begin(op::SCHED, 0, 0, 0, b"join");
    let _ = c.end(Ok(0));
    let kk = k();
    if let Some(t) = (0..kk.thr.len()).rev().find(|&i| kk.thr[i].pth == p && i != 0 && !kk.thr[i].detached) {
        if kk.thr[t].st != St::Done { block(St::Join(t), None); }
        k().thr[t].detached = true;
    }
    real(p, r)
}
unsafe fn do_futex(addr: usize, opc: i32, val: u32, ts: *const timespec, addr2: usize, val3: u32) -> Result<i64, i32> {
    let cmd = opc & 0x7f & !FUTEX_CLOCK_REALTIME;
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            let c = begin(op::SCHED, 0, 0, 0, b"wait");
            let _ = c.end(Ok(0));
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val { return Err(EAGAIN); }
            let dl = if ts.is_null() { None } else {
                let n = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                Some(if cmd == FUTEX_WAIT { k().ns + n } else if opc & FUTEX_CLOCK_REALTIME != 0 { n } else { n + 1_600_000_000_000_000_000 })
            };
            let bits = if cmd == FUTEX_WAIT { u32::MAX } else { val3 };
            if block(St::Futex(addr, bits), dl) { Err(ETIMEDOUT) } else { Ok(0) }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let bits = if cmd == FUTEX_WAKE { u32::MAX } else { val3 };
            let kk = k();
            let mut n = 0;
            let mut w: Vec<usize> = (0..kk.thr.len()).filter(|&i| matches!(kk.thr[i].st, St::Futex(a, b) if a == addr && b & bits != 0)).collect();
            while n < val as i64 && !w.is_empty() {
                let t = pick_one(&w);
                w.retain(|&x| x != t);
                kk.thr[t].st = St::Run;
                n += 1;
            }
            if n > 0 { let c = begin(op::SCHED, 0, n as u64, 0, b"wake"); let _ = c.end(Ok(n)); }
            Ok(n)
        }
        FUTEX_REQUEUE | FUTEX_CMP_REQUEUE => {
            let kk = k();
            let mut n = 0;
            for i in 0..kk.thr.len() { if let St::Futex(a, b) = kk.thr[i].st { if a == addr { if n < val as i64 { kk.thr[i].st = St::Run } else { kk.thr[i].st = St::Futex(addr2, b) } n += 1; } } }
            Ok(n)
        }
        _ => { note(format!("futex operation {cmd}")); Err(ENOSYS) }
    }
}
#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !live() { return pass!(n, a, b, c, d, e, f); }
    match n {
        SYS_futex => ret!(do_futex(a, b as i32, c as u32, d as *const timespec, e, f as u32)),
        SYS_getrandom => ret!(do_getrandom(a as *mut u8, b, c as u32)),
        SYS_statx => statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut libc::statx) as c_long,
        SYS_gettid | SYS_getpid | SYS_membarrier | SYS_sched_getaffinity => pass!(n, a, b, c, d, e, f),
        SYS_renameat2 => renameat2(a as i32, b as *const c_char, c as i32, d as *const c_char, e as u32) as c_long,
        _ => { note(format!("system call {n} refused")); set_errno(ENOSYS); -1 }
    }
}
