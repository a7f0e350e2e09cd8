//! volsim: seeded simulation of volaris.
//!   volsim check Cxx [--tier quick|thorough] [--seed N] [--cases N] [--secs S] [--evidence FILE] [--replays DIR]
//!   volsim replay FILE
//!   volsim determinism [N]
mod dict;
mod model;
mod props;
mod sim;
mod util;
use proto::*;
use sim::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn opt(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { eprintln!("volsim: {i}"); }));
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("replay") => replay(&args[2]),
        Some("literals") => { print!("{}", dict::listing()); 0 }
        Some("novel") => { print!("{}", dict::novel().text()); 0 }
        _ => { eprintln!("usage: volsim check Cxx | replay FILE"); 2 }
    };
    cleanup();
    std::process::exit(rc);
}

fn run_case(p: &props::Prop, seed: u64, deep: bool, st: &Stats, rep: Option<&Replay>) -> (R, String, Option<(u64, u64)>) {
    let mut c = Case::new(p.id, seed, deep, st, rep);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(&mut c)));
    let r = match r { Ok(r) => r, Err(_) => Err(Stop::Incon("the checking code panicked".into())) };
    (r, c.desc.clone(), c.rep_out)
}

fn check(args: &[String]) -> i32 {
    let id = &args[2];
    let Some(p) = props::PROPS.iter().find(|p| p.id == id) else { eprintln!("no such property {id}"); return 2 };
    let tier = opt(args, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let deep = tier == "thorough";
    let seed: u64 = opt(args, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = opt(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(if deep { p.quick * 40 } else { p.quick });
    let secs: u64 = opt(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if deep { 3000 } else { 240 });
    let threads = opt(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(std::thread::available_parallelism().map_or(4, |n| n.get()));
    dict::set(match opt(args, "--words") {
        Some(f) => { let mut d = dict::Dict::default(); for l in std::fs::read_to_string(f).expect("words").lines() { if let Some((k, v)) = l.split_once(' ') { d.line(k, v) } } d }
        None => dict::novel(),
    });
    let st = Stats::default();
    let next = AtomicU64::new(0);
    let viols: Mutex<Vec<Viol>> = Mutex::new(vec![]);
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs(secs);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cases || Instant::now() > end || st.stop.load(Ordering::SeqCst) { break; }
                let cs = mix(seed, i);
                let (r, desc, _) = run_case(p, cs, deep, &st, None);
                let mut inn = st.i.lock().unwrap();
                inn.cases += 1;
                if inn.samples.len() < 12 && !desc.is_empty() { inn.samples.push(format!("case seed {cs}: {desc}")); }
                match r {
                    Ok(()) => {}
                    Err(Stop::Skip) => inn.skipped += 1,
                    Err(Stop::Incon(w)) => { if std::env::var("VOLSIM_DEBUG").is_ok() { eprintln!("inconclusive: {} seed {cs}: {w} | {desc}", p.id); } *inn.incon.entry(w.chars().take(160).collect()).or_insert(0) += 1 }
                    Err(Stop::Viol(v)) => viols.lock().unwrap().push(*v),
                }
            });
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let viols = viols.into_inner().unwrap();
    let known = known_findings(p.id);
    let mut rc = 0;
    let dir = opt(args, "--replays").unwrap_or("replays".into());
    let mut reported = vec![];
    for v in &viols {
        if let Some(k) = known.iter().find(|k| v.msg.contains(k.as_str())) { println!("KNOWN-FINDING: property={} {}", v.prop, k); continue; }
        rc = 1;
        let _ = std::fs::create_dir_all(&dir);
        let f = format!("{dir}/{}-{}.replay", v.prop, v.case_seed);
        std::fs::write(&f, replay_text(v, &tier)).expect("write replay");
        println!("{}: {}\n  case: {}\n  faults: [{}]  schedule: {:?}", v.prop, v.msg, v.desc, v.over.faults.iter().map(fault_text).collect::<Vec<_>>().join(", "), v.over.sched);
        println!("VIOLATION property={} replay={}", v.prop, f);
        reported.push((v.clone(), f));
    }
    for k in &known { println!("KNOWN-FINDING: property={} {}", p.id, k); }
    if let Some(f) = opt(args, "--evidence") { evidence(&f, p, &tier, seed, &st, wall, &reported, &known); }
    let i = st.i.lock().unwrap();
    println!("{}: {} cases, {} simulated runs in {:.1} s, {} faults, {} distinct non-trivial runs, {} inconclusive, {} nondeterministic of {} re-run", p.id, i.cases, i.runs, wall,
        i.faults.values().sum::<u64>(), i.nontrivial.len(), i.incon.values().sum::<u64>(), i.nondet, i.rechecked);
    if rc == 0 && i.cases > 0 && i.incon.values().sum::<u64>() * 2 > i.cases { eprintln!("{}: more than half of the cases gave no answer: {:?}", p.id, i.incon); return 2; }
    rc
}

/// lines "known: property=<id> <text that identifies the failure>"
fn known_findings(id: &str) -> Vec<String> {
    let f = std::env::var("VOLSIM_KNOWN").unwrap_or("known_findings.txt".into());
    std::fs::read_to_string(f).unwrap_or_default().lines().filter_map(|l| l.strip_prefix(&format!("known: property={id} ")).map(String::from)).collect()
}

fn replay_text(v: &Viol, tier: &str) -> String {
    let a = &v.over.auto;
    let mut s = format!("volsim replay 1\nproperty {}\ntier {tier}\ncase {}\nexperiment {}\n", v.prop, v.case_seed, v.exp);
    s.push_str(&format!("auto {} {} {} {} {} {} {} {} {} {}\n", a.short_read, a.short_write, a.eintr, a.budget, a.preempt, a.pct, a.writeback, a.err, a.err_budget, a.tiny as u64));
    s.push_str(&format!("capacity {}\n", v.over.capacity));
    s.push_str(&dict::get().text());
    for f in &v.over.faults { s.push_str(&format!("fault {}\n", fault_text(f))) }
    for (p, t) in &v.over.sched { s.push_str(&format!("sched {p} {t}\n")) }
    s.push_str(&format!("expect {} {}\nminimised {}\n", v.trace_hash, v.sched_hash, v.minimised));
    s.push_str(&format!("message {}\ndescription {}\n--- trace\n{}", v.msg.replace('\n', " "), v.desc.replace('\n', " "), v.trace));
    s
}
fn replay(f: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(f) else { eprintln!("cannot read {f}"); return 2 };
    let (mut id, mut seed, mut exp, mut over, mut expect, mut deep) = (String::new(), 0u64, 0usize, Over::default(), (0u64, 0u64), false);
    let mut words = dict::Dict::default();
    for l in t.lines() {
        if l == "--- trace" { break; }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let n: Vec<u64> = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        match k {
            "property" => id = v.into(), "case" => seed = n[0], "experiment" => exp = n[0] as usize, "tier" => deep = v == "thorough",
            "auto" => over.auto = Auto { short_read: n[0], short_write: n[1], eintr: n[2], budget: n[3], preempt: n[4], pct: n[5], writeback: n[6], err: n[7], err_budget: n[8], tiny: n[9] != 0 },
            "capacity" => over.capacity = n[0],
            "fault" => over.faults.extend(fault_parse(v)),
            "sched" => over.sched.push((n[0], n[1])),
            "expect" => expect = (n[0], n[1]),
            "number" | "string" => words.line(k, v),
            _ => {}
        }
    }
    dict::set(words);
    let Some(p) = props::PROPS.iter().find(|p| p.id == id) else { eprintln!("no such property {id}"); return 2 };
    let st = Stats::default();
    let rep = Replay { exp, over };
    let (r, desc, got) = run_case(p, seed, deep, &st, Some(&rep));
    match r {
        Err(Stop::Viol(v)) => {
            println!("{}: {}\n  case: {}", v.prop, v.msg, desc);
            println!("{}", v.trace);
            println!("execution {} the recorded one (trace {:016x}, schedule {:016x})", if got == Some(expect) { "is identical to" } else { "differs from" }, v.trace_hash, v.sched_hash);
            println!("VIOLATION property={} replay={f}", v.prop);
            1
        }
        Err(Stop::Incon(w)) => { println!("inconclusive: {w}"); 2 }
        _ => { println!("not reproduced: the property holds on this execution"); 0 }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jmap(m: &std::collections::BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")) }
#[allow(clippy::too_many_arguments)]
fn evidence(f: &str, p: &props::Prop, tier: &str, seed: u64, st: &Stats, wall: f64, viols: &[(Viol, String)], known: &[String]) {
    let i = st.i.lock().unwrap();
    let per_h = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"wall_s\": {:.2},\n", js(p.id), js(tier), seed, js(p.level), wall));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", i.runs, i.nontrivial.len(),
        js(&format!("One evaluation is one simulated execution of the real program; cases are derived from VERIF_SEED by a seeded generator ({}). Non-trivial: at least one injected fault fired, a thread switch happened, or space was limited; distinct: by hash of the whole storage-call trace, the schedule and the faults.", p.what))));
    s.push_str(&format!("  \"samples\": [{}],\n", i.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n    ")));
    s.push_str(&format!("  \"cases\": {}, \"cases_skipped\": {}, \"runs_per_hour\": {}, \"seeds_per_hour\": {},\n", i.cases, i.skipped, per_h(i.runs), per_h(i.cases)));
    s.push_str(&format!("  \"simulated_seconds\": {:.3}, \"storage_and_system_calls\": {}, \"thread_switches\": {}, \"multi_threaded_runs\": {},\n", i.sim_ns as f64 / 1e9, i.ops, i.switches, i.threaded));
    s.push_str(&format!("  \"distinct_call_traces\": {}, \"distinct_interleavings\": {},\n", i.traces.len(), i.scheds.len()));
    s.push_str(&format!("  \"faults_injected\": {},\n  \"faults_by_call\": {},\n  \"run_endings\": {},\n", jmap(&i.faults), jmap(&i.fault_at), jmap(&i.ends)));
    s.push_str(&format!("  \"runs_reporting_success\": {}, \"runs_reporting_failure_or_crashed\": {},\n", i.ok, i.failed));
    s.push_str(&format!("  \"counters\": {},\n  \"inconclusive\": {},\n", jmap(&i.counters), jmap(&i.incon)));
    s.push_str(&format!("  \"runs_repeated_for_determinism\": {}, \"repeats_that_differed\": {}, \"minimisation_runs\": {},\n", i.rechecked, i.nondet, i.minimise_runs));
    s.push_str(&format!("  \"literals_new_in_the_code\": {},\n", dict::get().ints.len() + dict::get().strs.len()));
    s.push_str("  \"real_code\": \"volaris-crypto, volaris-tools, volaris-cli (all of /repo/crates), zip, walkdir, tempfile-free std, AEADs, BLAKE3, std threads and locks\",\n");
    s.push_str("  \"stubbed\": \"operating system (file system, clock, random source, thread scheduler, futex) replaced by the simulator kernel; argon2 and balloon-hash run with 1/4096 of their memory (all parameters still enter the hash)\"\n },\n");
    s.push_str(&format!(" \"known_findings\": [{}],\n", known.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!(" \"violations\": {},\n \"violation_list\": [{}]\n}}\n", viols.len(), viols.iter().map(|(v, f)| format!("{{\"message\": {}, \"case_seed\": {}, \"replay\": {}}}", js(&v.msg), v.case_seed, js(f))).collect::<Vec<_>>().join(", ")));
    if let Some(d) = std::path::Path::new(f).parent() { let _ = std::fs::create_dir_all(d); }
    std::fs::write(f, s).expect("write evidence");
}
