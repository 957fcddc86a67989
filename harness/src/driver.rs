//! Runs the workloads of a property in parallel, collects what the monitors saw, and reports.
use std::{
    collections::{BTreeMap, VecDeque},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

use serde_json::json;
use tonbo::verif::report::{Report, Rng, fps};

pub type CaseFn = fn(u64, &mut Report);
/// A probe of a recorded finding: `Some(description)` while the finding still manifests.
pub type ProbeFn = fn() -> Option<String>;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// (workload, cases in the quick tier)
    pub plan: Vec<(&'static str, u64)>,
    pub assumptions: &'static [&'static str],
}

pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub evidence: String,
    pub replay_dir: String,
    pub findings: String,
    pub threads: usize,
    pub cap_s: Option<u64>,
    /// Evidence of earlier parts of the same check (sanitizer builds), as NAME=FILE or NAME=(reason).
    pub parts: Vec<String>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let frames: Vec<&str> = bt.lines().map(str::trim).filter(|l| l.contains("tonbo")).take(12).collect();
        let msg = format!("{info} | {}", frames.join(" < "));
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

pub fn run_case(name: &str, f: CaseFn, seed: u64, thorough: bool) -> Report {
    let mut rep = Report::new();
    rep.thorough = thorough;
    rep.start_case(name, seed);
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| f(seed, &mut rep)));
    if r.is_err() {
        let msg = LAST_PANIC.with(|p| p.borrow().clone());
        rep.violate(format!("panic during a valid workload: {msg}"));
    }
    rep
}

fn resident_gb() -> u64 {
    let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1)?.parse::<u64>().ok());
    pages.unwrap_or(0) * 4096 >> 30
}

pub fn case_seed(seed: u64, name: &str, i: u64) -> u64 {
    Rng::new(seed ^ fps(name).rotate_left(17) ^ i.wrapping_mul(0x9e37_79b9)).next() >> 1
}

struct Slot {
    name: &'static str,
    seed: u64,
    since: Instant,
}

pub fn run(prop: &Prop, registry: &BTreeMap<&'static str, CaseFn>, probes: &BTreeMap<&'static str, ProbeFn>, args: &Args) -> i32 {
    tonbo::verif::syncs::sweep_stale();
    let start = Instant::now();
    let thorough = args.tier == "thorough";
    let cap = Duration::from_secs(args.cap_s.unwrap_or(if thorough { 1500 } else { 50 }));
    let mut missing = Vec::new();
    let mut jobs: Vec<(f64, &'static str, CaseFn, u64)> = Vec::new();
    for (name, n) in &prop.plan {
        let Some(f) = registry.get(name) else {
            missing.push(*name);
            continue;
        };
        let n = if thorough { n * 40 } else { n * 5 / 2 };
        for i in 0..n {
            // Interleave workloads so that a time cap trims all of them evenly.
            jobs.push(((i as f64 + 0.5) / n as f64, name, *f, case_seed(args.seed, name, i)));
        }
    }
    jobs.sort_by(|a, b| a.0.total_cmp(&b.0));
    let planned = jobs.len();
    let queue: Arc<Mutex<VecDeque<_>>> = Arc::new(Mutex::new(jobs.into()));
    let total = Arc::new(Mutex::new(Report::new()));
    let ran: Arc<Mutex<BTreeMap<&'static str, u64>>> = Arc::default();
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicU64::new(0));
    let slots: Arc<Mutex<BTreeMap<usize, Slot>>> = Arc::default();
    let mut handles = Vec::new();
    let _ = std::fs::create_dir_all(&args.replay_dir);
    for t in 0..args.threads {
        let (queue, total, ran, stop, done, slots) = (queue.clone(), total.clone(), ran.clone(), stop.clone(), done.clone(), slots.clone());
        let running = format!("{}/{}.{t}.running", args.replay_dir, prop.id);
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    while !stop.load(Ordering::Relaxed) && start.elapsed() < cap {
                        let Some((_, name, f, seed)) = queue.lock().unwrap().pop_front() else { break };
                        slots.lock().unwrap().insert(t, Slot { name, seed, since: Instant::now() });
                        // What was running, should the process die.
                        let _ = std::fs::write(&running, format!("{name} {seed}\n"));
                        let rep = run_case(name, f, seed, thorough);
                        slots.lock().unwrap().remove(&t);
                        if !rep.violations.is_empty() {
                            stop.store(true, Ordering::Relaxed);
                        }
                        total.lock().unwrap().merge(rep);
                        *ran.lock().unwrap().entry(name).or_default() += 1;
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap(),
        );
    }
    // Watchdog: a single case normally takes well under a second.
    let limit = Duration::from_secs(if thorough { 600 } else { 240 });
    let mut hung: Option<(String, u64, String)> = None;
    while done.load(Ordering::SeqCst) < args.threads as u64 {
        std::thread::sleep(Duration::from_millis(30));
        if let Some(s) = slots.lock().unwrap().values().find(|s| s.since.elapsed() > limit) {
            hung = Some((s.name.to_string(), s.seed, format!("no progress: the case did not finish within {} s", limit.as_secs())));
            break;
        }
        if resident_gb() > 20 {
            // The longest-running case is the likely culprit.
            if let Some(s) = slots.lock().unwrap().values().max_by_key(|s| s.since.elapsed()) {
                hung = Some((s.name.to_string(), s.seed, "memory grew beyond 20 GB".to_string()));
            }
            break;
        }
    }
    if hung.is_none() {
        for h in handles {
            let _ = h.join();
        }
    }
    let mut rep = std::mem::take(&mut *total.lock().unwrap());
    for t in 0..args.threads {
        let _ = std::fs::remove_file(format!("{}/{}.{t}.running", args.replay_dir, prop.id));
    }
    if let Some((name, seed, what)) = hung {
        rep.start_case(&name, seed);
        rep.violate(what);
    }

    // Known findings: each listed one is re-observed on the real code.
    let listed: Vec<(String, String)> = std::fs::read_to_string(&args.findings)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let p = l.split_whitespace().find_map(|w| w.strip_prefix("property="))?;
            let id = l.split_whitespace().find_map(|w| w.strip_prefix("id="))?;
            (p == prop.id).then(|| (id.to_string(), l.split_once(" :: ").map_or(l, |x| x.1).to_string()))
        })
        .collect();
    let mut known = Vec::new();
    for (id, what) in &listed {
        if let Some(p) = probes.get(id.as_str()) {
            let r = catch_unwind(AssertUnwindSafe(p));
            if let Ok(Some(obs)) = r {
                println!("KNOWN-FINDING: property={} {id}: {what} [observed: {obs}]", prop.id);
                known.push(id.clone());
            }
        }
    }

    let _ = std::fs::create_dir_all(&args.replay_dir);
    let mut lines = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for (i, v) in rep.violations.iter().enumerate() {
        if !seen.insert((v.workload.clone(), v.case_seed)) || lines.len() >= 5 {
            continue;
        }
        let path = format!("{}/{}-{}-{}.json", args.replay_dir, prop.id, v.workload, v.case_seed);
        let body = json!({"property": prop.id, "workload": v.workload, "seed": v.case_seed, "tier": args.tier, "message": v.message, "trace": v.trace});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        lines.push((path, v.message.clone(), i));
    }
    let wall = start.elapsed().as_secs_f64();
    let ran = ran.lock().unwrap().clone();
    let cases: u64 = ran.values().sum();
    let mut notes: Vec<_> = rep.notes.iter().cloned().collect();
    notes.sort();
    let parts: serde_json::Map<String, serde_json::Value> = args
        .parts
        .iter()
        .filter_map(|p| p.split_once('='))
        .map(|(k, v)| {
            let body = std::fs::read_to_string(v).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok());
            (k.to_string(), body.map_or(json!(v), |b| if b["coverage"].is_object() { b["coverage"].clone() } else { b }))
        })
        .collect();
    let ev = json!({
        "property": prop.id,
        "tier": args.tier,
        "seed": args.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": rep.evals,
            "distinct_nontrivial": rep.distinct.len(),
            "rule": prop.rule,
            "samples": if rep.samples.is_empty() { vec!["(no sample)".to_string()] } else { rep.samples.clone() },
            "cases_run": cases,
            "cases_planned": planned,
            "cases_by_workload": ran,
            "observed": rep.counters,
            "workloads_unavailable": missing,
            "notes": notes,
            "sanitizer_runs": parts,
        },
        "wall_s": wall,
        "violations": lines.len(),
        "assumptions": prop.assumptions,
        "known_findings_observed": known,
    });
    if let Some(dir) = std::path::Path::new(&args.evidence).parent() {
        let _ = std::fs::create_dir_all(dir);
    }
    std::fs::write(&args.evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{}: {cases}/{planned} cases, {} monitor evaluations, {} distinct situations, {wall:.1} s{}",
        prop.id,
        rep.evals,
        rep.distinct.len(),
        if missing.is_empty() { String::new() } else { format!(", unavailable: {missing:?}") }
    );
    if !lines.is_empty() {
        for (path, msg, _) in &lines {
            println!("  {}", msg.chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={path}", prop.id);
        }
        return 1;
    }
    if rep.evals == 0 {
        println!("no monitor evaluation took place");
        return 2;
    }
    0
}
