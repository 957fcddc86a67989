#[cfg(feature = "db")]
mod conc;
#[cfg(feature = "db")]
mod dbsim;
#[cfg(feature = "db")]
mod defs;
mod driver;
#[cfg(feature = "db")]
mod disk;
#[cfg(feature = "db")]
mod hist;
#[cfg(feature = "db")]
mod faults;
#[cfg(feature = "db")]
mod model;
#[cfg(feature = "db")]
mod probes;
#[cfg(feature = "db")]
mod reject;
mod props;
#[cfg(feature = "db")]
mod snap;

use std::collections::BTreeMap;

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    #[cfg(not(miri))]
    // Keep freed pages: many short cases allocate the same large parquet buffers.
    unsafe {
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TOP_PAD, 64 << 20);
    }
    driver::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let registry: BTreeMap<&'static str, driver::CaseFn> = props::registry();
    let probes = props::probes();
    let code = match a.get(1).map(String::as_str) {
        // check --prop P01 --tier quick --seed 1 --root /verif
        Some("check") => {
            let id = opt(&a, "--prop").expect("--prop");
            let root = opt(&a, "--root").unwrap_or_else(|| "/verif".into());
            let args = driver::Args {
                tier: opt(&a, "--tier").unwrap_or_else(|| "quick".into()),
                seed: opt(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                evidence: format!("{root}/evidence/{id}.json"),
                replay_dir: format!("{root}/evidence/replay"),
                findings: format!("{root}/known_findings.txt"),
                threads: opt(&a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                cap_s: opt(&a, "--cap").and_then(|s| s.parse().ok()),
                parts: a.iter().position(|x| x == "--parts").map(|i| a[i + 1..].to_vec()).unwrap_or_default(),
            };
            let mut props = props::props();
            let prop = props.iter_mut().find(|p| p.id == id).expect("unknown property");
            let mut probes = probes;
            if let Some(kind) = opt(&a, "--sanitizer") {
                prop.plan = props::sanitizer_plan(&kind);
                probes.clear();
            }
            driver::run(prop, &registry, &probes, &args)
        }
        // replay FILE
        Some("replay") => {
            let body: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("read replay")).expect("parse replay");
            let w = body["workload"].as_str().unwrap();
            let seed = body["seed"].as_u64().unwrap();
            run_one(&registry, w, seed, true, body["tier"] == "thorough")
        }
        // case WORKLOAD FROM N [v]
        Some("case") => {
            let from: u64 = a[3].parse().unwrap();
            let n: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let t = std::time::Instant::now();
            let mut bad = 0;
            let mut total = tonbo::verif::report::Report::new();
            for s in from..from + n {
                let f = registry.get(a[2].as_str()).expect("unknown workload");
                let rep = driver::run_case(registry.get_key_value(a[2].as_str()).unwrap().0, *f, s, opt(&a, "--thorough").is_some());
                for v in &rep.violations {
                    bad += 1;
                    println!("seed {s}: {}", v.message.chars().take(1200).collect::<String>());
                    if a.iter().any(|x| x == "v") {
                        for l in &v.trace {
                            println!("   {}", l.chars().take(600).collect::<String>());
                        }
                    }
                }
                total.merge(rep);
            }
            println!("{n} cases, {bad} violations, {} evals, {} distinct, {:?}", total.evals, total.distinct.len(), t.elapsed());
            for (k, v) in &total.counters {
                println!("  {k} = {v}");
            }
            for s in total.samples.iter().take(3) {
                println!("  sample: {s}");
            }
            i32::from(bad > 0)
        }
        // sweep --props P01,P02 [--only prefix,prefix] [--scale PERCENT]: union of quick plans
        Some("sweep") => {
            let ids = opt(&a, "--props").expect("--props");
            let only = opt(&a, "--only").unwrap_or_default();
            let scale: u64 = opt(&a, "--scale").and_then(|s| s.parse().ok()).unwrap_or(100);
            let mut plan: BTreeMap<&'static str, u64> = BTreeMap::new();
            for p in props::props() {
                if ids.split(',').any(|i| i == p.id) {
                    for (w, n) in p.plan {
                        if only.is_empty() || only.split(',').any(|o| w.starts_with(o)) {
                            let e = plan.entry(w).or_default();
                            *e = (*e).max((n * scale / 100).max(1));
                        }
                    }
                }
            }
            let root = opt(&a, "--root").unwrap_or_else(|| "/tmp".into());
            let args = driver::Args {
                tier: "quick".into(),
                seed: opt(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                evidence: format!("{root}/sweep.json"),
                replay_dir: format!("{root}/replay"),
                findings: String::new(),
                threads: opt(&a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                cap_s: opt(&a, "--cap").and_then(|s| s.parse().ok()),
                parts: Vec::new(),
            };
            let prop = driver::Prop { id: "SWEEP", level: "exploration", rule: "", plan: plan.into_iter().collect(), assumptions: &[] };
            driver::run(&prop, &registry, &probes, &args)
        }
        // probe [NAME]: run the scripted histories of the recorded findings
        Some("probe") => {
            for (k, f) in &probes {
                if a.get(2).is_none_or(|n| n == k) {
                    println!("{k}: {:?}", f());
                }
            }
            0
        }
        Some("list") => {
            for k in registry.keys() {
                println!("{k}");
            }
            0
        }
        _ => {
            eprintln!("usage: tonbo-verif check|replay|case|list");
            2
        }
    };
    std::process::exit(code);
}

fn run_one(registry: &BTreeMap<&'static str, driver::CaseFn>, w: &str, seed: u64, trace: bool, thorough: bool) -> i32 {
    let (k, f) = registry.get_key_value(w).expect("unknown workload");
    let rep = driver::run_case(k, *f, seed, thorough);
    for v in &rep.violations {
        println!("{}", v.message);
        if trace {
            for l in &v.trace {
                println!("   {l}");
            }
        }
    }
    println!("{} violations, {} evaluations", rep.violations.len(), rep.evals);
    i32::from(!rep.violations.is_empty())
}
