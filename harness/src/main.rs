//! lfamon: runtime monitors for the lfa crate.
//!
//!   lfamon run --property C01 [--tier quick|thorough] [--seed N] [--small]
//!              [--threads N] [--cap SECONDS] [--scale X] [--only SCENARIO]
//!              [--known FILE] [--trace-dir DIR] [--trace-stderr] [--out FILE]
//!   lfamon replay --property C01 --scenario NAME --episode SEED [--tier T] [--small]
//!   lfamon list
mod bases;
mod engine;
mod gen;
mod opts;
mod props;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: engine::Poison = engine::Poison;

use engine::*;
use serde_json::json;
use std::collections::HashSet;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
    };
    let has = |k: &str| args.iter().any(|a| a == k);
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" {
        for p in props::all() {
            for s in &p.scenarios {
                println!("{} {} {} {} {}", p.id, s.name, s.quick, s.thorough, s.small);
            }
        }
        return;
    }
    install_panic_hook();
    let pid = get("--property").expect("--property");
    let p = match props::all().into_iter().find(|p| p.id == pid) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {pid}");
            std::process::exit(2);
        }
    };
    let mut known = HashSet::new();
    if let Some(f) = get("--known") {
        for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.split_whitespace();
                let prop = it.next().unwrap_or("");
                let sig = it.next().unwrap_or("");
                if prop == format!("property={pid}") {
                    if let Some(s) = sig.strip_prefix("sig=") {
                        known.insert(s.to_string());
                    }
                }
            }
        }
    }
    let cfg = Config {
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        small: has("--small"),
        threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(1),
        time_cap_s: get("--cap").and_then(|s| s.parse().ok()).unwrap_or(0.0),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        only: get("--only"),
        trace_dir: get("--trace-dir"),
        trace_stderr: has("--trace-stderr"),
        verbose: has("--verbose"),
        known,
    };
    if cmd == "replay" {
        let name = get("--scenario").expect("--scenario");
        let seed: u64 = get("--episode").and_then(|s| s.parse().ok()).expect("--episode");
        let sc = p.scenarios.iter().find(|s| s.name == name).expect("scenario");
        let mut acc = Acc::default();
        run_episode(sc, seed, &cfg, true, &mut acc);
        for (_, s) in &acc.samples {
            println!("case: {}", s.join("\n      "));
        }
        println!("checks: {}  events: {:?}", acc.checks, acc.events);
        for e in &acc.harness_errors {
            println!("HARNESS ERROR {e}");
        }
        for v in &acc.violations {
            println!("VIOLATED {}: {}", v.sig, v.msg);
        }
        std::process::exit(if !acc.harness_errors.is_empty() {
            2
        } else if acc.violations.is_empty() {
            0
        } else {
            1
        });
    }
    assert_eq!(cmd, "run", "unknown command");
    let o = run(&p, &cfg);
    let a = &o.acc;
    let missing: Vec<&str> = if cfg.only.is_some() || cfg.small {
        vec![]
    } else {
        p.required.iter().copied().filter(|k| a.events.get(*k).copied().unwrap_or(0) == 0).collect()
    };
    let evaluations: u64 = a.episodes.values().sum();
    let out = json!({
        "property": p.id,
        "rule": p.rule,
        "evaluations": evaluations,
        "planned": o.planned,
        "capped": o.capped,
        "distinct_nontrivial": a.distinct.len(),
        "checks": a.checks,
        "skipped": a.skipped,
        "episodes": a.episodes,
        "events": a.events,
        "max_fraction_of_tolerance": a.maxdev,
        "samples": a.samples,
        "missing_events": missing,
        "known": a.known.iter().map(|(k, v)| json!({"sig": k, "count": v.0, "example": v.1})).collect::<Vec<_>>(),
        "violations": a.violations.iter().map(|v| json!({"scenario": v.scenario, "seed": v.seed, "sig": v.sig, "msg": v.msg})).collect::<Vec<_>>(),
        "harness_errors": a.harness_errors,
        "wall_s": o.wall_s,
    });
    let text = serde_json::to_string(&out).unwrap();
    match get("--out") {
        Some(f) => std::fs::write(f, text).expect("write result"),
        None => println!("RESULT {text}"),
    }
    std::process::exit(if !a.violations.is_empty() {
        1
    } else if !a.harness_errors.is_empty() || !missing.is_empty() || evaluations == 0 {
        2
    } else {
        0
    });
}
