//! gsym: symbolic execution of groth-sahai on symbolic field and group values.
//!   gsym list   <PROP> <tier>
//!   gsym check  <PROP> <tier>            run every job of a property in worker processes
//!   gsym worker <PROP> <tier> <index>    one job, report as JSON
//!   gsym replay <file>                   run a recorded counterexample on BLS12-381
mod affine;
mod eng;
mod explore;
mod harness;
mod props;
mod solver;
mod sym;
mod term;
use serde_json::{json, Value};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn limits(thorough: bool) -> explore::Limits {
    if thorough {
        explore::Limits { paths: 2000, secs: 1500.0, query_secs: 300, seed: seed() }
    } else {
        explore::Limits { paths: 200, secs: 150.0, query_secs: 40, seed: seed() }
    }
}
fn root() -> String {
    std::env::var("GSYM_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn main() {
    if std::env::var("GSYM_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let thorough = arg(3) == "thorough";
    match arg(1).as_str() {
        "list" => {
            for (i, j) in props::jobs(&arg(2), thorough).iter().enumerate() {
                println!("{i} {}{}", j.name, if j.core { "" } else { " (extra)" });
            }
        }
        "worker" => {
            let jobs = props::jobs(&arg(2), thorough);
            let mut lim = limits(thorough);
            if let Some(s) = std::env::var("GSYM_SECS").ok().and_then(|s| s.parse::<f64>().ok()) {
                lim.secs = lim.secs.min(s);
            }
            let r = explore::explore(&jobs[arg(4).parse::<usize>().unwrap()], &lim);
            println!("{}", r.to_json());
        }
        "check" => std::process::exit(check(&arg(2), thorough, &arg(4))),
        "replay" => std::process::exit(replay(&arg(2))),
        _ => {
            eprintln!("usage: gsym list|check|worker|replay ...");
            std::process::exit(2)
        }
    }
}

fn run_worker(pid: &str, tier: &str, idx: usize, wall: Duration, secs: u64) -> Result<Value, String> {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["worker", pid, tier, &idx.to_string()])
        .env("GSYM_TIER", tier)
        .env("GSYM_SECS", secs.to_string())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut out = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break st,
            _ => {}
        }
        if t0.elapsed() > wall {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(format!("stopped after {}s", wall.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let s = h.join().unwrap_or_default();
    serde_json::from_str(&s).map_err(|e| format!("worker ended with {st}: {e}"))
}

fn known_findings(pid: &str) -> Vec<(String, String)> {
    // "known: property=<id> key=<key> <text>"
    let mut v = vec![];
    let f = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    for l in f.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={pid} key=")) {
            let (k, t) = r.split_once(' ').unwrap_or((r, ""));
            v.push((k.to_string(), t.to_string()));
        }
    }
    v
}

fn check(pid: &str, thorough: bool, filter: &str) -> i32 {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let budget = Duration::from_secs(std::env::var("GSYM_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 420 }));
    let per_job = Duration::from_secs(if thorough { 2400 } else { 240 });
    let grace = Duration::from_secs(if thorough { 600 } else { 120 });
    let jobs = props::jobs(pid, thorough);
    if jobs.is_empty() {
        eprintln!("no jobs for {pid}");
        return 2;
    }
    let mut order: Vec<usize> = (0..jobs.len()).filter(|i| jobs[*i].name.contains(filter)).collect();
    // the core jobs first, then the larger shapes
    order.sort_by_key(|i| !jobs[*i].core);
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<Option<Result<Value, String>>>> = Mutex::new(jobs.iter().map(|_| None).collect());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= order.len() {
                    break;
                }
                let i = order[k];
                let left = budget.checked_sub(t0.elapsed()).unwrap_or(Duration::ZERO);
                let r = if left < Duration::from_secs(1) {
                    Err("not started: time budget used up".to_string())
                } else {
                    // its share of the time left, if every instance still to come took as long
                    let secs = (left.as_secs() * threads as u64 / (order.len() - k) as u64).max(15);
                    run_worker(pid, tier, i, (left + grace).min(per_job), secs)
                };
                results.lock().unwrap()[i] = Some(r);
            });
        }
    });
    let results = results.into_inner().unwrap();
    let known = known_findings(pid);
    let mut violations = vec![];
    let mut errors = vec![];
    let mut extra_open = vec![];
    let mut incomplete: Vec<String> = vec![];
    let mut known_seen: Vec<String> = vec![];
    let mut sums: std::collections::BTreeMap<&str, f64> = Default::default();
    let mut reached = std::collections::BTreeSet::new();
    let mut notes: std::collections::BTreeMap<String, u64> = Default::default();
    let mut samples = vec![];
    let mut rows = vec![];
    let mut max_q: f64 = 0.0;
    let (mut complete, mut total) = (0, 0);
    std::fs::create_dir_all(format!("{}/replays", root())).ok();
    for (i, r) in results.iter().enumerate() {
        let Some(r) = r else { continue };
        let j = &jobs[i];
        total += 1;
        match r {
            Err(m) => {
                if j.core {
                    errors.push(format!("{}: {m}", j.name))
                } else {
                    extra_open.push(format!("{}: {m}", j.name))
                }
            }
            Ok(v) => {
                for k in ["paths", "conds", "flips_infeasible", "flips_feasible", "obligations", "discharged", "validated", "values_compared", "queries", "repeated", "unsat", "sat", "unknown_n", "solver_s"] {
                    *sums.entry(k).or_insert(0.0) += v[k].as_f64().unwrap_or(0.0);
                }
                max_q = max_q.max(v["solver_max_s"].as_f64().unwrap_or(0.0));
                for x in v["reached"].as_array().unwrap() {
                    reached.insert(x.as_str().unwrap().to_string());
                }
                for (k, n) in v["notes"].as_object().unwrap() {
                    *notes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                }
                let open: Vec<String> = v["unknown"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let inc: Vec<String> = v["incomplete"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                if open.is_empty() && inc.is_empty() {
                    complete += 1
                }
                let mut bad = false;
                for x in v["violations"].as_array().unwrap() {
                    if x["confirmed"].as_bool().unwrap() {
                        if bad {
                            continue;
                        }
                        bad = true;
                        let path = format!("{}/replays/{pid}-{}.json", root(), j.name.replace(|c: char| !c.is_alphanumeric(), "_"));
                        let body = json!({"property": pid, "tier": tier, "seed": seed(), "job": j.name, "violation": x});
                        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).ok();
                        violations.push((path, j.name.clone(), x["label"].as_str().unwrap_or("").to_string(), x["confirm_note"].as_str().unwrap_or("").to_string()));
                    } else {
                        errors.push(format!("{}: counterexample '{}' does not reproduce on BLS12-381: {}", j.name, x["label"].as_str().unwrap_or(""), x["confirm_note"].as_str().unwrap_or("")));
                    }
                }
                for x in v["known"].as_array().unwrap() {
                    let key = x.as_str().unwrap().to_string();
                    if known.iter().any(|k| k.0 == key) {
                        if !known_seen.contains(&key) {
                            known_seen.push(key)
                        }
                    } else {
                        let path = format!("{}/replays/{pid}-{}.json", root(), j.name.replace(|c: char| !c.is_alphanumeric(), "_"));
                        let body = json!({"property": pid, "tier": tier, "seed": seed(), "job": j.name, "finding": key});
                        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).ok();
                        violations.push((path, j.name.clone(), key, String::new()));
                    }
                }
                for o in open {
                    if j.core {
                        errors.push(format!("{}: {o}", j.name))
                    } else {
                        extra_open.push(format!("{}: {o}", j.name))
                    }
                }
                for o in inc {
                    incomplete.push(format!("{}: {o}", j.name))
                }
                if samples.len() < 3 && !v["sample"].is_null() {
                    samples.push(v["sample"].clone());
                }
                rows.push(json!({"job": v["job"], "paths": v["paths"], "branches": v["conds"], "obligations": v["obligations"], "discharged": v["discharged"],
                    "queries": v["queries"], "solver_s": v["solver_s"], "wall_s": v["wall"], "nodes": v["nodes"]}));
            }
        }
    }
    for (k, t) in &known {
        if known_seen.contains(k) {
            println!("KNOWN-FINDING: property={pid} {t}");
        }
    }
    let g = |k: &str| sums.get(k).cloned().unwrap_or(0.0) as u64;
    let ev = json!({
        "property": pid, "tier": tier, "seed": seed(), "level": "model_checking",
        "coverage": {
            "states": g("paths"),
            "transitions": g("flips_infeasible") + g("flips_feasible"),
            "traces_validated_against_impl": g("validated"),
            "samples": samples,
            "instances": total, "instances_fully_explored": complete,
            "branch_alternatives_infeasible": g("flips_infeasible"), "branch_alternatives_followed": g("flips_feasible"),
            "branches_on_symbolic_values": g("conds"),
            "obligations": g("obligations"), "obligations_discharged": g("discharged"),
            "solver_queries": g("queries"), "queries_answered_by_an_identical_earlier_one": g("repeated"), "unsat": g("unsat"), "sat": g("sat"), "solver_unknown": g("unknown_n"),
            "solver_s": sums.get("solver_s"), "slowest_query_s": max_q,
            "values_compared_with_bls12_381": g("values_compared"),
            "reached": reached, "notes": notes,
            "not_decided": extra_open, "incomplete": incomplete, "errors": errors,
            "functions_encoded": props::functions(pid), "bounds": props::bounds(pid, thorough),
            "what": "states = feasible paths of the real code executed on symbolic values; transitions = branch alternatives given to the solver; traces_validated = paths re-run with the real library on BLS12-381 with every observed value compared",
            "per_instance": rows,
        },
        "assumptions": props::assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    std::fs::create_dir_all(format!("{}/evidence", root())).ok();
    if filter.is_empty() {
        std::fs::write(format!("{}/evidence/{pid}.json", root()), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    println!(
        "{pid} {tier}: {total} instances ({complete} fully explored), {} paths, {} branch alternatives, {}/{} obligations discharged, {} queries, {:.1}s solver, {} paths validated on BLS12-381, {:.1}s",
        g("paths"), g("flips_infeasible") + g("flips_feasible"), g("discharged"), g("obligations"), g("queries"), sums.get("solver_s").unwrap_or(&0.0), g("validated"), t0.elapsed().as_secs_f64()
    );
    for x in extra_open.iter().take(12) {
        println!("NOT-DECIDED {x}");
    }
    for x in incomplete.iter().take(12) {
        println!("BOUNDED {x}");
    }
    for (p, j, l, n) in violations.iter().take(5) {
        println!("VIOLATION property={pid} replay={p}");
        println!("  {j}: {l} [{n}]");
    }
    for x in errors.iter().take(20) {
        println!("ERROR {x}");
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() || g("discharged") == 0 {
        2
    } else {
        0
    }
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let pid = v["property"].as_str().unwrap().to_string();
    let thorough = v["tier"] == "thorough";
    let jobs = props::jobs(&pid, thorough);
    let j = jobs.iter().find(|j| j.name == v["job"].as_str().unwrap()).expect("job");
    let mut rep = explore::Report::default();
    if let Some(sp) = &j.special {
        sp(&mut rep, &limits(thorough));
        rep.job = j.name.clone();
    } else {
        let m = explore::model_from_json(&v["violation"]["model"]);
        explore::add_violation(j, &mut rep, v["seed"].as_u64().unwrap_or(1), v["violation"]["label"].as_str().unwrap_or("").into(), String::new(), m);
    }
    let mut rc = 0;
    for x in &rep.violations {
        println!("{}: {} confirmed={} {}", j.name, x.label, x.confirmed, x.confirm_note);
        if x.confirmed {
            rc = 1
        }
    }
    for k in &rep.known {
        println!("{}: finding {k}", j.name);
        rc = 1;
    }
    rc
}
