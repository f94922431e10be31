//! Runtime monitors for oraiswap-v3: `vmon check <PROP>` and `vmon replay <FILE>`.
mod big;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c22")]
mod c22;
mod chain;
mod family;
mod mon;
mod obs;
mod pure;
mod refm;
mod rng;
mod scen;
#[cfg(feature = "c21")]
mod sdk;
#[cfg(feature = "sdkhelp")]
mod sdkhelp;
#[cfg(feature = "sdkliq")]
mod sdkliq;
mod spec;
#[cfg(feature = "steps")]
mod steps;

use mon::Ev;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Bad {
    case: u64,
    step: usize,
    msg: String,
    trace: Vec<String>,
}

/// (cases in the quick tier, cases in the thorough tier, operations per scenario)
fn plan(prop: &str) -> (u64, u64, usize) {
    match prop {
        "C04" => (1800, 60_000, 60),
        "C15" => (480, 14_000, 60),
        "C09" | "C10" | "C11" | "C14" => (6000, 150_000, 60),
        "C19" | "C20" | "C21" | "C22" => pure::plan(prop),
        _ => (3000, 90_000, 60),
    }
}

fn rule(prop: &str) -> String {
    if let Some(r) = pure::rule(prop) {
        return r.into();
    }
    let judged = match prop {
        "C01" => "one executed operation (its effect on holdings against claims) or one full liquidation of a fork; non-trivial: at least one position or protocol fee outstanding",
        "C03" | "C06" => "one executed swap compared with the reference; non-trivial: the swap executed",
        "C04" => "one attack sequence on a fork; non-trivial: at least one operation of it succeeded",
        "C15" => "one sweep of the list queries over a state; non-trivial: the state has positions or several pools",
        "C27" => "one migration of a fork followed by up to four operations on the migrated and the plain fork; non-trivial: the state has positions or tiers",
        "C24" => "one observed time field; non-trivial: it is of a position, tick or pool that has been touched",
        _ => "one operation judged by the monitor of this property; non-trivial by the monitor's own condition (the operation concerns the property)",
    };
    format!("random scenarios (pools, tiers, users, native and cw20 tokens, adversarial amounts, ticks, limits, callers and time steps) executed by the real contract in a simulated chain; a case is {}; distinct by content hash", judged)
}

fn run_case(prop: &str, seed: u64, case: u64, steps: usize, thorough: bool, ev: &mut Ev) -> Option<Bad> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if pure::is_pure(prop) && (prop != "C21" || (cfg!(feature = "sdkhelp") && case % 4 == 0)) {
            let r: Result<(), String> = match prop {
                #[cfg(feature = "c19")]
                "C19" => c19::c19(seed, case, thorough, ev),
                #[cfg(feature = "c20")]
                "C20" => c20::c20(seed, case, ev),
                #[cfg(feature = "sdkhelp")]
                "C21" => sdkhelp::helpers(seed, case, ev),
                #[cfg(feature = "sdkliq")]
                "C22" => sdkliq::c22(seed, case, ev),
                #[cfg(all(feature = "c22", not(feature = "sdkliq")))]
                "C22" => c22::c22(seed, case, ev, "contract", &c22::contract_liq()),
                _ => Err(format!("the check of {} needs its feature (thorough: {})", prop, thorough)),
            };
            r.err().map(|m| Bad { case, step: 0, msg: m, trace: vec![] })
        } else {
            let o = mon::run(prop, rng::Rng::derive(seed, case), steps, ev);
            *ev.counts.entry("operations executed".into()).or_insert(0) += o.steps;
            *ev.counts.entry("scenarios".into()).or_insert(0) += 1;
            if prop == "C10" && case % 6000 == 1 && o.violation.is_none() {
                if let Err(m) = family::deep(rng::Rng::derive(seed, case), ev) {
                    return Some(Bad { case, step: steps, msg: m, trace: vec![] });
                }
            }
            o.violation.map(|(step, msg)| Bad { case, step, msg, trace: o.trace })
        }
    }));
    match r {
        Ok(x) => x,
        Err(_) => Some(Bad { case, step: 0, msg: format!("the monitor could not interpret what it observed: {}", chain::last_panic()), trace: vec![] }),
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(d)
}

fn check(prop: &str, dir: &str) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let (q, t, steps) = plan(prop);
    let n = env_u64("VMON_CASES", if thorough { t } else { q });
    let cap = Duration::from_secs(env_u64("VMON_SECONDS", if thorough { 3000 } else { 240 }));
    let threads = env_u64("VMON_THREADS", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4));
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let evs = Mutex::new(Ev::default());
    let bads: Mutex<Vec<Bad>> = Mutex::new(vec![]);
    watchdog(prop, dir, seed, steps, thorough, threads as usize);
    std::thread::scope(|s| {
        for id in 0..threads.min(250) as usize {
            let (next, stop, evs, bads) = (&next, &stop, &evs, &bads);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut ev = Ev::default();
                    chain::WORKER.with(|w| w.set(id));
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                            break;
                        }
                        chain::CASES[id].store(i, Ordering::SeqCst);
                        chain::beat();
                        if let Some(b) = run_case(prop, seed, i, steps, thorough, &mut ev) {
                            bads.lock().unwrap().push(b);
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    }
                    chain::CASES[id].store(u64::MAX, Ordering::SeqCst);
                    evs.lock().unwrap().merge(ev);
                })
                .unwrap();
        }
    });
    let ev = evs.into_inner().unwrap();
    let mut bads = bads.into_inner().unwrap();
    bads.sort_by_key(|b| b.case);
    let run = next.load(Ordering::SeqCst).min(n);
    let replay = format!("{}/evidence/{}.replay.json", dir, prop);
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    let _ = std::fs::remove_file(&replay);
    let evidence = serde_json::json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev.evals,
            "distinct_nontrivial": ev.distinct.len(),
            "rule": rule(prop),
            "samples": ev.samples,
            "cases_started": run,
            "cases_planned": n,
            "observed": ev.counts,
        },
        "assumptions": pure::assumptions(prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": bads.len(),
    });
    std::fs::write(format!("{}/evidence/{}.json", dir, prop), serde_json::to_string_pretty(&evidence).unwrap() + "\n").expect("cannot write evidence");
    println!("{}: {} evaluations, {} distinct non-trivial, {} of {} cases, {:.1}s", prop, ev.evals, ev.distinct.len(), run, n, t0.elapsed().as_secs_f64());
    if let Some(b) = bads.first() {
        let r = serde_json::json!({
            "property": prop, "seed": seed, "case": b.case, "step": b.step, "steps": steps,
            "tier": if thorough { "thorough" } else { "quick" },
            "what": b.msg, "history": b.trace,
        });
        std::fs::write(&replay, serde_json::to_string_pretty(&r).unwrap() + "\n").expect("cannot write replay");
        println!("{}", b.msg);
        for l in b.trace.iter().rev().take(1) {
            println!("last operation: {}", l);
        }
        println!("VIOLATION property={} replay={}", prop, replay);
        return 1;
    }
    if ev.distinct.len() < 50 {
        println!("INCONCLUSIVE property={}: only {} non-trivial observations", prop, ev.distinct.len());
        return 2;
    }
    0
}

/// Ends the run with a violation when a single call into the code under test does not return for minutes.
/// (Loops that read storage end earlier, when the simulated chain's gas runs out.)
fn watchdog(prop: &str, dir: &str, seed: u64, steps: usize, thorough: bool, threads: usize) {
    let (prop, dir) = (prop.to_string(), dir.to_string());
    let patience = env_u64("VMON_PATIENCE", 150);
    std::thread::spawn(move || {
        let mut seen = vec![(u64::MAX, 0u64); threads.min(250)];
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for (id, s) in seen.iter_mut().enumerate() {
                let (case, beat) = (chain::CASES[id].load(Ordering::SeqCst), chain::BEATS[id].load(Ordering::Relaxed));
                if case == u64::MAX || s.0 != beat {
                    *s = (beat, 0);
                    continue;
                }
                s.1 += 1;
                if s.1 < patience {
                    continue;
                }
                let replay = format!("{}/evidence/{}.replay.json", dir, prop);
                let msg = format!("a call in case {} has not returned for {} s", case, patience);
                let r = serde_json::json!({
                    "property": prop, "seed": seed, "case": case, "step": 0, "steps": steps,
                    "tier": if thorough { "thorough" } else { "quick" }, "what": msg, "history": [],
                });
                let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
                let _ = std::fs::write(&replay, serde_json::to_string_pretty(&r).unwrap() + "\n");
                let e = serde_json::json!({
                    "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": rule(&prop), "samples": [msg]},
                    "assumptions": pure::assumptions(&prop), "wall_s": patience as f64, "violations": 1,
                });
                let _ = std::fs::write(format!("{}/evidence/{}.json", dir, prop), serde_json::to_string_pretty(&e).unwrap() + "\n");
                println!("{}", msg);
                println!("VIOLATION property={} replay={}", prop, replay);
                std::process::exit(1);
            }
        }
    });
}

fn replay(file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let prop = v["property"].as_str().unwrap();
    let mut ev = Ev::default();
    match run_case(prop, v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap(), v["steps"].as_u64().unwrap_or(60) as usize, v["tier"] == "thorough", &mut ev) {
        Some(b) => {
            for l in &b.trace {
                println!("  {}", l);
            }
            println!("step {}: {}", b.step, b.msg);
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        None => {
            println!("{}: not reproduced on this tree", prop);
            0
        }
    }
}

fn main() {
    chain::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let dir = std::env::var("VMON_DIR").unwrap_or_else(|_| "/verif".into());
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("check") => check(&a[2], &dir),
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: vmon check <PROP> | vmon replay <FILE>");
            2
        }
    };
    std::process::exit(code);
}
