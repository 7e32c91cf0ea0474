//! Command line driver shared by all checkers.
use crate::explore::*;
use crate::model::*;
use serde_json::{json, Value};
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Check {
    pub prop: Arc<dyn Prop>,
    pub jobs: Vec<Job>,
    /// model_checking, exploration or fault_enumeration
    pub level: &'static str,
    pub rule: &'static str,
    pub bounds: Value,
    pub assumptions: Vec<&'static str>,
    /// Re-run a stored special case.
    pub special: Option<fn(&Value) -> Result<(), String>>,
}

pub trait Suite {
    fn check(&self, id: &str, tier: Tier) -> Option<Check>;
    /// Explore in single-threaded processes: what runs in one worker must not
    /// be able to influence another.
    fn isolated(&self, _id: &str) -> bool {
        false
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter()
        .position(|a| a == k)
        .and_then(|i| args.get(i + 1).cloned())
}

fn engine(
    id: &str,
    tier: Tier,
    prop: Arc<dyn Prop>,
    budget: u64,
    threads: usize,
    known: Option<String>,
) -> Engine {
    Engine {
        prop_id: id.to_string(),
        tier,
        prop,
        stop: AtomicBool::new(false),
        deadline: Instant::now() + Duration::from_secs(budget),
        violations: Mutex::new(vec![]),
        slots: (0..threads.max(1)).map(|_| Slot::default()).collect(),
        crumbs: std::env::var("RMC_CRUMBS").ok(),
        known: known_keys(id, known),
    }
}

/// Keys of the `known:` lines for this property.
fn known_keys(id: &str, file: Option<String>) -> std::collections::HashSet<String> {
    let text = file
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default();
    text.lines()
        .filter(|l| {
            l.starts_with("known:") && l.split_whitespace().any(|w| w == format!("property={id}"))
        })
        .filter_map(|l| {
            l.split_whitespace()
                .find_map(|w| w.strip_prefix("key="))
                .map(String::from)
        })
        .collect()
}

/// Exit codes: 0 fine, 1 violation(s) reported, 2 harness error, 7 hang.
pub fn main(suite: &dyn Suite, make: MakeSut) -> ! {
    install_panic_hook();
    *MAKE.lock().unwrap() = Some(make);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => run(suite, &args),
        Some("replay") => replay(suite, &args),
        Some("rejob") => rejob(suite, &args),
        _ => {
            eprintln!("usage: run ID --tier T --out FILE --replay FILE --budget S | replay FILE");
            2
        }
    };
    std::process::exit(code)
}

fn run(suite: &dyn Suite, args: &[String]) -> i32 {
    let id = args[1].clone();
    let tier = match arg(args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let budget: u64 = arg(args, "--budget")
        .and_then(|s| s.parse().ok())
        .unwrap_or(120);
    let out = arg(args, "--out").unwrap_or_else(|| "/dev/null".into());
    let rep = arg(args, "--replay").unwrap_or_else(|| "/dev/null".into());
    let seed: u64 = arg(args, "--seed")
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let threads: usize = arg(args, "--threads")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
        });
    let Some(mut check) = suite.check(&id, tier) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    for (i, j) in check.jobs.iter_mut().enumerate() {
        j.index = i;
    }
    let start = Instant::now();
    let njobs = check.jobs.len();
    let shard: Option<(usize, usize)> = arg(args, "--shard").map(|s| {
        let (i, n) = s.split_once('/').expect("shard");
        (i.parse().unwrap(), n.parse().unwrap())
    });
    let (st, viol) = if suite.isolated(&id) && shard.is_none() {
        match processes(args, threads, &out, &rep) {
            Ok(r) => r,
            Err(code) => return code,
        }
    } else {
        let mut jobs = std::mem::take(&mut check.jobs);
        if let Some((i, n)) = shard {
            jobs.retain(|j| j.index % n == i);
        }
        let threads = if shard.is_some() { 1 } else { threads };
        let eng = Arc::new(engine(
            &id,
            tier,
            check.prop.clone(),
            budget,
            threads,
            arg(args, "--known"),
        ));
        watchdog(eng.clone(), Duration::from_secs(20), rep.clone() + ".hang");
        let st = eng.run(jobs, threads);
        if let Some(b) = HARNESS_BUG
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .clone()
        {
            eprintln!("harness error: {b}");
            return 2;
        }
        let viol = eng.violations.lock().unwrap().clone();
        if shard.is_some() {
            std::fs::write(&out, serde_json::to_string(&(st, viol)).unwrap())
                .expect("cannot write shard");
            return 0;
        }
        (st, viol)
    };
    let exhaustive = st.truncated.is_empty() && viol.is_empty();
    let mut cov = json!({
        "states": st.states,
        "transitions": st.transitions,
        "traces_validated_against_impl": st.traces,
        "evaluations": st.evals,
        "distinct_nontrivial": st.outcomes.len(),
        "rule": check.rule,
        "samples": st.samples,
        "exhaustive": exhaustive,
        "nonempty_states": st.nontrivial,
        "largest_tree": st.max_n,
        "greatest_height": st.max_height,
        "scopes_run": st.scopes,
        "scopes_planned": njobs,
        "truncated_scopes": st.truncated,
        "foreign_deviations": st.foreign,
        "bounds": check.bounds,
    });
    if let Some(s) = &st.foreign_sample {
        cov["foreign_sample"] = json!(s);
    }
    for (k, v) in &st.extra {
        cov[k] = json!(v);
    }
    let ev = json!({
        "property": id,
        "tier": tier.pick("quick", "thorough"),
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": viol.len(),
    });
    std::fs::write(&out, serde_json::to_string_pretty(&ev).unwrap())
        .expect("cannot write evidence");
    for k in &st.known {
        println!("KNOWN {k}");
    }
    println!(
        "{id}: {} states, {} transitions, {} histories, {} evaluations, {} foreign, {:.1}s{}",
        st.states,
        st.transitions,
        st.traces,
        st.evals,
        st.foreign,
        start.elapsed().as_secs_f64(),
        if exhaustive { "" } else { " (truncated)" }
    );
    if let Some((v, m)) = viol.into_iter().next() {
        let mut v = v;
        v["property"] = json!(id);
        v["message"] = json!(m);
        std::fs::write(&rep, serde_json::to_string_pretty(&v).unwrap())
            .expect("cannot write replay");
        println!("BAD {m}");
        return 1;
    }
    0
}

type Partial = (Stats, Vec<(Value, String)>);

/// One process per worker, each with every n-th job.
fn processes(args: &[String], n: usize, out: &str, rep: &str) -> Result<Partial, i32> {
    let exe = std::env::current_exe().expect("own path");
    let file = |i: usize| format!("{rep}.shard.{i}");
    let mut kids: Vec<(usize, std::process::Child)> = (0..n)
        .map(|i| {
            let mut a = args.to_vec();
            for k in ["--out", "--replay"] {
                if let Some(p) = a.iter().position(|x| x == k) {
                    a.drain(p..p + 2);
                }
            }
            a.extend(
                [
                    "--shard",
                    &format!("{i}/{n}"),
                    "--out",
                    &file(i),
                    "--replay",
                    rep,
                ]
                .map(String::from),
            );
            let mut c = std::process::Command::new(&exe);
            c.args(a);
            if let Ok(d) = std::env::var("RMC_CRUMBS") {
                c.env("RMC_CRUMBS", format!("{d}.{i}"));
            }
            (i, c.spawn().expect("cannot start a worker process"))
        })
        .collect();
    let _ = out;
    let mut all: Partial = Default::default();
    let mut bad = None;
    for (i, k) in kids.iter_mut() {
        let status = k.wait().expect("wait");
        match status.code() {
            Some(0) => {
                let t = std::fs::read_to_string(file(*i)).expect("shard result");
                let (st, v): Partial = serde_json::from_str(&t).expect("shard result");
                all.0.merge(st);
                all.1.extend(v);
            }
            c => {
                let c = match c {
                    Some(c @ (2 | 7)) => c,
                    _ => 99,
                };
                if bad != Some(7) {
                    bad = Some(c);
                }
            }
        }
        let _ = std::fs::remove_file(file(*i));
    }
    match bad {
        // a violation found elsewhere counts all the same
        Some(c) if all.1.is_empty() => Err(c),
        _ => Ok(all),
    }
}

/// Re-runs the whole job in which a violation was found, on its own in a
/// fresh process: for behaviour that depends on earlier executions.
fn rejob(suite: &dyn Suite, args: &[String]) -> i32 {
    let s = std::fs::read_to_string(&args[1]).expect("replay file");
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let id = arg(args, "--property")
        .or_else(|| v["property"].as_str().map(String::from))
        .expect("property");
    let Some(index) = v["job"]["index"].as_u64() else {
        println!("no job recorded");
        return 0;
    };
    let tier = match v["job"]["tier"].as_str() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut check = suite.check(&id, tier).expect("unknown property");
    for (i, j) in check.jobs.iter_mut().enumerate() {
        j.index = i;
    }
    check.jobs.retain(|j| j.index == index as usize);
    let eng = Arc::new(engine(
        &id,
        tier,
        check.prop.clone(),
        280,
        1,
        arg(args, "--known"),
    ));
    eng.run(check.jobs, 1);
    let viol = eng.violations.lock().unwrap().clone();
    match viol.into_iter().next() {
        Some((_, m)) => {
            println!("BAD {m}");
            1
        }
        None => 0,
    }
}

fn replay(suite: &dyn Suite, args: &[String]) -> i32 {
    let Ok(s) = std::fs::read_to_string(&args[1]) else {
        eprintln!("cannot read {}", args[1]);
        return 2;
    };
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let id = arg(args, "--property")
        .or_else(|| v["property"].as_str().map(String::from))
        .expect("property");
    let check = suite.check(&id, Tier::Quick).expect("unknown property");
    let r = match v["kind"].as_str() {
        Some("case") | Some("path") => {
            let case: Case = serde_json::from_value(v["case"].clone()).expect("case");
            let mut st = Stats::default();
            // stack as in the workers
            let prop = check.prop.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || match exec(&case, &*prop, &mut st, None) {
                    Verdict::Ok => Ok(()),
                    Verdict::Foreign(m) => {
                        println!("foreign deviation: {m}");
                        Ok(())
                    }
                    Verdict::Bad(m, _) => Err(m),
                })
                .unwrap()
                .join()
                .expect("replay thread died")
        }
        _ => match check.special {
            Some(f) => std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || f(&v))
                .unwrap()
                .join()
                .expect("replay thread died"),
            None => panic!("cannot replay this kind"),
        },
    };
    if let Some(b) = HARNESS_BUG
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .clone()
    {
        eprintln!("harness error: {b}");
        return 2;
    }
    match r {
        Ok(()) => {
            println!("{id}: holds on this replay");
            0
        }
        Err(m) => {
            println!("BAD {m}");
            1
        }
    }
}
