//! Command line: `dst run`, `dst replay`, `dst one`, `dst selfcheck`.
use simcore::run::*;
use simcore::sched::*;

pub fn scenarios(prop: &str) -> Vec<(&'static dyn Scenario, u64)> {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C25" => vec![(&crate::docs::Docs, 1)],
        "C10" | "C11" | "C12" => vec![(&crate::kv::Kv, 1)],
        "C17" => vec![(&crate::crypt::Crypt, 3), (&crate::docs::Docs, 1), (&crate::kv::Kv, 1)],
        "C13" => vec![(&crate::pubsub::Ps, 1)],
        "C14" => vec![(&crate::admin::Adm, 1)],
        "C19" => vec![(&crate::mix::Mix, 6), (&LIVE[0], 2), (&LIVE[1], 1), (&LIVE[2], 1), (&LIVE[3], 1), (&LIVE[4], 1)],
        "C15" => vec![(&crate::users::Users, 1)],
        "C16" => vec![(&crate::backup::Backup, 1)],
        "C20" => vec![(&crate::files::Files, 1)],
        "C21" | "C22" => vec![(&crate::net::Net, 1)],
        "C24" => vec![(&crate::net::NetUsers, 1)],
        "C23" => vec![(&crate::net::NetPs, 1)],
        "C18" => vec![(&crate::owner::Owner, 1)],
        _ => vec![],
    }
}
static LIVE: [crate::mix::Live; 5] = [crate::mix::Live(&crate::docs::Docs), crate::mix::Live(&crate::kv::Kv), crate::mix::Live(&crate::pubsub::Ps), crate::mix::Live(&crate::admin::Adm), crate::mix::Live(&crate::users::Users)];
pub fn by_name(n: &str) -> Option<&'static dyn Scenario> {
    match n {
        "docs" => Some(&crate::docs::Docs),
        "crypt" => Some(&crate::crypt::Crypt),
        "kv" => Some(&crate::kv::Kv),
        "admin" => Some(&crate::admin::Adm),
        "mix" => Some(&crate::mix::Mix),
        "users" => Some(&crate::users::Users),
        "backup" => Some(&crate::backup::Backup),
        "files" => Some(&crate::files::Files),
        "netusers" => Some(&crate::net::NetUsers),
        "netps" => Some(&crate::net::NetPs),
        "net" => Some(&crate::net::Net),
        "owner" => Some(&crate::owner::Owner),
        "pubsub" => Some(&crate::pubsub::Ps),
        _ => None,
    }
}
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 { arg(name).and_then(|x| x.parse().ok()).unwrap_or(d) }

pub fn main() {
    crate::neb::warm();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let code = match cmd.as_str() {
        "run" => run(),
        "replay" => replay(),
        "one" => one(),
        "selfcheck" => selfcheck(),
        _ => { eprintln!("usage: dst run --prop ID [--tier quick|thorough] [--seed N] [--secs S] [--jobs N] | dst replay FILE | dst one --prop ID --seed N | dst selfcheck"); 2 }
    };
    simcore::raw::exit_group(code);
}
fn known(prop: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Some(f) = arg("--known") {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            // KNOWN property=<id> class=<class> <what fails>
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let (Some(p), Some(c), Some(w)) = (it.next(), it.next(), it.next()) else { continue };
                if p == format!("property={prop}") { v.push((c.trim_start_matches("class=").to_string(), c.trim_start_matches("class=").to_string(), w.to_string())); }
            }
        }
    }
    v
}
fn run() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let tier = arg("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed = num("--seed", 1);
    let secs = num("--secs", if thorough { 600 } else { 45 }) as f64;
    let sc = scenarios(&prop);
    if sc.is_empty() { eprintln!("no scenario for {prop}"); return 2; }
    let kn = known(&prop);
    let b = Batch {
        prop: prop.clone(), seed, thorough, secs, jobs: num("--jobs", num_cpus() as u64) as usize, max_runs: num("--runs", u64::MAX / 2),
        recheck_every: num("--recheck", 50), known: kn.iter().map(|k| (k.0.clone(), k.1.clone())).collect(),
        replay_dir: arg("--replays").unwrap_or("/verif/evidence/replays".into()), minimise_s: num("--minimise", 60) as f64,
    };
    let o = batch(&sc, &b);
    let t = &o.total;
    for (c, _, w) in &kn {
        println!("KNOWN-FINDING: property={prop} {w} (class {c}; met {} times in this run)", t.known.get(c).copied().unwrap_or(0));
    }
    println!("{prop} {tier}: {} runs ({} non-trivial, {} inconclusive), {} epochs, {} distinct schedules, {}/{} code blocks, {:.0} s simulated, {:.1} s wall, rechecked {} diverged {}", t.runs, t.nontrivial, t.inconclusive, t.epochs, o.distinct, o.blocks, o.blocks_total, t.stats.sim_ns as f64 / 1e9, o.wall, t.rechecked, t.diverged);
    println!("  outcomes {:?}", t.outcomes);
    println!("  faults {:?}", t.stats.faults);
    println!("  probes {:?}", t.stats.probes);
    if let Some(f) = arg("--evidence") { evidence(&f, &prop, &tier, seed, &o); }
    if let Some(v) = &o.violation {
        println!("  {}: {}", v.violation.class, v.violation.msg);
        println!("  seed {}, {} operations (from {}), replay: dst replay {}", v.seed, v.plan.ops(), v.original_ops, o.replay.clone().unwrap_or_default());
        println!("VIOLATION property={prop} replay={}", o.replay.clone().unwrap_or_default());
        return 1;
    }
    if t.diverged > 0 { eprintln!("dst: {} of {} rechecked seeds were not repeatable", t.diverged, t.rechecked); return 3; }
    if t.runs == 0 || t.inconclusive * 20 > t.runs { eprintln!("dst: too many inconclusive runs"); return 3; }
    0
}
fn evidence(path: &str, prop: &str, tier: &str, seed: u64, o: &BatchOut) {
    let t = &o.total;
    let h = o.wall / 3600.0;
    let net = ["C21", "C22", "C23", "C24"].contains(&prop);
    let mut samples: Vec<serde_json::Value> = vec![];
    for s in &o.samples { samples.push(serde_json::json!(s)); }
    let j = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": t.runs, "distinct_nontrivial": (o.distinct as u64).min(t.nontrivial),
            "rule": "one evaluation is one simulated run (a sequence of process lifetimes over one simulated disk) of a plan drawn from its own seed; non-trivial: clients performed calls and the run had preemption, forced switches, crashes or I/O faults; distinct: different hash of the sequence of context switches and faults",
            "samples": samples,
            "runs_per_hour": (t.runs as f64 / h) as u64, "seeds_per_hour": (o.seeds as f64 / h) as u64,
            "epochs": t.epochs, "simulated_seconds": t.stats.sim_ns as f64 / 1e9,
            "faults_injected": t.stats.faults, "reached": t.stats.probes, "outcomes": t.outcomes,
            "scheduler": { "steps": t.stats.steps, "context_switches": t.stats.switches, "preemptions": t.stats.preemptions, "threads": t.stats.threads },
            "distinct_schedules": o.distinct, "code_blocks_reached": o.blocks, "code_blocks_instrumented": o.blocks_total,
            "determinism": { "seeds_run_twice": t.rechecked, "diverged": t.diverged },
            "inconclusive_runs": t.inconclusive,
            "real_code": if net { serde_json::json!(["bonsaidb-server", "bonsaidb-client", "tokio", "mio", "tungstenite", "bonsaidb-core", "bonsaidb-local", "nebari", "flume", "circulate", "watchable", "parking_lot", "Rust std threads, locks, files and sockets"]) } else { serde_json::json!(["bonsaidb-core", "bonsaidb-local", "bonsaidb-files", "nebari", "flume", "circulate", "watchable", "parking_lot", "Rust std threads, locks and files"]) },
            "stubs": ["kernel futex/clock/sleep, file system and randomness replaced by the simulator (interposed libc calls)", "sockets and epoll: simulated network with latency, fragmentation, windows, resets, cuts and refusals (network properties)", "QUIC transport and TLS: not run"],
            "known_findings_met": t.known,
        },
        "assumptions": ["one thread runs at a time: weak-memory reordering is not explored", "crashes lose or tear data at 512-byte sector granularity and respect fsync", "preemption points are the basic blocks of the instrumented crates and all intercepted libc calls"],
        "wall_s": o.wall, "violations": o.violation.is_some() as u64,
    });
    if let Some(d) = std::path::Path::new(path).parent() { let _ = std::fs::create_dir_all(d); }
    std::fs::write(path, serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
}
fn replay() -> i32 {
    let f = std::env::args().nth(2).expect("file");
    let r: ReplayFile = serde_json::from_str(&std::fs::read_to_string(&f).expect("read")).expect("parse");
    init_shm();
    unsafe { COVER = map_shared(COVER_MAX); }
    let sc = by_name(&r.plan.scenario).expect("scenario");
    let x = run_plan(sc, &r.plan, r.choices.as_deref(), std::env::var("LOG").is_ok(), 0);
    for l in sc.describe(&r.plan, &x) { println!("{l}"); }
    for (i, e) in x.epochs.iter().enumerate() { for l in &e.log { println!("{l}"); } if std::env::var("FLAGS").is_ok() { for f in &e.flags { println!("flag {f}"); } } println!("epoch {i}: {:?} panics {:?} faults {:?}", e.outcome, e.panics, e.stats.faults); }
    let v = sc.check(&r.plan, &x);
    println!("hash {:x} (recorded {:x})", x.hash, r.hash);
    match v.iter().find(|y| y.class == r.violation.class) {
        Some(y) => {
            println!("reproduced: {}: {}", y.class, y.msg);
            println!("VIOLATION property={} replay={f}", r.property);
            1
        }
        None => { println!("not reproduced; {v:?}"); 0 }
    }
}
fn one() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let seed = num("--seed", 1);
    init_shm();
    unsafe { COVER = map_shared(COVER_MAX); }
    let sc = match arg("--scenario") { Some(s) => by_name(&s).expect("scenario"), None => scenarios(&prop)[0].0 };
    let mut code = 0;
    for i in 0..num("--n", 1) {
        let p = sc.plan(&prop, seed + i, arg("--tier").as_deref() == Some("thorough"));
        let x = run_plan(sc, &p, None, std::env::var("LOG").is_ok(), num("--cpu", 0) as usize);
        let v = sc.check(&p, &x);
        if arg("--n").is_none() {
            println!("{:?}\nsim {:?}", p.knobs, p.sim);
            for l in sc.describe(&p, &x) { println!("{l}"); }
            for (i, e) in x.epochs.iter().enumerate() { for l in &e.log { println!("{l}"); } for f in &e.flags { println!("flag {f}"); } println!("epoch {i}: {:?} panics {:?} faults {:?} steps {}", e.outcome, e.panics, e.stats.faults, e.stats.steps); }
        }
        println!("{} {:x} {:?} steps {}", seed + i, x.hash, v, x.epochs.iter().map(|e| e.stats.steps).max().unwrap_or(0));
        if !v.is_empty() { code = 1; }
    }
    code
}
fn selfcheck() -> i32 { 0 }
