//! Runs: plans, epochs in forked children, worker pool, minimiser, evidence.
use crate::fs::Image;
use crate::raw;
use crate::sched::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub k: String,
    #[serde(default)]
    pub a: Vec<i64>,
}
impl Op {
    pub fn new(k: &str, a: &[i64]) -> Op { Op { k: k.into(), a: a.to_vec() } }
    pub fn arg(&self, i: usize) -> i64 { self.a.get(i).copied().unwrap_or(0) }
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct EpochPlan {
    pub threads: Vec<Vec<Op>>,
    /// power loss/kill at the n-th mutating file operation
    #[serde(default)]
    pub crash_at: Option<u64>,
    /// 0 durable state only, 1 all written, 2 prefixes, 3 process kill
    #[serde(default)]
    pub crash_mode: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub scenario: String,
    pub seed: u64,
    pub sim: SimCfg,
    pub knobs: BTreeMap<String, i64>,
    pub epochs: Vec<EpochPlan>,
}
impl Plan {
    pub fn knob(&self, k: &str) -> i64 { self.knobs.get(k).copied().unwrap_or(0) }
    pub fn ops(&self) -> usize { self.epochs.iter().map(|e| e.threads.iter().map(|t| t.len()).sum::<usize>()).sum() }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub fn viol(class: &str, msg: impl Into<String>) -> Violation {
    Violation { class: class.into(), msg: msg.into() }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ev<T> {
    pub seq: u64,
    pub tid: u32,
    pub at: u64,
    pub epoch: usize,
    pub e: T,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EpochResult {
    pub outcome: Outcome,
    pub history: Vec<(u64, u32, u64, Vec<u8>)>,
    pub trace: Vec<Choice>,
    pub stats: Stats,
    pub panics: Vec<String>,
    pub hash: u64,
    pub sched_hash: u64,
    pub mut_ios: u64,
    pub io_faults: u64,
    pub now: u64,
    pub wall: i64,
    pub seq: u64,
    pub log: Vec<String>,
    /// what `Scenario::flags` found on the disk after a crash at the end of this epoch
    #[serde(default)]
    pub flags: Vec<String>,
    pub image: Option<Image>,
}
#[derive(Clone, Debug)]
pub struct RunResult {
    pub epochs: Vec<EpochResult>,
    pub hash: u64,
    pub sched_hash: u64,
}
impl RunResult {
    pub fn events<T: DeserializeOwned>(&self) -> Vec<Ev<T>> {
        let mut v = Vec::new();
        for (i, e) in self.epochs.iter().enumerate() {
            for (seq, tid, at, b) in &e.history {
                v.push(Ev { seq: *seq, tid: *tid, at: *at, epoch: i, e: bincode::deserialize(b).expect("history") });
            }
        }
        v
    }
    pub fn panics(&self) -> Vec<String> { self.epochs.iter().flat_map(|e| e.panics.clone()).collect() }
    pub fn io_faults(&self) -> u64 { self.epochs.iter().map(|e| e.io_faults).sum() }
    pub fn crashes(&self) -> usize { self.epochs.iter().filter(|e| e.outcome == Outcome::Crashed).count() }
    pub fn inconclusive(&self) -> bool {
        self.epochs.iter().any(|e| matches!(e.outcome, Outcome::Timeout | Outcome::Signal(libc::SIGKILL) | Outcome::Signal(libc::SIGTERM)))
    }
    pub fn traces(&self) -> Vec<Vec<Choice>> { self.epochs.iter().map(|e| e.trace.clone()).collect() }
}
pub trait Scenario: Sync {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan;
    /// Runs inside the simulation.
    fn epoch(&self, plan: &Plan, epoch: usize);
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation>;
    /// Is this run a non-trivial case (for the evidence)?
    fn nontrivial(&self, _plan: &Plan, r: &RunResult) -> bool {
        r.epochs.iter().any(|e| e.history.len() > 2)
    }
    fn describe(&self, plan: &Plan, r: &RunResult) -> Vec<String>;
    /// Inspects the disk at the end of an epoch.
    fn flags(&self, _img: &Image, _crashed: bool) -> Vec<String> { vec![] }
}

// ------------------------------------------------------------ inside the sim
/// Append to the history; returns its global sequence number.
pub fn record<T: Serialize>(e: &T) -> u64 {
    record_raw(bincode::serialize(e).unwrap())
}
#[inline(never)]
pub fn record_raw(b: Vec<u8>) -> u64 {
    let s = sim();
    s.seq += 1;
    let x = (s.seq, s.cur as u32, s.now, b);
    let h = hash_bytes(&x.3);
    s.mixh(h);
    s.history.push(x);
    s.seq
}
fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3); }
    mix(h)
}
#[inline(never)]
pub fn now_ns() -> u64 { sim().now }
#[inline(never)]
pub fn wall_ns() -> i64 { let s = sim(); s.now as i64 + s.wall }
#[inline(never)]
/// From now on, a write of `needle` to a file outside of `except` is counted as probe "leak LABEL PATH".
pub fn watch(needle: &[u8], label: &str, except: &str) {
    if active() && !needle.is_empty() { sim().fs.needles.push((needle.to_vec(), label.into(), except.into())); }
}
/// Number of the current lifetime.
pub fn epoch() -> usize { if active() { sim().epoch as usize } else { 0 } }
pub fn unwatch() { if active() { sim().fs.needles.clear(); } }
pub fn probe(name: &str) { if active() { sim().probe(name); } }
#[inline(never)]
pub fn set_faults(on: bool) { sim().faults_on = on; }
/// Stop all random scheduling and faults (set-up and final verification).
#[inline(never)]
pub fn freeze(on: bool) {
    let s = sim();
    s.flush();
    s.frozen = on;
    s.arm();
}
/// Break the n-th connection (all: usize::MAX); see `Sim::net_cut`.
pub fn net_cut(which: usize, how: u64) -> usize { sim().net_cut(which, how) }
pub fn net_protect() { sim().net_protect() }
pub fn net_listening(port: u16) -> bool { sim().net.socks.iter().any(|k| matches!(k, crate::net::Sock::Listen(p, _) if *p == port)) }
pub fn net_outage(ns: u64) { sim().net_outage(ns) }
pub fn net_refuse(on: bool) { sim().net.refuse = on; }
pub fn net_window(n: usize) { sim().net.window = n; }
pub fn is_crashed_epoch() -> bool { false }
#[inline(never)]
pub fn stop_run(why: &str) -> ! {
    let s = sim();
    (s.finish)(s, Outcome::Stopped(why.into()))
}
#[inline(never)]
pub fn sim_sleep_ns(ns: u64) {
    let s = sim();
    s.bump();
    let dl = s.now + ns;
    s.block(St::Sleep, Some(dl));
}
#[inline(never)]
pub fn user_choice(n: u64) -> u64 {
    let s = sim();
    s.bump();
    s.choose(S_USER, 0, |r| r.below(n)) % n.max(1)
}

static mut SHM: *mut u8 = core::ptr::null_mut();
const SHM_SIZE: usize = 512 << 20;
static mut CUR_SCEN: Option<(&'static dyn Scenario, *const Plan, usize)> = None;

pub fn init_shm() {
    unsafe {
        SHM = map_shared(SHM_SIZE);
    }
}
pub fn map_shared(n: usize) -> *mut u8 {
    let p = raw::mmap(0, n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE);
    if p < 0 {
        raw::eprint("dst: mmap failed\n");
        raw::exit_group(3);
    }
    p as *mut u8
}

fn finish(s: &mut Sim, o: Outcome) -> ! {
    s.stats.sim_ns = s.now;
    let r = EpochResult {
        outcome: o,
        history: std::mem::take(&mut s.history),
        trace: std::mem::take(&mut s.trace),
        stats: s.stats.clone(),
        panics: s.panics.clone(),
        hash: mix(s.hash ^ s.fs.img.hash()),
        sched_hash: s.sched_hash,
        mut_ios: s.mut_ios,
        io_faults: s.io_faults,
        now: s.now,
        wall: s.wall,
        seq: s.seq,
        log: s.log.take().unwrap_or_default(),
        flags: vec![],
        image: Some(std::mem::take(&mut s.fs.img)),
    };
    let b = bincode::serialize(&r).unwrap();
    unsafe {
        if b.len() + 8192 > SHM_SIZE {
            raw::eprint("dst: result too large\n");
            raw::exit_group(4);
        }
        core::ptr::copy_nonoverlapping(b.as_ptr(), SHM.add(8192), b.len());
        *(SHM as *mut u64) = b.len() as u64;
    }
    raw::exit_group(0)
}

extern "C" fn main_thread(_: *mut libc::c_void) -> *mut libc::c_void {
    let (sc, plan, ep) = unsafe { CUR_SCEN.unwrap() };
    let plan = unsafe { &*plan };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.epoch(plan, ep)));
    let s = sim();
    let o = if r.is_err() { Outcome::Stopped("scenario panicked".into()) } else { Outcome::Finished };
    (s.finish)(s, o)
}

pub struct EpochIn<'a> {
    pub image: &'a Image,
    pub now: u64,
    pub wall: i64,
    pub seq: u64,
    pub replay: Option<&'a [Choice]>,
    pub log: bool,
}

/// The memory of ended processes comes back late on some kernels: do not outrun it.
fn wait_for_memory() {
    // what checking histories allocated would be copied for every child
    unsafe { libc::malloc_trim(0); }
    for _ in 0..150 {
        let m = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
        let Some(kb) = m.lines().find_map(|l| l.strip_prefix("MemAvailable:")).and_then(|l| l.trim().split(' ').next()?.parse::<u64>().ok()) else { return };
        if kb > 5_000_000 { return; }
        std::thread::sleep(std::time::Duration::from_millis(200));
    }
}

pub fn run_epoch(sc: &'static dyn Scenario, plan: &Plan, ep: usize, inp: EpochIn, cpu: usize) -> EpochResult {
    unsafe {
        *(SHM as *mut u64) = 0;
        *(SHM.add(16) as *mut u64) = 0;
        wait_for_memory();
        let pid = libc::fork() as i64;
        if pid == 0 {
            pin(cpu);
            libc::alarm(40);
            child(sc, plan, ep, inp);
        }
        if pid < 0 {
            raw::eprint("dst: fork failed\n");
            raw::exit_group(3);
        }
        let mut st = 0i32;
        loop {
            let r = raw::syscall6(libc::SYS_wait4, pid, &mut st as *mut _ as i64, 0, 0, 0, 0);
            if r == -(libc::EINTR as i64) { continue; }
            break;
        }
        let n = *(SHM as *mut u64) as usize;
        if n > 0 && libc::WIFEXITED(st) {
            let b = core::slice::from_raw_parts(SHM.add(8192), n);
            return bincode::deserialize(b).expect("epoch result");
        }
        let o = if libc::WIFSIGNALED(st) {
            if libc::WTERMSIG(st) == libc::SIGALRM { Outcome::Timeout } else { Outcome::Signal(libc::WTERMSIG(st)) }
        } else {
            Outcome::Signal(1000 + libc::WEXITSTATUS(st))
        };
        let n = *(SHM.add(16) as *mut u64) as usize;
        let note = String::from_utf8_lossy(core::slice::from_raw_parts(SHM.add(24), n.min(4000))).to_string();
        let panics = if n > 0 { vec![note] } else { vec![] };
        EpochResult { outcome: o, history: vec![], trace: vec![], stats: Stats::default(), panics, hash: 0, sched_hash: 0, mut_ios: 0, io_faults: 0, now: 0, wall: 0, seq: 0, log: vec![], flags: vec![], image: None }
    }
}
unsafe fn pin(cpu: usize) {
    let mut all: libc::cpu_set_t = core::mem::zeroed();
    raw::syscall3(libc::SYS_sched_getaffinity, 0, core::mem::size_of::<libc::cpu_set_t>() as i64, &mut all as *mut _ as i64);
    let ok: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &all)).collect();
    if ok.is_empty() { return; }
    let mut set: libc::cpu_set_t = core::mem::zeroed();
    libc::CPU_SET(ok[cpu % ok.len()], &mut set);
    raw::syscall3(libc::SYS_sched_setaffinity, 0, core::mem::size_of::<libc::cpu_set_t>() as i64, &set as *const _ as i64);
}

unsafe fn child(sc: &'static dyn Scenario, plan: &Plan, ep: usize, inp: EpochIn) -> ! {
    crate::alloc::enter_sim_arena();
    // the same allocations whether the plan was generated, shrunk or read from a file
    let plan: Plan = bincode::deserialize(&bincode::serialize(plan).expect("plan")).expect("plan");
    let plan = &plan;
    let cfg = plan.sim.clone();
    let seed = mix(plan.seed ^ mix(ep as u64 + 1));
    let mut s = Box::new(Sim {
        cfg, seed, epoch: ep as u32, now: inp.now, wall: inp.wall, thr: Vec::with_capacity(4096), cur: 0,
        rng: Rng::new(seed), replay: inp.replay.map(|t| t.iter().map(|c| ((c.tid, c.step, c.slot), c.value)).collect()),
        trace: Vec::new(), hash: seed, sched_hash: 0, stats: Stats::default(), fs: Default::default(), net: Default::default(),
        faults_on: true, io_faults: 0, mut_ios: 0, crash_at: plan.epochs.get(ep).and_then(|e| e.crash_at),
        history: Vec::new(), seq: inp.seq, panics: Vec::new(), frozen: false,
        log: if inp.log { Some(Vec::new()) } else { None }, finish,
    });
    s.fs.img = inp.image.clone();
    CUR_SCEN = Some((sc, Box::into_raw(Box::new(plan.clone())), ep));
    std::panic::set_hook(Box::new(|i| {
        if active() {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
            let s = sim();
            let who = s.thr[s.cur].name.clone();
            let text = format!("[{who}] {m} at {l}");
            if s.log.is_some() { raw::eprint(&format!("{text}\n")); }
            let n = text.len().min(4000);
            core::ptr::copy_nonoverlapping(text.as_ptr(), SHM.add(24), n);
            *(SHM.add(16) as *mut u64) = n as u64;
            s.panics.push(text);
            if s.log.is_some() { s.note(format!("PANIC {m} at {l}")); }
        }
    }));
    let tid = s.new_thread("main".into());
    s.thr[tid].start = Some((main_thread, core::ptr::null_mut()));
    install(s);
    let e = spawn_real(0);
    if e != 0 {
        raw::eprint("dst: cannot start thread\n");
        raw::exit_group(3);
    }
    prime();
    let w: *const std::sync::atomic::AtomicU32 = &*sim().thr[0].wake;
    (*w).store(1, std::sync::atomic::Ordering::Release);
    raw::futex_wake(w as *const u32);
    park_forever()
}

/// Run a whole plan. `traces`: replay these choices instead of drawing.
pub fn run_plan(sc: &'static dyn Scenario, plan: &Plan, traces: Option<&[Vec<Choice>]>, log: bool, cpu: usize) -> RunResult {
    let mut image = Image::fresh();
    let mut now = 0u64;
    // the simulated epoch starts at a fixed wall-clock date
    let mut wall = 1_700_000_000i64 * SEC as i64;
    let mut seq = 0;
    let mut out = Vec::new();
    let mut hash = 1u64;
    let mut sh = 1u64;
    let empty: Vec<Choice> = Vec::new();
    for ep in 0..plan.epochs.len() {
        let rp = traces.map(|t| t.get(ep).unwrap_or(&empty).as_slice());
        let mut r = run_epoch(sc, plan, ep, EpochIn { image: &image, now, wall, seq, replay: rp, log }, cpu);
        hash = mix(hash ^ r.hash);
        sh = mix(sh ^ r.sched_hash);
        let img = r.image.take();
        let o = r.outcome.clone();
        now = r.now;
        wall = r.wall;
        seq = r.seq;
        let stop = !matches!(o, Outcome::Finished | Outcome::Crashed);
        if let Some(mut i) = img {
            if o == Outcome::Crashed {
                let mode = plan.epochs[ep].crash_mode;
                let mut rng = Rng::new(mix(plan.seed ^ 0xC4A5 ^ ((ep as u64) << 32)));
                let name = if mode == 3 { "process_kill" } else { "power_loss" };
                *r.stats.faults.entry(name.into()).or_default() += 1;
                if mode != 3 {
                    let (lost, torn) = i.crash(&mut rng, mode);
                    if lost > 0 { *r.stats.faults.entry("lost_unsynced_write".into()).or_default() += lost; }
                    if torn > 0 { *r.stats.faults.entry("torn_write".into()).or_default() += torn; }
                } else {
                    i.gc();
                }
                r.flags = sc.flags(&i, true);
                // time passes before the restart
                now += 1_000_000 + rng.below(3 * SEC);
            } else {
                i.gc();
                r.flags = sc.flags(&i, false);
            }
            image = i;
        }
        out.push(r);
        if stop { break; }
    }
    // per-epoch simulated time, not cumulative
    let mut prev = 0;
    for e in out.iter_mut() {
        let n = e.stats.sim_ns;
        e.stats.sim_ns = n.saturating_sub(prev);
        prev = e.now.max(prev);
    }
    RunResult { epochs: out, hash, sched_hash: sh }
}

// ------------------------------------------------------------ replay files
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub violation: Violation,
    pub seed: u64,
    pub plan: Plan,
    /// non-default scheduling/fault choices per epoch; absent: drawn from the seed
    pub choices: Option<Vec<Vec<Choice>>>,
    pub hash: u64,
    pub explanation: Vec<String>,
    pub original_ops: usize,
    pub original_choices: usize,
}

pub fn minimise(sc: &'static dyn Scenario, plan: &Plan, v: &Violation, cpu: usize, budget_s: f64) -> ReplayFile {
    let t0 = raw::real_now();
    let orig = run_plan(sc, plan, None, false, cpu);
    let (oo, oc) = (plan.ops(), orig.traces().iter().map(|t| t.len()).sum());
    let fails = |p: &Plan, t: Option<&[Vec<Choice>]>| -> Option<(RunResult, Violation)> {
        let r = run_plan(sc, p, t, false, cpu);
        let x = sc.check(p, &r).into_iter().find(|x| x.class == v.class);
        x.map(|x| (r, x))
    };
    let over = || raw::real_now() - t0 > budget_s;
    let mut plan = plan.clone();
    // 1. drop operations under the seeded schedule, then under the recorded one
    shrink_ops(&mut plan, None, &fails, &over);
    let mut traces: Option<Vec<Vec<Choice>>> = None;
    if let Some((r, _)) = fails(&plan, None) {
        let t = r.traces();
        if fails(&plan, Some(&t)).is_some() {
            traces = Some(t);
        }
    }
    // 2. drop scheduling and fault choices
    if let Some(t) = traces.as_mut() {
        let mut chunk = t.iter().map(|x| x.len()).sum::<usize>().max(1);
        while chunk >= 1 && !over() {
            let mut i = 0;
            let mut changed = false;
            loop {
                let total: usize = t.iter().map(|x| x.len()).sum();
                if i >= total || over() { break; }
                let cand = drop_range(t, i, chunk);
                if fails(&plan, Some(&cand)).is_some() {
                    *t = cand;
                    changed = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !changed { break; }
            chunk = if chunk == 1 { 1 } else { chunk / 2 };
        }
        let snapshot = t.clone();
        shrink_ops(&mut plan, Some(&snapshot), &fails, &over);
    }
    let fin = fails(&plan, traces.as_deref());
    let (r, viol) = match fin {
        Some((r, x)) => (r, x),
        None => { traces = None; (run_plan(sc, &plan, None, false, cpu), v.clone()) }
    };
    let mut explanation = sc.describe(&plan, &r);
    for (i, e) in r.epochs.iter().enumerate() {
        explanation.push(format!("epoch {i}: outcome {:?}; panics {:?}; faults {:?}", e.outcome, e.panics, e.stats.faults));
    }
    ReplayFile { property: plan.prop.clone(), violation: viol, seed: plan.seed, plan, choices: traces, hash: r.hash, explanation, original_ops: oo, original_choices: oc }
}
fn drop_range(t: &[Vec<Choice>], start: usize, n: usize) -> Vec<Vec<Choice>> {
    let mut k = 0;
    t.iter().map(|x| x.iter().filter(|_| { let keep = k < start || k >= start + n; k += 1; keep }).copied().collect()).collect()
}
fn shrink_ops(plan: &mut Plan, t: Option<&[Vec<Choice>]>, fails: &dyn Fn(&Plan, Option<&[Vec<Choice>]>) -> Option<(RunResult, Violation)>, over: &dyn Fn() -> bool) {
    // later epochs
    while plan.epochs.len() > 1 && !over() {
        let mut p = plan.clone();
        p.epochs.pop();
        if fails(&p, t).is_some() { *plan = p; } else { break; }
    }
    let locs = |p: &Plan| -> Vec<(usize, usize, usize)> {
        let mut v = vec![];
        for (e, ep) in p.epochs.iter().enumerate() { for (h, th) in ep.threads.iter().enumerate() { for o in 0..th.len() { v.push((e, h, o)); } } }
        v
    };
    let mut chunk = (locs(plan).len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        loop {
            let l = locs(plan);
            if i >= l.len() || over() { break; }
            let mut p = plan.clone();
            for (e, h, o) in l[i..(i + chunk).min(l.len())].iter().rev() { p.epochs[*e].threads[*h].remove(*o); }
            if fails(&p, t).is_some() { *plan = p; changed = true; } else { i += chunk; }
        }
        if over() || (chunk == 1 && !changed) { break; }
        if chunk > 1 { chunk /= 2; }
    }
}

// ------------------------------------------------------------ worker pool
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Report {
    pub runs: u64,
    pub nontrivial: u64,
    pub inconclusive: u64,
    pub rechecked: u64,
    pub diverged: u64,
    pub stats: Stats,
    pub scheds: Vec<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub sample: Option<Vec<String>>,
    pub violation: Option<ReplayFile>,
    pub epochs: u64,
}
impl Default for Report {
    fn default() -> Self {
        Report { runs: 0, nontrivial: 0, inconclusive: 0, rechecked: 0, diverged: 0, stats: Stats::default(), scheds: vec![], outcomes: BTreeMap::new(), known: BTreeMap::new(), sample: None, violation: None, epochs: 0 }
    }
}
pub struct Batch {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub secs: f64,
    pub jobs: usize,
    pub max_runs: u64,
    pub recheck_every: u64,
    pub known: Vec<(String, String)>,
    pub replay_dir: String,
    pub minimise_s: f64,
}
pub struct BatchOut {
    pub total: Report,
    pub distinct: usize,
    pub blocks: usize,
    pub blocks_total: usize,
    pub wall: f64,
    pub replay: Option<String>,
    pub violation: Option<ReplayFile>,
    pub samples: Vec<Vec<String>>,
    pub seeds: u64,
}

pub fn batch(sc: &[(&'static dyn Scenario, u64)], b: &Batch) -> BatchOut {
    let t0 = raw::real_now();
    unsafe { COVER = map_shared(COVER_MAX); }
    let stop = map_shared(4096);
    let mut pipes = Vec::new();
    for w in 0..b.jobs {
        let mut fds = [0i32; 2];
        unsafe {
            libc::pipe(fds.as_mut_ptr());
            let pid = libc::fork() as i64;
            if pid == 0 {
                init_shm();
                worker(sc, b, w, t0, stop, fds[1]);
                raw::exit_group(0);
            }
            raw::syscall3(libc::SYS_close, fds[1] as i64, 0, 0);
            pipes.push((pid, fds[0], Vec::<u8>::new(), false));
        }
    }
    // gather
    loop {
        let mut pf: Vec<libc::pollfd> = pipes.iter().filter(|p| !p.3).map(|p| libc::pollfd { fd: p.1, events: libc::POLLIN, revents: 0 }).collect();
        if pf.is_empty() { break; }
        unsafe { libc::syscall(libc::SYS_poll, pf.as_mut_ptr(), pf.len(), 1000) };
        for p in pf {
            if p.revents != 0 {
                let mut buf = vec![0u8; 1 << 16];
                let n = unsafe { raw::syscall3(libc::SYS_read, p.fd as i64, buf.as_mut_ptr() as i64, buf.len() as i64) };
                let e = pipes.iter_mut().find(|x| x.1 == p.fd).unwrap();
                if n <= 0 { e.3 = true; } else { e.2.extend_from_slice(&buf[..n as usize]); }
            }
        }
    }
    let mut total = Report::default();
    let mut distinct = BTreeSet::new();
    let mut samples = Vec::new();
    let mut violation: Option<ReplayFile> = None;
    for p in &pipes {
        let mut st = 0;
        unsafe { raw::syscall6(libc::SYS_wait4, p.0, &mut st as *mut _ as i64, 0, 0, 0, 0) };
        match serde_json::from_slice::<Report>(&p.2) {
            Ok(r) => {
                total.runs += r.runs;
                total.epochs += r.epochs;
                total.nontrivial += r.nontrivial;
                total.inconclusive += r.inconclusive;
                total.rechecked += r.rechecked;
                total.diverged += r.diverged;
                total.stats.add(&r.stats);
                distinct.extend(r.scheds);
                for (k, v) in r.outcomes { *total.outcomes.entry(k).or_default() += v; }
                for (k, v) in r.known { *total.known.entry(k).or_default() += v; }
                if let Some(s) = r.sample { if samples.len() < 2 { samples.push(s); } }
                if let Some(v) = r.violation {
                    let better = match &violation { None => true, Some(o) => v.plan.ops() < o.plan.ops() };
                    if better { violation = Some(v); }
                }
            }
            Err(_) => { total.inconclusive += 1; *total.outcomes.entry("worker_lost".into()).or_default() += 1; }
        }
    }
    let blocks = unsafe { (0..COVER_MAX).filter(|i| *COVER.add(*i) != 0).count() };
    let mut replay = None;
    if let Some(v) = &violation {
        let _ = std::fs::create_dir_all(&b.replay_dir);
        let path = format!("{}/{}-{}-{}.json", b.replay_dir, b.prop, v.violation.class.replace([' ', '/'], "_"), v.seed);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
        replay = Some(path);
    }
    BatchOut { distinct: distinct.len(), blocks, blocks_total: unsafe { GUARDS } as usize, wall: raw::real_now() - t0, replay, violation, samples, seeds: total.runs, total }
}

pub fn run_seed(base: u64, i: u64) -> u64 { mix(mix(base) ^ i) >> 1 }

fn worker(sc: &[(&'static dyn Scenario, u64)], b: &Batch, w: usize, t0: f64, stop: *mut u8, out: i32) {
    let mut rep = Report::default();
    let wsum: u64 = sc.iter().map(|x| x.1).sum();
    let mut i = w as u64;
    let ncpu = unsafe { libc::syscall(libc::SYS_getpid) } as usize; let _ = ncpu;
    let cpu = w % num_cpus();
    loop {
        if raw::real_now() - t0 > b.secs || i >= b.max_runs { break; }
        unsafe { if core::ptr::read_volatile(stop) != 0 { break; } }
        let seed = run_seed(b.seed, i);
        let mut k = mix(seed ^ 77) % wsum;
        let mut s = sc[0].0;
        for (x, wt) in sc { if k < *wt { s = *x; break; } k -= wt; }
        let plan = s.plan(&b.prop, seed, b.thorough);
        let r = run_plan(s, &plan, None, false, cpu);
        rep.runs += 1;
        rep.epochs += r.epochs.len() as u64;
        for e in &r.epochs {
            rep.stats.add(&e.stats);
            let k = match &e.outcome { Outcome::Finished => "finished", Outcome::Crashed => "crashed", Outcome::Deadlock(_) => "deadlock", Outcome::StepCap(_) => "stepcap", Outcome::Stopped(_) => "stopped", Outcome::Signal(_) => "signal", Outcome::Timeout => "timeout" };
            *rep.outcomes.entry(k.into()).or_default() += 1;
        }
        if rep.scheds.len() < 200_000 { rep.scheds.push(r.sched_hash); }
        if r.inconclusive() {
            rep.inconclusive += 1;
            if std::env::var("DST_VERBOSE").is_ok() { raw::eprint(&format!("inconclusive: scenario {} seed {seed}\n", plan.scenario)); }
        } else {
            if s.nontrivial(&plan, &r) {
                rep.nontrivial += 1;
                if rep.sample.is_none() && w < 2 {
                    let mut d = s.describe(&plan, &r);
                    d.truncate(40);
                    d.insert(0, format!("seed {} scenario {} knobs {:?} sim {:?}", seed, plan.scenario, plan.knobs, plan.sim));
                    rep.sample = Some(d);
                }
            }
            let vs = s.check(&plan, &r);
            let mut fresh = None;
            for v in vs {
                if let Some((id, _)) = b.known.iter().find(|(_, c)| *c == v.class) {
                    *rep.known.entry(id.clone()).or_default() += 1;
                } else if fresh.is_none() {
                    fresh = Some(v);
                }
            }
            if b.recheck_every > 0 && rep.runs % b.recheck_every == 1 && fresh.is_none() {
                let r2 = run_plan(s, &plan, None, false, cpu);
                rep.rechecked += 1;
                if r2.hash != r.hash { rep.diverged += 1; raw::eprint(&format!("dst: DIVERGED seed {seed}\n")); }
            }
            if let Some(v) = fresh {
                // confirm that the same seed fails the same way
                let r2 = run_plan(s, &plan, None, false, cpu);
                rep.rechecked += 1;
                if r2.hash != r.hash { rep.diverged += 1; }
                if s.check(&plan, &r2).iter().any(|x| x.class == v.class) {
                    let first = unsafe { let f = core::ptr::read_volatile(stop) == 0; core::ptr::write_volatile(stop, 1); f };
                    let bud = if first { b.minimise_s } else { 2.0 };
                    rep.violation = Some(minimise(s, &plan, &v, cpu, bud));
                    break;
                }
                raw::eprint(&format!("dst: violation of seed {seed} did not repeat: {v:?}\n"));
            }
        }
        i += b.jobs as u64;
    }
    let j = serde_json::to_vec(&rep).unwrap();
    raw::write_all(out, &j);
}
pub fn num_cpus() -> usize {
    let mut set: libc::cpu_set_t = unsafe { core::mem::zeroed() };
    unsafe { raw::syscall3(libc::SYS_sched_getaffinity, 0, core::mem::size_of::<libc::cpu_set_t>() as i64, &mut set as *mut _ as i64) };
    unsafe { libc::CPU_COUNT(&set) as usize }.max(1)
}
