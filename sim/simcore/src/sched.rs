//! The scheduler: real OS threads, of which exactly one runs at any time. All
//! choices go through `choose`, which either draws from the seeded PRNG (and
//! records every choice that differs from the default) or replays a trace.
use crate::fs::Fs;
use crate::net::Net;
use crate::raw;
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        num > 0 && self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

/// Everything about the simulated environment that is fixed for one run.
/// Probabilities are in parts per 10,000 of the matching opportunity.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct SimCfg {
    /// mean number of executed basic blocks between random preemptions (0: never)
    pub preempt_mean: u64,
    /// switch at an intercepted call with this probability
    pub switch_p: u64,
    /// priority-based (PCT) instead of uniform choice of the next thread
    pub pct: bool,
    /// stall the calling thread at an intercepted call
    pub stall_p: u64,
    pub stall_max_ns: u64,
    /// spurious futex wake-up
    pub spurious_p: u64,
    /// latency added to file operations, and its bound
    pub disk_latency_p: u64,
    pub disk_latency_max_ns: u64,
    /// benign I/O behaviour (EINTR, short reads and writes)
    pub eintr_p: u64,
    pub short_io_p: u64,
    /// I/O errors; `fault_arm` decides when they may fire
    pub eio_p: u64,
    pub enospc_p: u64,
    pub fsync_eio_p: u64,
    /// at most this many hard I/O errors per epoch
    pub max_io_faults: u64,
    /// spare: 1 reads of nebari's files, 2 writes to them, 4 reads of others, 8 writes to others
    #[serde(default)]
    pub io_spare: u64,
    /// wall clock jumps
    pub clock_jump_p: u64,
    pub clock_jump_max_ns: u64,
    pub cpus: u64,
    pub step_cap: u64,
    /// network
    pub net_latency_max_ns: u64,
    pub net_short_p: u64,
    pub net_reset_p: u64,
    pub net_max_resets: u64,
    pub net_refuse_p: u64,
}
impl Default for SimCfg {
    fn default() -> Self {
        SimCfg {
            preempt_mean: 0, switch_p: 0, pct: false, stall_p: 0, stall_max_ns: 0, spurious_p: 0,
            disk_latency_p: 0, disk_latency_max_ns: 0, eintr_p: 0, short_io_p: 0, eio_p: 0, enospc_p: 0,
            fsync_eio_p: 0, max_io_faults: 0, io_spare: 0, clock_jump_p: 0, clock_jump_max_ns: 0, cpus: 2,
            step_cap: 400_000, net_latency_max_ns: 0, net_short_p: 0, net_reset_p: 0, net_max_resets: 0,
            net_refuse_p: 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Run,
    Futex(usize, u32),
    Sleep,
    Join(usize),
    Poll(i32),
    Fd(i32),
    Flock(usize),
    Done,
}

pub struct Thr {
    pub st: St,
    pub deadline: Option<u64>,
    pub woken: bool,
    pub wake: Box<AtomicU32>,
    pub lstep: u64,
    pub draws: u64,
    pub prio: u64,
    pub name: String,
    pub start: Option<(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void)>,
    pub dtors: Vec<(unsafe extern "C" fn(*mut u8), *mut u8)>,
    pub ret: *mut libc::c_void,
    pub pthread: libc::pthread_t,
}

/// One recorded non-default choice.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub struct Choice {
    pub tid: u32,
    pub step: u64,
    pub slot: u8,
    pub value: u64,
}

/// Choice slots.
pub const S_PREEMPT: u8 = 0;
pub const S_BLOCK: u8 = 1;
pub const S_STALL: u8 = 2;
pub const S_SPUR: u8 = 3;
pub const S_LAT: u8 = 4;
pub const S_IO: u8 = 5;
pub const S_WAKE: u8 = 6;
pub const S_CLOCK: u8 = 7;
pub const S_NET: u8 = 8;
pub const S_CRASH: u8 = 9;
pub const S_USER: u8 = 10;
pub const SLOT_NAMES: [&str; 11] = ["preempt", "next-thread", "stall", "spurious-wakeup", "disk-latency", "io-fault", "wake-order", "clock-jump", "network", "crash-state", "workload"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Outcome {
    Finished,
    Crashed,
    Deadlock(String),
    StepCap(String),
    /// the scenario stopped the run itself
    Stopped(String),
    Signal(i32),
    Timeout,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub edges: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// where in the history file operations failed
    #[serde(default)]
    pub io_at: Vec<u64>,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.steps += o.steps;
        self.edges += o.edges;
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.threads += o.threads;
        self.sim_ns += o.sim_ns;
        for (k, v) in &o.faults { *self.faults.entry(k.clone()).or_default() += v; }
        for (k, v) in &o.probes { *self.probes.entry(k.clone()).or_default() += v; }
    }
}

pub struct Sim {
    pub cfg: SimCfg,
    pub seed: u64,
    pub epoch: u32,
    pub now: u64,
    pub wall: i64,
    pub thr: Vec<Thr>,
    pub cur: usize,
    pub rng: Rng,
    pub replay: Option<BTreeMap<(u32, u64, u8), u64>>,
    pub trace: Vec<Choice>,
    pub hash: u64,
    pub sched_hash: u64,
    pub stats: Stats,
    pub fs: Fs,
    pub net: Net,
    pub faults_on: bool,
    pub io_faults: u64,
    pub mut_ios: u64,
    pub crash_at: Option<u64>,
    pub history: Vec<(u64, u32, u64, Vec<u8>)>,
    pub seq: u64,
    pub panics: Vec<String>,
    pub frozen: bool,
    pub log: Option<Vec<String>>,
    pub finish: fn(&mut Sim, Outcome) -> !,
}

pub struct Cellp(UnsafeCell<*mut Sim>);
unsafe impl Sync for Cellp {}
static SIM: Cellp = Cellp(UnsafeCell::new(core::ptr::null_mut()));
/// Edge countdown: edges left before `edge_slow` runs.
#[no_mangle]
pub static mut DST_COUNTDOWN: i64 = i64::MAX;
static mut COUNT_START: i64 = i64::MAX;

#[inline]
pub fn active() -> bool {
    unsafe { !(*SIM.0.get()).is_null() }
}
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut **SIM.0.get() }
}
pub fn install(s: Box<Sim>) {
    unsafe { *SIM.0.get() = Box::into_raw(s) }
}

const STACK_BASE: usize = 0x3000_0000_0000;
const STACK_SLOT: usize = 8 << 20;
const STACK_SIZE: usize = 4 << 20;

impl Sim {
    pub fn new_thread(&mut self, name: String) -> usize {
        let tid = self.thr.len();
        let prio = mix(self.seed ^ ((tid as u64) << 32) ^ ((self.epoch as u64) << 50)) >> 8;
        self.thr.push(Thr {
            st: St::Run, deadline: None, woken: false, wake: Box::new(AtomicU32::new(0)), lstep: 0, draws: 0,
            prio, name, start: None, dtors: Vec::new(), ret: core::ptr::null_mut(), pthread: 0,
        });
        self.stats.threads += 1;
        tid
    }
    pub fn flush(&mut self) {
        unsafe {
            let used = (COUNT_START - DST_COUNTDOWN) as u64;
            COUNT_START = DST_COUNTDOWN;
            self.thr[self.cur].lstep += used;
            self.stats.edges += used;
            self.now += used * 4;
        }
    }
    /// Count one intercepted call as a step of the current thread.
    pub fn bump(&mut self) {
        self.flush();
        self.thr[self.cur].lstep += 1;
        unsafe {
            DST_COUNTDOWN -= 1;
            COUNT_START -= 1;
        }
    }
    /// Arrange for the next edge preemption of the current thread.
    pub fn arm(&mut self) {
        let n: i64 = if self.frozen {
            3_000_000
        } else if let Some(r) = &self.replay {
            let l = self.thr[self.cur].lstep;
            let t = self.cur as u32;
            match r.range((t, l + 1, 0)..=(t, u64::MAX, 255)).find(|(k, _)| k.2 == S_PREEMPT) {
                Some((k, _)) => (k.1 - l) as i64,
                None => 50_000_000,
            }
        } else if self.cfg.preempt_mean > 0 {
            // geometric-ish: exponential via inverse of a uniform
            let u = (self.rng.next() >> 11) as f64 / (1u64 << 53) as f64;
            let v = -(1.0 - u).ln() * self.cfg.preempt_mean as f64;
            (v as i64).clamp(1, 50_000_000)
        } else {
            50_000_000
        };
        unsafe {
            DST_COUNTDOWN = n;
            COUNT_START = n;
        }
    }
    /// One decision. `gen` draws it; only values other than `default` are recorded.
    pub fn choose(&mut self, slot: u8, default: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
        if self.frozen {
            return default;
        }
        let t = self.cur as u32;
        let l = self.thr[self.cur].lstep;
        let v = match &self.replay {
            Some(r) => *r.get(&(t, l, slot)).unwrap_or(&default),
            None => {
                let mut rng = self.rng.clone();
                let v = gen(&mut rng);
                self.rng = rng;
                v
            }
        };
        if v != default {
            self.trace.push(Choice { tid: t, step: l, slot, value: v });
        }
        self.mixh(((slot as u64) << 56) ^ v ^ (l << 8) ^ ((t as u64) << 40));
        v
    }
    #[inline]
    pub fn mixh(&mut self, v: u64) {
        self.hash = mix(self.hash ^ v);
    }
    pub fn fault(&mut self, name: &str) {
        *self.stats.faults.entry(name.to_string()).or_default() += 1;
        if self.log.is_some() { let m = format!("fault {name}"); self.note(m); }
    }
    pub fn probe(&mut self, name: &str) {
        *self.stats.probes.entry(name.to_string()).or_default() += 1;
    }
    pub fn note(&mut self, m: String) {
        let (now, cur) = (self.now, self.cur);
        let l = self.thr[cur].lstep;
        let n = self.thr[cur].name.clone();
        if let Some(log) = &mut self.log {
            log.push(format!("{:>12}ns t{cur}({n})@{l} {m}", now));
        }
    }
    fn expire(&mut self) {
        self.net_deliver();
        let now = self.now;
        for t in self.thr.iter_mut() {
            if let Some(d) = t.deadline {
                if d <= now && t.st != St::Done {
                    t.deadline = None;
                    t.woken = false;
                    t.st = St::Run;
                }
            }
        }
    }
    /// Runnable threads other than the current one.
    fn others(&mut self) -> Vec<usize> {
        self.expire();
        (0..self.thr.len()).filter(|&i| i != self.cur && self.thr[i].st == St::Run).collect()
    }
    fn stopcheck(&mut self) {
        self.stats.steps += 1;
        if self.stats.steps > self.cfg.step_cap {
            let d = self.describe();
            (self.finish)(self, Outcome::StepCap(d));
        }
    }
    /// A scheduling point at an intercepted call; the caller stays runnable.
    pub fn point(&mut self, tag: u64) {
        self.bump();
        self.now += 1_000;
        self.stopcheck();
        self.mixh(tag ^ ((self.cur as u64) << 48));
        if self.frozen { return; }
        if self.cfg.stall_p > 0 || self.replay.is_some() {
            let (p, m) = (self.cfg.stall_p, self.cfg.stall_max_ns);
            let d = self.choose(S_STALL, 0, |r| if r.chance(p, 10_000) {
                let bits = 64 - m.max(2).leading_zeros() as u64;
                let b = r.range(10.min(bits), bits);
                (1u64 << b).min(m) + r.below(1000)
            } else { 0 });
            if d > 0 {
                *self.stats.faults.entry("thread_stall".into()).or_default() += 1;
                let dl = self.now + d;
                self.block(St::Sleep, Some(dl));
                return;
            }
        }
        if self.cfg.pct && self.replay.is_none() {
            let o = self.others();
            let best = o.iter().copied().max_by_key(|&i| self.thr[i].prio);
            if let Some(b) = best {
                if self.thr[b].prio > self.thr[self.cur].prio {
                    self.preempt_to_choice(b);
                }
            }
            return;
        }
        if self.cfg.switch_p > 0 || self.replay.is_some() {
            let p = self.cfg.switch_p;
            if self.replay.is_some() {
                self.preempt_choice(|_, _| 0);
            } else if self.rng.chance(p, 10_000) {
                self.preempt_choice(|r, o| 1 + o[r.below(o.len() as u64) as usize] as u64);
            }
        }
    }
    fn preempt_to_choice(&mut self, b: usize) {
        self.preempt_choice(|_, _| 1 + b as u64);
    }
    fn preempt_choice(&mut self, gen: impl FnOnce(&mut Rng, &[usize]) -> u64) {
        let o = self.others();
        if o.is_empty() {
            return;
        }
        let v = self.choose(S_PREEMPT, 0, |r| gen(r, &o));
        if v == 0 {
            return;
        }
        let t = (v - 1) as usize;
        if t < self.thr.len() && t != self.cur && self.thr[t].st == St::Run {
            self.stats.preemptions += 1;
            self.switch(t);
        }
    }
    /// Called from the instrumentation when the countdown expires.
    pub fn edge_preempt(&mut self) {
        self.flush();
        if self.frozen {
            // it may spin for a lock whose holder was preempted before
            self.stopcheck();
            let o = self.others();
            let cur = self.cur;
            if let Some(b) = o.iter().copied().find(|&i| i > cur).or(o.first().copied()) { self.switch(b); }
        } else if self.replay.is_some() {
            self.preempt_choice(|_, _| 0);
        } else if self.cfg.pct {
            // a priority change point: the current thread becomes the lowest
            let low = self.thr.iter().map(|t| t.prio).min().unwrap_or(1);
            let cur = self.cur;
            self.thr[cur].prio = low.saturating_sub(1);
            let o = self.others();
            if let Some(b) = o.iter().copied().max_by_key(|&i| self.thr[i].prio) {
                self.preempt_to_choice(b);
            }
        } else if self.cfg.preempt_mean > 0 {
            self.preempt_choice(|r, o| 1 + o[r.below(o.len() as u64) as usize] as u64);
        } else {
            // a thread that never reaches an intercepted call: let others run
            self.stopcheck();
            let o = self.others();
            if let Some(&b) = o.first() { self.preempt_to_choice(b); }
        }
        self.arm();
    }
    /// Give way to another runnable thread if there is one (sched_yield).
    pub fn yield_now(&mut self) {
        self.bump();
        self.now += 2_000;
        self.stopcheck();
        let o = self.others();
        if o.is_empty() {
            self.now += 100_000;
            return;
        }
        let t = self.pick_next(&o);
        self.switch(t);
    }
    fn pick_next(&mut self, o: &[usize]) -> usize {
        let cur = self.cur;
        let dflt = o.iter().copied().find(|&i| i > cur).unwrap_or(o[0]);
        if o.len() == 1 {
            return o[0];
        }
        let pct = self.cfg.pct;
        let best = o.iter().copied().max_by_key(|&i| self.thr[i].prio).unwrap();
        let rand = self.cfg.switch_p > 0 || self.cfg.preempt_mean > 0;
        let v = self.choose(S_BLOCK, dflt as u64, |r| {
            if pct { best as u64 } else if rand { o[r.below(o.len() as u64) as usize] as u64 } else { dflt as u64 }
        }) as usize;
        if o.contains(&v) { v } else { dflt }
    }
    /// Block the current thread; returns true if woken, false on timeout.
    pub fn block(&mut self, st: St, deadline: Option<u64>) -> bool {
        self.flush();
        self.stopcheck();
        let me = self.cur;
        self.thr[me].st = st;
        self.thr[me].deadline = deadline;
        self.thr[me].woken = false;
        self.pass_on();
        self.thr[me].woken
    }
    /// Pick somebody to run after the current thread stopped being runnable.
    fn pass_on(&mut self) {
        let me = self.cur;
        loop {
            self.expire();
            let o: Vec<usize> = (0..self.thr.len()).filter(|&i| self.thr[i].st == St::Run).collect();
            if !o.is_empty() {
                let t = self.pick_next(&o);
                if t == me {
                    self.arm();
                    return;
                }
                self.switch(t);
                return;
            }
            let next_net = self.net_next_event();
            let next_thr = self.thr.iter().filter(|t| t.st != St::Done).filter_map(|t| t.deadline).min();
            match (next_net, next_thr) {
                (None, None) => {
                    let d = self.describe();
                    (self.finish)(self, Outcome::Deadlock(d));
                }
                (a, b) => {
                    let t = a.unwrap_or(u64::MAX).min(b.unwrap_or(u64::MAX));
                    if t > self.now { self.now = t; }
                    self.stopcheck();
                    self.net_deliver();
                }
            }
        }
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.thr.iter().enumerate() {
            if t.st != St::Done {
                s.push_str(&format!("t{i}({}):{:?} ", t.name, match t.st { St::Futex(_, _) => "futex".to_string(), x => format!("{x:?}") }));
            }
        }
        s
    }
    fn switch(&mut self, t: usize) {
        let me = self.cur;
        if t == me { return; }
        self.stats.switches += 1;
        self.sched_hash = mix(self.sched_hash ^ ((t as u64) << 40) ^ self.thr[me].lstep);
        self.mixh(t as u64);
        self.cur = t;
        self.arm();
        // other threads modify *self while this one waits
        core::hint::black_box(self as *mut Sim);
        let w: *const AtomicU32 = &*self.thr[t].wake;
        let mine: *const AtomicU32 = &*self.thr[me].wake;
        unsafe {
            (*w).store(1, Ordering::Release);
            raw::futex_wake(w as *const u32);
            wait_baton(mine);
        }
    }
    pub fn wake_thread(&mut self, t: usize) {
        let th = &mut self.thr[t];
        if th.st != St::Done && th.st != St::Run {
            th.st = St::Run;
            th.deadline = None;
            th.woken = true;
        }
    }
    pub fn futex_wait(&mut self, addr: usize, val: u32, bitset: u32, deadline: Option<u64>) -> i64 {
        self.point(0xF1 << 32);
        // The word is read after the scheduling point, as the kernel would.
        let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
        if cur != val {
            return -(libc::EAGAIN as i64);
        }
        if self.cfg.spurious_p > 0 || self.replay.is_some() {
            let p = self.cfg.spurious_p;
            if self.choose(S_SPUR, 0, |r| r.chance(p, 10_000) as u64) == 1 {
                self.fault("spurious_wakeup");
                self.now += 1_000;
                return -(libc::EINTR as i64);
            }
        }
        if self.block(St::Futex(addr, bitset), deadline) { 0 } else { -(libc::ETIMEDOUT as i64) }
    }
    pub fn futex_wake(&mut self, addr: usize, n: u32, bitset: u32) -> i64 {
        self.bump();
        let mut w: Vec<usize> = (0..self.thr.len())
            .filter(|&i| matches!(self.thr[i].st, St::Futex(a, b) if a == addr && b & bitset != 0))
            .collect();
        let mut done = 0;
        let mut slot = 0;
        while done < n && !w.is_empty() {
            let k = if w.len() > 1 && (w.len() as u32) > n - done && slot == 0 {
                let len = w.len() as u64;
                (self.choose(S_WAKE, 0, |r| r.below(len)) % len) as usize
            } else { 0 };
            slot += 1;
            let t = w.remove(k);
            self.wake_thread(t);
            done += 1;
        }
        self.point(0xF2 << 32);
        done as i64
    }
    pub fn random_bytes(&mut self, buf: &mut [u8]) {
        let cur = self.cur;
        for chunk in buf.chunks_mut(8) {
            self.thr[cur].draws += 1;
            let v = mix(self.seed ^ mix(((self.epoch as u64) << 48) ^ ((cur as u64) << 32) ^ self.thr[cur].draws));
            let b = v.to_le_bytes();
            let n = chunk.len();
            chunk.copy_from_slice(&b[..n]);
        }
    }
    pub fn thread_exit(&mut self) {
        let me = self.cur;
        self.flush();
        self.thr[me].st = St::Done;
        for i in 0..self.thr.len() {
            if self.thr[i].st == St::Join(me) {
                self.wake_thread(i);
            }
        }
        self.mixh(0xD0E << 40 | me as u64);
        // pass_on never returns into a finished thread
        self.pass_on();
    }
}

/// Wait for the baton.
pub unsafe fn wait_baton(w: *const AtomicU32) {
    loop {
        if (*w).swap(0, Ordering::Acquire) == 1 {
            return;
        }
        raw::futex_wait(w as *const u32, 0);
    }
}

pub fn prime() {
    unsafe {
        DST_COUNTDOWN = 1_000;
        COUNT_START = 1_000;
    }
}
pub fn edge_slow() {
    if active() {
        sim().edge_preempt();
    } else {
        unsafe {
            DST_COUNTDOWN = i64::MAX;
            COUNT_START = i64::MAX;
        }
    }
}

/// Number of guards seen (instrumented blocks) and the hit map.
pub static mut GUARDS: u32 = 0;
pub const COVER_MAX: usize = 1 << 20;
pub static mut COVER: *mut u8 = core::ptr::null_mut();

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !COVER.is_null() {
        let g = *guard as usize;
        if g < COVER_MAX {
            *COVER.add(g) = 1;
        }
    }
    DST_COUNTDOWN -= 1;
    if DST_COUNTDOWN <= 0 {
        edge_slow();
    }
}

extern "C" fn trampoline(arg: *mut libc::c_void) -> *mut libc::c_void {
    let tid = arg as usize;
    unsafe {
        let w: *const AtomicU32 = &*sim().thr[tid].wake;
        wait_baton(w);
        let (f, a) = sim().thr[tid].start.unwrap();
        let r = f(a);
        let s = sim();
        s.thr[tid].ret = r;
        // thread-local destructors, under the baton
        loop {
            let d = sim().thr[tid].dtors.pop();
            match d {
                Some((f, p)) => f(p),
                None => break,
            }
        }
        sim().thread_exit();
    }
    park_forever()
}
pub fn park_forever() -> ! {
    let z = AtomicU32::new(0);
    loop {
        raw::futex_wait(&z as *const AtomicU32 as *const u32, 0);
    }
}

pub unsafe fn spawn_real(tid: usize) -> i32 {
    let base = STACK_BASE + tid * STACK_SLOT;
    let r = raw::mmap(base + STACK_SLOT - STACK_SIZE, STACK_SIZE, libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE);
    if r < 0 {
        return libc::EAGAIN;
    }
    let mut attr: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    pthread_attr_setstack(&mut attr, (base + STACK_SLOT - STACK_SIZE) as *mut _, STACK_SIZE);
    let mut th: libc::pthread_t = 0;
    let f = crate::interpose::real_pthread_create();
    let e = f(&mut th, &attr, trampoline, tid as *mut libc::c_void);
    sim().thr[tid].pthread = th;
    e
}

extern "C" {
    fn pthread_attr_setstack(a: *mut libc::pthread_attr_t, p: *mut libc::c_void, n: usize) -> i32;
}
