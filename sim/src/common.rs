//! Shared pieces of all scenarios: configuration, swarm parameters, hashing,
//! the checks that apply to every run.
use bonsaidb_core::document::{DocumentId, Header};
use bonsaidb_local::config::*;
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;

pub const PATH: &str = "/simfs/db.bonsaidb";

pub fn base_config(plan: &Plan) -> StorageConfiguration {
    let mut cfg = StorageConfiguration::new(PATH)
        .tasks_worker_count(plan.knob("workers").max(1) as usize)
        .tasks_parallelization(plan.knob("par").max(1) as usize)
        .check_view_integrity_on_open(plan.knob("chk") == 1);
    cfg.argon.hashers = 1;
    cfg.argon.algorithm = bonsaidb_local::argon2::Algorithm::Argon2id;
    cfg.argon.params = ArgonParams::Params(bonsaidb_local::argon2::ParamsBuilder::new().m_cost(8).t_cost(1).p_cost(1).clone());
    cfg
}

/// Random environment: how hostile the scheduler is, which benign I/O effects occur.
pub fn swarm(r: &mut Rng) -> SimCfg {
    let mut s = SimCfg::default();
    s.preempt_mean = *r.pick(&[0, 200, 1000, 5000, 5000, 30000]);
    s.switch_p = *r.pick(&[0, 200, 2000, 5000]);
    s.pct = r.chance(1, 4);
    s.stall_p = *r.pick(&[0, 0, 20, 200]);
    s.stall_max_ns = *r.pick(&[1_000_000, 50_000_000, 2_000_000_000]);
    s.spurious_p = *r.pick(&[0, 0, 100]);
    if r.chance(1, 3) {
        s.disk_latency_p = *r.pick(&[100, 3000]);
        s.disk_latency_max_ns = *r.pick(&[1_000_000, 100_000_000]);
    }
    s.eintr_p = *r.pick(&[0, 0, 0, 100]);
    s.short_io_p = *r.pick(&[0, 0, 0, 300]);
    s
}
pub fn std_knobs(p: &mut Plan, r: &mut Rng) {
    p.knobs.insert("workers".into(), *r.pick(&[1, 2, 2, 4]));
    p.knobs.insert("par".into(), *r.pick(&[1, 1, 2]));
    p.knobs.insert("chk".into(), r.chance(1, 3) as i64);
    if r.chance(1, 8) { p.knobs.insert("async".into(), r.range(1, 15) as i64); }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3); }
    h
}
/// Independent revision hash.
pub fn sha8(b: &[u8]) -> u64 {
    use sha2::Digest;
    let d = sha2::Sha256::digest(b);
    u64::from_be_bytes(d[..8].try_into().unwrap())
}
pub type Rev = (u32, u64);
pub fn rev_of(h: &bonsaidb_core::document::Revision) -> Rev {
    (h.id, u64::from_be_bytes(h.sha256[..8].try_into().unwrap()))
}
pub fn did(id: u64) -> DocumentId { DocumentId::from_u64(id) }
pub fn idn(d: &DocumentId) -> u64 { d.deserialize::<u64>().unwrap_or(u64::MAX) }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Hd {
    pub id: u64,
    pub rev: Rev,
}
pub fn hd(h: &Header) -> Hd { Hd { id: idn(&h.id), rev: rev_of(&h.revision) } }

/// Outcomes and panics that are never acceptable.
pub fn base_checks(r: &RunResult) -> Vec<Violation> {
    let mut v = vec![];
    for (i, e) in r.epochs.iter().enumerate() {
        match &e.outcome {
            Outcome::Finished | Outcome::Crashed => {}
            Outcome::Deadlock(d) => v.push(viol("deadlock", format!("epoch {i}: no thread can run: {d}"))),
            Outcome::StepCap(d) => v.push(viol("no-progress", format!("epoch {i}: step limit reached: {d}"))),
            Outcome::Stopped(d) => v.push(viol("aborted", format!("epoch {i}: {d}; panics {:?}", e.panics))),
            // someone else ended the process (out of memory)
            Outcome::Signal(9) => {}
            Outcome::Signal(s) => v.push(viol("process-died", format!("epoch {i}: status {s}; panics {:?}", e.panics))),
            Outcome::Timeout => {}
        }
        if let Some(p) = e.panics.first() {
            v.push(viol("panic", format!("epoch {i}: {p}")));
        }
    }
    v
}
pub fn hostile(plan: &Plan) -> bool {
    plan.sim.preempt_mean > 0 || plan.sim.switch_p > 0 || plan.epochs.iter().any(|e| e.crash_at.is_some()) || plan.sim.eio_p + plan.sim.fsync_eio_p + plan.sim.enospc_p > 0
}
/// crash points of an epoch: uniform over the expected number of file mutations
pub fn crash_point(r: &mut Rng, ops: usize) -> Option<u64> {
    Some(r.range(1, 40 + 25 * ops as u64))
}
pub fn crash_mode(r: &mut Rng) -> u64 { *r.pick(&[0, 1, 2, 2, 3, 3]) }
