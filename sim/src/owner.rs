//! C18: one owner of a directory at a time; what happens when handles are dropped
//! in any order while background work runs, and when the process dies.
use crate::common::*;
use crate::schema::*;
use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection, StorageConnection};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::pubsub::{PubSub, Subscriber};
use bonsaidb_core::schema::Collection;
use bonsaidb_core::transaction::Transaction;
use bonsaidb_local::config::*;
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    /// a call that opens the storage
    Opening,
    /// number of the call, id of the storage
    Open(u64, u64),
    /// documents and keys found
    Found(u64, Vec<u64>, Vec<u64>),
    Ins(u64),
    Key(u64),
    Ack(u64),
    /// a call of an owner failed
    Failed(u64, String),
    /// the last handle of the owner is about to be dropped
    Leaving(u64),
    Left(u64),
    Mark(String),
}
fn body(x: u64) -> Vec<u8> { Body { uniq: x, k: (x % 11) as u32, k2: (x % 7) as u32, n: 1, tags: (x % 64) as u16, pad: if x % 5 == 0 { 2500 } else { 0 } }.bytes() }
enum Handle {
    St(Storage),
    Db(Database),
    Sub(bonsaidb_local::Subscriber),
    Async(bonsaidb_local::AsyncDatabase),
}
fn config(plan: &Plan) -> StorageConfiguration {
    let mut c = base_config(plan).with_schema::<DocSchema>().unwrap();
    if plan.knob("fixed") == 1 { c = c.unique_id(4711); }
    c.key_value_persistence = match plan.knob("delay") {
        0 => KeyValuePersistence::immediate(),
        1 => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(2).and_duration(Duration::from_millis(50))]),
        2 => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1).and_duration(Duration::from_secs(3)), PersistenceThreshold::after_changes(5)]),
        _ => KeyValuePersistence::lazy([]),
    };
    c
}
fn found(db: &Database, s: u64) {
    let docs = db.collection::<A>().list(..).headers();
    let mut keys = vec![];
    let docs: Vec<u64> = match docs { Ok(d) => d.iter().map(|h| idn(&h.id)).collect(), Err(e) => { record(&E::Failed(s, format!("list: {e}"))); return } };
    for k in 0..160u64 { match db.get_key(format!("k{k}")).into_u64() { Ok(Some(v)) => keys.push(v), Ok(None) => {}, Err(e) => { record(&E::Failed(s, format!("get: {e}"))); return } } }
    record(&E::Found(s, docs, keys));
}
/// Opens the storage, works and drops the handles.
fn own(plan: &Plan, rt: &Option<tokio::runtime::Runtime>, uniq: u64, slot: u64, o: &Op) {
    let s = record(&E::Opening);
    let st = match Storage::open(config(plan)) { Ok(x) => x, Err(e) => { record(&E::Mark(format!("open failed: {e}"))); return } };
    record(&E::Open(s, st.unique_id().as_u64()));
    let db = match st.create_database::<DocSchema>("db", true) { Ok(x) => x, Err(e) => { record(&E::Failed(s, format!("create_database: {e}"))); return } };
    let (a, b, c) = (o.arg(0) as u64, o.arg(1) as u64, o.arg(2) as u64);
    if a & 1 == 0 { found(&db, s); }
    let mut h = vec![Handle::Db(db.clone())];
    if b & 1 == 1 { h.push(Handle::St(st.clone())); }
    if b & 2 == 2 { match db.create_subscriber() { Ok(x) => { if let Err(e) = x.subscribe_to_bytes(vec![1]) { record(&E::Failed(s, format!("subscribe: {e}"))); } h.push(Handle::Sub(x)); } Err(e) => { record(&E::Failed(s, format!("subscriber: {e}"))); } } }
    if b & 4 == 4 { if let Some(rt) = rt { h.push(Handle::Async(db.clone().into_async_with_runtime(rt.handle().clone()))); } }
    if b & 8 == 8 { match st.database::<DocSchema>("db") { Ok(x) => h.push(Handle::Db(x)), Err(e) => { record(&E::Failed(s, format!("database: {e}"))); } } }
    // the storage's handle goes first or last
    let mut st = Some(st);
    let mut db = Some(db);
    if b & 16 == 16 { st = None; }
    let d = db.clone().unwrap();
    for i in 0..1 + (a >> 1) % 4 {
        let u = uniq + i;
        match (a >> (4 + 3 * i)) % 8 {
            0 | 1 | 2 => { let n = record(&E::Ins(u)); match d.apply_transaction(Transaction::insert(A::collection_name(), Some(did(u)), body(u))) { Ok(_) => { record(&E::Ack(n)); } Err(e) => { record(&E::Failed(s, format!("insert: {e}"))); } } }
            3 | 4 | 5 => { let n = record(&E::Key(u)); match d.set_numeric_key(format!("k{}", slot * 4 + i), u).execute() { Ok(_) => { record(&E::Ack(n)); } Err(e) => { record(&E::Failed(s, format!("set: {e}"))); } } }
            6 => { if let Err(e) = d.view::<ByKey>().with_access_policy(if c & 1 == 0 { AccessPolicy::UpdateAfter } else { AccessPolicy::UpdateBefore }).query() { record(&E::Failed(s, format!("view: {e}"))); } }
            _ => sim_sleep_ns((c >> 3) % 2_000_000_000),
        }
    }
    drop(d);
    // background work that nobody waits for
    let mut jobs = vec![];
    if c & 2 == 2 { let d = db.clone().unwrap(); jobs.push(std::thread::Builder::new().name("compactor".into()).spawn(move || { let r = d.compact(); (d, r.err().map(|e| e.to_string())) }).unwrap()); }
    if c & 4 == 4 { if let Err(e) = db.as_ref().unwrap().view::<ByTag>().with_access_policy(AccessPolicy::UpdateAfter).query() { record(&E::Failed(s, format!("view: {e}"))); } }
    if let Some(x) = st.take() { h.push(Handle::St(x)); }
    if let Some(x) = db.take() { h.push(Handle::Db(x)); }
    for j in jobs { let (d, e) = j.join().unwrap(); if let Some(e) = e { record(&E::Failed(s, format!("compact: {e}"))); } h.push(Handle::Db(d)); }
    // any order, in one or several threads
    let mut r = Rng::new(c ^ 0x646f);
    for i in (1..h.len()).rev() { h.swap(i, r.below(i as u64 + 1) as usize); }
    let n = Arc::new(AtomicUsize::new(h.len()));
    let many = c >> 20 & 3 == 0;
    let go = move |h: Vec<Handle>, n: Arc<AtomicUsize>| {
        for x in h {
            if n.fetch_sub(1, Ordering::SeqCst) == 1 { record(&E::Leaving(s)); }
            match x { Handle::St(x) => drop(x), Handle::Db(x) => drop(x), Handle::Sub(x) => drop(x), Handle::Async(x) => drop(x) }
        }
    };
    if many && h.len() > 1 {
        let half = h.split_off(h.len() / 2);
        let (n2, go2) = (n.clone(), go.clone());
        let t = std::thread::Builder::new().name("dropper".into()).spawn(move || go2(half, n2)).unwrap();
        go(h, n);
        t.join().unwrap();
    } else {
        go(h, n);
    }
    record(&E::Left(s));
}
pub struct Owner;
impl Scenario for Owner {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x6f776e6572));
        let r = &mut rng;
        let mut p = Plan { prop: prop.into(), scenario: "owner".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
        std_knobs(&mut p, r);
        p.knobs.insert("delay".into(), r.below(4) as i64);
        p.knobs.insert("fixed".into(), r.chance(1, 6) as i64);
        p.knobs.insert("async".into(), r.chance(1, 4) as i64);
        let n = r.range(1, 3);
        for i in 0..n {
            let mut ep = EpochPlan::default();
            let mut ops = 0;
            for _ in 0..r.range(1, if thorough { 4 } else { 3 }) {
                let k = r.range(1, 3);
                ops += k;
                ep.threads.push((0..k).map(|_| Op::new("own", &[(r.next() >> 20) as i64, (r.next() >> 20) as i64, (r.next() >> 20) as i64])).collect());
            }
            if i + 1 < n && r.chance(2, 3) { ep.crash_at = crash_point(r, ops as usize * 5); ep.crash_mode = crash_mode(r); }
            p.epochs.push(ep);
        }
        p.epochs.push(EpochPlan::default());
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        crate::docs::set_epoch_schema(plan, 0);
        let last = ep + 1 == plan.epochs.len();
        freeze(last);
        if last { set_faults(false); }
        let rt = (plan.knob("async") == 1).then(|| tokio::runtime::Builder::new_current_thread().build().unwrap());
        let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
            let plan = plan.clone();
            std::thread::Builder::new().name(format!("owner{t}")).spawn(move || {
                let rt = (plan.knob("async") == 1).then(|| tokio::runtime::Builder::new_current_thread().build().unwrap());
                for (i, o) in ops.iter().enumerate() { own(&plan, &rt, ((ep * 8 + t) * 8 + i) as u64 * 8 + 1, ((ep * 4 + t) * 3 + i) as u64, o); }
            }).unwrap()
        }).collect();
        for h in hs { let _ = h.join(); }
        // the storage can be opened again, twice
        for _ in 0..2 { own(plan, &rt, 100_000 + ep as u64 * 64, 0, &Op::new("own", &[7 << 4 | 7 << 7 | 7 << 10 | 7 << 13, 0, 0])); }
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v = check(plan, r); }
        v.truncate(3);
        crate::neb::attribute(r, v)
    }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { crate::neb::flags(img, crashed) }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { hostile(plan) && r.epochs.iter().any(|e| e.history.len() > 8) }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> {
        r.events::<E>().iter().map(|e| format!("{:>12.6}s e{} t{} #{} {:?}", e.at as f64 / 1e9, e.epoch, e.tid, e.seq, e.e)).collect()
    }
}
fn check(plan: &Plan, r: &RunResult) -> Vec<Violation> {
    let ev = r.events::<E>();
    let mut v = vec![];
    let mut id = None;
    let mut owner: Option<u64> = None;
    let mut epoch = 0;
    // documents and keys: asked for, acknowledged, and those that must be there
    let (mut asked, mut acked): (BTreeSet<u64>, BTreeSet<u64>) = Default::default();
    let (mut kasked, mut kfloor, mut kacked): (BTreeSet<u64>, BTreeSet<u64>, BTreeSet<u64>) = Default::default();
    let mut what: std::collections::BTreeMap<u64, (bool, u64)> = Default::default();
    // the id of a storage is certain once something was acknowledged under it
    let mut sure = false;
    for e in &ev {
        if e.epoch != epoch {
            epoch = e.epoch;
            owner = None;
            // what was only in memory may be gone, but not what a later owner found
            if matches!(r.epochs[e.epoch - 1].outcome, Outcome::Crashed) { kacked.clear(); } else { kfloor.append(&mut kacked); }
        }
        match &e.e {
            E::Mark(m) => v.push(viol("open-failed", m.clone())),
            E::Failed(s, m) => v.push(viol("unexpected-error", format!("owner #{s}: {m}"))),
            E::Open(s, i) => {
                if let Some(o) = owner { v.push(viol("two-owners", format!("#{s} opened the storage while #{o} had not dropped its handles"))); }
                owner = Some(*s);
                if id.is_some_and(|x| x != *i) && sure { v.push(viol("identity", format!("the id of the storage was {} and is {i}", id.unwrap()))); }
                id = Some(*i);
                // the owner before has closed
                kfloor.append(&mut kacked);
            }
            E::Leaving(s) => { if owner == Some(*s) { owner = None; } }
            E::Ins(u) => { asked.insert(*u); what.insert(e.seq, (false, *u)); }
            E::Key(u) => { kasked.insert(*u); what.insert(e.seq, (true, *u)); }
            E::Ack(n) => { sure = true; match what.get(n) { Some((true, u)) => { kacked.insert(*u); } Some((false, u)) => { acked.insert(*u); } None => {} } }
            E::Found(s, d, k) => {
                let d: BTreeSet<u64> = d.iter().copied().collect();
                let k: BTreeSet<u64> = k.iter().copied().collect();
                if let Some(x) = acked.difference(&d).next() { v.push(viol("acked-lost", format!("owner #{s} does not find document {x} that was acknowledged"))); }
                if let Some(x) = d.difference(&asked).next() { v.push(viol("wrong-read", format!("owner #{s} finds document {x} that nobody wrote"))); }
                if let Some(x) = kfloor.difference(&k).next() { v.push(viol("kv-lost", format!("owner #{s} does not find the key set to {x} by an owner that closed the storage"))); }
                if let Some(x) = k.difference(&kasked).next() { v.push(viol("kv-wrong", format!("owner #{s} finds a key set to {x} that nobody set"))); }
            }
            _ => {}
        }
    }
    let _ = plan;
    v
}
