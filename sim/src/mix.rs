//! C19: everything at once, with few workers; every call must return.
use crate::common::*;
use crate::schema::*;
use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection, SensitiveString, StorageConnection};
use bonsaidb_core::document::{BorrowedDocument, Emit};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::pubsub::{PubSub, Subscriber};
use bonsaidb_core::schema::view::map::Mappings;
use bonsaidb_core::schema::*;
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::*;
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::time::Duration;

/// Its view fails on documents that start with 0.
#[derive(Debug, Clone)]
pub struct Poison;
impl Collection for Poison {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName { CollectionName::new("t", "poison") }
    fn define_views(s: &mut Schematic) -> Result<(), bonsaidb_core::Error> { s.define_view(PoisonView) }
}
#[derive(Debug, Clone)]
pub struct PoisonView;
impl View for PoisonView {
    type Collection = Poison;
    type Key = u32;
    type Value = u32;
    fn name(&self) -> Name { Name::new("pv") }
}
impl ViewSchema for PoisonView {
    type View = Self;
    type MappedKey<'doc> = u32;
}
impl DefaultViewSerialization for PoisonView {}
impl MapReduce for PoisonView {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        if d.contents.first() == Some(&0) { return Err(bonsaidb_core::Error::other("test", "poison")); }
        Ok(Mappings::none().and(d.header.emit_key_and_value(d.contents.len() as u32, 1)?))
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> { Ok(m.iter().map(|x| x.value).sum()) }
}
#[derive(Debug)]
pub struct MixSchema;
impl Schema for MixSchema {
    fn schema_name() -> SchemaName { SchemaName::new("t", "mix") }
    fn define_collections(s: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        s.define_collection::<A>()?;
        s.define_collection::<U>()?;
        s.define_collection::<B>()?;
        s.define_collection::<Poison>()?;
        Ok(())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Begin(String),
    /// name, simulated ns, error
    Call(String, u64, Option<String>),
    Mark(String),
}
/// errors are part of the game for calls whose object others delete
fn timed<T>(name: &str, f: impl FnOnce() -> Result<T, bonsaidb_core::Error>) -> Option<T> {
    record(&E::Begin(name.into()));
    let t = now_ns();
    let r = f();
    let d = now_ns() - t;
    match r { Ok(x) => { record(&E::Call(name.into(), d, None)); Some(x) } Err(e) => { record(&E::Call(name.into(), d, Some(e.to_string()))); None } }
}
fn body(x: u64, k: u32) -> Vec<u8> { Body { uniq: x, k, k2: (k * 5) % 11, n: 1, tags: (x % 64) as u16, pad: if x % 9 == 0 { 3000 } else { 0 } }.bytes() }
fn pol(x: u64) -> AccessPolicy { match x % 4 { 0 | 1 => AccessPolicy::UpdateBefore, 2 => AccessPolicy::UpdateAfter, _ => AccessPolicy::NoUpdate } }
fn client(st: &Storage, db: &Database, ep: usize, t: usize, ops: &[Op]) {
    let mut subs = vec![];
    let mut handles: Vec<Database> = vec![];
    for (i, o) in ops.iter().enumerate() {
        let uniq = crate::docs::uniq(ep, t, i);
        let (a, b) = (o.arg(0) as u64, o.arg(1) as u64);
        let id = did(a % 12);
        match o.k.as_str() {
            "tx" => {
                let mut tx = Transaction::new();
                for j in 0..1 + b % 3 {
                    let c = coll_name(((b >> (4 + j)) % 3) as u8);
                    tx.push(Operation::overwrite(c, did((a + j) % 12), body(uniq + j, ((a >> 4) % 11) as u32)));
                }
                timed("tx", || db.apply_transaction(tx));
            }
            "ins" => { timed("tx", || db.apply_transaction(Transaction::insert(coll_name((b % 3) as u8), None, body(uniq, (a % 11) as u32)))); }
            "get" => { timed("get", || db.get_from_collection(id, &coll_name((b % 3) as u8))); }
            "view" => {
                let p = pol(b);
                match a % 7 {
                    0 => { timed("view", || db.view::<ByKey>().with_access_policy(p).query().map(|_| ())); }
                    1 => { timed("view", || db.view::<ByTag>().with_access_policy(p).reduce().map(|_| ())); }
                    2 => { timed("view", || db.view::<EagerK>().with_access_policy(p).query().map(|_| ())); }
                    3 => { timed("view", || db.view::<UniqK>().with_access_policy(p).query().map(|_| ())); }
                    4 => { timed("view", || db.view::<LazyU>().with_access_policy(p).query_with_docs().map(|_| ())); }
                    _ => { timed("poison-view", || db.view::<PoisonView>().with_access_policy(p).query().map(|_| ())); }
                }
            }
            "poison" => {
                if b % 2 == 0 { timed("tx", || db.apply_transaction(Transaction::overwrite(Poison::collection_name(), did(a % 2), vec![(b >> 1 & 1) as u8; 1 + (a % 3) as usize]))); }
                else { timed("poison-del", || { if let Some(d) = db.collection::<Poison>().get(&(a % 2))? { db.collection::<Poison>().delete(&d)?; } Ok(()) }); }
            }
            "compact" => { timed("compact", || match a % 4 { 0 => db.compact(), 1 => db.compact_key_value_store(), 2 => db.compact_collection::<A>(), _ => db.compact_collection::<U>() }); }
            "kv" => {
                let k = format!("k{}", a % 4);
                match b % 6 {
                    0 => { timed("kv", || db.set_numeric_key(&k, b).execute()); }
                    1 => { timed("kv", || db.set_numeric_key(&k, b).expire_in(Duration::from_millis(a % 500)).execute()); }
                    2 => { timed("kv", || db.get_key(&k).into_u64()); }
                    3 => { timed("kv", || db.delete_key(&k)); }
                    4 => { timed("kv", || db.set_numeric_key(&k, b).expire_at(std::time::SystemTime::now()).execute()); }
                    _ => { timed("kv", || db.increment_key_by(&k, 1_u64).execute().or(Ok::<u64, bonsaidb_core::Error>(0))); }
                }
            }
            "sub" => { if let Some(s) = timed("sub", || { let s = db.create_subscriber()?; s.subscribe_to_bytes(vec![(b % 2) as u8])?; Ok(s) }) { subs.push(s); } }
            "pub" => { timed("pub", || db.publish_bytes(vec![(b % 2) as u8], vec![1])); }
            "recv" => { if let Some(s) = subs.last() { while s.receiver().try_receive().is_ok() {} } }
            "unsub" => { if !subs.is_empty() { let s = subs.remove(0); if b % 2 == 0 { timed("unsub", || s.unsubscribe_from_bytes(&[0])); } drop(s); } }
            "user" => {
                let u = format!("u{}", a % 2);
                match b % 5 {
                    0 => { timed("user", || st.create_user(&u)); }
                    1 => { timed("user", || st.set_user_password(u.as_str(), SensitiveString("x".into()))); }
                    2 => { timed("user", || st.delete_user(u.as_str())); }
                    _ => { timed("user", || st.authenticate_with_password(u.as_str(), SensitiveString("x".into())).map(|_| ())); }
                }
            }
            "admin" => {
                let n = format!("tmp{}", a % 2);
                match b % 6 {
                    0 | 1 => { timed("admin", || st.create_database::<MixSchema>(&n, b % 4 < 2).map(|d| handles.push(d))); }
                    2 => { timed("admin", || st.delete_database(&n)); }
                    3 => { timed("admin", || st.list_databases()); }
                    _ => { if let Some(d) = timed("admin", || st.database::<MixSchema>(&n)) { handles.push(d); } }
                }
            }
            // handles of databases that others delete
            "tmp" => if let Some(d) = handles.get((a % 3) as usize) {
                match b % 5 {
                    0 | 1 => { timed("tmp", || d.apply_transaction(Transaction::insert(coll_name(0), None, body(uniq, (a % 11) as u32)))); }
                    2 => { timed("tmp", || d.view::<ByKey>().with_access_policy(pol(a >> 4)).query().map(|_| ())); }
                    3 => { timed("tmp", || d.set_numeric_key("k", b).execute()); }
                    _ => { timed("tmp", || d.compact()); }
                }
            },
            "drop" => handles.clear(),
            "sleep" => sim_sleep_ns(a % 300 * 1_000_000),
            _ => {}
        }
    }
}
pub struct Mix;
impl Scenario for Mix {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x6d6978));
        let r = &mut rng;
        let mut p = Plan { prop: prop.into(), scenario: "mix".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
        std_knobs(&mut p, r);
        p.knobs.insert("workers".into(), *r.pick(&[1, 1, 1, 2, 4]));
        p.knobs.insert("mem".into(), r.chance(1, 8) as i64);
        p.knobs.insert("delay".into(), r.below(4) as i64);
        let only: Option<&[&str]> = match r.below(6) { 0 => Some(&["view", "view", "tx", "ins", "poison"]), 1 => Some(&["compact", "compact", "tx", "kv", "view"]), 2 => Some(&["admin", "tmp", "tmp", "drop", "admin"]), _ => None };
        let all: &[&str] = &["tx", "ins", "get", "view", "view", "view", "poison", "compact", "compact", "kv", "kv", "sub", "pub", "recv", "unsub", "user", "admin", "tmp", "tmp", "drop", "sleep"];
        for _ in 0..r.range(1, 2) {
            let mut ep = EpochPlan::default();
            for _ in 0..r.range(1, if thorough { 6 } else { 4 }) {
                let mut ops = vec![];
                for _ in 0..r.range(2, if thorough { 16 } else { 12 }) {
                    let (a, b) = ((r.next() >> 34) as i64, (r.next() >> 34) as i64);
                    ops.push(Op::new(*r.pick::<&str>(only.unwrap_or(all)), &[a, b]));
                }
                ep.threads.push(ops);
            }
            p.epochs.push(ep);
        }
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        let mut c = base_config(plan).with_schema::<MixSchema>().unwrap();
        if plan.knob("mem") == 1 { c = c.memory_only(); }
        c.key_value_persistence = match plan.knob("delay") {
            0 => KeyValuePersistence::immediate(),
            1 => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(2).and_duration(Duration::from_millis(50))]),
            2 => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1).and_duration(Duration::from_secs(3)), PersistenceThreshold::after_changes(5)]),
            _ => KeyValuePersistence::lazy([]),
        };
        let st = match Storage::open(c) { Ok(s) => s, Err(e) => { record(&E::Mark(format!("open: {e}"))); return } };
        let Some(db) = timed("create", || st.create_database::<MixSchema>("main", true)) else { return };
        let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
            let (st, db) = (st.clone(), db.clone());
            std::thread::Builder::new().name(format!("client{t}")).spawn(move || client(&st, &db, ep, t, &ops)).unwrap()
        }).collect();
        for h in hs { let _ = h.join(); }
        // jobs that failed must not stand in the way of later ones
        for id in 0..2_u64 { timed("clean", || { if let Some(d) = db.collection::<Poison>().get(&id)? { db.collection::<Poison>().delete(&d)?; } Ok(()) }); }
        timed("clean", || db.collection::<Poison>().insert_bytes(&(100 + ep as u64), vec![7, 7, 7]).map(|_| ()));
        if let Some(n) = timed("clean", || db.view::<PoisonView>().reduce()) { if n != (if plan.knob("mem") == 1 { 1 } else { ep as u32 + 1 }) { record(&E::Mark(format!("the view counts {n} documents"))); } }
        timed("clean", || db.view::<ByKey>().query().map(|_| ()));
        timed("clean", || db.compact());
        drop(db);
        drop(st);
        sim_sleep_ns(30_000_000_000);
    }
    fn check(&self, _plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if !v.is_empty() { return v; }
        for e in r.events::<E>() {
            match &e.e {
                E::Mark(m) => v.push(viol("job-result", m.clone())),
                E::Call(n, d, x) => {
                    if *d > 120_000_000_000 { v.push(viol("slow-call", format!("#{} {n} took {} s of simulated time", e.seq, d / 1_000_000_000))); }
                    if let Some(x) = x {
                        let ok = match n.as_str() { "tx" => x.contains("unique") || x.contains("conflict"), "poison-view" => x.contains("poison"), "poison-del" => x.contains("conflict") || x.contains("not found"), "user" | "admin" | "tmp" => true, _ => false };
                        if !ok { v.push(viol("call-failed", format!("#{} {n}: {x}", e.seq))); }
                    }
                }
                _ => {}
            }
        }
        v.truncate(3);
        v
    }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { hostile(plan) && r.epochs.iter().any(|e| e.history.len() > 20) }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> {
        r.events::<E>().iter().map(|e| format!("{:>12.6}s e{} t{} #{} {:?}", e.at as f64 / 1e9, e.epoch, e.tid, e.seq, e.e)).collect()
    }
}
/// Another scenario of which only the progress is judged.
pub struct Live(pub &'static dyn Scenario);
impl Scenario for Live {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan { self.0.plan(prop, seed, thorough) }
    fn epoch(&self, plan: &Plan, ep: usize) { self.0.epoch(plan, ep) }
    fn check(&self, _plan: &Plan, r: &RunResult) -> Vec<Violation> { crate::neb::attribute(r, base_checks(r)) }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { self.0.nontrivial(plan, r) }
    fn describe(&self, p: &Plan, r: &RunResult) -> Vec<String> { self.0.describe(p, r) }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { self.0.flags(img, crashed) }
}
