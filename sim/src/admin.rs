//! C14: creating, opening, using, listing and deleting databases, with crashes.
use crate::common::*;
use crate::lin::*;
use crate::schema::*;
use bonsaidb_core::connection::{AccessPolicy, Connection, StorageConnection};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::schema::{Collection, Qualified, Schema, SchemaName, Schematic};
use bonsaidb_local::config::*;
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Debug)]
pub struct AltSchema;
impl Schema for AltSchema {
    fn schema_name() -> SchemaName { SchemaName::new("t", "alt") }
    fn define_collections(s: &mut Schematic) -> Result<(), bonsaidb_core::Error> { s.define_collection::<A>() }
}
#[derive(Debug)]
pub struct NoSchema;
impl Schema for NoSchema {
    fn schema_name() -> SchemaName { SchemaName::new("t", "none") }
    fn define_collections(s: &mut Schematic) -> Result<(), bonsaidb_core::Error> { s.define_collection::<A>() }
}
/// The first USED names are used for contents, the next ones only created, opened and deleted.
pub const USED: usize = 4;
pub const VALID: usize = 7;
pub const NAMES: &[&str] = &["a", "ab", "_x", "a.b", "z-1", "A", "9", "", "..", ".", "a/b", "../x", "-a", ".a", "a b", "\u{e4}", "vault-keys", "storage-id", "master-keys", "a_b", "a\0", "/simfs/q"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    /// name, schema, only if needed, typed (creates and opens)
    Create(u8, u8, bool, bool),
    /// name, schema: opens and drops
    Open(u8, u8),
    Delete(u8),
    List,
    /// name, unique number
    Insert(u8, u64),
    /// name: all documents; true: by a view
    Read(u8, bool),
    Set(u8, u64),
    Get(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ret {
    Ok,
    Taken,
    NotFound,
    Mismatch(u8),
    NotRegistered,
    Invalid,
    List(Vec<(String, u8)>),
    Docs(Vec<u64>),
    Val(Option<u64>),
    Other(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Open,
    Inv(Call),
    Res(u64, Ret),
    Closed,
    Mark(String),
}
fn schema_no(s: &SchemaName) -> u8 { if *s == DocSchema::schema_name() { 0 } else if *s == AltSchema::schema_name() { 1 } else if *s == NoSchema::schema_name() { 2 } else { 9 } }
fn schema_name(i: u8) -> SchemaName { match i { 0 => DocSchema::schema_name(), 1 => AltSchema::schema_name(), _ => NoSchema::schema_name() } }
fn er(e: bonsaidb_core::Error) -> Ret {
    use bonsaidb_core::Error as X;
    match e {
        X::DatabaseNameAlreadyTaken(_) => Ret::Taken,
        X::DatabaseNotFound(_) => Ret::NotFound,
        X::SchemaMismatch { stored_schema, .. } => Ret::Mismatch(schema_no(&stored_schema)),
        X::SchemaNotRegistered(_) => Ret::NotRegistered,
        X::InvalidDatabaseName(_) => Ret::Invalid,
        e => Ret::Other(e.to_string()),
    }
}
pub fn open(plan: &Plan) -> Result<Storage, String> {
    let mut c = base_config(plan).with_schema::<DocSchema>().map_err(|e| e.to_string())?.with_schema::<AltSchema>().map_err(|e| e.to_string())?;
    if plan.knob("mem") == 1 { c = c.memory_only(); }
    Storage::open(c).map_err(|e| e.to_string())
}
fn inv(c: Call) -> u64 { record(&E::Inv(c)) }
fn res(i: u64, r: Ret) { record(&E::Res(i, r)); }
fn typed_open(st: &Storage, n: &str, s: u8) -> Result<Database, bonsaidb_core::Error> {
    match s { 0 => st.database::<DocSchema>(n), 1 => st.database::<AltSchema>(n), _ => st.database::<NoSchema>(n) }
}
fn body(uniq: u64) -> Body { Body { uniq, k: (uniq % 7) as u32, k2: NO_KEY, n: uniq as i64, tags: 0, pad: 0 } }
fn read(db: &Database, n: u8, view: bool) {
    let i = inv(Call::Read(n, view));
    let r = if view {
        db.view::<ByKey>().with_access_policy(AccessPolicy::UpdateBefore).query().map(|m| m.iter().map(|m| m.value.1 as u64).collect::<Vec<_>>())
    } else {
        db.collection::<A>().all().query().map(|d| d.iter().map(|d| Body::parse(&d.contents).map_or(0, |b| b.uniq)).collect())
    };
    res(i, match r { Ok(mut v) => { v.sort_unstable(); Ret::Docs(v) } Err(e) => er(e) });
}
fn get(db: &Database, n: u8) {
    let i = inv(Call::Get(n));
    let r = db.get_key("k").into_u64();
    res(i, match r { Ok(v) => Ret::Val(v), Err(e) => er(e) });
}
fn list(st: &Storage) {
    let i = inv(Call::List);
    res(i, match st.list_databases() {
        Ok(l) => { let mut v: Vec<(String, u8)> = l.into_iter().map(|d| (d.name, schema_no(&d.schema))).collect(); v.sort(); Ret::List(v) }
        Err(e) => er(e),
    });
}
type Locks = Arc<Vec<std::sync::RwLock<()>>>;

fn create(st: &Storage, n: u8, s: u8, only: bool, typed: bool) -> Option<Database> {
    let name = NAMES[n as usize];
    let i = inv(Call::Create(n, s, only, typed));
    if typed {
        let r = match s { 0 => st.create_database::<DocSchema>(name, only), 1 => st.create_database::<AltSchema>(name, only), _ => st.create_database::<NoSchema>(name, only) };
        match r { Ok(d) => { res(i, Ret::Ok); Some(d) } Err(e) => { res(i, er(e)); None } }
    } else {
        res(i, match st.create_database_with_schema(name, schema_name(s), only) { Ok(()) => Ret::Ok, Err(e) => er(e) });
        None
    }
}
fn use_db(db: &Database, n: u8, uniq: u64, what: i64) {
    if what & 1 == 1 { read(db, n, false); }
    if what & 2 == 2 {
        let i = inv(Call::Insert(n, uniq));
        res(i, match db.collection::<A>().push_bytes(body(uniq).bytes()) { Ok(_) => Ret::Ok, Err(e) => er(e) });
    }
    if what & 4 == 4 { get(db, n); }
    if what & 8 == 8 {
        let i = inv(Call::Set(n, uniq));
        res(i, match db.set_numeric_key("k", uniq).execute() { Ok(_) => Ret::Ok, Err(e) => er(e) });
    }
    if what & 16 == 16 { read(db, n, true); }
    // leaves a background job behind
    if what & 32 == 32 { let _ = db.view::<ByKey>().with_access_policy(AccessPolicy::UpdateAfter).query(); }
}
fn client(st: &Storage, locks: &Locks, ep: usize, t: usize, ops: &[Op]) {
    for (k, o) in ops.iter().enumerate() {
        let uniq = crate::docs::uniq(ep, t, k);
        let n = (o.arg(0) as usize % NAMES.len()) as u8;
        let used = (n as usize) < USED;
        let (a, b) = (o.arg(1), o.arg(2));
        match o.k.as_str() {
            "create" => {
                let s = (a % 3) as u8;
                if used || n as usize >= VALID {
                    let _g = used.then(|| locks[n as usize].read().unwrap());
                    if let Some(db) = create(st, n, s, b & 1 == 1, b & 2 == 2) { if used { use_db(&db, n, uniq, b >> 2 & 31); } }
                } else { create(st, n, s, b & 1 == 1, false); }
            }
            "use" if used => {
                let _g = locks[n as usize].read().unwrap();
                let s = (a % 7 == 0) as u8;
                let i = inv(Call::Open(n, s));
                match typed_open(st, NAMES[n as usize], s) {
                    Ok(db) => { res(i, Ret::Ok); use_db(&db, n, uniq, b & 63); }
                    Err(e) => res(i, er(e)),
                }
            }
            "open" | "use" => {
                let s = (a % 3) as u8;
                let i = inv(Call::Open(n, s));
                match typed_open(st, NAMES[n as usize], s) { Ok(db) => { res(i, Ret::Ok); drop(db); } Err(e) => res(i, er(e)) }
            }
            "delete" => {
                let _g = used.then(|| locks[n as usize].write().unwrap());
                let i = inv(Call::Delete(n));
                res(i, match st.delete_database(NAMES[n as usize]) { Ok(()) => Ret::Ok, Err(e) => er(e) });
            }
            "list" => list(st),
            "sleep" => sim_sleep_ns(a as u64 * 1_000_000),
            _ => {}
        }
    }
}
pub struct Adm;
impl Scenario for Adm {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x61646d));
        let r = &mut rng;
        let mut p = Plan { prop: prop.into(), scenario: "admin".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
        std_knobs(&mut p, r);
        let mem = r.chance(1, 8);
        p.knobs.insert("mem".into(), mem as i64);
        let names = r.range(1, 4);
        for _ in 0..(if mem { 1 } else { r.range(1, if thorough { 5 } else { 3 }) }) {
            let mut ep = EpochPlan::default();
            let mut total = 0;
            for _ in 0..r.range(1, 4) {
                let mut ops = vec![];
                for _ in 0..r.range(2, 14) {
                    let n = match r.below(12) { 0..=7 => r.below(names.min(USED as u64)) as i64, 8..=9 => USED as i64 + r.below((VALID - USED) as u64) as i64, 10 => r.below(VALID as u64) as i64, _ => VALID as i64 + r.below((NAMES.len() - VALID) as u64) as i64 };
                    let s = if r.chance(1, 8) { r.range(1, 2) as i64 } else { 0 };
                    let b = (r.next() >> 40) as i64;
                    ops.push(match r.below(20) {
                        0..=5 => Op::new("create", &[n, s, b]),
                        6..=12 => Op::new("use", &[n, 1 + r.below(8) as i64, b]),
                        13..=14 => Op::new("open", &[n, s]),
                        15..=17 => Op::new("delete", &[n]),
                        18 => Op::new("list", &[]),
                        _ => Op::new("sleep", &[0, *r.pick(&[1, 50, 400])]),
                    });
                    total += 1;
                }
                ep.threads.push(ops);
            }
            if !mem && r.chance(3, 5) { ep.crash_at = Some(r.range(1, 40 + 12 * total as u64)); ep.crash_mode = crash_mode(r); }
            p.epochs.push(ep);
        }
        if !mem { p.epochs.push(EpochPlan::default()); }
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        let last = ep + 1 == plan.epochs.len();
        freeze(last && ep > 0);
        if last && ep > 0 { set_faults(false); }
        let st = match open(plan) { Ok(x) => x, Err(e) => { record(&E::Mark(format!("open failed: {e}"))); return } };
        record(&E::Open);
        list(&st);
        let locks: Locks = Arc::new((0..USED).map(|_| std::sync::RwLock::new(())).collect());
        let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
            let (st, locks) = (st.clone(), locks.clone());
            std::thread::Builder::new().name(format!("client{t}")).spawn(move || client(&st, &locks, ep, t, &ops)).unwrap()
        }).collect();
        for h in hs { let _ = h.join(); }
        list(&st);
        for n in 0..VALID as u8 {
            for s in 0..2 {
                let i = inv(Call::Open(n, s));
                match typed_open(&st, NAMES[n as usize], s) {
                    Ok(db) => { res(i, Ret::Ok); read(&db, n, false); if s == 0 { read(&db, n, true); } get(&db, n); }
                    Err(e) => res(i, er(e)),
                }
            }
        }
        drop(st);
        sim_sleep_ns(100_000_000_000);
        record(&E::Closed);
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v = check_adm(plan, r, &r.events::<E>()); }
        crate::neb::attribute(r, v)
    }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { crate::neb::flags(img, crashed) }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { hostile(plan) && r.epochs.iter().any(|e| e.history.len() > 40) }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> {
        r.events::<E>().iter().map(|e| {
            let t = format!("{:>12.6}s e{} t{} #{}", e.at as f64 / 1e9, e.epoch, e.tid, e.seq);
            match &e.e { E::Inv(c) => format!("{t} {:?} {c:?}", match c { Call::List => "", Call::Create(n, ..) | Call::Open(n, _) | Call::Delete(n) | Call::Insert(n, _) | Call::Read(n, _) | Call::Set(n, _) | Call::Get(n) => NAMES[*n as usize] }), x => format!("{t} {x:?}") }
        }).collect()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
struct Db {
    schema: u8,
    docs: BTreeSet<u64>,
    kv: Option<u64>,
    /// every value `kv` had
    hist: BTreeSet<Option<u64>>,
    /// a crash may have taken back `kv`
    fuzzy: bool,
}
type St = Option<Db>;
fn fresh(schema: u8) -> Db { Db { schema, hist: [None].into(), ..Db::default() } }
/// the call with its result (none: unknown) on the database called `name`
fn step(name: u8, c: &Call, r: &Option<Ret>, s: &St) -> Vec<St> {
    let is = |x: Ret| r.as_ref().map_or(true, |r| *r == x);
    let same = |ok: bool| if ok { vec![s.clone()] } else { vec![] };
    match c {
        Call::Create(_, sch, only, typed) => {
            if name as usize >= VALID { return same(is(Ret::Invalid)); }
            if *sch == 2 { return same(is(Ret::NotRegistered)); }
            match s {
                None => if is(Ret::Ok) { vec![Some(fresh(*sch))] } else { vec![] },
                Some(d) => {
                    if !*only { return same(is(Ret::Taken)); }
                    if *typed && d.schema != *sch { return same(is(Ret::Mismatch(d.schema))); }
                    same(is(Ret::Ok))
                }
            }
        }
        Call::Open(_, sch) => match s {
            None => same(is(Ret::NotFound)),
            Some(d) if d.schema != *sch => same(is(Ret::Mismatch(d.schema))),
            Some(_) => same(is(Ret::Ok)),
        },
        Call::Delete(_) => match s {
            None => same(is(Ret::NotFound)),
            Some(_) => if is(Ret::Ok) { vec![None] } else { vec![] },
        },
        Call::List => match r {
            Some(Ret::List(l)) => {
                let got: Vec<u8> = l.iter().filter(|x| x.0 == NAMES[name as usize]).map(|x| x.1).collect();
                same(match s { None => got.is_empty(), Some(d) => got == [d.schema] })
            }
            None => same(true),
            _ => vec![],
        },
        Call::Insert(_, u) => match s { Some(d) if is(Ret::Ok) => { let mut d = d.clone(); d.docs.insert(*u); vec![Some(d)] } _ => vec![] },
        Call::Read(..) => match s { Some(d) => same(is(Ret::Docs(d.docs.iter().copied().collect()))), None => vec![] },
        Call::Set(_, u) => match s { Some(d) if is(Ret::Ok) => { let mut d = d.clone(); d.kv = Some(*u); d.hist.insert(Some(*u)); d.fuzzy = false; vec![Some(d)] } _ => vec![] },
        Call::Get(_) => match (s, r) {
            (Some(d), Some(Ret::Val(v))) => {
                if d.fuzzy && d.hist.contains(v) { let mut d = d.clone(); d.kv = *v; d.fuzzy = false; return vec![Some(d)]; }
                same(d.kv == *v)
            }
            (Some(_), None) => same(true),
            _ => vec![],
        },
    }
}
fn name_of(c: &Call) -> Option<u8> {
    match c { Call::List => None, Call::Create(n, ..) | Call::Open(n, _) | Call::Delete(n) | Call::Insert(n, _) | Call::Read(n, _) | Call::Set(n, _) | Call::Get(n) => Some(*n) }
}
fn check_adm(_plan: &Plan, r: &RunResult, ev: &[Ev<E>]) -> Vec<Violation> {
    for e in ev {
        match &e.e {
            E::Mark(m) => return vec![viol("open-failed", format!("epoch {}: {m}", e.epoch))],
            E::Res(s, Ret::Other(m)) => {
                // known: jobs of a deleted database work on the files of a new one of its name
                let name = ev.iter().find_map(|x| match &x.e { E::Inv(c) if x.seq == *s => name_of(c), _ => None });
                let deleted = ev.iter().find(|x| x.epoch == e.epoch && x.seq < e.seq && matches!(&x.e, E::Inv(Call::Delete(n)) if Some(*n) == name)).map(|x| x.seq);
                let again = ev.iter().any(|x| x.epoch == e.epoch && x.seq < e.seq && deleted.map_or(false, |d| x.seq > d) && matches!(&x.e, E::Inv(Call::Create(n, ..)) if Some(*n) == name));
                return vec![viol(if again && m.contains("the file has been compacted") { "stale-job" } else { "unexpected-error" }, format!("call #{s}: {m}"))];
            }
            E::Res(s, Ret::List(l)) => {
                for (n, _) in l {
                    if n != "_admin" && !NAMES[..VALID].contains(&&n[..]) { return vec![viol("admin-list", format!("call #{s} lists {n:?}"))]; }
                    if l.iter().filter(|x| x.0 == *n).count() > 1 { return vec![viol("admin-list", format!("call #{s} lists {n:?} twice"))]; }
                }
            }
            _ => {}
        }
    }
    let results: HashMap<u64, (u64, Ret)> = ev.iter().filter_map(|e| match &e.e { E::Res(i, r) => Some((*i, (e.seq, r.clone()))), _ => None }).collect();
    for n in 0..NAMES.len() as u8 {
        let mut init: Vec<St> = vec![None];
        for ep in 0..r.epochs.len() {
            let ops: Vec<LOp<(Call, Option<Ret>)>> = ev.iter().filter(|e| e.epoch == ep).filter_map(|e| match &e.e {
                E::Inv(c) if name_of(c).map_or(true, |x| x == n) => {
                    let r = results.get(&e.seq);
                    Some(LOp { inv: e.seq, res: r.map_or(u64::MAX, |r| r.0), c: (c.clone(), r.map(|r| r.1.clone())) })
                }
                _ => None,
            }).collect();
            let l = lin(&ops, &init, 200_000, &|c, s| step(n, &c.0, &c.1, s));
            if l.over { break; }
            if l.out.is_empty() {
                let h: Vec<String> = ops.iter().map(|o| format!("#{} {:?} -> {:?}", o.inv, o.c.0, o.c.1)).collect();
                let from = l.deepest.saturating_sub(6).min(h.len());
                let to = (l.deepest + 8).min(h.len());
                return vec![viol("admin-history", format!("database {:?}, epoch {ep}: no order of the calls explains the results from {} possible states {:?}; at most {} of {} calls can be ordered: {}", NAMES[n as usize], init.len(), init.iter().take(2).collect::<Vec<_>>(), l.deepest, ops.len(), h[from..to].join("; ")))];
            }
            let crashed = r.epochs[ep].outcome == Outcome::Crashed;
            init = l.out;
            if crashed { for s in init.iter_mut().flatten() { s.fuzzy = true; } }
            init.sort();
            init.dedup();
            if init.len() > 2000 { break; }
        }
    }
    vec![]
}
#[allow(dead_code)]
fn _c<T: Collection>() {}
