//! The key-value store: clients, expiration, persistence, and a per-key
//! linearizability oracle that spans closes and crashes.
use crate::common::*;
use crate::schema::*;
use bonsaidb_core::connection::{Connection, StorageConnection};
use bonsaidb_core::keyvalue::{Command, KeyCheck, KeyOperation, KeyStatus, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_local::config::*;
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    /// hash and length of bytes
    B(u64, u32),
    I(i64),
    U(u64),
    /// bits of a float
    F(u64),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Exp {
    No,
    At(i64),
    In(i64),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum KC {
    /// the content is derived from `seed`; ty 0 bytes, 1 serialized, 2 numeric; check 0 none, 1 present, 2 vacant
    Set { v: Val, seed: u64, ty: u8, exp: Exp, keep: bool, check: u8, prev: bool, raw: bool },
    Get { del: bool },
    Del,
    Add { v: Val, sat: bool, raw: bool },
    Sub { v: Val, sat: bool, raw: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum KR {
    Val(Option<Val>),
    Inserted,
    Updated,
    Deleted,
    NotChanged,
    NotNumeric,
    NaN,
    Err(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Open(i64),
    Inv(u8, KC, i64),
    Res(u64, KR, i64),
    Closed,
    Mark(String),
    Net(u64, String),
}
/// Namespace and key of each key number.
pub const KEYS: &[(Option<&str>, &str)] = &[(None, "k"), (Some("a"), "k"), (None, "ak"), (Some("ak"), ""), (Some("a"), "kk"), (Some("ä"), "k"), (None, "kk"), (Some("a"), "")];

pub fn ts(t: Timestamp) -> i64 { (t.seconds as i64).saturating_mul(1_000_000_000).saturating_add(t.nanos as i64) }
fn to_ts(w: i64) -> Timestamp { Timestamp { seconds: (w / 1_000_000_000) as u64, nanos: (w % 1_000_000_000) as u32 } }
fn wall() -> i64 { wall_ns() }
pub fn bytes_of(seed: u64) -> Vec<u8> {
    let n = match seed % 16 { 0 => 0, 1 => 9000, 2..=4 => 300, _ => 12 };
    (0..n).map(|i| mix(seed ^ (i as u64 / 8)).to_le_bytes()[i % 8]).collect()
}
pub fn val_of(v: &Value) -> Val {
    match v {
        Value::Bytes(b) => Val::B(fnv(b), b.len() as u32),
        Value::Numeric(Numeric::Integer(i)) => Val::I(*i),
        Value::Numeric(Numeric::UnsignedInteger(i)) => Val::U(*i),
        Value::Numeric(Numeric::Float(f)) => Val::F(f.to_bits()),
    }
}
fn num(v: Val) -> Numeric {
    match v { Val::I(i) => Numeric::Integer(i), Val::U(i) => Numeric::UnsignedInteger(i), Val::F(f) => Numeric::Float(f64::from_bits(f)), Val::B(..) => Numeric::Integer(0) }
}
fn krer(e: bonsaidb_core::Error) -> KR {
    match e {
        bonsaidb_core::Error::NotANumber => KR::NaN,
        o => { let s = o.to_string(); if s.contains("is not `Numeric`") { KR::NotNumeric } else { KR::Err(s) } }
    }
}
fn status(s: KeyStatus) -> KR {
    match s { KeyStatus::Inserted => KR::Inserted, KeyStatus::Updated => KR::Updated, KeyStatus::Deleted => KR::Deleted, KeyStatus::NotChanged => KR::NotChanged }
}
fn outp(o: Output) -> KR {
    match o { Output::Status(s) => status(s), Output::Value(v) => KR::Val(v.as_ref().map(val_of)) }
}
pub fn exec<K: KeyValue>(kv: &K, k: u8, c: &KC) -> KR {
    let (ns, key) = KEYS[k as usize];
    let r = match ns {
        Some(n) => exec_on(&kv.with_key_namespace(n), ns, key, c),
        None => exec_on(kv, ns, key, c),
    };
    r.unwrap_or_else(krer)
}
fn exec_on<K: KeyValue>(kv: &K, ns: Option<&str>, key: &str, c: &KC) -> Result<KR, bonsaidb_core::Error> {
    let raw_op = |command| KeyOperation { namespace: ns.map(str::to_string), key: key.to_string(), command };
    Ok(match c {
        KC::Set { v, seed, ty, exp, keep, check, prev, raw } => {
            let b = bytes_of(*seed);
            if *raw {
                let value = match ty { 0 => Value::Bytes(b.clone().into()), 1 => Value::Bytes(pot::to_vec(&b).unwrap().into()), _ => Value::Numeric(num(*v)) };
                let expiration = match exp { Exp::No => None, Exp::At(w) => Some(to_ts(*w)), Exp::In(d) => Some(to_ts(wall() + d)) };
                outp(kv.execute_key_operation(raw_op(Command::Set(SetCommand { value, expiration, keep_existing_expiration: *keep, check: match check { 1 => Some(KeyCheck::OnlyIfPresent), 2 => Some(KeyCheck::OnlyIfVacant), _ => None }, return_previous_value: *prev })))?)
            } else {
                macro_rules! go { ($b:expr) => {{
                    let mut x = $b;
                    x = match exp { Exp::No => x, Exp::At(w) => x.expire_at(UNIX_EPOCH + Duration::from_nanos(*w as u64)), Exp::In(d) => x.expire_in(Duration::from_nanos(*d as u64)) };
                    if *keep { x = x.keep_existing_expiration(); }
                    x = match check { 1 => x.only_if_exists(), 2 => x.only_if_vacant(), _ => x };
                    if *prev { KR::Val(x.returning_previous()?.as_ref().map(val_of)) } else { status(x.execute()?) }
                }} }
                match ty {
                    0 => go!(kv.set_binary_key(key, &b)),
                    1 => go!(kv.set_key(key, &b)),
                    _ => go!(kv.set_numeric_key(key, num(*v))),
                }
            }
        }
        KC::Get { del } => { let g = kv.get_key(key); KR::Val(if *del { g.and_delete().query()? } else { g.query()? }.as_ref().map(val_of)) }
        KC::Del => status(kv.delete_key(key)?),
        KC::Add { v, sat, raw } => {
            if *raw { return Ok(outp(kv.execute_key_operation(raw_op(Command::Increment { amount: num(*v), saturating: *sat }))?)); }
            match *v {
                Val::I(i) => { let b = kv.increment_key_by(key, i); KR::Val(Some(Val::I(if *sat { b } else { b.allow_overflow() }.execute()?))) }
                Val::F(f) => { let b = kv.increment_key_by(key, f64::from_bits(f)); KR::Val(Some(Val::F(if *sat { b } else { b.allow_overflow() }.execute()?.to_bits()))) }
                Val::U(i) => { let b = kv.increment_key_by(key, i); KR::Val(Some(Val::U(if *sat { b } else { b.allow_overflow() }.execute()?))) }
                _ => unreachable!(),
            }
        }
        KC::Sub { v, sat, raw } => {
            if *raw { return Ok(outp(kv.execute_key_operation(raw_op(Command::Decrement { amount: num(*v), saturating: *sat }))?)); }
            match *v {
                Val::I(i) => { let b = kv.decrement_key_by(key, i); KR::Val(Some(Val::I(if *sat { b } else { b.allow_overflow() }.execute()?))) }
                Val::F(f) => { let b = kv.decrement_key_by(key, f64::from_bits(f)); KR::Val(Some(Val::F(if *sat { b } else { b.allow_overflow() }.execute()?.to_bits()))) }
                Val::U(i) => { let b = kv.decrement_key_by(key, i); KR::Val(Some(Val::U(if *sat { b } else { b.allow_overflow() }.execute()?))) }
                _ => unreachable!(),
            }
        }
    })
}
pub fn call<K: KeyValue>(kv: &K, k: u8, c: KC) -> KR {
    let s = record(&E::Inv(k, c, wall()));
    let r = exec(kv, k, &c);
    match &r {
        KR::Err(m) if crate::docs::is_net(m) => { record(&E::Net(s, m.clone())); }
        _ => { record(&E::Res(s, r.clone(), wall())); }
    }
    r
}
const NUMS: &[Val] = &[Val::I(1), Val::I(-3), Val::I(i64::MAX), Val::I(i64::MIN), Val::U(1), Val::U(5), Val::U(u64::MAX), Val::U(1 << 63), Val::I(1000), Val::U(0)];
fn number(x: u64) -> Val {
    match x % 16 {
        i @ 0..=9 => NUMS[i as usize],
        10 => Val::F(1.5f64.to_bits()),
        11 => Val::F((-2.25e10f64).to_bits()),
        12 => Val::F(f64::INFINITY.to_bits()),
        13 => Val::F(f64::NAN.to_bits()),
        14 => Val::F(f64::NEG_INFINITY.to_bits()),
        _ => Val::U(7),
    }
}
/// Turns a planned operation into a call. Arguments: key, selector, selector 2.
pub fn make(o: &Op, uniq: u64, nkeys: u64) -> Option<(u8, KC)> {
    let k = (o.arg(0) as u64 % nkeys) as u8;
    let (x, y) = (o.arg(1) as u64, o.arg(2) as u64);
    let c = match o.k.as_str() {
        "set" => {
            let ty = match x % 8 { 0..=2 => 0, 3 => 1, _ => 2 };
            let seed = uniq * 16 + (x >> 3) % 16;
            let v = match ty {
                0 => { let b = bytes_of(seed); Val::B(fnv(&b), b.len() as u32) }
                1 => { let b = pot::to_vec(&bytes_of(seed)).unwrap(); Val::B(fnv(&b), b.len() as u32) }
                _ => if x >> 7 & 3 == 0 { number(x >> 9) } else { Val::U(uniq * 1000) },
            };
            let exp = match y % 8 {
                0..=3 => Exp::No,
                4 => Exp::At((wall() / 1_000_000_000 + (y as i64 >> 3) % 40) * 1_000_000_000),
                5 => Exp::At(wall() + ((y as i64 >> 3) % 3000 - 200) * 1_000_000),
                6 if y >> 40 & 1 == 1 => Exp::In((600 + (y as i64 >> 3) % 4000) * 1_000_000_000),
                6 => Exp::In((y as i64 >> 3) % 2000 * 1_000_000),
                _ => Exp::In((y as i64 >> 3) % 30 * 1_000_000_000),
            };
            KC::Set { v, seed, ty, exp: if o.arg(3) == 1 { exp } else { Exp::No }, keep: y >> 20 & 3 == 0 && o.arg(3) == 1, check: match y >> 22 & 7 { 0 => 1, 1 | 2 => 2, _ => 0 }, prev: y >> 25 & 1 == 1, raw: y >> 26 & 1 == 1 }
        }
        "get" => KC::Get { del: x % 6 == 0 },
        "del" => KC::Del,
        "add" | "sub" => {
            let v = if x & 3 == 0 { number(x >> 2) } else { Val::U(1 + (x >> 2) % 3) };
            if o.k == "add" { KC::Add { v, sat: y & 1 == 0, raw: y & 2 == 0 } } else { KC::Sub { v, sat: y & 1 == 0, raw: y & 2 == 0 } }
        }
        _ => return None,
    };
    Some((k, c))
}
pub fn persistence(plan: &Plan) -> (KeyValuePersistence, Option<i64>) {
    let s = 1_000_000_000i64;
    let t = PersistenceThreshold::after_changes;
    match plan.knob("persist") {
        1 => (KeyValuePersistence::lazy([t(1).and_duration(Duration::from_secs(5))]), Some(5 * s)),
        2 => (KeyValuePersistence::lazy([t(3).and_duration(Duration::ZERO), t(1).and_duration(Duration::from_secs(10))]), Some(10 * s)),
        3 => (KeyValuePersistence::lazy([t(1)]), Some(0)),
        4 => (KeyValuePersistence::lazy([t(5)]), None),
        5 => (KeyValuePersistence::lazy([t(2).and_duration(Duration::from_millis(200)), t(1).and_duration(Duration::from_secs(30)), t(9)]), Some(30 * s)),
        _ => (KeyValuePersistence::immediate(), Some(0)),
    }
}
pub fn open(plan: &Plan) -> Result<(Storage, Database), String> {
    set_epoch(plan);
    let cfg = crate::crypt::configure(plan, base_config(plan).with_schema::<DocSchema>().map_err(|e| e.to_string())?).key_value_persistence(persistence(plan).0);
    let st = Storage::open(cfg).map_err(|e| format!("open: {e}"))?;
    let db = st.create_database::<DocSchema>("db", true).map_err(|e| format!("create_database: {e}"))?;
    Ok((st, db))
}
pub fn set_epoch(plan: &Plan) { crate::docs::set_epoch_schema(plan, 0); }
fn open_rec(plan: &Plan) -> Option<(Storage, Database)> {
    match open(plan) {
        Ok(x) => { record(&E::Open(wall())); Some(x) }
        Err(e) => { record(&E::Mark(format!("open failed: {e}"))); None }
    }
}
/// Opens the storage again; only then has the previous opening ended cleanly.
fn reopen_rec(plan: &Plan) -> Option<(Storage, Database)> {
    match open(plan) {
        Ok(x) => { record(&E::Closed); record(&E::Open(wall())); Some(x) }
        Err(e) => { record(&E::Mark(format!("open failed: {e}"))); None }
    }
}
pub fn read_all<K: KeyValue>(kv: &K, n: u64) { for k in 0..n as u8 { call(kv, k, KC::Get { del: false }); } }

pub struct Kv;
impl Scenario for Kv {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan { plan(prop, seed, thorough) }
    fn epoch(&self, plan: &Plan, ep: usize) {
        let n = plan.knob("keys").clamp(1, KEYS.len() as i64) as u64;
        let last = ep + 1 == plan.epochs.len();
        freeze(last);
        if last { set_faults(false); }
        let Some((st, db)) = open_rec(plan) else { return };
        if last || plan.knob("readfirst") == 1 { read_all(&db, n); }
        let rt = if last { None } else { crate::blk::runtime(plan) };
        let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
            let db = db.clone();
            let adb = crate::blk::local(plan, &rt, t, &db);
            std::thread::Builder::new().name(format!("client{t}")).spawn(move || {
                for (i, o) in ops.iter().enumerate() {
                    match o.k.as_str() {
                        "sleep" => sim_sleep_ns(o.arg(0) as u64 * 1_000_000),
                        "compact" => { if let Err(e) = db.compact_key_value_store() { record(&E::Mark(format!("compact failed: {e}"))); } }
                        _ => if let Some((k, c)) = make(o, crate::docs::uniq(ep, t, i), n) { match &adb { Some(a) => { call(a, k, c); } None => { call(&db, k, c); } } }
                    }
                }
            }).unwrap()
        }).collect();
        for h in hs { let _ = h.join(); }
        drop(rt);
        if last {
            // everything that expires does so by now
            sim_sleep_ns(200_000_000_000);
            read_all(&db, n);
        } else if plan.knob("kill") == 1 {
            // exit without closing, possibly long after the last operation
            sim_sleep_ns(plan.knob("linger").max(0) as u64 * 1_000_000);
            std::mem::forget((st, db));
            return;
        }
        if plan.knob("droporder") == 1 { drop(st); drop(db); } else { drop(db); drop(st); }
        // background jobs may hold the last handle: the storage is closed when
        // it can be opened again
        if !(last || plan.knob("reopen") == 1) { sim_sleep_ns(100_000_000_000); record(&E::Closed); }
        if last || plan.knob("reopen") == 1 {
            let Some((st, db)) = reopen_rec(plan) else { return };
            read_all(&db, n);
            if last { for k in 0..n as u8 { call(&db, k, KC::Set { v: Val::U(k as u64), seed: 0, ty: 2, exp: Exp::No, keep: false, check: 0, prev: true, raw: false }); } }
            drop(db);
            drop(st);
            sim_sleep_ns(100_000_000_000);
            record(&E::Closed);
        }
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v.extend(check_kv(plan, r, &r.events::<E>())); }
        crate::neb::attribute(r, v)
    }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { crate::neb::flags(img, crashed) }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { hostile(plan) && r.epochs.iter().any(|e| e.history.len() > 6) }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> { describe(&r.events::<E>()) }
}
pub fn describe(ev: &[Ev<E>]) -> Vec<String> {
    ev.iter().map(|e| {
        let t = format!("{:>12.6}s e{} t{} #{}", e.at as f64 / 1e9, e.epoch, e.tid, e.seq);
        match &e.e {
            E::Inv(k, c, w) => format!("{t} {:?} {c:?} at {w}", KEYS[*k as usize]),
            E::Res(s, r, w) => format!("{t} of #{s}: {r:?} at {w}"),
            o => format!("{t} {o:?}"),
        }
    }).collect()
}

// ------------------------------------------------------------ oracle
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct St {
    val: Option<(Val, Option<(i64, i64)>)>,
    /// the expiration was set before this opening of the storage
    old: bool,
}
#[derive(Debug)]
struct KOp {
    inv: u64,
    res: u64,
    at: u64,
    w0: i64,
    begin: u64,
    w1: i64,
    c: KC,
    r: Option<KR>,
}
struct Seg {
    open: i64,
    opened: u64,
    ops: Vec<KOp>,
    clean: bool,
    /// changes acknowledged before this (simulated) time must be durable
    floor: Option<u64>,
    end: u64,
}
/// expired keys may be seen for this long after the storage was opened
const LOADER_GRACE: u64 = 60_000_000_000;
const SETTLE: u64 = 120_000_000_000;

fn nvalid(v: Val) -> bool { !matches!(v, Val::F(f) if f64::from_bits(f).is_nan()) }
fn arith(cur: Val, v: Val, sat: bool, add: bool) -> Val {
    match v {
        Val::I(a) => {
            let e = match cur { Val::I(i) => i, Val::U(u) => if sat { i64::try_from(u).unwrap_or(i64::MAX) } else { u as i64 }, Val::F(f) => f64::from_bits(f) as i64, _ => 0 };
            Val::I(match (sat, add) { (true, true) => e.saturating_add(a), (true, false) => e.saturating_sub(a), (false, true) => e.wrapping_add(a), (false, false) => e.wrapping_sub(a) })
        }
        Val::U(a) => {
            let e = match cur { Val::U(u) => u, Val::I(i) => if sat { u64::try_from(i).unwrap_or(0) } else { i as u64 }, Val::F(f) => f64::from_bits(f) as u64, _ => 0 };
            Val::U(match (sat, add) { (true, true) => e.saturating_add(a), (true, false) => e.saturating_sub(a), (false, true) => e.wrapping_add(a), (false, false) => e.wrapping_sub(a) })
        }
        Val::F(a) => {
            let e = match cur { Val::U(u) => u as f64, Val::I(i) => i as f64, Val::F(f) => f64::from_bits(f), _ => 0. };
            let a = f64::from_bits(a);
            Val::F(if add { e + a } else { e - a }.to_bits())
        }
        b => b,
    }
}
/// Result and next state of a call on a key that is visible (`s.val`) or not.
fn step(c: &KC, s: St, w0: i64, w1: i64) -> (KR, St) {
    match c {
        KC::Set { v, exp, keep, check, prev, .. } => {
            if !nvalid(*v) { return (KR::NaN, s); }
            if *check == 1 && s.val.is_none() || *check == 2 && s.val.is_some() {
                return (if *prev { KR::Val(None) } else { KR::NotChanged }, s);
            }
            let mut e = match exp { Exp::No => None, Exp::At(t) => Some((*t, *t)), Exp::In(d) => Some((w0 + d, w1.saturating_add(*d))) };
            if *keep { if let Some((_, x)) = s.val { e = x; } }
            let r = if *prev { KR::Val(s.val.map(|x| x.0)) } else if s.val.is_some() { KR::Updated } else { KR::Inserted };
            (r, St { val: Some((*v, e)), old: false })
        }
        KC::Get { del } => (KR::Val(s.val.map(|x| x.0)), if *del { St { val: None, old: false } } else { s }),
        KC::Del => (if s.val.is_some() { KR::Deleted } else { KR::NotChanged }, St { val: None, old: false }),
        KC::Add { v, sat, .. } | KC::Sub { v, sat, .. } => {
            let (cur, e) = s.val.unwrap_or((Val::U(0), None));
            if matches!(cur, Val::B(..)) { return (KR::NotNumeric, s); }
            let n = arith(cur, *v, *sat, matches!(c, KC::Add { .. }));
            if !nvalid(n) { return (KR::NaN, s); }
            (KR::Val(Some(n)), St { val: Some((n, e)), old: s.old })
        }
    }
}
/// A raw call returns `Status(NotChanged)` where the builder returns no previous value.
fn same(c: &KC, got: &KR, want: &KR) -> bool {
    got == want || matches!(c, KC::Set { prev: true, raw: true, .. }) && *got == KR::NotChanged && *want == KR::Val(None)
        || matches!((got, want), (KR::Val(Some(Val::F(a))), KR::Val(Some(Val::F(b)))) if f64::from_bits(*a) == f64::from_bits(*b))
}
fn changes(c: &KC, r: &KR) -> bool {
    match c {
        KC::Set { check, .. } => match r { KR::NotChanged | KR::NaN | KR::Err(_) | KR::NotNumeric => false, KR::Val(None) => *check == 0, _ => true },
        KC::Get { del } => *del && matches!(r, KR::Val(Some(_))),
        KC::Del => *r == KR::Deleted,
        _ => matches!(r, KR::Val(_)),
    }
}
struct Search<'a> {
    seg: &'a Seg,
    /// order of invocation
    required: Vec<bool>,
    memo: HashMap<(Vec<u64>, St, i64), bool>,
    out: HashSet<St>,
    nodes: usize,
    deepest: usize,
}
const MAXN: usize = 400_000;
impl<'a> Search<'a> {
    fn go(&mut self, done: &mut Vec<u64>, n: usize, s: St, tmin: i64) -> bool {
        self.nodes += 1;
        if self.nodes > MAXN { return true; }
        let key = (done.clone(), s, tmin);
        if let Some(b) = self.memo.get(&key) { return *b; }
        self.deepest = self.deepest.max(n);
        let seg = self.seg;
        let is = |d: &Vec<u64>, i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        let mut ok = (0..seg.ops.len()).all(|i| is(done, i) || seg.ops[i].r.is_none());
        if ok && seg.clean { self.out.insert(s); }
        // candidates: invoked before every unfinished call's return
        let bound = (0..seg.ops.len()).filter(|i| !is(done, *i)).map(|i| seg.ops[i].res).min().unwrap_or(0);
        for i in 0..seg.ops.len() {
            if is(done, i) || seg.ops[i].inv > bound { continue; }
            let o = &seg.ops[i];
            let t0 = tmin.max(o.w0);
            let mut alts: Vec<(St, i64)> = vec![];
            match s.val {
                Some((_, Some((t1, t2)))) => {
                    if t0 < t2 || s.old && o.begin < seg.opened + LOADER_GRACE { alts.push((s, t0)); }
                    if t0.max(t1) <= o.w1 { alts.push((St { val: None, old: false }, t0.max(t1))); }
                }
                _ => alts.push((s, t0)),
            }
            for (x, t) in alts {
                let (r, nx) = step(&o.c, x, o.w0, o.w1);
                if let Some(got) = &o.r { if !same(&o.c, got, &r) { continue; } }
                done[i / 64] |= 1 << (i % 64);
                // times matter only while an expiration is pending
                let b = self.go(done, n + 1, nx, t);
                done[i / 64] &= !(1 << (i % 64));
                ok |= b;
            }
        }
        if ok && !seg.clean && (0..seg.ops.len()).all(|i| is(done, i) || !self.required[i]) { self.out.insert(s); }
        self.memo.insert(key, ok);
        ok
    }
}
pub fn check_kv(plan: &Plan, r: &RunResult, ev: &[Ev<E>]) -> Vec<Violation> {
    let n = plan.knob("keys").clamp(1, KEYS.len() as i64) as u64;
    for e in ev {
        match &e.e {
            E::Mark(m) if m.starts_with("open failed") => return vec![viol("open-failed", format!("epoch {}: {m}", e.epoch))],
            E::Mark(m) => return vec![viol("unexpected-error", format!("epoch {}: {m}", e.epoch))],
            E::Res(s, KR::Err(m), _) => return vec![viol("unexpected-error", format!("call #{s}: {m}"))],
            _ => {}
        }
    }
    let delay = persistence(plan).1;
    for k in 0..n as u8 {
        let mut segs: Vec<Seg> = vec![];
        let mut idx: HashMap<u64, (usize, usize)> = HashMap::new();
        let mut at_open: Vec<usize> = vec![];
        for e in ev {
            match &e.e {
                E::Open(w) => { segs.push(Seg { open: *w, opened: e.at, ops: vec![], clean: false, floor: None, end: r.epochs[e.epoch].now }); at_open.push(e.epoch); }
                E::Closed => { if let Some(s) = segs.last_mut() { s.clean = true; } }
                E::Inv(kk, c, w) if *kk == k => {
                    let s = segs.len() - 1;
                    idx.insert(e.seq, (s, segs[s].ops.len()));
                    segs[s].ops.push(KOp { inv: e.seq, res: u64::MAX, at: u64::MAX, w0: *w, begin: e.at, w1: i64::MAX / 4, c: *c, r: None });
                }
                E::Res(i, r, w) => if let Some((s, o)) = idx.get(i) { let o = &mut segs[*s].ops[*o]; o.res = e.seq; o.at = e.at; o.w1 = *w; o.r = Some(r.clone()); },
                _ => {}
            }
        }
        let mut init: BTreeSet<St> = [St { val: None, old: true }].into();
        let mut back: BTreeSet<St> = BTreeSet::new();
        for (si, seg) in segs.iter_mut().enumerate() {
            if !seg.clean { seg.floor = delay.map(|d| seg.end.saturating_sub(SETTLE + d as u64)); }
            let seg = &*seg;
            let required: Vec<bool> = seg.ops.iter().map(|o| !seg.clean && seg.floor.map_or(false, |f| o.at <= f) && o.r.as_ref().map_or(false, |r| changes(&o.c, r))).collect();
            let any_required = required.iter().any(|x| *x);
            let mut out = HashSet::new();
            let mut ok = false;
            let mut deepest = 0;
            let mut over = false;
            for s0 in init.iter().chain(back.iter()) {
                let mut se = Search { seg, required: required.clone(), memo: HashMap::new(), out: HashSet::new(), nodes: 0, deepest: 0 };
                let b = se.go(&mut vec![0; seg.ops.len() / 64 + 1], 0, *s0, seg.open);
                over |= se.nodes > MAXN;
                ok |= b;
                deepest = deepest.max(se.deepest);
                if b { out.extend(se.out); }
            }
            if over { probe_over(); break; }
            if !ok {
                let cls = if seg.ops.iter().any(|o| matches!(o.c, KC::Set { exp: Exp::At(_) | Exp::In(_), .. })) || init.iter().any(|s| matches!(s.val, Some((_, Some(_))))) { "kv-expiration" } else { "kv-history" };
                let h: Vec<String> = seg.ops.iter().map(|o| format!("#{}{:?}->{:?}", o.inv, o.c, o.r)).collect();
                let h = if h.len() > 14 { format!("{} .. {}", h[..7].join("; "), h[h.len() - 7..].join("; ")) } else { h.join("; ") };
                return vec![viol(cls, format!("key {:?}, opening {si} (epoch {}): no order of the calls explains the results from {} possible states {:?}; at most {deepest} of {} calls can be ordered: {h}", KEYS[k as usize], at_open[si], init.len(), init.iter().take(3).collect::<Vec<_>>(), seg.ops.len()))];
            }
            let mutated = seg.ops.iter().any(|o| o.r.as_ref().map_or(false, |r| changes(&o.c, r)));
            if seg.clean && mutated || any_required { back.clear(); } else if !seg.clean { let b: Vec<St> = init.iter().copied().collect(); back.extend(b); }
            init = out.into_iter().map(|s| St { old: true, ..s }).collect();
            back = back.into_iter().map(|s| St { old: true, ..s }).collect();
            if init.len() + back.len() > 400 { break; }
        }
    }
    vec![]
}
fn probe_over() {}

pub fn plan(prop: &str, seed: u64, thorough: bool) -> Plan {
    let mut rng = Rng::new(mix(seed ^ 0x6b76));
    let r = &mut rng;
    let mut p = Plan { prop: prop.into(), scenario: "kv".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
    std_knobs(&mut p, r);
    let expire = match prop { "C12" => true, "C10" => r.chance(1, 4), _ => r.chance(1, 3) };
    let k = match prop { "C10" => r.range(1, 3), "C12" => r.range(1, 4), _ => r.range(1, 6) };
    p.knobs.insert("keys".into(), if r.chance(1, 3) { KEYS.len() as i64 } else { k as i64 });
    p.knobs.insert("persist".into(), if prop == "C10" { *r.pick(&[0, 0, 2, 4]) } else { *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5]) });
    p.knobs.insert("kill".into(), (prop != "C10" && r.chance(1, if prop == "C11" { 2 } else { 4 })) as i64);
    p.knobs.insert("linger".into(), *r.pick(&[0, 0, 500, 20_000, 160_000, 160_000]));
    p.knobs.insert("reopen".into(), r.chance(1, 2) as i64);
    p.knobs.insert("droporder".into(), r.chance(1, 2) as i64);
    p.knobs.insert("readfirst".into(), r.chance(1, 2) as i64);
    if r.chance(1, 4) { p.sim.clock_jump_p = *r.pick(&[20, 200]); p.sim.clock_jump_max_ns = *r.pick(&[2_000_000, 3_000_000_000, 40_000_000_000]); }
    let neps = match prop { "C10" => 1, _ => if thorough { r.range(2, 5) } else { r.range(1, 3) } } as usize;
    let sleeps: &[u64] = if expire { &[1, 300, 1000, 5000, 40_000, 160_000] } else { &[1, 300, 5000, 160_000] };
    let sleep_p = match prop { "C10" => 2, "C12" => 20, _ => 12 };
    for _ in 0..neps {
        let nt = r.range(1, if prop == "C10" { 4 } else { 3 }) as usize;
        let per = if prop == "C10" { r.range(3, 22) } else { r.range(2, 16) };
        let mut ep = EpochPlan::default();
        let mut total = 0;
        for _ in 0..nt {
            let mut t = vec![];
            for _ in 0..per {
                let key = r.below(8) as i64;
                let (x, y) = ((r.next() >> 20) as i64, (r.next() >> 20) as i64);
                let c = r.below(100);
                t.push(if c < sleep_p { Op::new("sleep", &[*r.pick(sleeps) as i64]) } else if c < sleep_p + 2 { Op::new("compact", &[]) } else {
                    match r.below(20) {
                        0..=6 => Op::new("set", &[key, x, y, expire as i64]),
                        7..=11 => Op::new("get", &[key, x]),
                        12..=13 => Op::new("del", &[key]),
                        14..=17 => Op::new("add", &[key, x, y]),
                        _ => Op::new("sub", &[key, x, y]),
                    }
                });
                total += 1;
            }
            ep.threads.push(t);
        }
        if prop != "C10" && r.chance(1, 2) { ep.crash_at = Some(r.range(1, 30 + 8 * total as u64)); ep.crash_mode = crash_mode(r); }
        p.epochs.push(ep);
    }
    // verification
    p.epochs.push(EpochPlan::default());
    crate::crypt::plan_knobs(prop, &mut p, r);
    p
}
#[allow(dead_code)]
fn _t(_: SystemTime) {}
