//! Documents, views, transaction log, compaction: clients and oracle.
use crate::common::*;
use crate::schema::*;
use bonsaidb_core::connection::{AccessPolicy, Bound, Connection, Range, SerializedQueryKey, Sort, StorageConnection};
use bonsaidb_core::document::{Header, Revision};
use bonsaidb_core::transaction::{Changes, Command, Operation, OperationResult, Transaction};
use bonsaidb_local::config::*;
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Ins(Option<u64>, Body),
    Upd(Hd, Body),
    Ovw(u64, Body),
    Del(Hd),
    Chk(u64, Option<Rev>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ROp {
    pub c: u8,
    pub cmd: Cmd,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum OpR {
    Ok,
    Upd(u8, Hd),
    Del(u8, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Er {
    Conflict(u8, Hd),
    NotFound(u8, u64),
    Unique { view: u8, conf: Hd, exist: Hd },
    Other(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum VQ {
    All,
    Is(Vec<u8>),
    Range(Bd, Bd),
    Many(Vec<Vec<u8>>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bd {
    No,
    Inc(Vec<u8>),
    Exc(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IdRange {
    pub lo: Bd,
    pub hi: Bd,
    pub desc: bool,
    pub limit: Option<u32>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pol {
    Before,
    After,
    No,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    Tx(Vec<ROp>),
    DelView(u8, VQ, Pol),
    Get(u8, u64),
    GetM(u8, Vec<u64>),
    List(u8, IdRange),
    Heads(u8, IdRange),
    Count(u8, IdRange),
    View { v: u8, q: VQ, desc: bool, limit: Option<u32>, pol: Pol, docs: bool },
    Red(u8, VQ, Pol),
    RedG(u8, VQ, Pol),
    Log(Option<u64>, Option<u32>),
    Last,
    Compact(u8),
    CompactDb,
    CompactKv,
}
pub type DocR = (Hd, u64, u32); // header, content hash, content length
pub type MapR = (Hd, Vec<u8>, Val);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ret {
    Tx(Vec<OpR>),
    N(u64),
    Docs(Vec<DocR>),
    Heads(Vec<Hd>),
    Maps(Vec<MapR>, Vec<DocR>),
    Val(Val),
    Vals(Vec<(Vec<u8>, Val)>),
    Log(Vec<(u64, Option<Vec<(u8, u64, bool)>>)>),
    Last(Option<u64>),
    Unit,
    Err(Er),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Open(bool),
    Inv(Call),
    Res(u64, Ret),
    Mark(String),
    /// a remote call ended without an answer
    Net(u64, String),
    /// bound on the duration of a call (ns), number of calls that had to succeed
    Note(String),
}

// ------------------------------------------------------------ clients
fn rev(r: &Rev, full: &BTreeMap<Rev, Revision>) -> Revision {
    full.get(r).copied().unwrap_or(Revision { id: r.0, sha256: [7; 32] })
}
/// What the clients know: headers they have seen.
#[derive(Default)]
pub struct Know {
    heads: BTreeMap<(u8, u64), Vec<Hd>>,
    full: BTreeMap<Rev, Revision>,
    bodies: BTreeMap<Rev, Body>,
}
impl Know {
    fn see(&mut self, c: u8, h: &Header) {
        let x = hd(h);
        self.full.insert(x.rev, h.revision);
        let v = self.heads.entry((c, x.id)).or_default();
        v.retain(|o| *o != x);
        v.push(x);
    }
}
pub fn er(e: bonsaidb_core::Error) -> Er {
    use bonsaidb_core::Error as X;
    match e {
        X::DocumentConflict(c, h) => Er::Conflict(coll_no(&c), hd(&h)),
        X::DocumentNotFound(c, i) => Er::NotFound(coll_no(&c), idn(&i)),
        X::UniqueKeyViolation { view, conflicting_document, existing_document } => Er::Unique { view: view_no(&view), conf: hd(&conflicting_document), exist: hd(&existing_document) },
        o => Er::Other(o.to_string()),
    }
}
fn bnd(b: &Bd) -> Bound<bonsaidb_core::arc_bytes::serde::Bytes> {
    match b { Bd::No => Bound::Unbounded, Bd::Inc(k) => Bound::Included(k.clone().into()), Bd::Exc(k) => Bound::Excluded(k.clone().into()) }
}
fn bid(b: &Bd) -> Bound<bonsaidb_core::document::DocumentId> {
    let f = |k: &Vec<u8>| bonsaidb_core::document::DocumentId::try_from(&k[..]).unwrap();
    match b { Bd::No => Bound::Unbounded, Bd::Inc(k) => Bound::Included(f(k)), Bd::Exc(k) => Bound::Excluded(f(k)) }
}
fn sq(q: &VQ) -> Option<SerializedQueryKey> {
    match q {
        VQ::All => None,
        VQ::Is(k) => Some(SerializedQueryKey::Matches(k.clone().into())),
        VQ::Range(a, b) => Some(SerializedQueryKey::Range(Range { start: bnd(a), end: bnd(b) })),
        VQ::Many(v) => Some(SerializedQueryKey::Multiple(v.iter().map(|k| k.clone().into()).collect())),
    }
}
fn pol(p: Pol) -> AccessPolicy {
    match p { Pol::Before => AccessPolicy::UpdateBefore, Pol::After => AccessPolicy::UpdateAfter, Pol::No => AccessPolicy::NoUpdate }
}
fn sort(d: bool) -> Sort { if d { Sort::Descending } else { Sort::Ascending } }
fn docr(d: &bonsaidb_core::document::OwnedDocument) -> DocR { (hd(&d.header), fnv(&d.contents), d.contents.len() as u32) }

pub fn exec<C: Connection>(db: &C, c: &Call, know: &Mutex<Know>) -> Ret {
    match exec_inner(db, c, know) { Ok(r) => r, Err(e) => Ret::Err(er(e)) }
}
fn exec_inner<C: Connection>(db: &C, c: &Call, know: &Mutex<Know>) -> Result<Ret, bonsaidb_core::Error> {
    Ok(match c {
        Call::Tx(ops) => {
            let mut tx = Transaction::new();
            {
                let kn = know.lock().unwrap();
                for o in ops {
                    let cn = coll_name(o.c);
                    tx.push(match &o.cmd {
                        Cmd::Ins(id, b) => Operation::insert(cn, id.map(did), b.bytes()),
                        Cmd::Upd(h, b) => Operation::update(cn, Header { id: did(h.id), revision: rev(&h.rev, &kn.full) }, b.bytes()),
                        Cmd::Ovw(id, b) => Operation::overwrite(cn, did(*id), b.bytes()),
                        Cmd::Del(h) => Operation::delete(cn, Header { id: did(h.id), revision: rev(&h.rev, &kn.full) }),
                        Cmd::Chk(id, r) => Operation { collection: cn, command: Command::Check { id: did(*id), revision: r.map(|r| rev(&r, &kn.full)) } },
                    });
                }
            }
            let rs = db.apply_transaction(tx)?;
            let mut kn = know.lock().unwrap();
            let mut out = vec![];
            for (i, r) in rs.into_iter().enumerate() {
                out.push(match r {
                    OperationResult::Success => OpR::Ok,
                    OperationResult::DocumentUpdated { collection, header } => {
                        let c = coll_no(&collection);
                        kn.see(c, &header);
                        if let Some(Cmd::Ins(_, b) | Cmd::Upd(_, b) | Cmd::Ovw(_, b)) = ops.get(i).map(|o| &o.cmd) { kn.bodies.insert(rev_of(&header.revision), b.clone()); }
                        OpR::Upd(c, hd(&header))
                    }
                    OperationResult::DocumentDeleted { collection, id } => OpR::Del(coll_no(&collection), idn(&id)),
                });
            }
            Ret::Tx(out)
        }
        Call::DelView(v, q, p) => Ret::N(db.delete_docs_by_name(&view_name(*v), sq(q), pol(*p))?),
        Call::Get(c, id) => {
            let d = db.get_from_collection(did(*id), &coll_name(*c))?;
            if let Some(d) = &d { know.lock().unwrap().see(*c, &d.header); }
            Ret::Docs(d.iter().map(docr).collect())
        }
        Call::GetM(c, ids) => {
            // the order of the result is not specified
            let d = db.get_multiple_from_collection(&ids.iter().map(|i| did(*i)).collect::<Vec<_>>(), &coll_name(*c))?;
            let mut d: Vec<DocR> = d.iter().map(docr).collect();
            d.sort();
            Ret::Docs(d)
        }
        Call::List(c, r) => {
            let d = db.list_from_collection(Range { start: bid(&r.lo), end: bid(&r.hi) }, sort(r.desc), r.limit, &coll_name(*c))?;
            Ret::Docs(d.iter().map(docr).collect())
        }
        Call::Heads(c, r) => {
            let d = db.list_headers_from_collection(Range { start: bid(&r.lo), end: bid(&r.hi) }, sort(r.desc), r.limit, &coll_name(*c))?;
            let mut kn = know.lock().unwrap();
            for h in &d { kn.see(*c, h); }
            Ret::Heads(d.iter().map(hd).collect())
        }
        Call::Count(c, r) => Ret::N(db.count_from_collection(Range { start: bid(&r.lo), end: bid(&r.hi) }, &coll_name(*c))?),
        Call::View { v, q, desc, limit, pol: p, docs } => {
            let (m, d) = if *docs {
                let x = db.query_by_name_with_docs(&view_name(*v), sq(q), sort(*desc), *limit, pol(*p))?;
                (x.mappings, x.documents.values().map(docr).collect())
            } else {
                (db.query_by_name(&view_name(*v), sq(q), sort(*desc), *limit, pol(*p))?, vec![])
            };
            let mut o = vec![];
            for x in m { o.push((hd(&x.source), x.key.to_vec(), val(*v, &x.value)?)); }
            Ret::Maps(o, d)
        }
        Call::Red(v, q, p) => Ret::Val(val(*v, &db.reduce_by_name(&view_name(*v), sq(q), pol(*p))?)?),
        Call::RedG(v, q, p) => {
            let mut o = vec![];
            for x in db.reduce_grouped_by_name(&view_name(*v), sq(q), pol(*p))? { o.push((x.key.to_vec(), val(*v, &x.value)?)); }
            Ret::Vals(o)
        }
        Call::Log(s, l) => Ret::Log(
            db.list_executed_transactions(*s, *l)?
                .into_iter()
                .map(|t| {
                    let ch = match &t.changes {
                        Changes::Documents(d) => Some(d.iter().map(|(c, d)| (coll_no(c), idn(&d.id), d.deleted)).collect()),
                        Changes::Keys(_) => None,
                    };
                    (t.id, ch)
                })
                .collect(),
        ),
        Call::Last => Ret::Last(db.last_transaction_id()?),
        Call::Compact(c) => { db.compact_collection_by_name(coll_name(*c))?; Ret::Unit }
        Call::CompactDb => { db.compact()?; Ret::Unit }
        Call::CompactKv => { db.compact_key_value_store()?; Ret::Unit }
    })
}
/// Error of a client that has no answer of the server.
pub fn is_net(m: &str) -> bool { m.starts_with("a networking error occurred") || m.starts_with("error from bonsaidb-client") || m.contains("was cancelled") }
pub fn call<C: Connection>(db: &C, c: Call, know: &Mutex<Know>) -> Ret {
    let s = record(&E::Inv(c.clone()));
    let r = exec(db, &c, know);
    match &r {
        Ret::Err(Er::Other(m)) if is_net(m) => { record(&E::Net(s, m.clone())); }
        _ => { record(&E::Res(s, r.clone())); }
    }
    r
}

const TXW: usize = 5;
fn mk_body(uniq: u64, x: i64, y: i64) -> Body {
    let m = mix(uniq);
    let x = x.unsigned_abs();
    let y = y.unsigned_abs();
    let k = (x % 13) as u32;
    let k2 = (x / 13 % 13) as u32;
    Body { uniq, k: if k == 12 { NO_KEY } else { k }, k2: if k2 == 12 { NO_KEY } else { k2 }, n: (m % 100_003) as i64, tags: (y & 63) as u16, pad: match y >> 6 & 7 { 0..=4 => 0, 5 => 100, 6 => 700, _ => 9000 } }
}
/// Turns a planned operation into the calls of one client.
pub fn client_op<C: Connection>(db: &C, o: &Op, uniq: u64, know: &Mutex<Know>, epoch_ver: i64) {
    let _ = epoch_ver;
    match o.k.as_str() {
        "tx" => {
            let n = o.arg(0).clamp(0, 4000) as usize;
            let mut ops = vec![];
            for i in 0..n {
                let a = |j: usize| o.arg(1 + i * TXW + j);
                let c = a(1).rem_euclid(NCOLL as i64) as u8;
                let id = a(2).unsigned_abs();
                let body = mk_body(uniq * 5000 + i as u64, a(3), a(4));
                let last = |back: usize| {
                    let k = know.lock().unwrap();
                    k.heads.get(&(c, id)).and_then(|v| { if v.len() > back { v.get(v.len() - 1 - back).copied() } else { v.first().copied() } })
                };
                let none = Hd { id, rev: (0, 0x0707_0707_0707_0707) };
                let fresh = || match call(db, Call::Get(c, id), know) { Ret::Docs(d) => d.first().map(|d| d.0), _ => None };
                let cmd = match a(0) {
                    0 => Cmd::Ins(Some(id), body),
                    1 => Cmd::Ins(None, body),
                    2 => match fresh() { Some(h) => Cmd::Upd(h, body), None => Cmd::Ins(Some(id), body) },
                    3 => Cmd::Upd(last(0).unwrap_or(none), body),
                    4 => Cmd::Upd(last(1).unwrap_or(none), body),
                    5 => Cmd::Ovw(id, body),
                    6 => match fresh() { Some(h) => Cmd::Del(h), None => Cmd::Ins(Some(id), body) },
                    7 => Cmd::Del(last(0).unwrap_or(none)),
                    8 => Cmd::Chk(id, None),
                    9 => Cmd::Chk(id, last(0).map(|h| h.rev)),
                    // save the same contents again
                    10 => { let h = last(0).unwrap_or(none); let b = know.lock().unwrap().bodies.get(&h.rev).cloned(); Cmd::Upd(h, b.unwrap_or(body)) }
                    11 => { let h = last(0).unwrap_or(none); let b = know.lock().unwrap().bodies.get(&h.rev).cloned(); Cmd::Ovw(id, b.unwrap_or(body)) }
                    _ => Cmd::Del(last(1).unwrap_or(none)),
                };
                ops.push(ROp { c, cmd });
            }
            call(db, Call::Tx(ops), know);
        }
        // many small inserts in one transaction: coll, first id, count, x
        "bulk" => {
            let c = o.arg(0).rem_euclid(NCOLL as i64) as u8;
            // one log entry must fit a page of the log, or nebari can't find it again (see neb.rs)
            let step = if o.arg(4) == 1 { o.arg(2) } else { 40 };
            let mut at = 0;
            while at < o.arg(2) {
                let ops = (at..(at + step).min(o.arg(2))).map(|i| { let mut b = mk_body(uniq * 5000 + i as u64, o.arg(3) + i * 7, i); if c == 1 { b.k = NO_KEY; b.k2 = NO_KEY; } ROp { c, cmd: Cmd::Ovw((o.arg(1) + i) as u64, b) } }).collect();
                call(db, Call::Tx(ops), know);
                at += step;
            }
        }
        // one long transaction: coll, first id, count, number of the failing operation (or -1), how it fails
        "long" => {
            let c = o.arg(0).rem_euclid(NCOLL as i64) as u8;
            let mut ops: Vec<ROp> = (0..o.arg(2)).map(|i| { let mut b = mk_body(uniq * 5000 + i as u64, i * 7, i & 63); if c == 1 { b.k = NO_KEY; b.k2 = NO_KEY; } ROp { c, cmd: if i & 3 == 3 { Cmd::Ins(None, b) } else { Cmd::Ovw((o.arg(1) + i) as u64, b) } } }).collect();
            if o.arg(3) >= 0 {
                let id = o.arg(1) as u64 + 5000;
                let h = Hd { id, rev: (0, 0x0707_0707_0707_0707) };
                let at = (o.arg(3) as usize).min(ops.len());
                let mut b = mk_body(uniq * 5000 + 4999, 5, 0);
                b.k = NO_KEY;
                b.k2 = NO_KEY;
                ops.insert(at, ROp { c, cmd: match o.arg(4) % 3 { 0 => Cmd::Upd(h, b), 1 => Cmd::Del(h), _ => Cmd::Chk(id, None) } });
            }
            call(db, Call::Tx(ops), know);
        }
        "get" => { call(db, Call::Get(o.arg(0) as u8 % 3, o.arg(1) as u64), know); }
        "getm" => {
            let ids = (0..16u64).filter(|i| o.arg(1) >> i & 1 == 1).map(|i| (i * 7 + 3) % 16).collect();
            call(db, Call::GetM(o.arg(0) as u8 % 3, ids), know);
        }
        "list" | "heads" | "count" => {
            let b = |sel: i64, id: i64| match sel % 3 { 0 => Bd::No, 1 => Bd::Inc(did(id as u64).to_vec()), _ => Bd::Exc(did(id as u64).to_vec()) };
            // args: coll, lo, hi, bound kinds, desc, limit (-1 none)
            let (mut lo, mut hi) = (o.arg(1), o.arg(2));
            if lo > hi { std::mem::swap(&mut lo, &mut hi); }
            let (mut s1, mut s2) = (o.arg(3) % 3, o.arg(3) / 3 % 3);
            if lo == hi { s1 = 1; s2 = 1; }
            let r = IdRange { lo: b(s1, lo), hi: b(s2, hi), desc: o.arg(4) == 1, limit: if o.arg(5) < 0 { None } else { Some(o.arg(5) as u32) } };
            let c = o.arg(0) as u8 % 3;
            call(db, match o.k.as_str() { "list" => Call::List(c, r), "heads" => Call::Heads(c, r), _ => Call::Count(c, r) }, know);
        }
        // args: view, policy, query kind, k1, k2, bounds, desc, limit
        "view" | "vdocs" | "red" | "redg" | "delview" => {
            let v = (o.arg(0).rem_euclid(NVIEW as i64)) as u8;
            if (v == V_TAG || v == V_EAGER) && LATE_VIEWS.load(Relaxed) == 0 { return; }
            let p = match o.arg(1) % 4 { 0 | 3 => Pol::Before, 1 => Pol::After, _ => Pol::No };
            let (mut a, mut b) = (key_bytes(v, o.arg(3)), key_bytes(v, o.arg(4)));
            if a > b { std::mem::swap(&mut a, &mut b); }
            let q = match o.arg(2) % 4 {
                0 => VQ::All,
                1 => VQ::Is(a),
                2 => {
                    let mut s = (o.arg(5) % 3, o.arg(5) / 3 % 3);
                    if a == b { s = (1, 1); }
                    let f = |s: i64, k: Vec<u8>| match s { 0 => Bd::No, 1 => Bd::Inc(k), _ => Bd::Exc(k) };
                    VQ::Range(f(s.0, a), f(s.1, b))
                }
                _ => { let c = key_bytes(v, o.arg(3) + 5); let mut l = vec![b, a, c]; let mut seen = BTreeSet::new(); l.retain(|k| seen.insert(k.clone())); VQ::Many(l) }
            };
            let limit = if o.arg(7) < 0 || !matches!(q, VQ::All | VQ::Range(..)) { None } else { Some(o.arg(7) as u32) };
            call(db, match o.k.as_str() {
                "red" => Call::Red(v, q, p),
                "redg" => Call::RedG(v, q, p),
                "delview" => Call::DelView(v, q, p),
                k => Call::View { v, q, desc: o.arg(6) == 1, limit, pol: p, docs: k == "vdocs" },
            }, know);
        }
        "log" => {
            let last = match call(db, Call::Last, know) { Ret::Last(Some(x)) => x, _ => 0 };
            let st = if o.arg(0) < 0 { None } else { Some(last.saturating_sub(o.arg(0) as u64)) };
            call(db, Call::Log(st, if o.arg(1) < 0 { None } else { Some(o.arg(1) as u32) }), know);
        }
        "last" => { call(db, Call::Last, know); }
        "compact" => { call(db, Call::Compact(o.arg(0) as u8 % 3), know); }
        "compactdb" => { call(db, Call::CompactDb, know); }
        "compactkv" => { call(db, Call::CompactKv, know); }
        "sleep" => sim_sleep_ns(o.arg(0).max(1) as u64 * MS),
        _ => {}
    }
}
/// Reads everything through every interface.
pub fn verify_all<C: Connection>(db: &C, know: &Mutex<Know>, log: bool) {
    let all = IdRange { lo: Bd::No, hi: Bd::No, desc: false, limit: None };
    for c in 0..NCOLL as u8 {
        call(db, Call::List(c, all.clone()), know);
        call(db, Call::Count(c, all.clone()), know);
        call(db, Call::Heads(c, IdRange { desc: true, ..all.clone() }), know);
    }
    for v in 0..NVIEW as u8 {
        if (v == V_TAG || v == V_EAGER) && LATE_VIEWS.load(Relaxed) == 0 { continue; }
        if is_eager(v) { call(db, Call::View { v, q: VQ::All, desc: false, limit: None, pol: Pol::No, docs: false }, know); }
        call(db, Call::View { v, q: VQ::All, desc: false, limit: None, pol: Pol::Before, docs: true }, know);
        call(db, Call::RedG(v, VQ::All, Pol::Before), know);
        call(db, Call::Red(v, VQ::All, Pol::Before), know);
    }
    if log {
        let mut next: Option<u64> = None;
        loop {
            match call(db, Call::Log(next, Some(1000)), know) {
                Ret::Log(l) => {
                    let n = l.len();
                    if let Some(x) = l.last() { next = Some(x.0 + 1); }
                    if n < 1000 { break; }
                }
                _ => break,
            }
        }
        call(db, Call::Last, know);
    }
}

pub fn set_epoch_schema(plan: &Plan, ep: usize) {
    VIEW_VER.store(plan.knob(&format!("ver{ep}")), Relaxed);
    LATE_VIEWS.store(!plan.knobs.contains_key(&format!("nolate{ep}")) as i64, Relaxed);
    COLL_KEY.store(crate::crypt::on(plan, "collkey", ep) as i64, Relaxed);
}
pub fn open(plan: &Plan) -> Result<(Storage, Database), String> {
    let cfg = crate::crypt::configure(plan, base_config(plan).with_schema::<DocSchema>().map_err(|e| e.to_string())?);
    let st = Storage::open(cfg).map_err(|e| format!("open: {e}"))?;
    let db = st.create_database::<DocSchema>("db", true).map_err(|e| format!("create_database: {e}"))?;
    Ok((st, db))
}

pub struct Docs;
pub fn uniq(ep: usize, t: usize, i: usize) -> u64 { (ep as u64 + 1) * 1_000_000 + t as u64 * 10_000 + i as u64 + 1 }

impl Scenario for Docs {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan { plan(prop, seed, thorough) }
    fn epoch(&self, plan: &Plan, ep: usize) {
        set_epoch_schema(plan, ep);
        if plan.prop == "C17" && crate::crypt::on(plan, "key", ep) { watch(MARK, "document", ""); }
        let last = ep + 1 == plan.epochs.len();
        let frozen_open = plan.knob("frozen_open") == 1 || last;
        freeze(frozen_open);
        if last { set_faults(false); }
        let (st, db) = match open(plan) {
            Ok(x) => x,
            Err(e) => {
                record(&E::Mark(format!("open failed: {e}")));
                return;
            }
        };
        record(&E::Open(true));
        let know = Arc::new(Mutex::new(Know::default()));
        if ep > 0 && (last || plan.knob(&format!("verify{ep}")) == 1) {
            verify_all(&db, &know, last);
        }
        freeze(last);
        let ver = plan.knob(&format!("ver{ep}"));
        let rt = if last { None } else { crate::blk::runtime(plan) };
        let hs: Vec<_> = plan.epochs[ep]
            .threads
            .iter()
            .cloned()
            .enumerate()
            .map(|(t, ops)| {
                let (db, know) = (db.clone(), know.clone());
                let adb = crate::blk::local(plan, &rt, t, &db);
                std::thread::Builder::new()
                    .name(format!("client{t}"))
                    .spawn(move || {
                        for (i, o) in ops.iter().enumerate() {
                            match &adb {
                                Some(a) => client_op(a, o, uniq(ep, t, i), &know, ver),
                                None => client_op(&db, o, uniq(ep, t, i), &know, ver),
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs { let _ = h.join(); }
        drop(rt);
        if last {
            // the database accepts further writes
            for c in 0..NCOLL as u8 {
                call(&db, Call::Tx(vec![ROp { c, cmd: Cmd::Ins(None, mk_body(7_000_000 + c as u64, 168, 0)) }]), &know);
            }
            verify_all(&db, &know, true);
        } else if plan.knob("endcheck") == 1 {
            freeze(true);
            set_faults(false);
            verify_all(&db, &know, true);
            set_faults(true);
            freeze(plan.knob("frozen_close") == 1);
        }
        drop(db);
        drop(st);
        record(&E::Mark("closed".into()));
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() && plan.prop == "C17" { v.extend(crate::crypt::leaks(r)); }
        if v.is_empty() { v.extend(check_docs(plan, r, &r.events::<E>())); }
        crate::neb::attribute(r, v)
    }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { crate::neb::flags(img, crashed) }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool {
        hostile(plan) && r.epochs.iter().any(|e| e.history.len() > 6)
    }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> { describe(&r.events::<E>()) }
}
pub fn describe(ev: &[Ev<E>]) -> Vec<String> {
    ev.iter()
        .map(|e| {
            let s = format!("{:?}", e.e);
            let s: String = s.chars().take(600).collect();
            format!("#{} e{} t{} {}us {}", e.seq, e.epoch, e.tid, e.at / 1000, s)
        })
        .collect()
}

// ------------------------------------------------------------ oracle
#[derive(Clone, Debug)]
pub struct Ver {
    pub rev: Rev,
    pub body: Rc<Body>,
    pub chash: u64,
    pub clen: u32,
}
pub type State = BTreeMap<(u8, u64), Ver>;
#[derive(Clone, Debug)]
pub struct CallRec {
    pub inv: u64,
    pub res: u64,
    pub epoch: usize,
    pub tid: u32,
    pub c: Call,
    pub ret: Option<Ret>,
    pub pos: Option<usize>,
}
type Change = (u8, u64, bool);

fn mkver(rev: Rev, b: &Body) -> Ver {
    let by = b.bytes();
    Ver { rev, body: Rc::new(b.clone()), chash: fnv(&by), clen: by.len() as u32 }
}
/// Executes a transaction on the model.
/// `hint`: the changes observed; automatically assigned ids are taken from them
/// (any id above all existing ones is right).
pub fn simulate(st: &State, ops: &[ROp], ver: i64, hint: Option<&[Change]>) -> Result<(Vec<OpR>, Vec<Change>, Vec<((u8, u64), Option<Ver>)>), Vec<Er>> { simulate_f(st, ops, ver, hint, 0) }
/// `floor`: automatically assigned ids are above it (ids of deleted documents can be skipped).
pub fn simulate_f(st: &State, ops: &[ROp], ver: i64, hint: Option<&[Change]>, floor: u64) -> Result<(Vec<OpR>, Vec<Change>, Vec<((u8, u64), Option<Ver>)>), Vec<Er>> {
    let mut ov: BTreeMap<(u8, u64), Option<Ver>> = BTreeMap::new();
    let mut res = vec![];
    let mut ch = vec![];
    let get = |ov: &BTreeMap<(u8, u64), Option<Ver>>, k: (u8, u64)| -> Option<Ver> { ov.get(&k).cloned().unwrap_or_else(|| st.get(&k).cloned()) };
    for o in ops {
        let c = o.c;
        let mut put: Option<(u64, Ver)> = None;
        match &o.cmd {
            Cmd::Ins(id, b) => {
                let id = match id {
                    Some(i) => *i,
                    None => {
                        let mut m: Option<u64> = None;
                        for (k, _) in st.range((c, 0)..=(c, u64::MAX)) { if get(&ov, *k).is_some() { m = m.max(Some(k.1)); } }
                        for (k, v) in &ov { if k.0 == c && v.is_some() { m = m.max(Some(k.1)); } }
                        match hint.and_then(|h| h.get(ch.len())) {
                            Some((hc, hi, false)) if *hc == c && m.map_or(true, |m| *hi > m) => *hi,
                            _ => m.map_or(1, |x| x + 1).max(floor),
                        }
                    }
                };
                if let Some(e) = get(&ov, (c, id)) { return Err(vec![Er::Conflict(c, Hd { id, rev: e.rev })]); }
                put = Some((id, mkver((0, sha8(&b.bytes())), b)));
            }
            Cmd::Upd(h, b) => match get(&ov, (c, h.id)) {
                None => return Err(vec![Er::NotFound(c, h.id)]),
                Some(e) if e.rev != h.rev => return Err(vec![Er::Conflict(c, Hd { id: h.id, rev: e.rev })]),
                Some(e) => {
                    let s = sha8(&b.bytes());
                    if s == e.rev.1 {
                        res.push(OpR::Upd(c, *h));
                        ch.push((c, h.id, false));
                    } else {
                        put = Some((h.id, mkver((e.rev.0 + 1, s), b)));
                    }
                }
            },
            Cmd::Ovw(id, b) => {
                let s = sha8(&b.bytes());
                match get(&ov, (c, *id)) {
                    None => put = Some((*id, mkver((0, s), b))),
                    Some(e) if e.rev.1 == s => {
                        res.push(OpR::Upd(c, Hd { id: *id, rev: e.rev }));
                        ch.push((c, *id, false));
                    }
                    Some(e) => put = Some((*id, mkver((e.rev.0 + 1, s), b))),
                }
            }
            Cmd::Del(h) => match get(&ov, (c, h.id)) {
                None => return Err(vec![Er::NotFound(c, h.id)]),
                Some(e) if e.rev != h.rev => return Err(vec![Er::Conflict(c, *h)]),
                Some(_) => {
                    ov.insert((c, h.id), None);
                    res.push(OpR::Del(c, h.id));
                    ch.push((c, h.id, true));
                }
            },
            Cmd::Chk(id, r) => match get(&ov, (c, *id)) {
                None => return Err(vec![Er::NotFound(c, *id)]),
                Some(e) => {
                    if let Some(r) = r { if *r != e.rev { return Err(vec![Er::Conflict(c, Hd { id: *id, rev: *r })]); } }
                    res.push(OpR::Ok);
                }
            },
        }
        if let Some((id, v)) = put {
            if c == 1 {
                let keys: BTreeSet<Vec<u8>> = emits(V_UNIQ, &v.body, ver).into_iter().map(|x| x.0).collect();
                let mut errs = vec![];
                if !keys.is_empty() {
                    let mut ids: BTreeSet<u64> = st.range((1, 0)..=(1, u64::MAX)).map(|x| x.0 .1).collect();
                    ids.extend(ov.keys().filter(|k| k.0 == 1).map(|k| k.1));
                    for i in ids {
                        if i == id { continue; }
                        if let Some(o) = get(&ov, (1, i)) {
                            if emits(V_UNIQ, &o.body, ver).iter().any(|x| keys.contains(&x.0)) {
                                errs.push(Er::Unique { view: V_UNIQ, conf: Hd { id, rev: v.rev }, exist: Hd { id: i, rev: o.rev } });
                            }
                        }
                    }
                }
                if !errs.is_empty() { return Err(errs); }
            }
            res.push(OpR::Upd(c, Hd { id, rev: v.rev }));
            ch.push((c, id, false));
            ov.insert((c, id), Some(v));
        }
    }
    Ok((res, ch, ov.into_iter().collect()))
}
/// The id an automatic insert would have received in a refused transaction is not known.
fn same_refusal(a: &Er, b: &Er, ops: &[ROp]) -> bool {
    match (a, b) {
        (Er::Unique { view: v, conf: c, exist: e }, Er::Unique { view: v2, conf: c2, exist: e2 }) if ops.iter().any(|o| matches!(o.cmd, Cmd::Ins(None, _))) => v == v2 && c.rev == c2.rev && (e == e2 || e.rev == e2.rev),
        _ => a == b,
    }
}
fn in_q(q: &VQ, k: &[u8]) -> bool {
    match q {
        VQ::All => true,
        VQ::Is(x) => x == k,
        VQ::Many(v) => v.iter().any(|x| x == k),
        VQ::Range(a, b) => above(a, k) && below(b, k),
    }
}
fn above(b: &Bd, k: &[u8]) -> bool { match b { Bd::No => true, Bd::Inc(x) => k >= &x[..], Bd::Exc(x) => k > &x[..] } }
fn below(b: &Bd, k: &[u8]) -> bool { match b { Bd::No => true, Bd::Inc(x) => k <= &x[..], Bd::Exc(x) => k < &x[..] } }

pub struct Oracle<'a> {
    entry_epoch: BTreeMap<u64, usize>,
    pub plan: &'a Plan,
    pub calls: Vec<CallRec>,
    pub log: Vec<(u64, Vec<Change>, Option<usize>)>,
    /// all log ids, including key-value entries
    pub all_ids: Vec<u64>,
    pub vers: BTreeMap<(u8, u64), Vec<(usize, Option<Ver>)>>,
    pub cur: State,
    pub io_faults: bool,
    /// per epoch, where in the history file operations failed
    io_at: Vec<Vec<u64>>,
    script: Vec<(usize, usize)>,
    at: usize,
}

pub fn check_docs(plan: &Plan, r: &RunResult, ev: &[Ev<E>]) -> Vec<Violation> {
    let mut marks = vec![];
    for e in ev { if let E::Mark(m) = &e.e { if m.contains("failed") { marks.push((e.epoch, m.clone())); } } }
    let io = r.io_faults() > 0;
    for (ep, m) in &marks {
        if r.epochs[*ep].io_faults == 0 { return vec![viol("open-failed", format!("epoch {ep}: {m}"))]; }
    }
    if r.epochs.len() < plan.epochs.len() || r.epochs.last().map(|e| e.outcome != Outcome::Finished).unwrap_or(true) {
        // crash in the final epoch cannot happen: it has no crash point
        return vec![];
    }
    let mut ends = vec![0u64; plan.epochs.len()];
    for e in ev { ends[e.epoch] = ends[e.epoch].max(e.seq); }
    let mut calls: Vec<CallRec> = vec![];
    let mut by_seq: BTreeMap<u64, usize> = BTreeMap::new();
    for e in ev {
        match &e.e {
            E::Inv(c) => {
                by_seq.insert(e.seq, calls.len());
                calls.push(CallRec { inv: e.seq, res: u64::MAX, epoch: e.epoch, tid: e.tid, c: c.clone(), ret: None, pos: None });
            }
            E::Res(s, ret) => {
                let c = &mut calls[by_seq[s]];
                c.res = e.seq;
                c.ret = Some(ret.clone());
            }
            _ => {}
        }
    }
    // the epoch each log entry was written in, as found on the disk
    let mut entry_epoch: BTreeMap<u64, usize> = BTreeMap::new();
    for (i, e) in r.epochs.iter().enumerate() {
        for f in &e.flags {
            if let Some(ids) = f.strip_prefix("log db ") { for id in ids.split(',').filter_map(|x| x.parse().ok()) { entry_epoch.entry(id).or_insert(i); } }
        }
    }
    // Entries can be explained by more than one call. An assignment that leaves
    // no contradiction is searched; the first one's complaint is reported.
    let mut script: Vec<(usize, usize)> = vec![];
    let mut first = None;
    for _ in 0..300 {
        let mut o = Oracle { entry_epoch: entry_epoch.clone(), plan, calls: calls.clone(), log: vec![], all_ids: vec![], vers: BTreeMap::new(), cur: BTreeMap::new(), io_faults: io, io_at: r.epochs.iter().map(|e| e.stats.io_at.clone()).collect(), script: script.clone(), at: 0 };
        match o.run(&ends) { Ok(()) => return vec![], Err(v) => { first.get_or_insert(v); } }
        script = o.script;
        script.truncate(o.at);
        loop {
            match script.pop() {
                Some((c, n)) if c + 1 < n => { script.push((c + 1, n)); break }
                Some(_) => continue,
                None => return first.into_iter().collect(),
            }
        }
    }
    first.into_iter().collect()
}
type Res = Result<(), Violation>;
impl<'a> Oracle<'a> {
    fn ver(&self, ep: usize) -> i64 { self.plan.knob(&format!("ver{ep}")) }
    fn crashed(&self, ep: usize) -> bool { self.plan.epochs[ep].crash_at.is_some() }
    fn in_epoch(&self, id: u64, call: usize) -> bool { self.entry_epoch.get(&id).map_or(true, |e| *e == self.calls[call].epoch) }
    fn unknown(&self, c: &CallRec) -> bool {
        match &c.ret {
            None => true,
            Some(Ret::Err(Er::Other(_))) => self.io_faults,
            _ => false,
        }
    }
    fn choose(&mut self, n: usize) -> usize {
        if self.at == self.script.len() { self.script.push((0, n)); }
        self.at += 1;
        self.script[self.at - 1].0
    }
    fn run(&mut self, ends: &[u64]) -> Res {
        let last_ep = self.plan.epochs.len() - 1;
        // 0. unexpected errors
        for c in &self.calls {
            if let Some(Ret::Err(e)) = &c.ret {
                let ok = match (&c.c, e) {
                    (_, Er::Other(_)) => self.io_faults,
                    (Call::Tx(_), _) => true,
                    (Call::DelView(..), Er::Conflict(..) | Er::NotFound(..)) => true,
                    _ => false,
                };
                if !ok { return Err(viol("unexpected-error", format!("#{} {:?} failed: {:?}", c.inv, c.c, e))); }
            }
            if c.epoch == last_ep && matches!(c.c, Call::Tx(_)) && c.inv > 0 && !matches!(c.ret, Some(Ret::Tx(_))) && c.tid == 0 {
                return Err(viol("no-further-writes", format!("write after restart failed: {:?}", c.ret)));
            }
        }
        // 1. the transaction log read at the very end
        let fin: Vec<&CallRec> = self.calls.iter().filter(|c| c.epoch == last_ep && matches!(c.c, Call::Log(..)) && c.tid == 0).collect();
        let start = fin.iter().rposition(|c| matches!(c.c, Call::Log(None, _)));
        let Some(start) = start else { return Ok(()) };
        let mut log: Vec<(u64, Option<Vec<Change>>)> = vec![];
        for c in &fin[start..] { if let Some(Ret::Log(l)) = &c.ret { log.extend(l.iter().cloned()); } }
        for w in log.windows(2) {
            if w[0].0 >= w[1].0 { return Err(viol("log-order", format!("transaction ids {} then {}", w[0].0, w[1].0))); }
        }
        self.all_ids = log.iter().map(|x| x.0).collect();
        let doclog: Vec<(u64, Vec<Change>)> = log.iter().filter_map(|(i, c)| c.clone().map(|c| (*i, c))).collect();
        // 2. explain every entry
        for c in self.calls.iter_mut() { if c.res == u64::MAX { c.res = u64::MAX; } }
        let mut acked: BTreeMap<Vec<Change>, Vec<usize>> = BTreeMap::new();
        let mut unk: Vec<usize> = vec![];
        let mut acked_dv: Vec<usize> = vec![];
        for (i, c) in self.calls.iter().enumerate() {
            match (&c.c, &c.ret) {
                (Call::Tx(_), Some(Ret::Tx(rs))) => {
                    let ch = rs.iter().filter_map(|r| match r { OpR::Ok => None, OpR::Upd(c, h) => Some((*c, h.id, false)), OpR::Del(c, id) => Some((*c, *id, true)) }).collect();
                    acked.entry(ch).or_default().push(i);
                }
                (Call::DelView(..), Some(Ret::N(_))) => acked_dv.push(i),
                (Call::Tx(_) | Call::DelView(..), _) if self.unknown(c) => unk.push(i),
                _ => {}
            }
        }
        let mut max_inv = 0u64;
        let mut max_inv_i = 0usize;
        let mut empties = 0;
        for (p, (id, ch)) in doclog.iter().enumerate() {
            if ch.is_empty() {
                // changes nothing: any transaction of checks or empty deletion explains it
                empties += 1;
                self.log.push((*id, vec![], None));
                continue;
            }
            // every call that could be this entry: acknowledged ones first, then those whose outcome is unknown
            let mut cands: Vec<(u8, usize, Vec<((u8, u64), Option<Ver>)>)> = vec![];
            let mut why = String::new();
            if let Some(v) = acked.get_mut(ch) {
                v.sort_by_key(|i| self.calls[*i].res);
                for i in v.iter() {
                    let Call::Tx(ops) = &self.calls[*i].c else { continue };
                    if !self.in_epoch(*id, *i) { continue; }
                    match simulate(&self.cur, ops, self.ver(self.calls[*i].epoch), Some(ch)) {
                        Ok((rs, c2, eff)) if c2 == *ch && Some(&Ret::Tx(rs.clone())) == self.calls[*i].ret.as_ref() => cands.push((0, *i, eff)),
                        x => why = format!("call #{} returned {:?}, the model gives {:?}", self.calls[*i].inv, self.calls[*i].ret, x.map(|y| (y.0, y.1))),
                    }
                }
            }
            for i in &acked_dv {
                let Call::DelView(v, q, _) = &self.calls[*i].c else { continue };
                let Some(Ret::N(n)) = &self.calls[*i].ret else { continue };
                if *n as usize != ch.len() || !self.in_epoch(*id, *i) { continue; }
                if let Some(eff) = self.delview_eff(*v, q, ch, self.calls[*i].epoch) { cands.push((1, *i, eff)); }
            }
            for i in &unk {
                if !self.in_epoch(*id, *i) { continue; }
                match &self.calls[*i].c {
                    Call::Tx(ops) => {
                        if let Ok((_, c2, eff)) = simulate(&self.cur, ops, self.ver(self.calls[*i].epoch), Some(ch)) { if c2 == *ch { cands.push((2, *i, eff)); } }
                    }
                    Call::DelView(v, q, _) => { if let Some(eff) = self.delview_eff(*v, q, ch, self.calls[*i].epoch) { cands.push((2, *i, eff)); } }
                    _ => {}
                }
            }
            let k = if cands.len() > 1 { self.choose(cands.len()) } else { 0 };
            let hit = if cands.is_empty() { None } else {
                let (kind, i, eff) = cands.swap_remove(k);
                match kind {
                    0 => acked.get_mut(ch).unwrap().retain(|x| *x != i),
                    1 => acked_dv.retain(|x| *x != i),
                    _ => unk.retain(|x| *x != i),
                }
                Some((i, eff))
            };
            let Some((i, eff)) = hit else {
                return Err(viol("log-unexplained", format!("log entry {id} ({ch:?}) at position {p} is not explained by any call in this order; {why}")));
            };
            let c = &self.calls[i];
            if !ch.is_empty() {
                let res = if c.res == u64::MAX { ends[c.epoch] } else { c.res };
                if res < max_inv {
                    return Err(viol("realtime-order", format!("log entry {id} (call #{}..#{}) is listed after call #{} which began later than it ended", c.inv, c.res, self.calls[max_inv_i].inv)));
                }
                if c.inv > max_inv { max_inv = c.inv; max_inv_i = i; }
            }
            self.calls[i].pos = Some(p);
            if self.calls[i].res == u64::MAX { self.calls[i].res = ends[self.calls[i].epoch]; }
            for (k, v) in eff {
                match &v { Some(x) => { self.cur.insert(k, x.clone()); } None => { self.cur.remove(&k); } }
                self.vers.entry(k).or_default().push((p + 1, v));
            }
            self.log.push((*id, ch.clone(), Some(i)));
        }
        let checks_acked = acked.get(&vec![]).map_or(0, |v| v.len());
        let may = checks_acked + self.calls.iter().filter(|c| match (&c.c, &c.ret) { (Call::DelView(..), Some(Ret::N(0))) => true, (Call::Tx(_) | Call::DelView(..), _) => self.unknown(c), _ => false }).count();
        if empties < checks_acked || empties > may {
            return Err(viol("log-unexplained", format!("the log has {empties} entries without changes; {checks_acked} such transactions were acknowledged and {may} may have happened")));
        }
        for c in &self.calls {
            if matches!(&c.ret, Some(Ret::Tx(rs)) if rs.iter().all(|r| *r == OpR::Ok)) { continue; }
            let acked = matches!((&c.c, &c.ret), (Call::Tx(_), Some(Ret::Tx(_))) | (Call::DelView(..), Some(Ret::N(_))));
            if acked && c.pos.is_none() {
                if let Some(Ret::N(0)) = c.ret { continue; }
                // an error before the call began, and none while it ran
                let io = &self.io_at[c.epoch];
                let later = io.iter().any(|s| *s < c.inv) && !io.iter().any(|s| *s >= c.inv && *s <= c.res);
                return Err(viol(if later { "lost-after-io-error" } else { "acked-lost" }, format!("acknowledged call #{} {:?} -> {:?} is not in the transaction log", c.inv, c.c, c.ret)));
            }
        }
        // 3. reads and refusals
        let mut minpos: Vec<(u64, usize, u8)> = vec![]; // (res, position seen, collection)
        let order: Vec<usize> = { let mut v: Vec<usize> = (0..self.calls.len()).filter(|i| self.calls[*i].ret.is_some()).collect(); v.sort_by_key(|i| self.calls[*i].res); v };
        let mut last_seen: Vec<(u64, u64)> = vec![];
        for i in order {
            let c = self.calls[i].clone();
            let ret = c.ret.as_ref().unwrap();
            // transactions of disjoint collections can be published in another
            // order than they are logged, so only those of the same collection count
            let touched: Option<Vec<u8>> = match &c.c {
                Call::Get(k, _) | Call::GetM(k, _) | Call::List(k, _) | Call::Heads(k, _) | Call::Count(k, _) => Some(vec![*k]),
                Call::View { v, .. } | Call::Red(v, ..) | Call::RedG(v, ..) | Call::DelView(v, ..) => Some(vec![VIEW_COLL[*v as usize]]),
                Call::Tx(ops) => Some(ops.iter().map(|o| o.c).collect()),
                _ => None,
            };
            let mut lo = 0;
            let mut hi = 0;
            for x in &self.calls {
                if let Some(p) = x.pos {
                    if touched.as_ref().map_or(false, |t| !self.log[p].1.iter().any(|ch| t.contains(&ch.0))) { continue; }
                    if x.res < c.inv { lo = lo.max(p + 1); }
                    if x.inv < c.res { hi = hi.max(p + 1); }
                }
            }
            let coll = match &c.c { Call::Get(k, _) | Call::GetM(k, _) | Call::List(k, _) | Call::Heads(k, _) | Call::Count(k, _) => *k, Call::View { v, .. } | Call::Red(v, ..) | Call::RedG(v, ..) => VIEW_COLL[*v as usize], _ => 9 };
            for (res, p, k) in &minpos { if *res < c.inv && *k == coll { lo = lo.max(*p); } }
            hi = hi.max(lo);
            if self.io_faults && matches!(ret, Ret::Err(Er::Other(_))) { continue; }
            match (&c.c, ret) {
                (Call::Tx(ops), Ret::Err(e)) => {
                    let top = if ops.iter().any(|o| matches!(o.cmd, Cmd::Ins(None, _))) { self.vers.keys().map(|k| k.1).max().unwrap_or(0) + 2 + ops.len() as u64 } else { 0 };
                    let ok = (lo..=hi).any(|p| { let st = self.state_at(p); (0..=top).any(|f| matches!(simulate_f(&st, ops, self.ver(c.epoch), None, f), Err(es) if es.iter().any(|x| same_refusal(x, e, ops)))) });
                    if !ok { return Err(viol("wrong-refusal", format!("call #{} {:?} was refused with {:?}, which no committed state between positions {lo} and {hi} explains; the model gives {:?}", c.inv, c.c, e, simulate(&self.state_at(hi), ops, self.ver(c.epoch), None).map(|x| x.0)))); }
                }
                (Call::Tx(ops), Ret::Tx(rs)) if rs.iter().all(|r| *r == OpR::Ok) => {
                    if !(lo..=hi).any(|p| matches!(simulate(&self.state_at(p), ops, self.ver(c.epoch), None), Ok((rs2, ch, _)) if rs2 == *rs && ch.is_empty())) {
                        return Err(viol("wrong-refusal", format!("call #{} {:?} succeeded, which no committed state between positions {lo} and {hi} explains", c.inv, c.c)));
                    }
                }
                (Call::DelView(v, q, pl), r) => self.check_delview(&c, *v, q, *pl, r, lo, hi)?,
                (Call::Get(..) | Call::GetM(..) | Call::List(..) | Call::Heads(..) | Call::Count(..), _) => {
                    match (lo..=hi).find(|p| self.read_at(&c.c, *p) == *ret) {
                        Some(p) => minpos.push((c.res, p, coll)),
                        None => {
                            return Err(viol("wrong-read", format!("call #{} (thread {}, epoch {}) {:?} returned {:?}; committed states {lo}..={hi} give {:?} .. {:?}", c.inv, c.tid, c.epoch, c.c, ret, self.read_at(&c.c, lo), self.read_at(&c.c, hi))));
                        }
                    }
                }
                (Call::View { v, q, desc, limit, pol, docs }, Ret::Maps(m, d)) => self.check_view(&c, *v, q, *desc, *limit, *pol, *docs, m, d, lo, hi)?,
                (Call::Red(v, q, pl), Ret::Val(x)) => self.check_red(&c, *v, q, *pl, Some(*x), None, lo, hi)?,
                (Call::RedG(v, q, pl), Ret::Vals(x)) => self.check_red(&c, *v, q, *pl, None, Some(x), lo, hi)?,
                (Call::Log(s, l), Ret::Log(got)) => {
                    let lim = l.unwrap_or(100).min(1000) as usize;
                    let from = s.map_or(0, |s| self.all_ids.iter().position(|x| *x >= s).unwrap_or(self.all_ids.len()));
                    let mut ids: Vec<u64> = got.iter().map(|x| x.0).collect();
                    if self.crashed(c.epoch) {
                        // nebari lists an entry before it is durable: what a power loss took away may end a page
                        let durable = self.all_ids.iter().filter(|i| self.entry_epoch.get(i).map_or(false, |e| *e <= c.epoch)).max().copied().unwrap_or(0);
                        while ids.last().map_or(false, |i| *i > durable) { ids.pop(); }
                    }
                    let got = &got[..ids.len()];
                    let want = &self.all_ids[from..];
                    let pre = ids.len() <= want.len() && ids == want[..ids.len()];
                    let ch_ok = got.iter().all(|(i, ch)| match ch { None => true, Some(ch) => self.log.iter().any(|(j, c2, _)| i == j && c2 == ch) });
                    // everything committed before the call must be there, up to the limit
                    let must = self.log[..lo].iter().filter(|(i, _, _)| s.map_or(true, |s| *i >= s)).count();
                    let have_docs = got.iter().filter(|x| x.1.is_some()).count();
                    if !pre || !ch_ok || ids.len() > lim || (have_docs < must && ids.len() < lim) {
                        return Err(viol("wrong-log-page", format!("call #{} {:?} returned ids {:?}; the log from there is {:?} ({must} of them acknowledged before)", c.inv, c.c, ids, &want[..want.len().min(12)])));
                    }
                    let maxid = got.iter().filter(|x| x.1.as_ref().map_or(false, |c| !c.is_empty())).map(|x| x.0).max().unwrap_or(0);
                    let hiid = self.log[..hi].last().map_or(0, |x| x.0);
                    if maxid > hiid { return Err(viol("wrong-log-page", format!("call #{} lists transaction {maxid} before it was requested", c.inv))); }
                }
                (Call::Last, Ret::Last(x)) => {
                    let need = if lo > 0 { Some(self.log[lo - 1].0) } else { None };
                    let need = need.max(last_seen.iter().filter(|(res, _)| *res < c.inv).map(|x| x.1).max());
                    if *x < need { return Err(viol("last-id", format!("call #{} last_transaction_id = {x:?}, but {need:?} was acknowledged or reported before", c.inv))); }
                    if let Some(x) = x { last_seen.push((c.res, *x)); }
                }
                (Call::Tx(_), Ret::Tx(_)) | (Call::Compact(_) | Call::CompactDb | Call::CompactKv, Ret::Unit) => {}
                (c2, r) => return Err(viol("unexpected-error", format!("#{} {c2:?} -> {r:?}", c.inv))),
            }
        }
        Ok(())
    }
    pub fn state_at(&self, p: usize) -> State {
        let mut s = State::new();
        for (k, v) in &self.vers {
            if let Some((_, Some(x))) = v.iter().rev().find(|(q, _)| *q <= p) { s.insert(*k, x.clone()); }
        }
        s
    }
    fn at(&self, k: (u8, u64), p: usize) -> Option<&Ver> {
        self.vers.get(&k).and_then(|v| v.iter().rev().find(|(q, _)| *q <= p)).and_then(|x| x.1.as_ref())
    }
    fn docs_of(&self, c: u8) -> impl Iterator<Item = u64> + '_ {
        self.vers.range((c, 0)..=(c, u64::MAX)).map(|x| x.0 .1)
    }
    fn read_at(&self, c: &Call, p: usize) -> Ret {
        let dr = |id: u64, v: &Ver| -> DocR { (Hd { id, rev: v.rev }, v.chash, v.clen) };
        let sel = |c: u8, r: &IdRange| -> Vec<DocR> {
            let mut v: Vec<DocR> = self.docs_of(c).filter(|i| { let b = did(*i); above(&r.lo, &b) && below(&r.hi, &b) }).filter_map(|i| self.at((c, i), p).map(|v| dr(i, v))).collect();
            if r.desc { v.reverse(); }
            if let Some(l) = r.limit { v.truncate(l as usize); }
            v
        };
        match c {
            Call::Get(c, id) => Ret::Docs(self.at((*c, *id), p).map(|v| dr(*id, v)).into_iter().collect()),
            Call::GetM(c, ids) => {
                let mut v: Vec<u64> = ids.clone();
                v.sort();
                v.dedup();
                Ret::Docs(v.into_iter().filter_map(|i| self.at((*c, i), p).map(|v| dr(i, v))).collect())
            }
            Call::List(c, r) => Ret::Docs(sel(*c, r)),
            Call::Heads(c, r) => Ret::Heads(sel(*c, r).into_iter().map(|d| d.0).collect()),
            Call::Count(c, r) => Ret::N(sel(*c, &IdRange { limit: None, ..r.clone() }).len() as u64),
            _ => Ret::Unit,
        }
    }
    /// Effects of deleting `ch` through a view, if every one of them maps into the query now.
    fn delview_eff(&self, v: u8, q: &VQ, ch: &[Change], ep: usize) -> Option<Vec<((u8, u64), Option<Ver>)>> {
        let c = VIEW_COLL[v as usize];
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        for (cc, id, del) in ch {
            if *cc != c || !*del || !seen.insert(*id) { return None; }
            let d = self.cur.get(&(c, *id))?;
            if !emits(v, &d.body, self.ver(ep)).iter().any(|e| in_q(q, &e.0)) { return None; }
            out.push(((c, *id), None));
        }
        Some(out)
    }
    fn check_delview(&self, c: &CallRec, v: u8, q: &VQ, pl: Pol, r: &Ret, lo: usize, hi: usize) -> Res {
        let coll = VIEW_COLL[v as usize];
        let ver = self.ver(c.epoch);
        let fresh = self.window(c, v, pl, 1) == 1;
        let maps = |id: u64, p: usize| self.at((coll, id), p).map_or(false, |d| emits(v, &d.body, ver).iter().any(|e| in_q(q, &e.0)));
        match r {
            Ret::N(_) => {
                let Some(p) = c.pos else { return Ok(()) };
                if !fresh { return Ok(()); }
                for id in self.docs_of(coll) {
                    // mapped all the time until the deletion: must be part of it
                    let stable = (lo.min(p)..=p).all(|x| maps(id, x));
                    let deleted = self.log[p].1.iter().any(|x| x.1 == id);
                    if stable && !deleted { return Err(viol("delete-docs", format!("call #{} {:?} did not delete document {id} which the view mapped to the key during the whole call", c.inv, c.c))); }
                }
                Ok(())
            }
            Ret::Err(_) => {
                // a refusal needs a concurrent change of one of the documents, or a stale view
                if !fresh { return Ok(()); }
                let changed = self.vers.iter().any(|(k, l)| k.0 == coll && l.iter().any(|(p, _)| *p > lo && *p <= hi));
                if changed { Ok(()) } else { Err(viol("delete-docs", format!("call #{} {:?} failed with {:?} although nothing changed meanwhile", c.inv, c.c, r))) }
            }
            _ => Ok(()),
        }
    }
    /// First position of the versions a query may reflect.
    fn window(&self, _c: &CallRec, v: u8, pl: Pol, lo: usize) -> usize {
        if pl == Pol::Before || is_eager(v) { lo } else { 0 }
    }
    #[allow(clippy::too_many_arguments)]
    fn check_view(&self, c: &CallRec, v: u8, q: &VQ, desc: bool, limit: Option<u32>, pl: Pol, docs: bool, m: &[MapR], d: &[DocR], lo: usize, hi: usize) -> Res {
        let coll = VIEW_COLL[v as usize];
        let ver = self.ver(c.epoch);
        let bad = |w: String| Err(viol("wrong-view", format!("call #{} (thread {}, epoch {}) {:?}: {w}; returned {:?}; window {lo}..={hi}", c.inv, c.tid, c.epoch, c.c, m)));
        let wlo = self.window(c, v, pl, lo);
        // order of keys
        let mut keys: Vec<&Vec<u8>> = vec![];
        for x in m { if keys.last().map_or(true, |k| **k != x.1) { keys.push(&x.1); } }
        for w in keys.windows(2) {
            let ok = if desc { w[0] > w[1] } else { w[0] < w[1] };
            if !ok { return bad("keys out of order".into()); }
        }
        let mut full = true;
        if let Some(l) = limit {
            if keys.len() > l as usize { return bad("more keys than the limit".into()); }
            if keys.len() == l as usize { full = false; }
        }
        if m.iter().any(|x| !in_q(q, &x.1)) { return bad("key outside the requested range".into()); }
        let covered = |k: &[u8]| -> bool {
            if full { return true; }
            match keys.last() { None => false, Some(l) => if desc { k >= &l[..] } else { k <= &l[..] } }
        };
        let mut by: BTreeMap<u64, Vec<(Hd, Vec<u8>, Val)>> = BTreeMap::new();
        for x in m { by.entry(x.0.id).or_default().push(x.clone()); }
        let ids: BTreeSet<u64> = self.docs_of(coll).chain(by.keys().copied()).collect();
        for id in ids {
            let mut got: Vec<(Rev, Vec<u8>, Val)> = by.get(&id).map(|x| x.iter().map(|y| (y.0.rev, y.1.clone(), y.2)).collect()).unwrap_or_default();
            got.sort();
            let ok = (wlo..=hi).any(|p| {
                let mut want: Vec<(Rev, Vec<u8>, Val)> = match self.at((coll, id), p) {
                    Some(d) => emits(v, &d.body, ver).into_iter().filter(|e| in_q(q, &e.0) && covered(&e.0)).map(|e| (d.rev, e.0, e.1)).collect(),
                    None => vec![],
                };
                want.sort();
                want == got
            });
            if !ok {
                return bad(format!("document {id} contributes {got:?}, but its versions in the window map to {:?}", (wlo..=hi).map(|p| self.at((coll, id), p).map(|d| (d.rev, emits(v, &d.body, ver)))).collect::<Vec<_>>()));
            }
        }
        if docs {
            let ids: BTreeSet<u64> = m.iter().map(|x| x.0.id).collect();
            let mut seen = BTreeSet::new();
            for x in d {
                if !ids.contains(&x.0.id) || !seen.insert(x.0.id) { return bad(format!("document {} is not a source", x.0.id)); }
                if !(lo..=hi).any(|p| self.at((coll, x.0.id), p).map_or(false, |w| (w.rev, w.chash, w.clen) == (x.0.rev, x.1, x.2))) { return bad(format!("document {x:?} was never committed so")); }
            }
            for id in ids {
                if !seen.contains(&id) && (lo..=hi).all(|p| self.at((coll, id), p).is_some()) { return bad(format!("document {id} is missing from the returned documents")); }
            }
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn check_red(&self, c: &CallRec, v: u8, q: &VQ, pl: Pol, one: Option<Val>, grp: Option<&Vec<(Vec<u8>, Val)>>, lo: usize, hi: usize) -> Res {
        let coll = VIEW_COLL[v as usize];
        let ver = self.ver(c.epoch);
        let wlo = self.window(c, v, pl, lo);
        let bad = |w: String| Err(viol("wrong-reduce", format!("call #{} {:?}: {w}; returned {:?} {:?}; window {lo}..={hi}", c.inv, c.c, one, grp)));
        // per document: the possible sets of contributions
        let mut opts: Vec<Vec<BTreeMap<Vec<u8>, Val>>> = vec![];
        for id in self.docs_of(coll) {
            let mut o: Vec<BTreeMap<Vec<u8>, Val>> = vec![];
            for p in wlo..=hi {
                let e: BTreeMap<Vec<u8>, Val> = match self.at((coll, id), p) { Some(d) => emits(v, &d.body, ver).into_iter().filter(|e| in_q(q, &e.0)).collect(), None => BTreeMap::new() };
                if !o.contains(&e) { o.push(e); }
            }
            opts.push(o);
        }
        let feasible = |f: &dyn Fn(&BTreeMap<Vec<u8>, Val>) -> Val, want: Val| -> bool {
            let mut set: BTreeSet<Val> = [(0, 0)].into();
            for o in &opts {
                let ch: BTreeSet<Val> = o.iter().map(|e| f(e)).collect();
                let mut nx = BTreeSet::new();
                for a in &set { for b in &ch { nx.insert((a.0 + b.0, a.1 + b.1)); } }
                if nx.len() > 20_000 { return true; }
                set = nx;
            }
            set.contains(&want)
        };
        if let Some(x) = one {
            if !feasible(&|e| e.values().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)), x) { return bad("no committed state reduces to this".into()); }
        }
        if let Some(g) = grp {
            for w in g.windows(2) { if w[0].0 >= w[1].0 { return bad("groups out of order".into()); } }
            let got: BTreeMap<&Vec<u8>, Val> = g.iter().map(|x| (&x.0, x.1)).collect();
            let mut keys: BTreeSet<&Vec<u8>> = got.keys().copied().collect();
            for o in &opts { for e in o { keys.extend(e.keys()); } }
            for k in keys {
                if !in_q(q, k) { return bad("group outside the range".into()); }
                match got.get(k) {
                    Some((0, _)) => return bad(format!("empty group {k:?}")),
                    Some(x) => if !feasible(&|e| e.get(k).copied().unwrap_or((0, 0)), *x) { return bad(format!("group {k:?}: no committed state reduces to this")); },
                    None => if !feasible(&|e| e.get(k).copied().unwrap_or((0, 0)), (0, 0)) { return bad(format!("group {k:?} is missing")); },
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------ plans
fn tx(r: &mut Rng, n: u64, kinds: &[i64], colls: &[i64], ids: u64, ks: u64, big: bool) -> Op {
    let mut a = vec![n as i64];
    for _ in 0..n {
        let c = *r.pick(colls);
        // collection U: spread the unique keys so that most writes are accepted
        let x = if c == 1 { let k = r.below(12); let k2 = if r.chance(1, 4) { r.below(12) } else { 12 }; (k + 13 * k2) as i64 } else { (r.below(ks.min(13)) + 13 * r.below(13)) as i64 };
        let pad = if big { r.below(8) } else { 0 };
        a.extend([*r.pick(kinds), c, r.below(ids) as i64, x, (r.below(64) | pad << 6) as i64]);
    }
    Op { k: "tx".into(), a }
}
fn view_op(r: &mut Rng, k: &str, views: &[i64], pols: &[i64]) -> Op {
    Op::new(k, &[*r.pick(views), *r.pick(pols), r.below(4) as i64, r.below(80) as i64, r.below(80) as i64, r.below(9) as i64, r.below(2) as i64, if r.chance(1, 2) { -1 } else { r.below(5) as i64 }])
}
fn range_op(r: &mut Rng, k: &str, c: i64) -> Op {
    Op::new(k, &[c, r.below(18) as i64, r.below(18) as i64, r.below(9) as i64, r.below(2) as i64, if r.chance(1, 2) { -1 } else { r.below(6) as i64 }])
}
pub fn plan(prop: &str, seed: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(seed ^ hash_str("docs"));
    let mut p = Plan { prop: prop.into(), scenario: "docs".into(), seed, sim: swarm(&mut r), knobs: BTreeMap::new(), epochs: vec![] };
    std_knobs(&mut p, &mut r);
    let all_k: &[i64] = &[0, 0, 1, 2, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12];
    let (mut kinds, mut colls, mut ids, mut ks, mut maxops): (&[i64], &[i64], u64, u64, u64) = (all_k, &[0, 1, 2], 8, 13, 3);
    // weights: tx, get/getm, range reads, views, reduce, delview, log, compact, sleep
    let mut w = [40u64, 10, 10, 15, 8, 3, 4, 2, 2];
    let mut crash_p = 2; // of 4
    let mut neps = r.range(1, 2);
    let mut nth = r.range(2, 4);
    let mut nops = r.range(2, if thorough { 9 } else { 6 });
    let mut big = r.chance(1, 4);
    let mut views: &[i64] = &[0, 1, 2, 3, 4];
    let mut pols: &[i64] = &[0, 0, 1, 2];
    let mut bulk = false;
    match prop {
        "C01" => { w = [55, 15, 15, 3, 0, 3, 4, 2, 2]; maxops = 6; crash_p = 1; ids = *r.pick(&[3, 6, 10]); }
        "C02" => { w = [70, 4, 4, 4, 2, 2, 4, 3, 4]; crash_p = 4; neps = r.range(1, 3); }
        "C03" => { w = [75, 12, 6, 0, 0, 0, 2, 1, 2]; kinds = &[0, 1, 1, 2, 3, 3, 3, 4, 5, 6, 7, 10, 11, 12]; ids = *r.pick(&[1, 2, 4]); crash_p = 1; maxops = 2; colls = &[0, 1, 2, 2]; }
        "C04" => { w = [45, 25, 35, 0, 0, 0, 0, 3, 2]; crash_p = 1; ids = 18; big = r.chance(1, 2); colls = &[0, 2, 2]; kinds = &[0, 0, 1, 2, 5, 6, 6, 7, 12]; nops = r.range(3, if thorough { 12 } else { 9 }); }
        "C05" => { w = [40, 2, 2, 30, 15, 8, 0, 2, 2]; colls = &[0, 0, 0, 1]; views = &[0, 0, 1, 1, 4]; pols = &[0, 0, 0, 0, 1, 2]; crash_p = 1; kinds = &[0, 0, 1, 2, 5, 5, 6, 7, 10]; bulk = r.chance(1, 60); }
        "C06" => { w = [60, 2, 2, 25, 6, 3, 0, 1, 2]; colls = &[1, 1, 1, 0]; views = &[3, 3, 2]; pols = &[2, 2, 0]; ks = 6; ids = 6; crash_p = 2; kinds = &[0, 0, 1, 2, 2, 5, 5, 6, 7, 10]; maxops = 4; }
        "C07" => { w = [45, 2, 2, 30, 8, 2, 0, 1, 3]; crash_p = 2; neps = r.range(2, 4); kinds = &[0, 0, 1, 2, 5, 5, 6, 7]; nth = r.range(1, 3); bulk = r.chance(1, 60); colls = &[0, 0, 1]; }
        "C08" => { w = [50, 4, 2, 4, 0, 4, 30, 1, 2]; maxops = 4; crash_p = 2; }
        "C09" => { w = [45, 8, 10, 12, 4, 2, 2, 18, 2]; crash_p = 2; big = true; }
        "C25" => { w = [55, 12, 8, 10, 3, 2, 3, 5, 2]; crash_p = 1; neps = 2; }
        _ => {}
    }
    let wsum: u64 = w.iter().sum();
    let huge = bulk && r.chance(1, 4);
    // views that do not get in the way of long transactions are the others' business
    let long = !bulk && prop != "C25" && Rng::new(mix(seed ^ 0x6c6f_6e67)).chance(1, if prop == "C01" { 12 } else { 60 });
    for ep in 0..neps {
        let mut e = EpochPlan::default();
        let mut cnt = 0;
        for t in 0..nth {
            let mut ops = vec![];
            for _ in 0..nops {
                let mut x = r.below(wsum);
                let mut cl = 0;
                while x >= w[cl] { x -= w[cl]; cl += 1; }
                let c = *r.pick(colls);
                ops.push(match cl {
                    0 => { let n = if r.chance(1, 2) { 1 } else { r.range(1, maxops) }; tx(&mut r, n, kinds, colls, ids, ks, big) }
                    1 => if r.chance(1, 2) { Op::new("get", &[c, r.below(ids) as i64]) } else { Op::new("getm", &[c, r.below(65536) as i64]) },
                    2 => { let k = *r.pick(&["list", "list", "heads", "count"]); range_op(&mut r, k, c) }
                    3 => { let k = *r.pick(&["view", "view", "vdocs"]); view_op(&mut r, k, views, pols) }
                    4 => { let k = *r.pick(&["red", "redg"]); view_op(&mut r, k, views, pols) }
                    5 => { let mut o = view_op(&mut r, "delview", views, pols); if o.a[2] == 0 { o.a[2] = 1; } o }
                    6 => if r.chance(1, 4) { Op::new("last", &[]) } else { Op::new("log", &[if r.chance(1, 3) { -1 } else { r.below(8) as i64 }, if r.chance(1, 3) { -1 } else { r.below(5) as i64 }]) },
                    7 => match r.below(5) { 0 => Op::new("compactdb", &[]), 1 => Op::new("compactkv", &[]), _ => Op::new("compact", &[c]) },
                    _ => Op::new("sleep", &[*r.pick(&[1, 10, 300])]),
                });
            }
            if bulk && t == 0 {
                ops.insert(0, Op::new("bulk", &[*r.pick(&[0, 0, 1]), 100, r.range(1020, 1100) as i64, r.below(13) as i64, huge as i64]));
            }
            if long && t == 1 {
                let n = *r.pick(&[40, 70, 130, 260, 300, 520, 600]) + r.below(9) as i64;
                let at = r.below(ops.len() as u64 + 1) as usize;
                let fail = if r.chance(4, 5) { n - r.below(n as u64 / 2) as i64 } else { -1 };
                ops.insert(at, Op::new("long", &[*r.pick(&[2, 2, 2, 0, 1]), 100, n, fail, r.below(3) as i64]));
            }
            cnt += ops.len();
            e.threads.push(ops);
        }
        if r.chance(crash_p, 4) {
            e.crash_at = crash_point(&mut r, cnt);
            e.crash_mode = crash_mode(&mut r);
        }
        p.epochs.push(e);
        p.knobs.insert(format!("verify{ep}"), r.chance(1, 2) as i64);
    }
    p.epochs.push(EpochPlan::default());
    let n = p.epochs.len();
    // definitions of views over the epochs
    let change = prop == "C07" || r.chance(1, 8);
    let mut v = 0;
    let late = if change && r.chance(1, 2) { r.range(1, n as u64 - 1) as usize } else { 0 };
    for ep in 0..n {
        if change && ep > 0 && r.chance(1, 2) { v = r.range(0, 3) as i64; }
        p.knobs.insert(format!("ver{ep}"), v);
        if ep < late { p.knobs.insert(format!("nolate{ep}"), 1); }
    }
    if bulk || long { p.sim.preempt_mean = p.sim.preempt_mean.max(5000); }
    p.knobs.insert("frozen_open".into(), r.chance(1, 2) as i64);
    p.knobs.insert("frozen_close".into(), r.chance(1, 2) as i64);
    p.knobs.insert("endcheck".into(), r.chance(1, 2) as i64);
    if prop == "C25" {
        p.sim.eio_p = *r.pick(&[0, 10, 60, 300]);
        p.sim.enospc_p = *r.pick(&[0, 30, 200]);
        p.sim.fsync_eio_p = *r.pick(&[0, 100, 600]);
        p.sim.max_io_faults = *r.pick(&[1, 1, 2, 5]);
        p.sim.io_spare = *r.pick(&[3, 3, 3, 2, 0]);
        p.sim.eintr_p = *r.pick(&[0, 100, 500]);
        p.sim.short_io_p = *r.pick(&[0, 300, 2000]);
    }
    crate::crypt::plan_knobs(prop, &mut p, &mut r);
    p
}
