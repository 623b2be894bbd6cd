//! C16: backups taken while clients write, restored into another storage.
use crate::common::*;
use crate::schema::*;
use bonsaidb_core::connection::{Connection, LowLevelConnection, Range, SensitiveString, Sort, StorageConnection};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_core::schema::{Qualified, Schema, SchemaName};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::*;
use bonsaidb_local::{BackupLocation, Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Mutex;

/// databases: name, has documents
const DBS: &[(&str, bool)] = &[("d", true), ("_kv", true), ("a.b-c", true), ("keys", false), ("empty", false), ("D", true)];
const COLS: [u8; 2] = [0, 2];
fn ids(col: u8) -> Vec<Vec<u8>> {
    if col == 0 { return (0..8u64).map(|i| (i * i * 37).to_be_bytes().to_vec()).collect(); }
    let mut v: Vec<Vec<u8>> = vec![b"a".to_vec(), b"a/b".to_vec(), b"..".to_vec(), b".".to_vec(), b"$1".to_vec(), b"1$ab".to_vec(), vec![0, 0xab], vec![1], b"%2f".to_vec(), b"%".to_vec(), vec![0xff, 0xfe], vec![b'x'; 63], "ä".as_bytes().to_vec(), vec![127], vec![0; 63], b"._key._".to_vec(), b"A".to_vec(), b" ".to_vec(), b"..%2f..".to_vec(), b"\\".to_vec(), b"/".to_vec(), b"5".to_vec(), vec![0, 0, 5], vec![0x0f, 0], b"a\nb".to_vec(), b".hidden".to_vec()];
    v.push(u64::MAX.to_be_bytes().to_vec());
    v.push(vec![]);
    v
}
const KEYS: &[(Option<&str>, &str)] = &[(None, "k"), (Some("a"), "k"), (None, "._key._x"), (Some("n._key._m"), "k"), (Some("a/b"), "c/d"), (None, ""), (None, ".."), (Some("."), ""), (None, "%41"), (None, "é\n"), (Some("%"), "a.b"), (Some("..%2f"), "../../x"), (Some("._key._"), "._key._"), (Some("a._key"), "_.x"), (None, "A"), (Some("a."), "k"), (Some("%2E"), "k")];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Item {
    /// database, collection, number of the id
    Doc(u8, u8, u8),
    Key(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Dump {
    /// name, schema
    dbs: Vec<(String, String)>,
    /// database, collection, id, hash of the contents
    docs: Vec<(String, u8, Vec<u8>, u64)>,
    keys: Vec<(u8, u8, u64)>,
    /// number of entries of the view, sum of its values
    views: Vec<(String, (i64, i64), (i64, i64))>,
    /// user, logs in
    users: Vec<(String, bool)>,
    /// documents whose hash of the contents does not match their revision
    bad: Vec<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    /// what the item becomes: hash, expiration
    Put(Item, Option<u64>, Option<i64>),
    Done(u64, Option<String>),
    Backup(u8),
    /// the names of the databases before it began
    BackedUp(u64, Option<String>),
    Restored(u64, Option<String>),
    /// number of the backup, contents, wall clock before and after
    Dump(u64, Dump, i64, i64),
    User(String, bool),
    Mark(String),
}
fn hash_val(v: &Value) -> u64 {
    match v { Value::Bytes(b) => fnv(b), Value::Numeric(Numeric::Integer(i)) => *i as u64 ^ 0x11, Value::Numeric(Numeric::UnsignedInteger(i)) => *i ^ 0x22, Value::Numeric(Numeric::Float(f)) => f.to_bits() ^ 0x33 }
}
/// A place in memory, which may fail.
struct Mem {
    m: Mutex<BTreeMap<(String, String, String, String), Vec<u8>>>,
    fail_at: u64,
    n: Mutex<u64>,
}
#[derive(Debug)]
struct Oops;
impl std::fmt::Display for Oops { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("oops") } }
impl std::error::Error for Oops {}
impl Mem {
    fn tick(&self) -> Result<(), Oops> { let mut n = self.n.lock().unwrap(); *n += 1; if *n == self.fail_at { Err(Oops) } else { Ok(()) } }
}
impl BackupLocation for Mem {
    type Error = Oops;
    fn store(&self, s: &SchemaName, d: &str, c: &str, n: &str, o: &[u8]) -> Result<(), Oops> {
        self.tick()?;
        self.m.lock().unwrap().insert((s.encoded(), d.into(), c.into(), n.into()), o.to_vec());
        Ok(())
    }
    fn list_schemas(&self) -> Result<Vec<SchemaName>, Oops> {
        self.tick()?;
        let s: BTreeSet<String> = self.m.lock().unwrap().keys().map(|k| k.0.clone()).collect();
        Ok(s.iter().map(|s| SchemaName::parse_encoded(s).unwrap()).collect())
    }
    fn list_databases(&self, s: &SchemaName) -> Result<Vec<String>, Oops> {
        self.tick()?;
        let s = s.encoded();
        let d: BTreeSet<String> = self.m.lock().unwrap().keys().filter(|k| k.0 == s).map(|k| k.1.clone()).collect();
        Ok(d.into_iter().collect())
    }
    fn list_stored(&self, s: &SchemaName, d: &str, c: &str) -> Result<Vec<String>, Oops> {
        self.tick()?;
        let s = s.encoded();
        Ok(self.m.lock().unwrap().keys().filter(|k| k.0 == s && k.1 == d && k.2 == c).map(|k| k.3.clone()).collect())
    }
    fn load(&self, s: &SchemaName, d: &str, c: &str, n: &str) -> Result<Vec<u8>, Oops> {
        self.tick()?;
        self.m.lock().unwrap().get(&(s.encoded(), d.into(), c.into(), n.into())).cloned().ok_or(Oops)
    }
}
fn config(plan: &Plan, path: &str) -> StorageConfiguration {
    let mut c = base_config(plan).with_schema::<DocSchema>().unwrap().with_schema::<()>().unwrap();
    c.path = Some(path.into());
    c = crate::crypt::configure(plan, c);
    if plan.knob("delay") > 0 { c.key_value_persistence = KeyValuePersistence::lazy([PersistenceThreshold::after_changes(3), PersistenceThreshold::after_changes(1).and_duration(std::time::Duration::from_secs(5))]); }
    c
}
fn body(u: u64) -> Vec<u8> { Body { uniq: u, k: (u % 11) as u32, k2: (u % 7) as u32, n: (u % 1000) as i64, tags: (u % 64) as u16, pad: match u % 7 { 0 => 5000, 1 => 200, _ => 0 } }.bytes() }
fn put(dbs: &[Database], item: Item, u: Option<u64>, exp: Option<i64>) {
    match &item {
        Item::Doc(d, c, i) => {
            let id = DocumentId::try_from(&ids(*c)[*i as usize][..]).unwrap();
            let name = coll_name(*c);
            let db = &dbs[*d as usize];
            match u {
                Some(u) => {
                    let b = if *c == 2 && u % 5 == 0 { vec![] } else { body(u) };
                    let s = record(&E::Put(item.clone(), Some(fnv(&b)), None));
                    let r = db.apply_transaction(Transaction::from(Operation::overwrite(name, id, b)));
                    record(&E::Done(s, r.err().map(|e| e.to_string())));
                }
                None => {
                    let Ok(Some(x)) = db.get_from_collection(id.clone(), &name) else { return };
                    let s = record(&E::Put(item.clone(), None, None));
                    let r = db.apply_transaction(Transaction::from(Operation::delete(name, x.header)));
                    record(&E::Done(s, r.err().map(|e| e.to_string())));
                }
            }
        }
        Item::Key(d, k) => {
            let (ns, key) = KEYS[*k as usize];
            let op = |command| KeyOperation { namespace: ns.map(str::to_string), key: key.to_string(), command };
            let (h, command) = match u {
                Some(u) => {
                    let value = match u % 4 { 0 => Value::Numeric(Numeric::Integer(-(u as i64))), 1 => Value::Numeric(Numeric::UnsignedInteger(u)), 2 => Value::Numeric(Numeric::Float(u as f64 / 3.)), _ => Value::Bytes(body(u).into()) };
                    (Some(hash_val(&value)), Command::Set(SetCommand { value, expiration: exp.map(|w| Timestamp { seconds: (w / 1_000_000_000) as u64, nanos: (w % 1_000_000_000) as u32 }), keep_existing_expiration: false, check: None, return_previous_value: false }))
                }
                None => (None, Command::Delete),
            };
            let s = record(&E::Put(item.clone(), h, exp));
            let r = dbs[*d as usize].execute_key_operation(op(command));
            record(&E::Done(s, r.err().map(|e| e.to_string())));
        }
    }
}
fn dump(st: &Storage) -> Result<Dump, bonsaidb_core::Error> {
    let mut o = Dump::default();
    for d in st.list_databases()? { if d.name != "_admin" { o.dbs.push((d.name.clone(), d.schema.to_string())); } }
    o.dbs.sort();
    for (di, (name, docs)) in DBS.iter().enumerate() {
        if !o.dbs.iter().any(|d| d.0 == *name) { continue; }
        let db = if *docs { st.database::<DocSchema>(name)? } else { st.database::<()>(name)? };
        if *docs {
            for c in COLS {
                for d in db.list_from_collection(Range::from(..), Sort::Ascending, None, &coll_name(c))? {
                    if rev_of(&d.header.revision).1 != sha8(&d.contents) { o.bad.push(format!("{name} {c} {:?}", d.header)); }
                    o.docs.push((name.to_string(), c, d.header.id.to_vec(), fnv(&d.contents)));
                }
            }
            let n: Vec<Body> = db.list_from_collection(Range::from(..), Sort::Ascending, None, &coll_name(0))?.iter().filter_map(|d| Body::parse(&d.contents)).collect();
            o.views.push((name.to_string(), db.view::<ByKey>().reduce()?, (n.len() as i64, n.iter().map(|b| b.n).sum())));
        }
        for (ki, (ns, key)) in KEYS.iter().enumerate() {
            let r = db.execute_key_operation(KeyOperation { namespace: ns.map(str::to_string), key: key.to_string(), command: Command::Get { delete: false } })?;
            if let Output::Value(Some(v)) = r { o.keys.push((di as u8, ki as u8, hash_val(&v))); }
        }
    }
    for u in ["u0", "u1"] {
        o.users.push((u.into(), st.authenticate_with_password(u, SensitiveString(format!("pw-{u}"))).is_ok()));
    }
    Ok(o)
}
pub struct Backup;
impl Scenario for Backup {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x6261636b7570));
        let r = &mut rng;
        let mut p = Plan { prop: prop.into(), scenario: "backup".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
        std_knobs(&mut p, r);
        crate::crypt::plan_knobs(prop, &mut p, r);
        p.knobs.insert("delay".into(), r.below(2) as i64);
        p.knobs.insert("dbs".into(), r.below(1 << DBS.len()) as i64 | 1);
        p.knobs.insert("users".into(), r.below(4) as i64);
        p.knobs.insert("mem".into(), r.chance(1, 3) as i64);
        p.knobs.insert("fail".into(), if r.chance(1, 4) { r.range(1, 40) as i64 } else { 0 });
        p.knobs.insert("gap".into(), *r.pick(&[0, 0, 1500, 20_000]));
        p.knobs.insert("live".into(), r.chance(1, 2) as i64);
        let bulk = thorough && r.chance(1, 3);
        if r.chance(1, 3) {
            p.sim.eio_p = *r.pick(&[0, 20, 200]);
            p.sim.enospc_p = *r.pick(&[0, 20, 200]);
            p.sim.max_io_faults = *r.pick(&[1, 2, 10]);
            p.sim.io_spare = 3;
        }
        let op = |r: &mut Rng| Op::new(*r.pick::<&str>(&["doc", "doc", "doc", "deldoc", "key", "key", "delkey"]), &[(r.next() >> 34) as i64, (r.next() >> 34) as i64]);
        let mut ep = EpochPlan::default();
        // before the backup, and while it runs
        let n = r.range(0, if bulk { 200 } else { 40 });
        ep.threads.push((0..n).map(|_| op(r)).collect());
        for _ in 0..r.range(0, 3) { let n = r.range(1, if bulk { 40 } else { 15 }); ep.threads.push((0..n).map(|_| op(r)).collect()); }
        p.epochs.push(ep);
        if bulk { p.sim.preempt_mean = p.sim.preempt_mean.max(5000); }
        p
    }
    fn epoch(&self, plan: &Plan, _ep: usize) {
        crate::docs::set_epoch_schema(plan, 0);
        set_faults(false);
        if let Err(m) = run(plan) { record(&E::Mark(m)); }
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v = check(plan, r); }
        v.truncate(3);
        crate::neb::attribute(r, v)
    }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { (hostile(plan) || plan.knob("fail") > 0) && r.epochs.iter().any(|e| e.history.len() > 8) }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> {
        r.events::<E>().iter().map(|e| format!("{:>12.6}s e{} t{} #{} {:?}", e.at as f64 / 1e9, e.epoch, e.tid, e.seq, e.e)).collect()
    }
}
fn exec(dbs: &[Option<usize>], open: &[Database], ops: &[Op], part: (usize, usize), base: u64) {
    for (i, o) in ops.iter().enumerate() {
        let (a, b) = (o.arg(0) as u64, o.arg(1) as u64);
        let di = (a % DBS.len() as u64) as usize;
        let Some(_) = dbs[di] else { continue };
        let u = (o.k == "doc" || o.k == "key").then_some((base + i as u64) * 16 + b % 16);
        let has = DBS[di].1;
        let mine = |n: usize, x: usize| -> Option<usize> { let k = n / part.1; if k == 0 { return None; } let j = (x % k) * part.1 + part.0; (j < n).then_some(j) };
        if o.k.ends_with("doc") && has {
            let c = COLS[(a >> 8 & 1) as usize];
            let Some(j) = mine(ids(c).len(), (a >> 9) as usize) else { continue };
            put(open, Item::Doc(di as u8, c, j as u8), u, None);
        } else if o.k.ends_with("key") {
            let Some(j) = mine(KEYS.len(), (a >> 9) as usize) else { continue };
            let exp = match b >> 4 & 7 { 0 => Some(wall_ns() + 1000 * 1_000_000_000), 1 => Some(wall_ns() + 3600 * 1_000_000_000 * (1 + (b as i64 >> 8 & 3))), _ => None };
            put(open, Item::Key(di as u8, j as u8), u, exp.filter(|_| u.is_some()));
        }
    }
}
fn run(plan: &Plan) -> Result<(), String> {
    let st = Storage::open(config(plan, PATH)).map_err(|e| format!("open: {e}"))?;
    let mut have: Vec<Option<usize>> = vec![None; DBS.len()];
    let mut open: Vec<Database> = vec![];
    let admin = st.admin();
    for (i, (n, docs)) in DBS.iter().enumerate() {
        if plan.knob("dbs") >> i & 1 == 1 {
            let db = if *docs { st.create_database::<DocSchema>(n, false) } else { st.create_database::<()>(n, false) }.map_err(|e| format!("create {n}: {e}"))?;
            have[i] = Some(i);
            open.push(db);
        } else {
            open.push(admin.clone());
        }
    }
    for i in 0..plan.knob("users") {
        let n = format!("u{}", i % 2);
        if i < 2 { st.create_user(&n).map_err(|e| format!("create_user: {e}"))?; }
        let pw = i < 1 || plan.knob("users") > 2;
        if pw { st.set_user_password(n.as_str(), SensitiveString(format!("pw-{n}"))).map_err(|e| format!("password: {e}"))?; }
        record(&E::User(n, pw));
    }
    let threads = &plan.epochs[0].threads;
    if let Some(ops) = threads.first() { exec(&have, &open, ops, (0, 1), 1); }
    let target = PathBuf::from("/simfs/backup");
    let mem = Mem { m: Mutex::default(), fail_at: plan.knob("fail") as u64, n: Mutex::default() };
    let use_mem = plan.knob("mem") == 1;
    let hs: Vec<_> = if threads.len() > 1 && plan.knob("live") == 1 {
        let n = threads.len() - 1;
        threads[1..].iter().cloned().enumerate().map(|(t, ops)| {
            let (have, open) = (have.clone(), open.clone());
            std::thread::Builder::new().name(format!("client{t}")).spawn(move || exec(&have, &open, &ops, (t, n), 10_000 * (t as u64 + 1))).unwrap()
        }).collect()
    } else { vec![] };
    let s = record(&E::Backup(0));
    set_faults(true);
    let r = if use_mem { st.backup(&mem) } else { st.backup(&target) };
    set_faults(false);
    let ok = r.is_ok();
    record(&E::BackedUp(s, r.err().map(|e| e.to_string())));
    for h in hs { let _ = h.join(); }
    if !ok { return Ok(()); }
    // some keys expire before the backup is restored
    sim_sleep_ns(plan.knob("gap") as u64 * 1_000_000_000);
    let path = "/simfs/other.bonsaidb";
    let st2 = Storage::open(config(plan, path)).map_err(|e| format!("open: {e}"))?;
    set_faults(true);
    let r = if use_mem { st2.restore(&mem) } else { st2.restore(&target) };
    set_faults(false);
    let ok = r.is_ok();
    record(&E::Restored(s, r.err().map(|e| e.to_string())));
    if !ok { return Ok(()); }
    let d = |st: &Storage| -> Result<(), String> { let w = wall_ns(); let d = dump(st).map_err(|e| format!("dump: {e}"))?; record(&E::Dump(s, d, w, wall_ns())); Ok(()) };
    if plan.knob("gap") > 0 { sim_sleep_ns(100 * 1_000_000_000); }
    d(&st2)?;
    if plan.knob("delay") == 0 { sim_sleep_ns(2000 * 1_000_000_000); d(&st2)?; }
    drop(st2);
    let st2 = Storage::open(config(plan, path)).map_err(|e| format!("open: {e}"))?;
    d(&st2)?;
    if plan.knob("delay") == 1 { sim_sleep_ns(20_000 * 1_000_000_000); d(&st2)?; }
    Ok(())
}
fn check(plan: &Plan, r: &RunResult) -> Vec<Violation> {
    let ev = r.events::<E>();
    let mut v = vec![];
    // versions of each item: invoked, returned, hash, expiration
    let mut vers: BTreeMap<Item, Vec<(u64, u64, Option<u64>, Option<i64>)>> = BTreeMap::new();
    let mut users = BTreeMap::new();
    let mut at: BTreeMap<u64, Item> = BTreeMap::new();
    let io = plan.sim.eio_p + plan.sim.enospc_p > 0 && r.io_faults() > 0 || plan.knob("fail") > 0 && plan.knob("mem") == 1;
    let (mut b0, mut b1) = (0, 0);
    for e in &ev {
        match &e.e {
            E::Put(i, h, x) => { at.insert(e.seq, i.clone()); vers.entry(i.clone()).or_default().push((e.seq, u64::MAX, *h, *x)); }
            E::Done(s, x) => {
                if let Some(x) = x { v.push(viol("unexpected-error", format!("#{s}: {x}"))); }
                if let Some(l) = at.get(s).and_then(|i| vers.get_mut(i)) { for y in l.iter_mut() { if y.0 == *s { y.1 = e.seq; } } }
            }
            E::Backup(_) => b0 = e.seq,
            E::BackedUp(_, x) => { b1 = e.seq; if let Some(x) = x { if !io { v.push(viol("backup-failed", x.clone())); } } }
            E::Restored(_, x) => if let Some(x) = x { if !io { v.push(viol("restore-failed", x.clone())); } },
            E::User(n, pw) => { users.insert(n.clone(), *pw); }
            E::Mark(m) => v.push(viol("unexpected-error", m.clone())),
            _ => {}
        }
    }
    if !v.is_empty() { return v; }
    for e in &ev {
        let E::Dump(_, d, w0, w1) = &e.e else { continue };
        let want: Vec<(String, String)> = { let mut w: Vec<_> = DBS.iter().enumerate().filter(|(i, _)| plan.knob("dbs") >> i & 1 == 1).map(|(_, (n, docs))| (n.to_string(), if *docs { DocSchema::schema_name().to_string() } else { <() as Schema>::schema_name().to_string() })).collect(); w.sort(); w };
        if d.dbs != want { v.push(viol("databases", format!("restored databases {:?} instead of {want:?}", d.dbs))); continue; }
        if let Some(b) = d.bad.first() { v.push(viol("revision", format!("the contents do not match the revision: {b}"))); }
        for (n, a, b) in &d.views { if a != b { v.push(viol("restored-view", format!("the view of {n} has {a:?}, its documents {b:?}"))); } }
        for (n, ok) in &d.users { if *ok != users.get(n).copied().unwrap_or(false) { v.push(viol("restored-user", format!("login of {n}: {ok}"))); } }
        let mut got: BTreeMap<Item, u64> = BTreeMap::new();
        for (n, c, id, h) in &d.docs {
            let di = DBS.iter().position(|x| x.0 == n).unwrap();
            match ids(*c).iter().position(|x| x == id) {
                Some(i) => { got.insert(Item::Doc(di as u8, *c, i as u8), *h); }
                None => v.push(viol("restored-extra", format!("database {n} has a document {id:?} in collection {c} that nobody wrote"))),
            }
        }
        for (di, k, h) in &d.keys { got.insert(Item::Key(*di, *k), *h); }
        for i in got.keys() { if !vers.contains_key(i) { v.push(viol("restored-extra", format!("{} was never written", name(i)))); } }
        for (i, l) in &vers {
            let g = got.get(i).copied();
            // a version that was current at some moment of the backup
            let mut ok = g.is_none() && l[0].1 > b0;
            for (n, x) in l.iter().enumerate() {
                let end = l.get(n + 1).map_or(u64::MAX, |y| y.1);
                if x.0 > b1 || end < b0 { continue; }
                ok |= match x.3 { Some(t) => (g == x.2 && *w0 < t + 60_000_000_000) || (g.is_none() && *w1 >= t), None => g == x.2 };
            }
            if !ok { v.push(viol("restored-wrong", format!("{} is {g:?} after the restore; its versions (invoked, returned, hash, expiration) are {l:?}, the backup ran from #{b0} to #{b1}", name(i)))); }
        }
        if !v.is_empty() { break; }
    }
    v
}
fn name(i: &Item) -> String {
    match i {
        Item::Doc(d, c, n) => format!("document {:?} of collection {c} of {:?}", String::from_utf8_lossy(&ids(*c)[*n as usize]), DBS[*d as usize].0),
        Item::Key(d, k) => format!("key {:?} of {:?}", KEYS[*k as usize], DBS[*d as usize].0),
    }
}
