//! C17: encryption and compression. Clients write documents, views, keys and users that
//! carry markers under changing configurations; nothing marked as secret may be written
//! in the clear, everything reads back, and copies of the directory without the right
//! vault key reveal nothing.
use crate::common::*;
use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection, StorageConnection};
use bonsaidb_core::document::{BorrowedDocument, Emit, KeyId};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::schema::view::ViewUpdatePolicy;
use bonsaidb_core::schema::{
    Collection, CollectionName, DefaultViewSerialization, MapReduce, Qualified, ReduceResult, Schema, SchemaName, Schematic, SerializedView, View, ViewMapResult, ViewMappedValue, ViewSchema,
};
use bonsaidb_local::config::*;
use bonsaidb_local::vault::LocalVaultKeyStorage;
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub fn plan_knobs(prop: &str, p: &mut Plan, r: &mut Rng) {
    if prop == "C17" {
        for (k, v) in [("lz4", &[0, 1, 1, 2, 2][..]), ("key", &[0, 0, 1, 2][..]), ("collkey", &[0, 1, 1, 2][..]), ("keystore", &[0, 1][..])] { p.knobs.insert(k.into(), *r.pick(v)); }
    } else if r.chance(1, 6) { p.knobs.insert("lz4".into(), 1); }
}
/// Is this setting on in this lifetime? 2: it changes.
pub fn on(plan: &Plan, name: &str, ep: usize) -> bool {
    match plan.knob(name) { 0 => false, 1 => true, 2 => mix(plan.seed ^ hash_str(name) ^ ep as u64) & 1 == 1, _ => false }
}
const KEYS: &str = "/simfs/vault-keys";
pub fn configure(plan: &Plan, cfg: StorageConfiguration) -> StorageConfiguration {
    let mut cfg = cfg;
    let ep = simcore::run::epoch();
    if on(plan, "lz4", ep) { cfg = cfg.default_compression(Compression::Lz4); }
    if on(plan, "key", ep) { cfg = cfg.default_encryption_key(KeyId::Master); }
    if plan.knob("keystore") == 1 { cfg = cfg.vault_key_storage(LocalVaultKeyStorage::new(KEYS).expect("key directory")); }
    cfg
}
pub fn leaks(r: &RunResult) -> Vec<Violation> {
    for (i, e) in r.epochs.iter().enumerate() {
        if let Some(k) = e.stats.probes.keys().find(|k| k.starts_with("leak ")) { return vec![viol("leak", format!("epoch {i}: {k}"))]; }
        if let Some(k) = e.flags.iter().find(|k| k.starts_with("leak ")) { return vec![viol("leak", format!("epoch {i}: {k}"))]; }
    }
    vec![]
}
/// Key material in any file of the image, except where vault keys are stored.
pub fn leaked_keys(img: &simcore::fs::Image) -> Vec<String> {
    let mut v = vec![];
    let vk = crate::neb::vault_keys(img);
    let mk = crate::neb::master_keys(img, PATH);
    for (p, ino) in &img.names {
        let Some(i) = img.inodes.get(ino) else { continue };
        if mk.iter().any(|k| simcore::fs::find(&i.data, k)) { v.push(format!("leak master-key {p}")); }
        if !p.contains("vault-keys/") && vk.iter().any(|k| simcore::fs::find(&i.data, k)) { v.push(format!("leak vault-key {p}")); }
    }
    v
}

// ------------------------------------------------------------ schema
static COLL_KEY: AtomicI64 = AtomicI64::new(0);
const MARK: [&str; 4] = ["TOPSECRET-P-", "TOPSECRET-E-", "TOPSECRET-K-", "TOPSECRET-U-"];
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Body { n: u64, text: String, view: bool, pad: Vec<u8> }
macro_rules! coll {
    ($t:ident, $n:expr, $views:expr) => {
        #[derive(Debug, Clone)]
        pub struct $t;
        impl Collection for $t {
            type PrimaryKey = u64;
            fn collection_name() -> CollectionName { CollectionName::new("t", $n) }
            fn define_views(schema: &mut Schematic) -> Result<(), bonsaidb_core::Error> { let f: fn(&mut Schematic) -> Result<(), bonsaidb_core::Error> = $views; f(schema) }
            fn encryption_key() -> Option<KeyId> { if COLL_KEY.load(Relaxed) == 1 && $n == "e" { Some(KeyId::Master) } else { None } }
        }
    };
}
coll!(P, "p", |s| { s.define_view(PLazy)?; s.define_view(PEager) });
coll!(X, "e", |s| { s.define_view(XLazy)?; s.define_view(XEager)?; s.define_view(XUniq) });
macro_rules! view {
    ($t:ident, $c:ident, $n:expr, $pol:expr) => {
        #[derive(Debug, Clone)]
        pub struct $t;
        impl View for $t {
            type Collection = $c;
            type Key = String;
            type Value = String;
            fn name(&self) -> bonsaidb_core::schema::Name { bonsaidb_core::schema::Name::new($n) }
        }
        impl ViewSchema for $t {
            type View = Self;
            type MappedKey<'doc> = String;
            fn update_policy(&self) -> ViewUpdatePolicy { $pol }
        }
        impl DefaultViewSerialization for $t {}
        impl MapReduce for $t {
            fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
                let b: Body = bincode::deserialize(&d.contents).expect("body");
                if !b.view { return Ok(bonsaidb_core::schema::view::map::Mappings::none()); }
                d.header.emit_key_and_value(format!("{}{}", b.text, $n), format!("{}#{}", b.text, $n))
            }
            fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> { Ok(m.iter().map(|x| x.value.clone()).max().unwrap_or_default()) }
        }
    };
}
view!(PLazy, P, "lazy", ViewUpdatePolicy::Lazy);
view!(PEager, P, "eager", ViewUpdatePolicy::Eager);
view!(XLazy, X, "lazy", ViewUpdatePolicy::Lazy);
view!(XEager, X, "eager", ViewUpdatePolicy::Eager);
view!(XUniq, X, "uniq", ViewUpdatePolicy::Unique);
#[derive(Debug)]
pub struct CS;
impl Schema for CS {
    fn schema_name() -> SchemaName { SchemaName::new("t", "crypt") }
    fn define_collections(s: &mut Schematic) -> Result<(), bonsaidb_core::Error> { s.define_collection::<P>()?; s.define_collection::<X>() }
}

// ------------------------------------------------------------ history
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum C {
    /// collection, id, number of the version, in the views
    Put(u8, u64, u64, bool),
    Del(u8, u64),
    Set(u8, u64),
    Unset(u8),
    User(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Open,
    Inv(C),
    Ack(u64),
    Fail(u64, String),
    /// document, number of the version found (0: none, MAX: other contents)
    Doc(u8, u64, u64),
    Key(u8, u64),
    Users(Vec<u64>),
    /// view, problem
    View(String),
    Closed,
    /// attack, what it could read
    Attack(u8, Vec<String>),
    Control(String),
    Mark(String),
}
const MAXID: u64 = 24;
const NKEYS: u8 = 5;
fn body(c: u8, n: u64, view: bool) -> Body {
    let len = match n % 7 { 0 => 3000, 1 | 2 => 200, _ => 0 };
    let mut x = n;
    let pad = (0..len).map(|i| if n % 2 == 0 && i % 3 == 0 { x = mix(x); x as u8 } else { b'p' }).collect();
    Body { n, text: format!("{}{n}-", MARK[c as usize]), view, pad }
}
fn of(b: &[u8], c: u8) -> u64 {
    match bincode::deserialize::<Body>(b) { Ok(x) if x == body(c, x.n, x.view) => x.n, _ => u64::MAX }
}
fn value(n: u64) -> Vec<u8> { let mut v = format!("{}{n}", MARK[2]).into_bytes(); v.extend(std::iter::repeat(b'v').take((n % 3) as usize * 150)); v }
fn key(k: u8) -> String { format!("{}{k}", MARK[2]) }
fn of_value(b: &[u8]) -> u64 {
    let n = std::str::from_utf8(b).ok().and_then(|s| s.strip_prefix(MARK[2])).and_then(|s| s.trim_end_matches('v').parse().ok()).unwrap_or(u64::MAX);
    if n != u64::MAX && value(n) == b { n } else { u64::MAX }
}
fn ack<T, Er: std::fmt::Display>(i: u64, r: Result<T, Er>) { match r { Ok(_) => { record(&E::Ack(i)); } Err(e) => { record(&E::Fail(i, e.to_string())); } } }
fn open_at(cfg: StorageConfiguration) -> Result<(Storage, Database), bonsaidb_core::Error> {
    let st = Storage::open(cfg.with_schema::<CS>()?)?;
    let db = st.create_database::<CS>("db", true)?;
    Ok((st, db))
}
fn coll(c: u8) -> CollectionName { if c == 0 { P::collection_name() } else { X::collection_name() } }
fn client(st: &Storage, db: &Database, ep: usize, t: usize, ops: &[Op]) {
    for (i, o) in ops.iter().enumerate() {
        let n = crate::docs::uniq(ep, t, i);
        let c = (o.arg(0) & 1) as u8;
        // every client has its own documents and keys
        let id = t as u64 * 8 + o.arg(1) as u64 % 8;
        match o.k.as_str() {
            "put" => { let v = o.arg(2) % 3 != 0; let s = record(&E::Inv(C::Put(c, id, n, v))); let b = bincode::serialize(&body(c, n, v)).unwrap(); ack(s, bonsaidb_core::transaction::Transaction::from(bonsaidb_core::transaction::Operation::overwrite(coll(c), did(id), b)).apply(db)); }
            "del" => {
                let s = record(&E::Inv(C::Del(c, id)));
                let r = match c { 0 => match db.collection::<P>().get(&id) { Ok(Some(d)) => db.collection::<P>().delete(&d).map(|_| ()), Ok(None) => Ok(()), Err(e) => Err(e) }, _ => match db.collection::<X>().get(&id) { Ok(Some(d)) => db.collection::<X>().delete(&d).map(|_| ()), Ok(None) => Ok(()), Err(e) => Err(e) } };
                ack(s, r);
            }
            "set" => { let k = t as u8 + 3 * (o.arg(1) as u64 % 2) as u8; let s = record(&E::Inv(C::Set(k, n))); ack(s, db.set_binary_key(key(k), &value(n)).execute()); }
            "unset" => { let k = t as u8 + 3 * (o.arg(1) as u64 % 2) as u8; let s = record(&E::Inv(C::Unset(k))); ack(s, db.delete_key(key(k))); }
            "user" => { let s = record(&E::Inv(C::User(n))); ack(s, st.create_user(&format!("{}{n}", MARK[3]))); }
            "view" => { let e = match c { 0 => PLazy::entries(db).query().map(|_| ()), _ => XLazy::entries(db).query().map(|_| ()) }; if let Err(e) = e { record(&E::Mark(format!("view: {e}"))); } }
            "reduce" => { let e = match c { 0 => PEager::entries(db).reduce().map(|_| ()), _ => XLazy::entries(db).reduce().map(|_| ()) }; if let Err(e) = e { record(&E::Mark(format!("reduce: {e}"))); } }
            "compact" => { let e = match o.arg(1) % 4 { 0 => db.compact(), 1 => db.compact_key_value_store(), _ => db.compact_collection_by_name(coll(c)) }; if let Err(e) = e { record(&E::Mark(format!("compact: {e}"))); } }
            _ => sim_sleep_ns(o.arg(1).max(1) as u64 * 1_000_000),
        }
    }
}
fn check_view<V: SerializedView<Key = String, Value = String>>(db: &Database, c: u8, name: &str, docs: &BTreeMap<u64, (u64, bool)>) where V::Collection: Collection<PrimaryKey = u64> {
    let got = match V::entries(db).with_access_policy(AccessPolicy::UpdateBefore).query() { Ok(m) => m, Err(e) => { record(&E::Mark(format!("view {name}: {e}"))); return } };
    let got: BTreeSet<(String, String, u64)> = got.into_iter().map(|m| (m.key, m.value, m.source.id)).collect();
    let want: BTreeSet<(String, String, u64)> = docs.iter().filter(|(_, v)| v.1).map(|(id, v)| { let t = format!("{}{}-", MARK[c as usize], v.0); (format!("{t}{name}"), format!("{t}#{name}"), *id) }).collect();
    if got != want { let d: Vec<_> = got.symmetric_difference(&want).take(3).collect(); record(&E::View(format!("{} {name}: {} entries instead of {}: {d:?}", if c == 0 { "P" } else { "E" }, got.len(), want.len()))); }
}
fn verify(st: &Storage, db: &Database) {
    for c in 0..2u8 {
        let mut docs = BTreeMap::new();
        for id in 0..MAXID {
            match db.get_from_collection(did(id), &coll(c)) {
                Ok(None) => { record(&E::Doc(c, id, 0)); }
                Ok(Some(d)) => { let n = of(&d.contents, c); let v = bincode::deserialize::<Body>(&d.contents).map_or(false, |b| b.view); docs.insert(id, (n, v)); record(&E::Doc(c, id, n)); }
                Err(e) => { record(&E::Mark(format!("get: {e}"))); }
            }
        }
        if c == 0 { check_view::<PLazy>(db, 0, "lazy", &docs); check_view::<PEager>(db, 0, "eager", &docs); } else { check_view::<XLazy>(db, 1, "lazy", &docs); check_view::<XEager>(db, 1, "eager", &docs); check_view::<XUniq>(db, 1, "uniq", &docs); }
    }
    for k in 0..NKEYS + 1 {
        match db.get_key(key(k)).query() {
            Ok(None) => { record(&E::Key(k, 0)); }
            Ok(Some(bonsaidb_core::keyvalue::Value::Bytes(b))) => { record(&E::Key(k, of_value(&b))); }
            Ok(Some(_)) => { record(&E::Key(k, u64::MAX)); }
            Err(e) => { record(&E::Mark(format!("get_key: {e}"))); }
        }
    }
    use bonsaidb_core::admin::User;
    match st.admin().collection::<User>().all().query() {
        Ok(v) => { record(&E::Users(v.iter().filter_map(|d| bonsaidb_core::document::CollectionDocument::<User>::try_from(d).ok()).filter_map(|d| d.contents.username.strip_prefix(MARK[3]).and_then(|n| n.parse().ok())).collect())); }
        Err(e) => { record(&E::Mark(format!("users: {e}"))); }
    }
}
fn copy(from: &str, to: &str) {
    let _ = std::fs::create_dir_all(to);
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let (a, b) = (format!("{from}/{}", e.file_name().to_string_lossy()), format!("{to}/{}", e.file_name().to_string_lossy()));
        if e.file_type().map_or(false, |t| t.is_dir()) { copy(&a, &b) } else { std::fs::write(&b, std::fs::read(&a).unwrap()).unwrap() }
    }
}
/// Everything that can be read through the API: which secrets does it reveal?
fn loot(st: &Storage, db: &Database) -> Vec<String> {
    let mut v = vec![];
    let mut see = |what: String, b: &[u8]| for (i, m) in MARK.iter().enumerate() { if simcore::fs::find(b, m.as_bytes()) { v.push(format!("{i} {what}")); } };
    for c in 0..2u8 { for id in 0..MAXID { if let Ok(Some(d)) = db.get_from_collection(did(id), &coll(c)) { see(format!("document {id} of {c}"), &d.contents); } } }
    for k in 0..NKEYS + 1 { if let Ok(Some(bonsaidb_core::keyvalue::Value::Bytes(b))) = db.get_key(key(k)).query() { see(format!("key {k}"), &b); } }
    if let Ok(m) = XEager::entries(db).with_access_policy(AccessPolicy::NoUpdate).query() { for m in m { see("view of 1".into(), m.key.as_bytes()); } }
    if let Ok(m) = PEager::entries(db).with_access_policy(AccessPolicy::NoUpdate).query() { for m in m { see("view of 0".into(), m.key.as_bytes()); } }
    if let Ok(m) = st.admin().collection::<bonsaidb_core::admin::User>().all().query() { for d in m { see("user".into(), &d.contents); } }
    v
}
fn set_coll_key(plan: &Plan, ep: usize) { COLL_KEY.store(on(plan, "collkey", ep) as i64, Relaxed); }
fn attack(plan: &Plan, ep: usize) {
    let keys = if plan.knob("keystore") == 1 { KEYS.to_string() } else { format!("{PATH}/vault-keys") };
    let cfg = |path: &str, keys: &str| {
        let mut c = configure(plan, base_config(plan)).path(path);
        c.vault_key_storage = None;
        let c = c.vault_key_storage(LocalVaultKeyStorage::new(keys).unwrap());
        c
    };
    let _ = ep;
    let x = mix(plan.seed ^ 0x61);
    copy(PATH, "/simfs/copy");
    // a copy of everything opens
    match open_at(cfg("/simfs/copy", &keys)) { Ok((st, db)) => { let n = loot(&st, &db).len(); record(&E::Control(if n == 0 { "nothing".into() } else { String::new() })); } Err(e) => { record(&E::Control(e.to_string())); } }
    sim_sleep_ns(100_000_000_000);
    let id = std::fs::read_dir(&keys).unwrap().flatten().next().unwrap().file_name().to_string_lossy().to_string();
    // another storage's key
    if let Ok((st, db)) = open_at(cfg("/simfs/other", "/simfs/other-vault-keys")) { drop((st, db)); }
    sim_sleep_ns(100_000_000_000);
    let other = std::fs::read_dir("/simfs/other-vault-keys").unwrap().flatten().next().unwrap().path();
    let _ = std::fs::create_dir_all("/simfs/wrong-vault-keys");
    std::fs::write(format!("/simfs/wrong-vault-keys/{id}"), std::fs::read(other).unwrap()).unwrap();
    for a in 0..4u8 {
        let dir = format!("/simfs/stolen{a}");
        copy(PATH, &dir);
        let _ = std::fs::remove_dir_all(format!("{dir}/vault-keys"));
        let k = match a { 0 => "/simfs/no-vault-keys", 1 => "/simfs/wrong-vault-keys", _ => "/simfs/new-vault-keys" };
        if a >= 2 { let _ = std::fs::remove_file(format!("{dir}/master-keys")); }
        // the other storage's sealed keys and their vault key
        if a == 3 { std::fs::write(format!("{dir}/master-keys"), std::fs::read("/simfs/other/master-keys").unwrap()).unwrap(); }
        let k = if a == 3 { "/simfs/wrong-vault-keys" } else { k };
        if x >> a & 1 == 1 { COLL_KEY.store(0, Relaxed); } else { set_coll_key(plan, ep); }
        let mut c = cfg(&dir, k);
        if x >> (8 + a) & 1 == 1 { c.default_encryption_key = None; }
        if x >> (16 + a) & 1 == 1 { c.default_compression = None; }
        match open_at(c) {
            Ok((st, db)) => { let l = loot(&st, &db); record(&E::Attack(a, l)); }
            Err(_) => { record(&E::Attack(10 + a, vec![])); }
        }
        sim_sleep_ns(100_000_000_000);
    }
}
pub struct Crypt;
impl Scenario for Crypt {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x6372_7970));
        let r = &mut rng;
        let mut p = Plan { prop: prop.into(), scenario: "crypt".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
        std_knobs(&mut p, r);
        plan_knobs("C17", &mut p, r);
        p.knobs.insert("attack".into(), r.chance(1, 3) as i64);
        for _ in 0..r.range(1, if thorough { 4 } else { 3 }) {
            let mut ep = EpochPlan::default();
            let mut total = 0;
            for _ in 0..r.range(1, 3) {
                let mut ops = vec![];
                for _ in 0..r.range(2, if thorough { 16 } else { 10 }) {
                    let k = *r.pick::<&str>(&["put", "put", "put", "put", "put", "put", "del", "set", "set", "set", "unset", "user", "view", "view", "reduce", "compact", "compact", "sleep"]);
                    let a = if k == "sleep" { *r.pick(&[1, 50, 400]) } else { (r.next() >> 30) as i64 };
                    ops.push(Op::new(k, &[r.below(2) as i64, a, (r.next() >> 30) as i64]));
                    total += 1;
                }
                ep.threads.push(ops);
            }
            if r.chance(1, 2) { ep.crash_at = Some(r.range(1, 60 + 22 * total as u64)); ep.crash_mode = crash_mode(r); }
            p.epochs.push(ep);
        }
        p.epochs.push(EpochPlan::default());
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        let last = ep + 1 == plan.epochs.len();
        freeze(last);
        if last { set_faults(false); }
        set_coll_key(plan, ep);
        let all = on(plan, "key", ep);
        if all { watch(MARK[0].as_bytes(), "document-or-view", ""); watch(MARK[2].as_bytes(), "key-value", ""); }
        if all || on(plan, "collkey", ep) { watch(MARK[1].as_bytes(), "document-or-view-of-encrypted-collection", ""); }
        watch(MARK[3].as_bytes(), "user", "");
        let (st, db) = match open_at(configure(plan, base_config(plan))) { Ok(x) => x, Err(e) => { record(&E::Mark(format!("open: {e}"))); return } };
        record(&E::Open);
        if ep > 0 { verify(&st, &db); }
        let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
            let (st, db) = (st.clone(), db.clone());
            std::thread::Builder::new().name(format!("client{t}")).spawn(move || client(&st, &db, ep, t, &ops)).unwrap()
        }).collect();
        for h in hs { let _ = h.join(); }
        if !last && plan.knob("chk") == 0 { verify(&st, &db); }
        drop((st, db));
        sim_sleep_ns(100_000_000_000);
        record(&E::Closed);
        if last && plan.knob("attack") == 1 { unwatch(); attack(plan, ep); }
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v.extend(leaks(r)); }
        if v.is_empty() { v.extend(check(plan, r, &r.events::<E>())); }
        crate::neb::attribute(r, v)
    }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { let mut v = crate::neb::flags(img, crashed); v.extend(leaked_keys(img)); v }
    fn nontrivial(&self, _plan: &Plan, r: &RunResult) -> bool { r.epochs.iter().any(|e| e.history.len() > 6) }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> { r.events::<E>().iter().map(|e| { let s: String = format!("{:?}", e.e).chars().take(300).collect(); format!("#{} e{} t{} {}us {s}", e.seq, e.epoch, e.tid, e.at / 1000) }).collect() }
}
fn check(plan: &Plan, r: &RunResult, ev: &[Ev<E>]) -> Vec<Violation> {
    // possible values of each item: documents, keys, users
    let mut docs: BTreeMap<(u8, u64), BTreeSet<u64>> = BTreeMap::new();
    // keys: what a crash can bring back, newest last
    let mut keys: BTreeMap<u8, Vec<u64>> = BTreeMap::new();
    let mut users: BTreeMap<u64, bool> = BTreeMap::new();
    let mut pend: BTreeMap<u64, C> = BTreeMap::new();
    let n = plan.epochs.len();
    // was every lifetime's data of this class encrypted?
    let sealed = |class: usize| (0..n).all(|ep| class == 3 || on(plan, "key", ep) || class == 1 && on(plan, "collkey", ep));
    for e in ev {
        match &e.e {
            E::Open => {
                // calls the crash interrupted may have happened
                for (_, c) in std::mem::take(&mut pend) {
                    match c {
                        C::Put(c, id, n, _) => { docs.entry((c, id)).or_insert_with(|| [0].into()).insert(n); }
                        C::Del(c, id) => { docs.entry((c, id)).or_insert_with(|| [0].into()).insert(0); }
                        C::Set(k, n) => keys.entry(k).or_insert_with(|| vec![0]).push(n),
                        C::Unset(k) => keys.entry(k).or_insert_with(|| vec![0]).push(0),
                        C::User(n) => { users.insert(n, false); }
                    }
                }
            }
            E::Inv(c) => { pend.insert(e.seq, c.clone()); }
            E::Fail(i, m) => return vec![viol("unexpected-error", format!("call {:?}: {m}", pend.get(i)))],
            E::Ack(i) => match pend.remove(i) {
                Some(C::Put(c, id, n, _)) => { docs.insert((c, id), [n].into()); }
                Some(C::Del(c, id)) => { docs.insert((c, id), [0].into()); }
                Some(C::Set(k, n)) => keys.entry(k).or_insert_with(|| vec![0]).push(n),
                Some(C::Unset(k)) => keys.entry(k).or_insert_with(|| vec![0]).push(0),
                Some(C::User(n)) => { users.insert(n, true); }
                None => {}
            },
            E::Closed => for v in keys.values_mut() { let l = *v.last().unwrap(); *v = vec![l]; },
            E::Doc(c, id, n) => {
                let s = docs.entry((*c, *id)).or_insert_with(|| [0].into());
                if !s.contains(n) { return vec![viol("wrong-read", format!("epoch {}: document {id} of {}: found version {n}, expected one of {s:?}", e.epoch, coll(*c)))]; }
                *s = [*n].into();
            }
            E::Key(k, n) => {
                let s = keys.entry(*k).or_insert_with(|| vec![0]);
                // within a lifetime only the newest; after a crash an older one
                let crashed = e.epoch > 0 && r.epochs[e.epoch - 1].outcome == Outcome::Crashed;
                if !(if crashed { s.contains(n) } else { s.last() == Some(n) }) { return vec![viol("kv-value", format!("epoch {}: key {k}: found {n}, expected {s:?}", e.epoch))]; }
                *s = vec![*n];
            }
            E::Users(l) => {
                for (u, sure) in &users { if *sure && !l.contains(u) { return vec![viol("missing-user", format!("epoch {}: user {u} of {l:?}", e.epoch))]; } }
                if let Some(u) = l.iter().find(|u| !users.contains_key(u)) { return vec![viol("wrong-read", format!("user {u}"))]; }
                users = l.iter().map(|u| (*u, true)).collect();
            }
            E::View(m) => return vec![viol("wrong-view", format!("epoch {}: {m}", e.epoch))],
            E::Mark(m) => return vec![viol(if m.starts_with("open") { "open-failed" } else { "unexpected-error" }, format!("epoch {}: {m}", e.epoch))],
            E::Control(m) => {
                let any = docs.values().any(|s| !s.contains(&0)) || !users.is_empty();
                if !m.is_empty() && (m != "nothing" || any) { return vec![viol(if m == "nothing" { "control" } else { "unexpected-error" }, format!("a copy of the directory with its keys can't be read: {m}"))]; }
            }
            E::Attack(a, l) => {
                if *a < 2 { return vec![viol("opened-without-key", format!("attack {a}: a copy opened {}", if *a == 0 { "without a vault key" } else { "with another vault key" }))]; }
                if let Some(x) = l.iter().find(|x| x.split(' ').next().and_then(|c| c.parse().ok()).map_or(false, &sealed)) { return vec![viol("read-without-key", format!("attack {a}: {x}"))]; }
            }
        }
    }
    vec![]
}
