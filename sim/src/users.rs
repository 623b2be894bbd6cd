//! C15: users, passwords, tokens, groups, roles; what sessions may do.
use crate::common::*;
use crate::lin::*;
use crate::schema::*;
use bonsaidb_core::admin::{AuthenticationToken, PermissionGroup, Role, User};
use bonsaidb_core::connection::{
    AccessPolicy, Authentication, Connection, HasSession, IdentityId, IdentityReference, LowLevelConnection, SensitiveString, Session, SessionAuthentication, StorageConnection,
};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::permissions::bonsai::*;
use bonsaidb_core::permissions::{Action, ActionName, Permissions, Statement};
use bonsaidb_core::pubsub::{PubSub, Subscriber};
use bonsaidb_core::schema::{Collection, NamedCollection, NamedReference, SerializedCollection};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::*;
use bonsaidb_client::{AsyncClient, AsyncRemoteDatabase, BlockingClient, BlockingRemoteDatabase};
use bonsaidb_local::{AsyncDatabase, AsyncStorage, Database, Storage};
use crate::blk::{Blk, BlkS};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

/// Where sessions come from: the storage itself or a client, blocking or async.
pub trait Front: StorageConnection<Authenticated = Self> + Clone + Send + Sync + 'static {
    type Db: Connection + KeyValue + PubSub;
    const REMOTE: bool;
    fn db(&self, name: &str) -> Result<Self::Db, bonsaidb_core::Error>;
}
impl Front for Storage { type Db = Database; const REMOTE: bool = false; fn db(&self, n: &str) -> Result<Database, bonsaidb_core::Error> { self.database::<DocSchema>(n) } }
impl Front for BlkS<AsyncStorage> { type Db = Blk<AsyncDatabase>; const REMOTE: bool = false; fn db(&self, n: &str) -> Result<Self::Db, bonsaidb_core::Error> { self.database::<DocSchema>(n) } }
impl Front for BlockingClient { type Db = BlockingRemoteDatabase; const REMOTE: bool = true; fn db(&self, n: &str) -> Result<Self::Db, bonsaidb_core::Error> { self.database::<DocSchema>(n) } }
impl Front for BlkS<AsyncClient> { type Db = Blk<AsyncRemoteDatabase>; const REMOTE: bool = true; fn db(&self, n: &str) -> Result<Self::Db, bonsaidb_core::Error> { self.database::<DocSchema>(n) } }
/// A session that is kept: the call it came from, the time of the server it belongs to, what it may do.
struct Kept<F> { i: u64, phase: u64, s: F, perm: Session }
pub struct Pool<F>(Mutex<Vec<Arc<Kept<F>>>>);
impl<F> Default for Pool<F> { fn default() -> Self { Pool(Mutex::new(vec![])) } }
/// What clients may do that have not logged in.
pub fn def_session(plan: &Plan) -> Session {
    use bonsaidb_core::connection::AuthenticationMethod as M;
    let mut st = statements(plan.seed, DEF, 0);
    let sv = |a| Statement::for_any().allowing(&BonsaiAction::Server(a));
    st.push(sv(ServerAction::Connect));
    let b = plan.knob("defauth");
    if b & 1 == 1 { st.push(sv(ServerAction::Authenticate(M::PasswordHash))); }
    if b & 2 == 2 { st.push(sv(ServerAction::Authenticate(M::Token))); }
    if b & 4 == 4 { st.push(sv(ServerAction::AssumeIdentity)); }
    Session { permissions: Permissions::from(st), ..Session::default() }
}
/// May they make this call?
fn def_allows(plan: &Plan, c: &Call) -> bool {
    use bonsaidb_core::connection::AuthenticationMethod as M;
    let s = def_session(plan);
    let ok = |a| s.allowed_to(user_resource_name(1), &BonsaiAction::Server(a));
    match c {
        Call::Login(..) => ok(ServerAction::Authenticate(M::PasswordHash)),
        Call::Token(..) => ok(ServerAction::Authenticate(M::Token)),
        Call::Assume(..) | Call::AssumeRole(..) => ok(ServerAction::AssumeIdentity),
        _ => true,
    }
}
const DEF: u8 = 98;

pub const NU: u8 = 3;
pub const NG: u8 = 4;
pub const NR: u8 = 3;
pub const NT: u8 = 3;
const VERS: u64 = 12;
pub const DBS: [&str; 2] = ["d", "e"];
fn nid(i: u64) -> NamedReference<'static, u64> { NamedReference::Id(did(i)) }
fn uname(u: u8) -> String { format!("user{u}") }
fn gname(g: u8) -> String { format!("group{g}") }
fn rname(r: u8) -> String { format!("role{r}") }
fn gid(g: u8) -> u64 { 10 + g as u64 }
fn rid(r: u8) -> u64 { 20 + r as u64 }
fn tid(t: u8) -> u64 { 30 + t as u64 }

// ------------------------------------------------------------- permissions
#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    Insert, Update, Overwrite, Delete, Get, List, Headers, Count, Query, Reduce, DeleteDocs, ListExecuted, LastId, Subscriber, Publish, Subscribe, Kv, Compact,
    Schemas, ListDbs, CreateDb, DeleteDb, CreateUser, DeleteUser, SetPassword, Authenticate, Assume, Groups, Roles,
}
const PS: &[P] = &[
    P::Insert, P::Update, P::Overwrite, P::Delete, P::Get, P::List, P::Headers, P::Count, P::Query, P::Reduce, P::DeleteDocs, P::ListExecuted, P::LastId, P::Subscriber, P::Publish, P::Subscribe, P::Kv, P::Compact,
    P::Schemas, P::ListDbs, P::CreateDb, P::DeleteDb, P::CreateUser, P::DeleteUser, P::SetPassword, P::Authenticate, P::Assume, P::Groups, P::Roles,
];
const SERVER: usize = 18;
fn action(p: P) -> BonsaiAction {
    use DocumentAction as D;
    let d = |x| BonsaiAction::Database(DatabaseAction::Document(x));
    match p {
        P::Insert => d(D::Insert), P::Update => d(D::Update), P::Overwrite => d(D::Overwrite), P::Delete => d(D::Delete), P::Get => d(D::Get), P::List => d(D::List), P::Headers => d(D::ListHeaders), P::Count => d(D::Count),
        P::Query => BonsaiAction::Database(DatabaseAction::View(ViewAction::Query)),
        P::Reduce => BonsaiAction::Database(DatabaseAction::View(ViewAction::Reduce)),
        P::DeleteDocs => BonsaiAction::Database(DatabaseAction::View(ViewAction::DeleteDocs)),
        P::ListExecuted => BonsaiAction::Database(DatabaseAction::Transaction(TransactionAction::ListExecuted)),
        P::LastId => BonsaiAction::Database(DatabaseAction::Transaction(TransactionAction::GetLastId)),
        P::Subscriber => BonsaiAction::Database(DatabaseAction::PubSub(PubSubAction::CreateSuscriber)),
        P::Publish => BonsaiAction::Database(DatabaseAction::PubSub(PubSubAction::Publish)),
        P::Subscribe => BonsaiAction::Database(DatabaseAction::PubSub(PubSubAction::SubscribeTo)),
        P::Kv => BonsaiAction::Database(DatabaseAction::KeyValue(KeyValueAction::ExecuteOperation)),
        P::Compact => BonsaiAction::Database(DatabaseAction::Compact),
        P::Schemas => BonsaiAction::Server(ServerAction::ListAvailableSchemas),
        P::ListDbs => BonsaiAction::Server(ServerAction::ListDatabases),
        P::CreateDb => BonsaiAction::Server(ServerAction::CreateDatabase),
        P::DeleteDb => BonsaiAction::Server(ServerAction::DeleteDatabase),
        P::CreateUser => BonsaiAction::Server(ServerAction::CreateUser),
        P::DeleteUser => BonsaiAction::Server(ServerAction::DeleteUser),
        P::SetPassword => BonsaiAction::Server(ServerAction::SetPassword),
        P::Authenticate => BonsaiAction::Server(ServerAction::Authenticate(bonsaidb_core::connection::AuthenticationMethod::PasswordHash)),
        P::Assume => BonsaiAction::Server(ServerAction::AssumeIdentity),
        P::Groups => BonsaiAction::Server(ServerAction::ModifyUserPermissionGroups),
        P::Roles => BonsaiAction::Server(ServerAction::ModifyUserRoles),
    }
}
/// Is `p` on database `d` allowed to a session? `x`: an id only this call uses.
fn session_allows(s: &Session, p: P, d: usize, x: u64) -> bool {
    let a = action(p);
    let c = A::collection_name();
    let db = DBS[d];
    let id = did(x);
    match p {
        P::Insert | P::List | P::Headers | P::Count => s.allowed_to(collection_resource_name(db, &c), &a),
        P::Update | P::Overwrite | P::Delete | P::Get => s.allowed_to(document_resource_name(db, &c, &id), &a),
        P::Query | P::Reduce | P::DeleteDocs => { let v = view_name(V_KEY); s.allowed_to(view_resource_name(db, &v), &a) }
        P::ListExecuted | P::LastId | P::Subscriber | P::Compact => s.allowed_to(database_resource_name(db), &a),
        P::Publish | P::Subscribe => s.allowed_to(pubsub_topic_resource_name(db, b"t"), &a),
        P::Kv => s.allowed_to(keyvalue_key_resource_name(db, None, "x"), &a),
        P::CreateDb | P::DeleteDb => s.allowed_to(database_resource_name("new"), &a),
        P::DeleteUser | P::SetPassword | P::Authenticate | P::Assume | P::Groups | P::Roles => s.allowed_to(user_resource_name(x), &a),
        P::Schemas | P::ListDbs | P::CreateUser => s.allowed_to(bonsaidb_resource_name(), &a),
    }
}
/// Marks which version of which group a session was built from.
struct Bit(u8, u64);
impl Action for Bit {
    fn name(&self) -> ActionName { ActionName(vec!["bit".into(), format!("g{}v{}", self.0, self.1).into()]) }
}
/// What version `v` of group `g` grants: (index of P, 0 everywhere, 1 in "d", 2 in "e")
fn grants(seed: u64, g: u8, v: u64) -> Vec<(usize, u8)> {
    let mut r = Rng::new(mix(seed ^ mix(g as u64 * 1000 + v)));
    let mut out = vec![];
    for _ in 0..r.below(9) { out.push((r.below(PS.len() as u64) as usize, *r.pick(&[0, 0, 1, 1, 2]))); }
    out
}
fn statements(seed: u64, g: u8, v: u64) -> Vec<Statement> {
    let mut out = vec![Statement::for_any().allowing(&Bit(g, v))];
    for (p, s) in grants(seed, g, v) {
        let st = match s { 0 => Statement::for_any(), _ => Statement::for_resource(database_resource_name(DBS[s as usize - 1]).to_owned()) };
        out.push(st.allowing(&action(PS[p])));
    }
    out
}
fn expected(seed: u64, bits: &[(u8, u64)]) -> Vec<bool> {
    let mut m = vec![false; PS.len() * 2];
    for (g, v) in bits.iter().copied().chain([(AUTH, 0)]) {
        for (p, s) in grants(seed, g, v) {
            for d in 0..2 { if s == 0 || (p < SERVER && s as usize == d + 1) { m[p * 2 + d] = true; } }
        }
    }
    m
}
/// the permissions of every authenticated session
const AUTH: u8 = 99;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Who { Name(u8), Id(u64) }
impl Who { fn r(&self) -> NamedReference<'static, u64> { match self { Who::Name(u) => NamedReference::from(uname(*u)), Who::Id(i) => nid(*i) } } }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    Create(u8),
    Delete(Who),
    Password(Who, u64),
    /// group slot, by id
    AddGroup(Who, u8, bool),
    RemoveGroup(Who, u8, bool),
    AddRole(Who, u8, bool),
    RemoveRole(Who, u8, bool),
    Login(Who, u64),
    Assume(Who),
    AssumeRole(u8, bool),
    /// token slot, secret, 0 good, 1 stale, 2 response of another challenge
    Token(u8, u64, u8),
    Dump,
    SetGroup(u8, Option<u64>),
    SetRole(u8, Option<u8>),
    SetToken(u8, Option<(u64, TokenOf)>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TokenOf { User(u64), Role(u8) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub struct Seen {
    pub user: Option<(u64, String)>,
    pub role: Option<(u64, String)>,
    pub bits: Vec<(u8, u64)>,
    pub matrix: Vec<bool>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ret {
    Ok,
    Id(u64),
    Conflict,
    Exists,
    NotFound,
    Refused,
    /// PermissionDenied
    Denied,
    Session(Seen),
    Users(Vec<(String, u64, Vec<u64>, Vec<u64>, bool)>),
    Other(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Inv(Call),
    Res(u64, Ret),
    /// (call that yielded the session, what, database, allowed, denied, effect, detail)
    Probe(u64, u8, u8, bool, bool, bool, String),
    Replayed(u64, bool),
    /// the call was made by a client that has not logged in
    Remote(u64),
    Mark(String),
    Closed,
}
fn er(e: bonsaidb_core::Error) -> Ret {
    use bonsaidb_core::Error as X;
    match e {
        X::UserNotFound | X::DocumentNotFound(..) => Ret::NotFound,
        X::InvalidCredentials => Ret::Refused,
        X::PermissionDenied(_) => Ret::Denied,
        X::DocumentConflict(..) => Ret::Conflict,
        X::UniqueKeyViolation { .. } => Ret::Exists,
        e => Ret::Other(e.to_string()),
    }
}
fn un(r: Result<(), bonsaidb_core::Error>) -> Ret { r.map_or_else(er, |_| Ret::Ok) }
fn inv(c: Call) -> u64 { record(&E::Inv(c)) }
fn res(i: u64, r: Ret) { record(&E::Res(i, r)); }
pub fn open(plan: &Plan) -> Result<Storage, String> {
    let mut c = base_config(plan).with_schema::<DocSchema>().map_err(|e| e.to_string())?;
    c.authenticated_permissions = Permissions::from(statements(plan.seed, AUTH, 0));
    Storage::open(c).map_err(|e| e.to_string())
}
fn seen<F: HasSession>(s: &F) -> Seen {
    let Some(ss) = s.session() else { return Seen { user: None, role: None, bits: vec![], matrix: vec![] } };
    let mut x = Seen { user: None, role: None, bits: vec![], matrix: vec![] };
    match ss.identity() {
        Some(bonsaidb_core::connection::Identity::User { id, username }) => x.user = Some((*id, username.clone())),
        Some(bonsaidb_core::connection::Identity::Role { id, name }) => x.role = Some((*id, name.clone())),
        _ => {}
    }
    for g in 0..NG { for v in 0..VERS { if ss.allowed_to(bonsaidb_resource_name(), &Bit(g, v)) { x.bits.push((g, v)); } } }
    for p in PS { for d in 0..2 { x.matrix.push(session_allows(ss, *p, d, 1)); } }
    x
}
fn session<F: Front>(i: u64, r: Result<F, bonsaidb_core::Error>) -> Option<F> {
    match r { Ok(s) => { res(i, Ret::Session(seen(&s))); Some(s) } Err(e) => { res(i, er(e)); None } }
}
fn secret(n: u64) -> SensitiveString { SensitiveString(format!("secret{n}-0123456789abcdef")) }
fn pw(n: u64) -> SensitiveString { SensitiveString(format!("pw{n}")) }
static DD: Mutex<()> = Mutex::new(());
fn body(uniq: u64) -> Body { Body { uniq, k: NO_KEY, k2: NO_KEY, n: 0, tags: 0, pad: 0 } }

/// One operation through a session; the target is unique to the call.
fn probe_op<F: Front>(i: u64, st: &Storage, s: &F, perm: &Session, p: usize, d: usize, x: u64) {
    let what = PS[p];
    let (db, admin): (F::Db, Database) = match (s.db(DBS[d]), st.database::<DocSchema>(DBS[d])) { (Ok(a), Ok(b)) => (a, b), e => { record(&E::Mark(format!("database: {:?}", (e.0.err(), e.1.err())))); return } };
    let a = admin.collection::<A>();
    let m = |e: bonsaidb_core::Error| record(&E::Mark(format!("setup: {e}")));
    let mut allowed = session_allows(perm, what, d, x);
    let mut header = None;
    // the keys of the view are few: one deletion at a time
    let _g = (what == P::DeleteDocs).then(|| DD.lock().unwrap());
    let dk = (x % 12) as u32;
    if matches!(what, P::Update | P::Overwrite | P::Delete | P::Get | P::DeleteDocs) {
        match a.insert_bytes(&x, Body { k: if what == P::DeleteDocs { dk } else { NO_KEY }, ..body(x) }.bytes()) { Ok(h) => header = Some(h), Err(e) => { m(e); return } }
    }
    let mut user = 0;
    let other = format!("x{x}");
    if matches!(what, P::DeleteUser | P::SetPassword | P::Authenticate | P::Assume | P::Groups | P::Roles) {
        user = match st.create_user(&other) { Ok(u) => u, Err(e) => { m(e); return } };
        allowed = session_allows(perm, what, d, user);
        if what == P::Authenticate { if let Err(e) = st.set_user_password(user, pw(1)) { m(e); return } }
    }
    let newdb = format!("n{x}");
    if what == P::DeleteDb { if let Err(e) = st.create_database::<DocSchema>(&newdb, false) { m(e); return } }
    let name = A::collection_name();
    let doc = |h: Option<bonsaidb_core::document::CollectionHeader<u64>>| bonsaidb_core::document::Header::try_from(h.unwrap()).unwrap();
    let by_name = x % 2 == 0;
    let who = || -> NamedReference<'static, u64> { if by_name { NamedReference::from(other.clone()) } else { nid(user) } };
    // what was done
    let r: Result<(), bonsaidb_core::Error> = match what {
        P::Insert if x % 3 == 0 => {
            // together with an allowed or denied operation on another document
            let mut t = Transaction::new();
            t.push(Operation::insert(name.clone(), Some(did(x)), body(x).bytes()));
            t.push(Operation::insert(name.clone(), Some(did(x + 1_000_000_000)), body(x).bytes()));
            db.apply_transaction(t).map(|_| ())
        }
        P::Insert => db.collection::<A>().insert_bytes(&x, body(x).bytes()).map(|_| ()),
        P::Update => db.apply_transaction(Transaction::update(name.clone(), doc(header.clone()), body(x + 1).bytes())).map(|_| ()),
        P::Overwrite => db.apply_transaction(Transaction::overwrite(name.clone(), did(x), body(x + 1).bytes())).map(|_| ()),
        P::Delete => db.apply_transaction(Transaction::delete(name.clone(), doc(header.clone()))).map(|_| ()),
        P::Get if x % 2 == 0 => db.collection::<A>().get_multiple([&x]).map(|_| ()),
        P::Get => db.collection::<A>().get(&x).map(|_| ()),
        P::List => db.collection::<A>().list(..).limit(1).query().map(|_| ()),
        P::Headers => db.collection::<A>().list(..).limit(1).headers().map(|_| ()),
        P::Count => db.collection::<A>().all().count().map(|_| ()),
        P::Query => db.view::<ByKey>().with_access_policy(AccessPolicy::NoUpdate).limit(1).query().map(|_| ()),
        P::Reduce if x % 2 == 0 => db.view::<ByKey>().with_access_policy(AccessPolicy::NoUpdate).reduce_grouped().map(|_| ()),
        P::Reduce => db.view::<ByKey>().with_access_policy(AccessPolicy::NoUpdate).reduce().map(|_| ()),
        P::DeleteDocs => db.view::<ByKey>().with_key(&dk).delete_docs().map(|_| ()),
        P::ListExecuted => db.list_executed_transactions(None, Some(1)).map(|_| ()),
        P::LastId => db.last_transaction_id().map(|_| ()),
        P::Subscriber => db.create_subscriber().map(|_| ()),
        P::Publish if x % 2 == 0 => db.publish_bytes_to_all([b"t".to_vec()], b"x".to_vec()),
        P::Publish => db.publish_bytes(b"t".to_vec(), b"x".to_vec()),
        P::Subscribe => match db.create_subscriber() {
            Ok(sub) => sub.subscribe_to_bytes(b"t".to_vec()),
            Err(e) => Err(e),
        },
        P::Kv => db.set_numeric_key(&other, 1_u64).execute().map(|_| ()),
        P::Compact => db.compact(),
        P::Schemas => s.list_available_schemas().map(|_| ()),
        P::ListDbs => s.list_databases().map(|_| ()),
        P::CreateDb => s.create_database::<DocSchema>(&newdb, x % 2 == 0).map(|_| ()),
        P::DeleteDb => s.delete_database(&newdb),
        P::CreateUser => s.create_user(&other).map(|_| ()),
        P::DeleteUser => s.delete_user(who()),
        P::SetPassword => s.set_user_password(who(), pw(2)),
        P::Authenticate => s.authenticate(Authentication::password(who(), pw(1)).unwrap()).map(|_| ()),
        P::Assume => s.assume_identity(IdentityReference::User(who())).map(|_| ()),
        P::Groups if x % 4 < 2 => s.add_permission_group_to_user(who(), 10_u64),
        P::Groups => { if let Err(e) = st.add_permission_group_to_user(user, 10_u64) { m(e); return } s.remove_permission_group_from_user(who(), 10_u64) }
        P::Roles if x % 4 < 2 => s.add_role_to_user(who(), 20_u64),
        P::Roles => { if let Err(e) = st.add_role_to_user(user, 20_u64) { m(e); return } s.remove_role_from_user(who(), 20_u64) }
    };
    let ss = perm;
    match what {
        // also needs the right to create a subscriber; to query; to delete
        P::Subscribe => allowed &= session_allows(ss, P::Subscriber, d, x),
        P::DeleteDocs => allowed = session_allows(ss, P::Query, d, x) && session_allows(ss, P::Delete, d, x),
        _ => {}
    }
    let denied = matches!(&r, Err(bonsaidb_core::Error::PermissionDenied(_)));
    let detail = match &r { Ok(()) => "ok".to_string(), Err(e) => e.to_string() };
    // did it have an effect?
    let get = || a.get(&x).ok().flatten().and_then(|d| Body::parse(&d.contents)).map(|b| b.uniq);
    let u = || User::get(&user, &st.admin()).ok().flatten();
    let effect = match what {
        P::Insert => get().is_some() || (x % 3 == 0 && a.get(&(x + 1_000_000_000)).ok().flatten().is_some()),
        P::Update | P::Overwrite | P::Delete | P::DeleteDocs => get() != Some(x),
        P::Kv => admin.get_key(&other).into_u64().ok().flatten().is_some(),
        P::CreateDb => st.database::<DocSchema>(&newdb).is_ok(),
        P::DeleteDb => st.database::<DocSchema>(&newdb).is_err(),
        P::CreateUser => User::load(NamedReference::from(other.clone()), &st.admin()).ok().flatten().is_some(),
        P::DeleteUser => u().is_none(),
        P::SetPassword => u().map_or(true, |u| u.contents.argon_hash.is_some()),
        P::Groups => u().map_or(true, |u| u.contents.groups.is_empty() == (x % 4 >= 2)),
        P::Roles => u().map_or(true, |u| u.contents.roles.is_empty() == (x % 4 >= 2)),
        _ => !denied,
    };
    record(&E::Probe(i, p as u8, d as u8, allowed, denied, effect, detail));
    if user != 0 { let _ = st.delete_user(user); }
}
#[derive(Default)]
pub struct Shared {
    ids: Mutex<BTreeMap<u8, u64>>,
    gs: Vec<Mutex<()>>,
    rs: Vec<Mutex<()>>,
    ts: Vec<Mutex<()>>,
}
fn set_group(seed: u64, admin: &Database, g: u8, v: Option<u64>) {
    let i = inv(Call::SetGroup(g, v));
    let r = match v {
        Some(v) => PermissionGroup { name: gname(g), statements: statements(seed, g, v) }.overwrite_into(&gid(g), admin).map(|_| ()).map_err(|e| e.error),
        None => match PermissionGroup::get(&gid(g), admin) { Ok(Some(d)) => d.delete(admin), Ok(None) => Ok(()), Err(e) => Err(e) },
    };
    res(i, un(r));
}
fn set_role(admin: &Database, x: u8, v: Option<u8>) {
    let i = inv(Call::SetRole(x, v));
    let r = match v {
        Some(v) => Role::named(rname(x)).with_group_ids((0..NG).filter(|g| v >> g & 1 == 1).map(gid)).overwrite_into(&rid(x), admin).map(|_| ()).map_err(|e| e.error),
        None => match Role::get(&rid(x), admin) { Ok(Some(d)) => d.delete(admin), Ok(None) => Ok(()), Err(e) => Err(e) },
    };
    res(i, un(r));
}
fn set_token(admin: &Database, t: u8, v: Option<(u64, TokenOf)>) {
    let i = inv(Call::SetToken(t, v.clone()));
    let r = match v {
        Some((s, of)) => AuthenticationToken { identity: match of { TokenOf::User(u) => IdentityId::User(u), TokenOf::Role(r) => IdentityId::Role(rid(r)) }, token: secret(s), created_at: bonsaidb_core::key::time::TimestampAsNanoseconds::now() }
            .overwrite_into(&tid(t), admin).map(|_| ()).map_err(|e| e.error),
        None => match AuthenticationToken::get(&tid(t), admin) { Ok(Some(d)) => d.delete(admin), Ok(None) => Ok(()), Err(e) => Err(e) },
    };
    res(i, un(r));
}
fn dump(st: &Storage) {
    let i = inv(Call::Dump);
    let r = match User::all(&st.admin()).query() {
        Ok(l) => {
            let mut v: Vec<_> = l.into_iter().filter(|u| u.contents.username.starts_with("user")).map(|u| { let mut g = u.contents.groups.clone(); g.sort_unstable(); let mut r = u.contents.roles.clone(); r.sort_unstable(); (u.contents.username.clone(), u.header.id, g, r, u.contents.argon_hash.is_some()) }).collect();
            v.sort();
            Ret::Users(v)
        }
        Err(e) => er(e),
    };
    res(i, r);
}
pub fn client<F: Front>(plan: &Plan, st: &Storage, f0: &F, pool: &Pool<F>, sh: &Shared, ep: usize, phase: u64, t: usize, ops: &[Op], from: usize) {
    let admin = st.admin();
    let anon = def_session(plan);
    // a login
    let inv = |c: Call| { let l = F::REMOTE && matches!(c, Call::Login(..) | Call::Token(..) | Call::Assume(..) | Call::AssumeRole(..)); let i = inv(c); if l { record(&E::Remote(i)); } i };
    for (k, o) in ops.iter().enumerate() {
        let k = k + from;
        let u = (o.arg(0) as u64 % NU as u64) as u8;
        let (b, c, f) = (o.arg(1) as u64, o.arg(2) as u64, o.arg(3) as u64);
        let uniq = crate::docs::uniq(ep, t, k) % 900_000_000;
        let who = || if f & 1 == 1 { sh.ids.lock().unwrap().get(&u).map_or(Who::Name(u), |i| Who::Id(*i)) } else { Who::Name(u) };
        let tries = |i: u64, s: &F, perm: &Session, n: u64| for j in 0..n { let h = mix(c ^ j ^ uniq); probe_op(i, st, s, perm, (h % PS.len() as u64) as usize, (h >> 20 & 1) as usize, 10_000 + uniq * 4 + j); };
        let probes = |i: u64, s: Option<F>| if let Some(s) = s {
            let Some(perm) = s.session().cloned() else { record(&E::Mark("no session after a login".into())); return };
            tries(i, &s, &perm, (c >> 8) % 4);
            if c >> 12 & 3 != 0 {
                let mut p = pool.0.lock().unwrap();
                let old = (p.len() > 4).then(|| p.remove((c >> 16) as usize % 5));
                p.push(Arc::new(Kept { i, phase, s, perm }));
                drop(p);
                drop(old);
            }
        };
        match o.k.as_str() {
            "create" => {
                let i = inv(Call::Create(u));
                match st.create_user(&uname(u)) { Ok(id) => { sh.ids.lock().unwrap().insert(u, id); res(i, Ret::Id(id)); } Err(e) => res(i, er(e)) }
            }
            "delete" => { let w = who(); let i = inv(Call::Delete(w.clone())); res(i, un(st.delete_user(w.r()))); }
            "passwd" => { let w = who(); let i = inv(Call::Password(w.clone(), b % 3)); res(i, un(st.set_user_password(w.r(), pw(b % 3)))); }
            "group" => {
                let (w, g, id) = (who(), (b % NG as u64) as u8, f & 2 == 2);
                let n = || if id { nid(gid(g)) } else { NamedReference::from(gname(g)) };
                if c & 3 != 0 { let i = inv(Call::AddGroup(w.clone(), g, id)); res(i, un(st.add_permission_group_to_user(w.r(), n()))); }
                else { let i = inv(Call::RemoveGroup(w.clone(), g, id)); res(i, un(st.remove_permission_group_from_user(w.r(), n()))); }
            }
            "role" => {
                let (w, g, id) = (who(), (b % NR as u64) as u8, f & 2 == 2);
                let n = || if id { nid(rid(g)) } else { NamedReference::from(rname(g)) };
                if c & 3 != 0 { let i = inv(Call::AddRole(w.clone(), g, id)); res(i, un(st.add_role_to_user(w.r(), n()))); }
                else { let i = inv(Call::RemoveRole(w.clone(), g, id)); res(i, un(st.remove_role_from_user(w.r(), n()))); }
            }
            // a session from before
            "use" => {
                let k = { let p = pool.0.lock().unwrap(); if p.is_empty() { continue } p[b as usize % p.len()].clone() };
                // its connection is gone
                if k.phase != phase { tries(k.i, &k.s, &anon, 1 + c % 3); } else { tries(k.i, &k.s, &k.perm, 1 + c % 3); }
            }
            "anon" if F::REMOTE => tries(0, f0, &anon, 1 + c % 3),
            "logout" => { let x = { let mut p = pool.0.lock().unwrap(); if p.is_empty() { continue } let n = p.len(); p.remove(b as usize % n) }; drop(x); }
            "login" => {
                let w = who();
                let i = inv(Call::Login(w.clone(), b % 3));
                let r = if f & 4 == 4 { f0.authenticate(Authentication::password(w.r(), pw(b % 3)).unwrap()) } else { f0.authenticate_with_password(w.r(), pw(b % 3)) };
                probes(i, session(i, r));
            }
            "assume" => { let w = who(); let i = inv(Call::Assume(w.clone())); probes(i, session(i, f0.assume_identity(IdentityReference::User(w.r())))); }
            "assumerole" => {
                let (r, id) = ((b % NR as u64) as u8, f & 2 == 2);
                let i = inv(Call::AssumeRole(r, id));
                probes(i, session(i, f0.assume_identity(IdentityReference::Role(if id { nid(rid(r)) } else { NamedReference::from(rname(r)) }))));
            }
            "setgroup" => { let g = (b % NG as u64) as u8; let _l = sh.gs[g as usize].lock().unwrap(); set_group(plan.seed, &admin, g, (c % 5 != 0).then_some((c >> 4) % VERS)); }
            "setrole" => { let g = (b % NR as u64) as u8; let _l = sh.rs[g as usize].lock().unwrap(); set_role(&admin, g, (c % 5 != 0).then_some((c >> 4 & 15) as u8)); }
            "settoken" => {
                let tk = (b % NT as u64) as u8;
                let of = if c & 1 == 1 { TokenOf::Role((c >> 1) as u8 % NR) } else { match sh.ids.lock().unwrap().get(&u) { Some(i) => TokenOf::User(*i), None => TokenOf::Role(0) } };
                let _l = sh.ts[tk as usize].lock().unwrap();
                set_token(&admin, tk, (c >> 8 & 3 != 0).then_some((c >> 12 & 1, of)));
            }
            "token" => {
                let (tk, s, mode) = ((b % NT as u64) as u8, c & 1, match c >> 1 & 15 { 0 => 1, 1 => 2, _ => 0 });
                let auth = Authentication::token(tid(tk), &secret(s)).unwrap();
                if mode == 1 { sim_sleep_ns(302_000_000_000); }
                let i = inv(Call::Token(tk, s, mode));
                match f0.authenticate(auth) {
                    Err(e) => res(i, er(e)),
                    Ok(ch) => {
                        let Some(SessionAuthentication::TokenChallenge { nonce, server_timestamp, .. }) = ch.session().map(|s| s.authentication.clone()) else { res(i, Ret::Other("no challenge".into())); continue };
                        let x = seen(&ch);
                        if !x.bits.is_empty() || x.matrix.iter().any(|b| *b) || x.user.is_some() || x.role.is_some() { res(i, Ret::Other("a session that is waiting for the response to a challenge has permissions".into())); continue }
                        let mut n = nonce;
                        if mode == 2 { n[5] ^= 1; }
                        let h = AuthenticationToken::compute_challenge_response_blake3(&secret(s), &n, server_timestamp);
                        let resp = || Authentication::TokenChallengeResponse(h.as_bytes().to_vec().into());
                        let r = ch.authenticate(resp());
                        let s2 = session(i, r);
                        if c >> 5 & 1 == 1 { record(&E::Replayed(i, ch.authenticate(resp()).is_ok())); }
                        probes(i, s2);
                    }
                }
            }
            "dump" => dump(st),
            "sleep" => sim_sleep_ns(b % 400 * 1_000_000),
            _ => {}
        }
    }
}
pub fn prepare(plan: &Plan, ep: usize, st: &Storage) -> Arc<Shared> {
    let mut sh = Shared::default();
    for _ in 0..8 { sh.gs.push(Mutex::new(())); sh.rs.push(Mutex::new(())); sh.ts.push(Mutex::new(())); }
    if ep == 0 {
        let admin = st.admin();
        for g in 0..NG { set_group(plan.seed, &admin, g, Some(0)); }
        for x in 0..NR { set_role(&admin, x, Some(((plan.seed >> (x * 4)) & 15) as u8)); }
    }
    dump(st);
    if let Ok(l) = User::all(&st.admin()).query() { for u in l { if let Some(n) = u.contents.username.strip_prefix("user").and_then(|x| x.parse().ok()) { sh.ids.lock().unwrap().insert(n, u.header.id); } } }
    Arc::new(sh)
}
pub fn finish(st: &Storage) {
    dump(st);
    for u in 0..NU { let w = Who::Name(u); let i = inv(Call::Assume(w.clone())); session(i, st.assume_identity(IdentityReference::User(w.r()))); }
    for r in 0..NR { let i = inv(Call::AssumeRole(r, true)); session(i, st.assume_identity(IdentityReference::Role(nid(rid(r))))); }
}
pub fn auth_permissions(plan: &Plan) -> Permissions { Permissions::from(statements(plan.seed, AUTH, 0)) }
pub struct Users;
impl Scenario for Users {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x75736572));
        let r = &mut rng;
        let mut p = Plan { prop: prop.into(), scenario: "users".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
        std_knobs(&mut p, r);
        let users = r.range(1, NU as u64);
        for e in 0..r.range(1, if thorough { 4 } else { 2 }) {
            let mut ep = EpochPlan::default();
            let mut total = 0;
            for t in 0..r.range(1, 3) {
                let mut ops = vec![];
                if e == 0 && t == 0 { for u in 0..users { ops.push(Op::new("create", &[u as i64])); } }
                for _ in 0..r.range(3, 16) {
                    let u = r.below(users) as i64;
                    let a = [u, (r.next() >> 34) as i64, (r.next() >> 34) as i64, r.below(8) as i64];
                    ops.push(Op::new(match r.below(46) {
                        0..=2 => "create", 3..=4 => "delete", 5..=8 => "passwd", 9..=14 => "group", 15..=18 => "role", 19..=24 => "login", 25..=27 => "assume", 28..=29 => "assumerole",
                        30..=31 => "setgroup", 32..=33 => "setrole", 34..=35 => "settoken", 36..=37 => "token", 38 => "dump", 40..=42 => "use", 43..=44 => "anon", 45 => "logout", _ => "sleep",
                    }, &a));
                    total += 1;
                }
                ep.threads.push(ops);
            }
            if r.chance(1, 3) { ep.crash_at = Some(r.range(150, 300 + 20 * total as u64)); ep.crash_mode = crash_mode(r); }
            p.epochs.push(ep);
        }
        p.epochs.push(EpochPlan::default());
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        let last = ep + 1 == plan.epochs.len();
        freeze(last);
        if last { set_faults(false); }
        let st = match open(plan) { Ok(x) => x, Err(e) => { record(&E::Mark(format!("open failed: {e}"))); return } };
        for d in DBS { if let Err(e) = st.create_database::<DocSchema>(d, true) { record(&E::Mark(format!("database: {e}"))); return } }
        let sh = prepare(plan, ep, &st);
        let (pool, pool2) = (Arc::new(Pool::default()), Arc::new(Pool::default()));
        let rt = if last { None } else { crate::blk::runtime(plan) };
        let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
            let (st, sh, plan, pool, pool2) = (st.clone(), sh.clone(), plan.clone(), pool.clone(), pool2.clone());
            let ast = (plan.knob("async") >> (t % 4) & 1 == 1).then(|| { let h = rt.as_ref().unwrap().handle().clone(); BlkS(st.clone().into_async_with_runtime(h.clone()), h) });
            std::thread::Builder::new().name(format!("client{t}")).spawn(move || match ast {
                Some(a) => client(&plan, &st, &a, &pool2, &sh, ep, 0, t, &ops, 0),
                None => client(&plan, &st, &st, &pool, &sh, ep, 0, t, &ops, 0),
            }).unwrap()
        }).collect();
        for h in hs { let _ = h.join(); }
        drop((pool, pool2));
        drop(rt);
        finish(&st);
        drop(st);
        drop(sh);
        sim_sleep_ns(10_000_000_000);
        record(&E::Closed);
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v = check_users(plan, r, &r.events::<E>()); }
        crate::neb::attribute(r, v)
    }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { crate::neb::flags(img, crashed) }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { hostile(plan) && r.epochs.iter().any(|e| e.history.len() > 60) }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> {
        r.events::<E>().iter().map(|e| format!("{:>12.6}s e{} t{} #{} {:?}", e.at as f64 / 1e9, e.epoch, e.tid, e.seq, e.e)).map(|s| s.replace("matrix: [", "m [").replace("false", "-").replace("true", "+")).collect()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct U {
    name: u8,
    id: u64,
    pw: Option<u64>,
    groups: BTreeSet<u64>,
    roles: BTreeSet<u64>,
}
type St = Vec<U>;
/// Writes of a slot that has one writer at a time.
struct Slot<V>(Vec<(u64, u64, V)>);
impl<V: Clone + PartialEq> Slot<V> {
    /// values possible at some moment in [a, b]; `None` before the first write
    fn at(&self, a: u64, b: u64) -> Vec<Option<V>> {
        let mut out = vec![];
        let over = |i: usize| self.0[i..].iter().any(|w| w.1 < a);
        if !over(0) { out.push(None); }
        for (i, w) in self.0.iter().enumerate() { if w.0 <= b && !over(i + 1) { out.push(Some(w.2.clone())); } }
        out
    }
}
struct Hist {
    g: Vec<Slot<Option<u64>>>,
    r: Vec<Slot<Option<u8>>>,
    t: Vec<Slot<Option<(u64, TokenOf)>>>,
}
fn flat<V: Clone + PartialEq>(s: &Slot<Option<V>>, a: u64, b: u64) -> Vec<Option<V>> { s.at(a, b).into_iter().map(|x| x.flatten()).collect() }
/// are the seen groups right for someone with these groups and roles?
fn bits_ok(h: &Hist, a: u64, b: u64, groups: &BTreeSet<u64>, roles: &[u64], seen: &Seen) -> bool {
    fn go(h: &Hist, a: u64, b: u64, groups: &BTreeSet<u64>, roles: &[u64], seen: &Seen) -> bool {
        if let Some((r, rest)) = roles.split_first() {
            let Some(slot) = h.r.get((*r as usize).wrapping_sub(20)) else { return false };
            return flat(slot, a, b).into_iter().any(|v| {
                let mut g2 = groups.clone();
                if let Some(v) = v { for g in 0..NG { if v >> g & 1 == 1 { g2.insert(gid(g)); } } }
                go(h, a, b, &g2, rest, seen)
            });
        }
        (0..NG).all(|g| {
            let vs: Vec<u64> = seen.bits.iter().filter(|x| x.0 == g).map(|x| x.1).collect();
            if !groups.contains(&gid(g)) { return vs.is_empty(); }
            let w = flat(&h.g[g as usize], a, b);
            match vs.len() { 0 => w.contains(&None), 1 => w.contains(&Some(vs[0])), _ => false }
        })
    }
    go(h, a, b, groups, roles, seen)
}
fn step(h: &Hist, seed: u64, c: &(Call, Option<Ret>, u64, u64), s: &St) -> Vec<St> {
    let (call, r, a, b) = c;
    let find = |w: &Who| s.iter().position(|u| match w { Who::Name(n) => u.name == *n, Who::Id(i) => u.id == *i });
    let is = |x: Ret| r.as_ref().map_or(true, |r| *r == x);
    let same = |ok: bool| if ok { vec![s.clone()] } else { vec![] };
    // a write that met a concurrent one
    let lost = |mut v: Vec<St>| { if r.as_ref() == Some(&Ret::Conflict) && v.is_empty() { v.push(s.clone()); } v };
    let upd = |w: &Who, f: &dyn Fn(&mut U)| match find(w) {
        None => same(is(Ret::NotFound)),
        Some(i) => { if is(Ret::Ok) { let mut s = s.clone(); f(&mut s[i]); vec![s] } else { vec![] } }
    };
    let user_session = |i: usize, x: &Seen| {
        let u = &s[i];
        x.user == Some((u.id, uname(u.name))) && x.role.is_none() && x.matrix == expected(seed, &x.bits) && bits_ok(h, *a, *b, &u.groups, &u.roles.iter().copied().collect::<Vec<_>>(), x)
    };
    let role_session = |n: u8, x: &Seen| x.role == Some((rid(n), rname(n))) && x.user.is_none() && x.matrix == expected(seed, &x.bits) && bits_ok(h, *a, *b, &BTreeSet::new(), &[rid(n)], x) && flat(&h.r[n as usize], *a, *b).iter().any(|v| v.is_some());
    match call {
        Call::Create(n) => match find(&Who::Name(*n)) {
            Some(_) => same(is(Ret::Exists)),
            None => match r {
                Some(Ret::Id(id)) => { if s.iter().any(|u| u.id == *id) { return vec![]; } let mut s = s.clone(); s.push(U { name: *n, id: *id, pw: None, groups: Default::default(), roles: Default::default() }); s.sort(); vec![s] }
                None => { let mut s = s.clone(); s.push(U { name: *n, id: 0, pw: None, groups: Default::default(), roles: Default::default() }); s.sort(); vec![s] }
                _ => vec![],
            },
        },
        Call::Delete(w) => lost(match find(w) { None => same(is(Ret::NotFound)), Some(i) => if is(Ret::Ok) { let mut s = s.clone(); s.remove(i); vec![s] } else { vec![] } }),
        Call::Password(w, p) => lost(upd(w, &|u| u.pw = Some(*p))),
        Call::AddGroup(w, g, id) | Call::RemoveGroup(w, g, id) => {
            let add = matches!(call, Call::AddGroup(..));
            let mut v = upd(w, &|u| if add { u.groups.insert(gid(*g)); } else { u.groups.remove(&gid(*g)); });
            if !*id && v.is_empty() && is(Ret::NotFound) && flat(&h.g[*g as usize], *a, *b).contains(&None) { v.push(s.clone()); }
            if !*id && is(Ret::Ok) && !flat(&h.g[*g as usize], *a, *b).iter().any(|x| x.is_some()) { v.clear(); }
            lost(v)
        }
        Call::AddRole(w, g, id) | Call::RemoveRole(w, g, id) => {
            let add = matches!(call, Call::AddRole(..));
            let mut v = upd(w, &|u| if add { u.roles.insert(rid(*g)); } else { u.roles.remove(&rid(*g)); });
            if !*id && v.is_empty() && is(Ret::NotFound) && flat(&h.r[*g as usize], *a, *b).contains(&None) { v.push(s.clone()); }
            if !*id && is(Ret::Ok) && !flat(&h.r[*g as usize], *a, *b).iter().any(|x| x.is_some()) { v.clear(); }
            lost(v)
        }
        Call::Login(w, p) => match (find(w), r) {
            (_, None | Some(Ret::Denied)) => same(true),
            (Some(i), Some(Ret::Session(x))) => same(s[i].pw == Some(*p) && user_session(i, x)),
            (Some(i), Some(Ret::Refused)) => same(s[i].pw != Some(*p)),
            (None, Some(Ret::Refused)) => same(true),
            _ => vec![],
        },
        Call::Assume(w) => match (find(w), r) {
            (_, None | Some(Ret::Denied)) => same(true),
            (Some(i), Some(Ret::Session(x))) => same(user_session(i, x)),
            (None, Some(Ret::Refused)) => same(true),
            _ => vec![],
        },
        Call::AssumeRole(n, _) => match r {
            None | Some(Ret::Denied) => same(true),
            Some(Ret::Session(x)) => same(role_session(*n, x)),
            Some(Ret::Refused) => same(flat(&h.r[*n as usize], *a, *b).contains(&None)),
            _ => vec![],
        },
        Call::Token(t, sec, mode) => {
            let w = flat(&h.t[*t as usize], *a, *b);
            match r {
                None | Some(Ret::Denied) => same(true),
                Some(Ret::Session(x)) => same(*mode == 0 && w.iter().flatten().any(|(s2, of)| s2 == sec && match of { TokenOf::User(id) => find(&Who::Id(*id)).map_or(false, |i| user_session(i, x)), TokenOf::Role(n) => role_session(*n, x) })),
                Some(Ret::Refused) => same(*mode != 0 || w.iter().any(|v| match v { None => true, Some((s2, of)) => s2 != sec || match of { TokenOf::User(id) => find(&Who::Id(*id)).is_none(), TokenOf::Role(n) => flat(&h.r[*n as usize], *a, *b).contains(&None) } })),
                _ => vec![],
            }
        }
        Call::Dump => match r {
            None => same(true),
            Some(Ret::Users(l)) => {
                let mut s2 = s.clone();
                if l.len() != s.len() { return vec![]; }
                for (n, id, g, ro, has) in l {
                    let Some(u) = s2.iter_mut().find(|u| uname(u.name) == *n) else { return vec![] };
                    if u.id == 0 { u.id = *id; }
                    if u.id != *id || u.groups.iter().copied().collect::<Vec<_>>() != *g || u.roles.iter().copied().collect::<Vec<_>>() != *ro || u.pw.is_some() != *has { return vec![]; }
                }
                vec![s2]
            }
            _ => vec![],
        },
        _ => same(true),
    }
}
pub fn check_users(plan: &Plan, r: &RunResult, ev: &[Ev<E>]) -> Vec<Violation> {
    for e in ev {
        match &e.e {
            E::Mark(m) => return vec![viol("unexpected-error", format!("epoch {}: {m}", e.epoch))],
            E::Res(s, Ret::Other(m)) => return vec![viol("unexpected-error", format!("call #{s}: {m}"))],
            E::Probe(s, p, d, allowed, denied, effect, detail) => {
                let x = PS[*p as usize];
                if *allowed == *denied { return vec![viol("permission", format!("session of call #{s}: {x:?} in {:?} is {} by its permissions but {} ({detail})", DBS[*d as usize], if *allowed { "allowed" } else { "not allowed" }, if *denied { "was refused" } else { "was not refused" }))]; }
                if !*allowed && *effect { return vec![viol("refused-effect", format!("session of call #{s}: {x:?} was refused and had an effect"))]; }
                if *allowed && detail == "ok" && !*effect { return vec![viol("allowed-no-effect", format!("session of call #{s}: {x:?} was allowed and had no effect"))]; }
            }
            E::Replayed(s, true) => return vec![viol("replayed", format!("call #{s}: the response to a challenge was accepted twice"))],
            _ => {}
        }
    }
    let remote: std::collections::HashSet<u64> = ev.iter().filter_map(|e| match &e.e { E::Remote(i) => Some(*i), _ => None }).collect();
    let calls: HashMap<u64, &Call> = ev.iter().filter_map(|e| match &e.e { E::Inv(c) => Some((e.seq, c)), _ => None }).collect();
    for e in ev {
        let E::Res(i, r) = &e.e else { continue };
        let allowed = !remote.contains(i) || def_allows(plan, calls[i]);
        // before the permission of a user is known, the user must be
        let ok = if allowed { *r != Ret::Denied } else { matches!(r, Ret::Denied | Ret::Refused) };
        if !ok { return vec![viol("permission", format!("call #{i} {:?} is {} but the result was {r:?}", calls[i], if allowed { "allowed" } else { "not allowed" }))]; }
    }
    let results: HashMap<u64, (u64, Ret)> = ev.iter().filter_map(|e| match &e.e { E::Res(i, r) => Some((*i, (e.seq, if remote.contains(i) && !def_allows(plan, calls[i]) { Ret::Denied } else { r.clone() }))), _ => None }).collect();
    let mut h = Hist { g: (0..NG).map(|_| Slot(vec![])).collect(), r: (0..NR).map(|_| Slot(vec![])).collect(), t: (0..NT).map(|_| Slot(vec![])).collect() };
    for e in ev {
        let E::Inv(c) = &e.e else { continue };
        let res = results.get(&e.seq);
        let at = res.map_or(u64::MAX, |x| x.0);
        if matches!(c, Call::SetGroup(..) | Call::SetRole(..) | Call::SetToken(..)) { if let Some((_, x)) = res { if *x != Ret::Ok { return vec![viol("unexpected-error", format!("call #{}: {x:?}", e.seq))]; } } }
        match c {
            Call::SetGroup(g, v) => h.g[*g as usize].0.push((e.seq, at, *v)),
            Call::SetRole(g, v) => h.r[*g as usize].0.push((e.seq, at, *v)),
            Call::SetToken(g, v) => h.t[*g as usize].0.push((e.seq, at, v.clone())),
            _ => {}
        }
    }
    let mut init: Vec<St> = vec![vec![]];
    for ep in 0..r.epochs.len() {
        let ops: Vec<LOp<(Call, Option<Ret>, u64, u64)>> = ev.iter().filter(|e| e.epoch == ep).filter_map(|e| match &e.e {
            E::Inv(c) if !matches!(c, Call::SetGroup(..) | Call::SetRole(..) | Call::SetToken(..)) => {
                let r = results.get(&e.seq);
                let end = r.map_or(u64::MAX, |r| r.0);
                Some(LOp { inv: e.seq, res: end, c: (c.clone(), r.map(|r| r.1.clone()), e.seq, end) })
            }
            _ => None,
        }).collect();
        let writes = |c: &Call| matches!(c, Call::Create(_) | Call::Delete(_) | Call::Password(..) | Call::AddGroup(..) | Call::RemoveGroup(..) | Call::AddRole(..) | Call::RemoveRole(..));
        for o in &ops {
            if o.c.1 == Some(Ret::Conflict) && !ops.iter().any(|p| p.inv != o.inv && writes(&p.c.0) && p.inv < o.res && p.res > o.inv) { return vec![viol("user-conflict", format!("call #{} {:?} failed with a conflict although no other change ran at the same time", o.inv, o.c.0))]; }
        }
        let l = lin(&ops, &init, 300_000, &|c, s| step(&h, plan.seed, c, s));
        if l.over { break; }
        if l.out.is_empty() {
            let t: Vec<String> = ops.iter().map(|o| format!("#{} {:?} -> {:?}", o.inv, o.c.0, o.c.1)).collect();
            let from = l.deepest.saturating_sub(6).min(t.len());
            let to = (l.deepest + 6).min(t.len());
            return vec![viol("user-history", format!("epoch {ep}: no order of the calls explains the results; at most {} of {} calls can be ordered: {}", l.deepest, ops.len(), t[from..to].join("; ")))];
        }
        init = l.out;
        init.sort();
        init.dedup();
        if init.len() > 500 { break; }
    }
    vec![]
}
