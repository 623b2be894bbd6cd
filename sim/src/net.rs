//! Client and server over the simulated network: the workloads of documents, keys and
//! messages through remote connections, with delays, fragmentation, small windows (C21, C23),
//! and with broken connections, outages and restarts of the server (C22).
use crate::blk::{Blk, BlkS};
use crate::common::*;
use crate::docs::{self, Know};
use crate::kv;
use crate::pubsub as ps;
use crate::users as us;
use crate::schema::*;
use bonsaidb_client::{AsyncRemoteDatabase, BlockingClient, BlockingRemoteDatabase};
use bonsaidb_core::connection::{AsyncStorageConnection, Connection, StorageConnection};
use bonsaidb_core::permissions::Permissions;
use bonsaidb_local::config::Builder;
use bonsaidb_server::{CustomServer, DefaultPermissions, NoBackend, ServerConfiguration};
use simcore::run::*;
use simcore::sched::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::collections::BTreeSet;
use std::time::Duration;

pub const PORT: u16 = 5645;
pub const MODE: &str = "mode";
pub struct Srv {
    pub rt: tokio::runtime::Runtime,
    pub server: CustomServer<NoBackend>,
}
pub fn runtime(workers: i64, name: &str) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(workers.clamp(1, 4) as usize).thread_name(name).max_blocking_threads(16).enable_all().build().unwrap()
}
pub fn start(plan: &Plan, dbs: &[&str], perms: DefaultPermissions) -> Result<Srv, String> {
    let rt = runtime(plan.knob("srvrt"), "server");
    let mut cfg = ServerConfiguration::new_with_backend(PATH, NoBackend);
    let mut st = base_config(plan).with_schema::<DocSchema>().map_err(|e| e.to_string())?;
    if plan.knob(MODE) == 1 { st.key_value_persistence = kv::persistence(plan).0; }
    if plan.scenario == "netusers" { st.authenticated_permissions = crate::users::auth_permissions(plan); }
    cfg.storage = st;
    cfg.request_workers = plan.knob("reqw").max(1) as usize;
    cfg.client_simultaneous_request_limit = plan.knob("limit").max(1) as usize;
    cfg.default_permissions = perms;
    let server = rt.block_on(async {
        let server = CustomServer::open(cfg).await.map_err(|e| format!("open: {e}"))?;
        for d in dbs { server.create_database::<DocSchema>(d, true).await.map_err(|e| format!("create_database: {e}"))?; }
        Ok::<_, String>(server)
    })?;
    let s = server.clone();
    rt.spawn(async move { let _ = s.listen_for_websockets_on(("127.0.0.1", PORT), false).await; });
    while !net_listening(PORT) { sim_sleep_ns(1_000_000); }
    Ok(Srv { rt, server })
}
/// The number of connections still there long after the shutdown, if any.
pub fn stop(s: Srv, graceful: Option<Duration>) -> Option<usize> {
    let Srv { rt, server } = s;
    let _ = rt.block_on(server.shutdown(graceful));
    // the tasks of the connections end, also of those being established
    sim_sleep_ns(10_000_000_000);
    for _ in 0..200 {
        if server.connected_clients().is_empty() { break; }
        sim_sleep_ns(100_000_000);
    }
    let n = server.connected_clients().len();
    if n > 0 { return Some(n); }
    drop(server);
    drop(rt);
    None
}
pub fn connect(plan: &Plan, rt: Option<&tokio::runtime::Runtime>, i: usize) -> BlockingClient {
    let mut b = BlockingClient::build(url::Url::parse(&format!("ws://127.0.0.1:{PORT}")).unwrap())
        .with_request_timeout(Duration::from_millis(plan.knob("reqto") as u64))
        .with_connect_timeout(Duration::from_millis(plan.knob("conto") as u64));
    let own = plan.knob("ownrt") >> i & 1 == 1;
    if let (Some(rt), false) = (rt, own) { b = b.with_runtime(rt.handle().clone()); }
    b.build().unwrap()
}
pub fn knobs(p: &mut Plan, r: &mut Rng) {
    p.knobs.insert("conns".into(), *r.pick(&[1, 1, 2, 3]));
    p.knobs.insert("local".into(), r.chance(1, 3) as i64);
    p.knobs.insert("srvrt".into(), *r.pick(&[1, 2, 3]));
    p.knobs.insert("clirt".into(), *r.pick(&[1, 1, 2]));
    p.knobs.insert("ownrt".into(), if r.chance(1, 8) { 1 } else { 0 });
    p.knobs.insert("async".into(), if r.chance(1, 2) { r.below(16) as i64 } else { 0 });
    p.knobs.insert("reqw".into(), *r.pick(&[1, 2, 4, 16]));
    p.knobs.insert("limit".into(), *r.pick(&[1, 2, 3, 16]));
    p.knobs.insert("window".into(), *r.pick(&[0, 0, 0, 300, 4000, 4000]));
    p.knobs.insert("reqto".into(), 900_000);
    p.knobs.insert("conto".into(), 60_000);
    p.sim.net_latency_max_ns = *r.pick(&[0, 50_000, 1_000_000, 50_000_000, 400_000_000]);
    p.sim.net_short_p = *r.pick(&[0, 0, 200, 2000]);
    // a server is many more threads and steps
    p.sim.preempt_mean = *r.pick(&[0, 1000, 5000, 5000, 30000]);
}
/// Work of one thread on documents or keys.
fn work<C: Connection + bonsaidb_core::keyvalue::KeyValue>(plan: &Plan, db: &C, know: &Mutex<Know>, ep: usize, t: usize, ops: &[Op]) {
    for (i, o) in ops.iter().enumerate() {
        if plan.knob(MODE) == 1 {
            let n = plan.knob("keys").clamp(1, kv::KEYS.len() as i64) as u64;
            match o.k.as_str() {
                "sleep" => sim_sleep_ns(o.arg(0) as u64 * 1_000_000),
                "compact" => { if let Err(e) = db.compact_key_value_store() { if !docs::is_net(&e.to_string()) { record(&kv::E::Mark(format!("compact failed: {e}"))); } } }
                _ => if let Some((k, c)) = kv::make(o, docs::uniq(ep, t, i), n) { kv::call(db, k, c); }
            }
        } else { docs::client_op(db, o, docs::uniq(ep, t, i), know, plan.knob("ver0")); }
    }
}
fn mark(plan: &Plan, m: String) {
    if plan.knob(MODE) == 1 { record(&kv::E::Mark(m)); } else { record(&docs::E::Mark(m)); }
}
fn note(plan: &Plan, m: String) {
    if plan.knob(MODE) == 1 { record(&kv::E::Net(0, m)); } else { record(&docs::E::Net(0, m)); }
}
/// The storage is still open: nothing more can be done in this process.
fn stop_here() -> ! { simcore::run::stop_run("the server did not stop") }
/// A call that does nothing but reach the server and come back.
fn ping(db: &BlockingRemoteDatabase) -> Result<(), String> { db.last_transaction_id().map(|_| ()).map_err(|e| e.to_string()) }
type Slot = Arc<Mutex<Option<Srv>>>;
fn chaos(plan: &Plan, slot: &Slot, ops: &[Op]) {
    for o in ops {
        match o.k.as_str() {
            "sleep" => sim_sleep_ns(o.arg(0) as u64 * 1_000_000),
            "cut" => { net_cut(if o.arg(0) < 0 { simcore::net::ANY } else { o.arg(0) as usize }, o.arg(1) as u64); }
            "outage" => net_outage(o.arg(0) as u64 * 1_000_000),
            "refuse" => { net_refuse(true); sim_sleep_ns(o.arg(0) as u64 * 1_000_000); net_refuse(false); }
            // graceful period (ms, 0 none), time down
            "restart" => {
                let Some(s) = slot.lock().unwrap().take() else { continue };
                if let Some(n) = stop(s, if o.arg(0) > 0 { Some(Duration::from_millis(o.arg(0) as u64)) } else { None }) {
                    note(plan, format!("{n} clients connected after the shutdown"));
                    return;
                }
                sim_sleep_ns(o.arg(1) as u64 * 1_000_000);
                if plan.knob(MODE) == 1 { record(&kv::E::Closed); }
                match start(plan, &["db"], DefaultPermissions::AllowAll) {
                    Ok(s) => *slot.lock().unwrap() = Some(s),
                    Err(e) => mark(plan, format!("open failed: {e}")),
                }
            }
            _ => {}
        }
    }
}

/// The database through the async interface of the client.
fn asynchronous(c: &BlockingClient, h: &tokio::runtime::Handle, db: &str) -> Blk<AsyncRemoteDatabase> {
    Blk(h.block_on(c.as_async().database::<DocSchema>(db)).unwrap(), h.clone())
}
/// Subscribes again whenever the subscription is lost, until the last message comes.
fn listen<D: bonsaidb_core::pubsub::PubSub>(db: &D, last: &AtomicU64) {
    use bonsaidb_core::pubsub::Subscriber;
    loop {
        let s = match db.create_subscriber().and_then(|s| s.subscribe_to(&"alive").map(|_| s)) { Ok(s) => s, Err(_) => { sim_sleep_ns(20_000_000); continue } };
        while let Ok(m) = s.receiver().receive() {
            let n = m.payload::<u64>().unwrap();
            last.store(n, Ordering::SeqCst);
            if n == u64::MAX { return; }
        }
        probe("subscriber-disconnected");
    }
}
pub struct Net;
impl Scenario for Net {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x6e65_7431));
        let r = &mut rng;
        let iskv = r.chance(1, 4);
        let mut p = if iskv { kv::plan("C10", mix(seed), thorough) } else {
            let base = *r.pick(&["C01", "C03", "C04", "C05", "C06", "C08", "C09", "C02"]);
            docs::plan(base, mix(seed), thorough)
        };
        p.prop = prop.into();
        p.scenario = "net".into();
        p.seed = seed;
        p.epochs[0].crash_at = None;
        let n = p.epochs.len();
        p.epochs.drain(1..n - 1);
        p.sim.eio_p = 0;
        p.knobs.retain(|k, _| !k.starts_with("nolate") && !k.starts_with("key") || k == "keys");
        for k in ["collkey", "comp"] { p.knobs.remove(k); }
        let v = p.knob("ver0");
        p.knobs.insert("ver1".into(), v);
        p.knobs.insert(MODE.into(), iskv as i64);
        p.knobs.insert("kill".into(), 0);
        knobs(&mut p, r);
        for t in p.epochs[0].threads.iter_mut() { t.retain(|o| o.k != "bulk" && o.k != "long"); }
        if prop == "C22" {
            p.knobs.insert("local".into(), 0);
            p.sim.clock_jump_p = 0;
            let mut ops = vec![];
            let how = r.chance(1, 4);
            let restarts = !iskv && r.chance(1, 2);
            for _ in 0..r.range(1, 6) {
                ops.push(Op::new("sleep", &[*r.pick(&[0, 1, 5, 30, 200, 1000])]));
                ops.push(match r.below(10) {
                    0..=4 => Op::new("cut", &[if r.chance(1, 3) { -1 } else { r.below(3) as i64 }, *r.pick(if how { &[0, 1, 2, 3] } else { &[0, 1, 1, 1] })]),
                    5 => Op::new("outage", &[*r.pick(&[10, 500, 5000])]),
                    6 => Op::new("refuse", &[*r.pick(&[10, 500, 5000])]),
                    _ if restarts => Op::new("restart", &[*r.pick(&[0, 0, 50, 3000]), *r.pick(&[0, 100, 3000])]),
                    _ => Op::new("cut", &[r.below(3) as i64, r.below(2) as i64]),
                });
            }
            p.epochs[0].threads.insert(0, ops);
            if r.chance(1, 3) { p.sim.net_reset_p = *r.pick(&[10, 100, 500]); p.sim.net_max_resets = r.range(1, 6); }
            if r.chance(1, 4) { p.sim.net_refuse_p = 3000; }
            p.knobs.insert("conns".into(), *r.pick(&[1, 2, 2, 3]));
            p.knobs.insert("protect".into(), r.chance(1, 2) as i64);
            p.knobs.insert("reqto".into(), *r.pick(&[900_000, 900_000, 60_000]));
            p.knobs.insert("conto".into(), *r.pick(&[60_000, 5_000]));
            let silent = p.epochs[0].threads[0].iter().any(|o| o.k == "cut" && o.arg(1) >= 2);
            p.knobs.insert("subs".into(), (r.chance(1, 3) && !silent) as i64);
        }
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        docs::set_epoch_schema(plan, 0);
        if ep + 1 == plan.epochs.len() {
            if plan.knob(MODE) == 1 { kv::Kv.epoch(plan, ep) } else { docs::Docs.epoch(plan, ep) }
            return;
        }
        let iskv = plan.knob(MODE) == 1;
        let is22 = plan.prop == "C22";
        net_window(plan.knob("window") as usize);
        freeze(true);
        let srv = match start(plan, &["db"], DefaultPermissions::AllowAll) { Ok(s) => s, Err(e) => { mark(plan, format!("open failed: {e}")); return } };
        if iskv { record(&kv::E::Open(wall_ns())); } else { record(&docs::E::Open(true)); }
        let crt = runtime(plan.knob("clirt"), "client");
        let nconn = plan.knob("conns").clamp(1, 4) as usize;
        let clients: Vec<BlockingClient> = (0..nconn).map(|i| connect(plan, Some(&crt), i)).collect();
        let remote: Vec<BlockingRemoteDatabase> = clients.iter().map(|c| c.database::<DocSchema>("db").unwrap()).collect();
        if is22 && plan.knob("protect") == 1 {
            if let Err(e) = ping(&remote[0]) { mark(plan, format!("first call failed: {e}")); }
            net_protect();
        }
        let local = if plan.knob("local") == 1 { Some(srv.server.as_blocking().database::<DocSchema>("db").unwrap()) } else { None };
        let slot: Slot = Arc::new(Mutex::new(Some(srv)));
        let know = Arc::new(Mutex::new(Know::default()));
        let plan2 = Arc::new(plan.clone());
        freeze(false);
        let skip = is22 as usize;
        let mut subs = vec![];
        if is22 && plan.knob("subs") == 1 {
            for (i, db) in remote.iter().enumerate() {
                let (db, last) = (db.clone(), Arc::new(AtomicU64::new(0)));
                let adb = (plan.knob("async") >> (i % 4) & 1 == 1).then(|| asynchronous(&clients[i], crt.handle(), "db"));
                let l = last.clone();
                subs.push((last, std::thread::Builder::new().name(format!("subscriber{i}")).spawn(move || match adb { Some(a) => listen(&a, &l), None => listen(&db, &l) }).unwrap()));
            }
        }
        let protected = is22 && plan.knob("protect") == 1 && !plan.epochs[ep].threads[0].iter().any(|o| o.k == "outage" || o.k == "restart");
        let mut hs = vec![];
        for (t, ops) in plan.epochs[ep].threads.iter().cloned().enumerate() {
            let (plan, know, slot) = (plan2.clone(), know.clone(), slot.clone());
            let db = remote[t % remote.len()].clone();
            let adb = (plan.knob("async") >> (t % 4) & 1 == 1).then(|| asynchronous(&clients[t % remote.len()], crt.handle(), "db"));
            let local = if t >= skip && (t - skip) % 3 == 2 { local.clone() } else { None };
            hs.push(std::thread::Builder::new().name(format!("client{t}")).spawn(move || {
                if t < skip { chaos(&plan, &slot, &ops); return; }
                if protected && t % nconn == 0 { note(&plan, "protected".into()); }
                match local {
                    Some(l) => work(&plan, &l, &know, ep, t, &ops),
                    None => match adb { Some(a) => work(&plan, &a, &know, ep, t, &ops), None => work(&plan, &db, &know, ep, t, &ops) },
                }
            }).unwrap());
        }
        drop(local);
        for h in hs { let _ = h.join(); }
        if is22 {
            // faults stop: every client works again at once, or after the one error left over
            // from a connection it lost
            set_faults(false);
            net_refuse(false);
            sim_sleep_ns(10_000_000_000);
            let cutoff = plan.epochs[ep].threads[0].iter().any(|o| o.k == "cut" && o.arg(1) >= 2);
            for (i, db) in remote.iter().enumerate() {
                let mut ok = false;
                let mut errs = vec![];
                for _ in 0..if cutoff { 3 } else { 2 } {
                    match ping(db) { Ok(()) => { ok = true; break } Err(e) => errs.push(e) }
                }
                if !ok { note(plan, format!("client {i} does not recover: {errs:?}")); }
                if ok && errs.is_empty() { probe("recovered-at-once"); } else if ok { probe("recovered-after-stale-error"); }
            }
            // and so does every subscriber, which knows that it lost its connection
            if !subs.is_empty() && !cutoff {
                sim_sleep_ns(2_000_000_000);
                let ldb = slot.lock().unwrap().as_ref().map(|s| s.server.as_blocking().database::<DocSchema>("db").unwrap());
                let Some(ldb) = ldb else { stop_here() };
                for round in [1, u64::MAX] {
                    bonsaidb_core::pubsub::PubSub::publish(&ldb, &"alive", &round).unwrap();
                    sim_sleep_ns(10_000_000_000);
                    for (i, (last, _)) in subs.iter().enumerate() {
                        if last.load(Ordering::SeqCst) != round { note(plan, format!("the subscriber of client {i} does not recover and does not know that its connection was lost")); stop_run("a subscriber does not end"); }
                    }
                }
                for (_, h) in subs.drain(..) { let _ = h.join(); }
                probe("subscribers-recovered");
            } else if !subs.is_empty() { stop_run("subscribers with silent connections"); }
            // lost clients are forgotten
            let s = slot.lock().unwrap();
            if let Some(s) = s.as_ref() {
                let three = plan.epochs[ep].threads[0].iter().any(|o| o.k == "cut" && o.arg(1) == 3);
                let mut n = 0;
                for _ in 0..60 {
                    n = s.server.connected_clients().len();
                    if n <= remote.len() { break; }
                    sim_sleep_ns(1_000_000_000);
                }
                if n > remote.len() && !three { note(plan, format!("{n} connected clients of {}", remote.len())); }
            }
            drop(s);
        }
        if !iskv && plan.knob("endcheck") == 1 { freeze(true); docs::verify_all(&remote[0], &know, true); freeze(false); }
        if iskv { kv::read_all(&remote[0], plan.knob("keys").clamp(1, kv::KEYS.len() as i64) as u64); }
        drop(remote);
        drop(clients);
        if plan.knob("ownrt") == 0 { drop(crt); } else { std::mem::forget(crt); }
        freeze(true);
        if let Some(s) = slot.lock().unwrap().take() { if let Some(n) = stop(s, None) { note(plan, format!("{n} clients connected after the shutdown")); stop_here(); } }
        // whatever still holds the storage has time to end
        sim_sleep_ns(200_000_000_000);
        if iskv { record(&kv::E::Closed); } else { record(&docs::E::Mark("closed".into())); }
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if !v.is_empty() { return crate::neb::attribute(r, v); }
        if plan.knob(MODE) == 1 {
            let ev = r.events::<kv::E>();
            let calls: Vec<_> = ev.iter().filter_map(|e| match &e.e { kv::E::Inv(..) => Some((e.seq, e.tid, e.at)), _ => None }).collect();
            let nets: Vec<_> = ev.iter().filter_map(|e| match &e.e { kv::E::Net(s, m) => Some((*s, m.clone(), e.tid)), _ => None }).collect();
            let ends: Vec<_> = ev.iter().filter_map(|e| match &e.e { kv::E::Net(s, _) | kv::E::Res(s, ..) => Some((*s, e.at)), _ => None }).collect();
            v.extend(check_net(plan, &calls, &nets, &ends));
            if v.is_empty() { v.extend(kv::check_kv(plan, r, &ev)); }
        } else {
            let ev = r.events::<docs::E>();
            let calls: Vec<_> = ev.iter().filter_map(|e| match &e.e { docs::E::Inv(..) => Some((e.seq, e.tid, e.at)), _ => None }).collect();
            let nets: Vec<_> = ev.iter().filter_map(|e| match &e.e { docs::E::Net(s, m) => Some((*s, m.clone(), e.tid)), _ => None }).collect();
            let ends: Vec<_> = ev.iter().filter_map(|e| match &e.e { docs::E::Net(s, _) | docs::E::Res(s, ..) => Some((*s, e.at)), _ => None }).collect();
            v.extend(check_net(plan, &calls, &nets, &ends));
            if v.is_empty() { v.extend(docs::check_docs(plan, r, &ev)); }
        }
        crate::neb::attribute(r, v)
    }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { crate::neb::flags(img, crashed) }
    fn nontrivial(&self, _plan: &Plan, r: &RunResult) -> bool { r.epochs[0].history.len() > 6 }
    fn describe(&self, p: &Plan, r: &RunResult) -> Vec<String> {
        if p.knob(MODE) == 1 { kv::describe(&r.events::<kv::E>()) } else { docs::describe(&r.events::<docs::E>()) }
    }
}
/// Messages through remote subscribers and publishers (C23).
pub struct NetPs;
impl Scenario for NetPs {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut p = ps::Ps.plan(prop, mix(seed ^ 0x6e70), thorough);
        let mut rng = Rng::new(mix(seed ^ 0x6e65_7432));
        let r = &mut rng;
        p.seed = seed;
        p.scenario = "netps".into();
        knobs(&mut p, r);
        // so far behind may a message be
        p.knobs.insert("settle".into(), 150_000);
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        docs::set_epoch_schema(plan, 0);
        net_window(plan.knob("window") as usize);
        freeze(true);
        let srv = match start(plan, &ps::DBS, DefaultPermissions::AllowAll) { Ok(s) => s, Err(e) => { record(&ps::E::Mark(format!("open failed: {e}"))); return } };
        let crt = runtime(plan.knob("clirt"), "client");
        let nconn = plan.knob("conns").clamp(1, 4) as usize;
        let clients: Vec<BlockingClient> = (0..nconn).map(|i| connect(plan, Some(&crt), i)).collect();
        let local: Option<Vec<bonsaidb_local::Database>> = if plan.knob("local") == 1 { Some(ps::DBS.iter().map(|d| srv.server.as_blocking().database::<DocSchema>(d).unwrap()).collect()) } else { None };
        let plan2 = Arc::new(plan.clone());
        freeze(false);
        let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
            let plan = plan2.clone();
            let settle = plan.knob("settle") as u64;
            let remote: Vec<BlockingRemoteDatabase> = ps::DBS.iter().map(|d| clients[t % nconn].database::<DocSchema>(d).unwrap()).collect();
            let local = if t % 3 == 2 { local.clone() } else { None };
            let adb: Option<Vec<_>> = (plan.knob("async") >> (t % 4) & 1 == 1).then(|| ps::DBS.iter().map(|d| asynchronous(&clients[t % nconn], crt.handle(), d)).collect());
            std::thread::Builder::new().name(format!("client{t}")).spawn(move || match local {
                None if adb.is_some() => ps::client(&plan, &adb.unwrap(), ep, t, &ops, |_| None, settle, true),
                Some(l) => ps::client(&plan, &l, ep, t, &ops, |s| Some(s.clone()), settle, false),
                None => ps::client(&plan, &remote, ep, t, &ops, |_| None, settle, false),
            }).unwrap()
        }).collect();
        drop(local);
        for h in hs { let _ = h.join(); }
        drop(clients);
        if plan.knob("ownrt") == 0 { drop(crt); } else { std::mem::forget(crt); }
        freeze(true);
        if let Some(n) = stop(srv, None) { record(&ps::E::Mark(format!("{n} clients connected after the shutdown"))); }
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v = ps::check_ps(plan, &r.events::<ps::E>()); }
        crate::neb::attribute(r, v)
    }
    fn nontrivial(&self, _plan: &Plan, r: &RunResult) -> bool { r.epochs[0].history.len() > 8 }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> { ps::describe(&r.events::<ps::E>()) }
}
/// C24: sessions of clients.
pub struct NetUsers;
impl Scenario for NetUsers {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x6e65_7433));
        let r = &mut rng;
        let mut p = us::Users.plan("C15", mix(seed), thorough);
        p.prop = prop.into();
        p.seed = seed;
        p.scenario = "netusers".into();
        p.epochs[0].crash_at = None;
        let n = p.epochs.len();
        p.epochs.drain(1..n - 1);
        p.sim.eio_p = 0;
        knobs(&mut p, r);
        p.knobs.insert("defauth".into(), if r.chance(3, 4) { 7 } else { r.below(8) as i64 });
        // the connections or the server go away in the middle
        p.knobs.insert("middle".into(), if r.chance(1, 2) { r.below(3) as i64 } else { 0 });
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        docs::set_epoch_schema(plan, 0);
        if ep + 1 == plan.epochs.len() { return us::Users.epoch(plan, ep); }
        net_window(plan.knob("window") as usize);
        freeze(true);
        let mark = |m: String| { record(&us::E::Mark(m)); };
        let perms = || DefaultPermissions::Permissions(us::def_session(plan).permissions);
        let mut srv = match start(plan, &us::DBS, perms()) { Ok(s) => s, Err(e) => return mark(format!("open failed: {e}")) };
        let crt = runtime(plan.knob("clirt"), "client");
        let nconn = plan.knob("conns").clamp(1, 4) as usize;
        let clients: Vec<BlockingClient> = (0..nconn).map(|i| connect(plan, Some(&crt), i)).collect();
        let pools: Vec<Arc<us::Pool<BlockingClient>>> = (0..nconn).map(|_| Arc::default()).collect();
        let apools: Vec<Arc<us::Pool<BlkS<bonsaidb_client::AsyncClient>>>> = (0..nconn).map(|_| Arc::default()).collect();
        let plan2 = Arc::new(plan.clone());
        let mut st: bonsaidb_local::Storage = (&srv.server).into();
        let sh = us::prepare(plan, ep, &st);
        let middle = plan.knob("middle");
        for phase in 0..if middle > 0 { 2 } else { 1 } {
            freeze(false);
            let hs: Vec<_> = plan.epochs[ep].threads.iter().enumerate().map(|(t, ops)| {
                let half = if middle > 0 { (ops.len() + 1) / 2 } else { ops.len() };
                let (ops, from) = if phase == 0 { (ops[..half].to_vec(), 0) } else { (ops[half..].to_vec(), half) };
                let (plan, st, sh) = (plan2.clone(), st.clone(), sh.clone());
                let (c, pool, apool) = (clients[t % nconn].clone(), pools[t % nconn].clone(), apools[t % nconn].clone());
                let h = crt.handle().clone();
                let a = plan.knob("async") >> (t % 4) & 1 == 1;
                std::thread::Builder::new().name(format!("client{t}")).spawn(move || {
                    if a { us::client(&plan, &st, &BlkS(c.as_async().clone(), h), &apool, &sh, ep, phase, t, &ops, from) }
                    else { us::client(&plan, &st, &c, &pool, &sh, ep, phase, t, &ops, from) }
                }).unwrap()
            }).collect();
            for h in hs { let _ = h.join(); }
            if phase == 0 && middle > 0 {
                freeze(true);
                if middle == 1 { net_cut(simcore::net::ANY, plan.seed >> 5 & 1); }
                else {
                    drop(st);
                    if let Some(n) = stop(srv, None) { mark(format!("{n} clients connected after the shutdown")); return; }
                    srv = match start(plan, &us::DBS, perms()) { Ok(s) => s, Err(e) => return mark(format!("open failed: {e}")) };
                    st = (&srv.server).into();
                }
                sim_sleep_ns(5_000_000_000);
                for c in &clients {
                    let mut n = 0;
                    loop {
                        match c.list_available_schemas() {
                            Ok(_) | Err(bonsaidb_core::Error::PermissionDenied(_)) => break,
                            Err(e) => { n += 1; if n > 2 { mark(format!("client does not recover: {e}")); break; } }
                        }
                    }
                }
                probe(if middle == 1 { "sessions-after-reconnection" } else { "sessions-after-restart" });
            }
        }
        us::finish(&st);
        drop(sh);
        drop((pools, apools));
        drop(clients);
        if plan.knob("ownrt") == 0 { drop(crt); } else { std::mem::forget(crt); }
        freeze(true);
        drop(st);
        if let Some(n) = stop(srv, None) { mark(format!("{n} clients connected after the shutdown")); stop_here(); }
        sim_sleep_ns(200_000_000_000);
        record(&us::E::Closed);
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> { us::Users.check(plan, r) }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { crate::neb::flags(img, crashed) }
    fn nontrivial(&self, _plan: &Plan, r: &RunResult) -> bool { r.epochs[0].history.len() > 20 }
    fn describe(&self, p: &Plan, r: &RunResult) -> Vec<String> { us::Users.describe(p, r) }
}
/// Remote calls: answered, in bounded time, with errors of the network only if it was broken.
fn check_net(plan: &Plan, calls: &[(u64, u32, u64)], nets: &[(u64, String, u32)], ends: &[(u64, u64)]) -> Vec<Violation> {
    let prot: BTreeSet<u32> = nets.iter().filter(|n| n.1 == "protected").map(|n| n.2).collect();
    for (s, m, tid) in nets {
        if m == "protected" { continue; }
        if *s != 0 && prot.contains(tid) { return vec![viol("intact-connection-failed", format!("call #{s} failed on a connection that was not broken: {m}"))]; }
        if *s == 0 { return vec![viol(if m.contains("recover") { "no-recovery" } else { "lost-client-kept" }, m.clone())]; }
        if plan.prop == "C21" { return vec![viol("unexpected-error", format!("call #{s} failed without any fault: {m}"))]; }
    }
    let cutoff = plan.epochs[0].threads[0].iter().any(|o| o.k == "cut" && o.arg(1) >= 2);
    let bound = if cutoff { plan.knob("reqto") as u64 + 120_000 } else { 200_000 } * 1_000_000;
    let end: std::collections::HashMap<u64, u64> = ends.iter().copied().collect();
    for (s, _, at) in calls {
        match end.get(s) {
            Some(e) if e - at <= bound => {}
            Some(e) => return vec![viol("slow-call", format!("call #{s} took {} s", (e - at) / 1_000_000_000))],
            None => {}
        }
    }
    vec![]
}
#[allow(dead_code)]
fn _p(_: Permissions, _: ps::E) {}
