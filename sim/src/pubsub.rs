//! PubSub: publishers, subscribers that come and go, and an oracle over the
//! recorded deliveries. The events and the oracle are shared with the network scenarios.
use crate::common::*;
use crate::schema::*;
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::pubsub::{PubSub, Subscriber as _};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum E {
    /// subscriber, database
    New(u64, u8),
    /// subscriber, topic: invocation of subscribe, unsubscribe
    Sub(u64, u8),
    Unsub(u64, u8),
    Drop(u64),
    /// message number, database, topics, publishing thread
    Pub(u64, u8, Vec<u8>, u64),
    /// of the invocation #; an error if it failed
    Ack(u64, Option<String>),
    /// subscriber, topic bytes, payload
    Recv(u64, Vec<u8>, Vec<u8>),
    /// the subscriber's receiver reported the end
    End(u64),
    /// the connection of this subscriber may have ended (network only)
    Lost(u64),
    Mark(String),
}
pub const TOPICS: &[&[u8]] = &[b"t", b"", b"\0t", b"p\0t", b"t\0", b"u", b"\xff\xfe", b"p2\0u"];
pub const DBS: [&str; 2] = ["p", "p2"];
pub fn payload(id: u64) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    v.resize(8 + (mix(id) % 40) as usize, id as u8);
    v
}
pub struct Subs<S> {
    pub live: Vec<(u64, u8, Vec<S>)>,
}
/// Reads until the receiver ends.
pub fn reader(sid: u64, rx: bonsaidb_core::pubsub::Receiver, slow: bool, poll_ns: u64) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new().name(format!("reader{sid}")).spawn(move || {
        loop {
            let m = if sid % 3 == 0 {
                // polling
                match rx.try_receive() {
                    Ok(m) => Ok(m),
                    Err(bonsaidb_core::pubsub::TryReceiveError::Empty) => { sim_sleep_ns(poll_ns); continue }
                    Err(_) => Err(()),
                }
            } else if sid % 3 == 1 {
                rx.clone().next().ok_or(())
            } else { rx.receive().map_err(|_| ()) };
            match m {
                Ok(m) => { record(&E::Recv(sid, m.topic.to_vec(), m.payload.to_vec())); }
                Err(()) => { record(&E::End(sid)); return }
            }
            if slow { sim_sleep_ns(1_000_000); }
        }
    }).unwrap()
}
pub fn ack(inv: u64, r: Result<(), bonsaidb_core::Error>) { record(&E::Ack(inv, r.err().map(|e| e.to_string()))); }

/// `late`: dropping a subscriber takes effect in the background. `settle_ms`: messages on the way arrive within this time (remote subscribers).
pub fn client<P: PubSub>(plan: &Plan, dbs: &[P], ep: usize, t: usize, ops: &[Op], dup: fn(&P::Subscriber) -> Option<P::Subscriber>, settle_ms: u64, late: bool) {
    let mut subs: Vec<(u64, u8, Vec<P::Subscriber>)> = vec![];
    let mut readers = vec![];
    let nt = plan.knob("topics").clamp(1, TOPICS.len() as i64) as u64;
    for (i, o) in ops.iter().enumerate() {
        let uniq = crate::docs::uniq(ep, t, i);
        let (a, b) = (o.arg(0) as u64, o.arg(1) as u64);
        match o.k.as_str() {
            "new" => {
                let d = (a % 2) as u8;
                match dbs[d as usize].create_subscriber() {
                    Ok(s) => { record(&E::New(uniq, d)); readers.push(reader(uniq, s.receiver().clone(), b % 3 == 0, if settle_ms > 0 { 300_000_000 } else { 2_000_000 })); subs.push((uniq, d, vec![s])); }
                    Err(e) => { record(&E::Mark(format!("create_subscriber: {e}"))); }
                }
            }
            "sub" | "unsub" if !subs.is_empty() => {
                let (sid, _, s) = &subs[(a % subs.len() as u64) as usize];
                let tp = (b % nt) as u8;
                let s = &s[(b >> 8) as usize % s.len()];
                if o.k == "sub" { let i = record(&E::Sub(*sid, tp)); ack(i, s.subscribe_to_bytes(TOPICS[tp as usize].to_vec())); }
                else { let i = record(&E::Unsub(*sid, tp)); ack(i, s.unsubscribe_from_bytes(TOPICS[tp as usize])); }
            }
            "clone" if !subs.is_empty() => { let n = subs.len() as u64; let (_, _, s) = &mut subs[(a % n) as usize]; if let Some(c) = dup(&s[0]) { s.push(c); } }
            "drop" if !subs.is_empty() => {
                let n = subs.len() as u64;
                let k = (a % n) as usize;
                if subs[k].2.len() > 1 { subs[k].2.remove(b as usize % 2); }
                else { if settle_ms > 0 { sim_sleep_ns(settle_ms * MS); } let (sid, _, s) = subs.remove(k); let i = record(&E::Drop(sid)); drop(s); if late { sim_sleep_ns(settle_ms.max(1000) * MS); } ack(i, Ok(())); }
            }
            "pub" => {
                let d = (a % 2) as u8;
                let tp = (b % nt) as u8;
                let i = record(&E::Pub(uniq, d, vec![tp], t as u64));
                ack(i, dbs[d as usize].publish_bytes(TOPICS[tp as usize].to_vec(), payload(uniq)));
            }
            "puball" => {
                let d = (a % 2) as u8;
                let tps: Vec<u8> = (0..nt as u8).filter(|x| b >> x & 1 == 1).collect();
                let i = record(&E::Pub(uniq, d, tps.clone(), t as u64));
                ack(i, dbs[d as usize].publish_bytes_to_all(tps.iter().map(|t| TOPICS[*t as usize].to_vec()), payload(uniq)));
            }
            "sleep" => sim_sleep_ns(a * 1_000_000),
            _ => {}
        }
    }
    if settle_ms > 0 { sim_sleep_ns(settle_ms * MS); }
    for (sid, _, s) in subs { let i = record(&E::Drop(sid)); drop(s); if late { sim_sleep_ns(settle_ms.max(1000) * MS); } ack(i, Ok(())); }
    for h in readers { let _ = h.join(); }
}
pub struct Ps;
impl Scenario for Ps {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x7073));
        let r = &mut rng;
        let mut p = Plan { prop: prop.into(), scenario: "pubsub".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
        std_knobs(&mut p, r);
        p.knobs.insert("topics".into(), *r.pick(&[1, 1, 2, 3, 8]));
        let mut ep = EpochPlan::default();
        for t in 0..r.range(1, if thorough { 6 } else { 4 }) {
            let mut ops = vec![];
            if t == 0 || r.chance(1, 2) { ops.push(Op::new("new", &[r.below(2) as i64, r.below(9) as i64])); }
            for _ in 0..r.range(3, 25) {
                let (x, y) = ((r.next() >> 30) as i64, (r.next() >> 30) as i64);
                let db = if r.chance(1, 4) { 1 } else { 0 };
                ops.push(match r.below(24) {
                    0..=1 => Op::new("new", &[db, y]),
                    2..=6 => Op::new("sub", &[x, y]),
                    7..=9 => Op::new("unsub", &[x, y]),
                    10 => Op::new("clone", &[x]),
                    11..=12 => Op::new("drop", &[x, y]),
                    13..=19 => Op::new("pub", &[db, y]),
                    20..=22 => Op::new("puball", &[db, y]),
                    _ => Op::new("sleep", &[r.range(1, 50) as i64]),
                });
            }
            ep.threads.push(ops);
        }
        p.epochs.push(ep);
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        let open = || -> Result<(Storage, Vec<Database>), String> {
            let st = Storage::open(base_config(plan).with_schema::<DocSchema>().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            let dbs = DBS.iter().map(|n| st.create_database::<DocSchema>(n, true)).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
            Ok((st, dbs))
        };
        let (st, dbs) = match open() { Ok(x) => x, Err(e) => { record(&E::Mark(e)); return } };
        let plan2 = std::sync::Arc::new(plan.clone());
        let rt = crate::blk::runtime(plan);
        let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
            let (dbs, plan) = (dbs.clone(), plan2.clone());
            let adb: Option<Vec<_>> = dbs.iter().map(|d| crate::blk::local(&plan, &rt, t, d)).collect();
            std::thread::Builder::new().name(format!("client{t}")).spawn(move || match adb {
                Some(a) => client(&plan, &a, ep, t, &ops, |s| Some(crate::blk::BlkSub(s.0.clone(), s.1.clone())), 0, false),
                None => client(&plan, &dbs, ep, t, &ops, |s| Some(s.clone()), 0, false),
            }).unwrap()
        }).collect();
        for h in hs { let _ = h.join(); }
        drop(rt);
        drop(dbs);
        drop(st);
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v = check_ps(plan, &r.events::<E>()); }
        v
    }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { hostile(plan) && r.epochs[0].history.len() > 8 }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> { describe(&r.events::<E>()) }
}
pub fn describe(ev: &[Ev<E>]) -> Vec<String> {
    ev.iter().map(|e| {
        let t = format!("{:>12.6}s t{} #{}", e.at as f64 / 1e9, e.tid, e.seq);
        match &e.e {
            E::Sub(s, x) => format!("{t} subscribe {s} to {:?}", TOPICS[*x as usize]),
            E::Unsub(s, x) => format!("{t} unsubscribe {s} from {:?}", TOPICS[*x as usize]),
            E::Pub(m, d, x, _) => format!("{t} publish {m} in {} to {:?}", DBS[*d as usize], x.iter().map(|x| TOPICS[*x as usize]).collect::<Vec<_>>()),
            o => format!("{t} {o:?}"),
        }
    }).collect()
}
struct Iv { inv: u64, res: u64, sub: bool }
/// `lost` deliveries are excused after a subscriber's connection was lost.
pub fn check_ps(_plan: &Plan, ev: &[Ev<E>]) -> Vec<Violation> {
    let mut acks: HashMap<u64, (u64, Option<String>)> = HashMap::new();
    for e in ev { if let E::Ack(i, x) = &e.e { acks.insert(*i, (e.seq, x.clone())); } }
    let res = |i: u64| acks.get(&i).map_or(u64::MAX, |a| a.0);
    let failed = |i: u64| acks.get(&i).map_or(false, |a| a.1.is_some());
    let mut subs: HashMap<u64, u8> = HashMap::new();
    let mut ivs: HashMap<(u64, u8), Vec<Iv>> = HashMap::new();
    let mut drops: HashMap<u64, (u64, u64)> = HashMap::new();
    let mut lost: HashMap<u64, u64> = HashMap::new();
    let mut got: HashMap<u64, Vec<(u64, Vec<u8>, Vec<u8>)>> = HashMap::new();
    let mut ended: HashMap<u64, u64> = HashMap::new();
    let mut pubs = vec![];
    for e in ev {
        match &e.e {
            E::New(s, d) => { subs.insert(*s, *d); }
            E::Sub(s, t) | E::Unsub(s, t) => {
                let sub = matches!(e.e, E::Sub(..));
                ivs.entry((*s, *t)).or_default().push(Iv { inv: e.seq, res: if failed(e.seq) && sub { u64::MAX } else { res(e.seq) }, sub });
            }
            E::Drop(s) => { drops.insert(*s, (e.seq, res(e.seq))); }
            E::Lost(s) => { lost.entry(*s).or_insert(e.seq); }
            E::Pub(m, d, t, p) => pubs.push((*m, *d, t.clone(), *p, e.seq, res(e.seq), failed(e.seq))),
            E::Recv(s, t, p) => got.entry(*s).or_default().push((e.seq, t.clone(), p.clone())),
            E::End(s) => { ended.insert(*s, e.seq); }
            E::Mark(m) => return vec![viol("unexpected-error", m.clone())],
            E::Ack(..) => {}
        }
    }
    let excused = lost.len() > 0;
    for (i, a) in &acks { if let (Some(x), false) = (&a.1, excused) { return vec![viol("unexpected-error", format!("call #{i}: {x}"))]; } }
    let bypay: HashMap<Vec<u8>, usize> = pubs.iter().enumerate().map(|(i, p)| (payload(p.0), i)).collect();
    let mut order: Vec<_> = subs.iter().map(|(a, b)| (*a, *b)).collect();
    order.sort();
    for (s, d) in order {
        let empty = vec![];
        let g = got.get(&s).unwrap_or(&empty);
        let drop_ = drops.get(&s).copied();
        let lost_at = lost.get(&s).copied().unwrap_or(u64::MAX);
        // deliveries per (message, topic)
        let mut n: HashMap<(usize, u8), u32> = HashMap::new();
        let mut last: HashMap<u64, (u64, usize)> = HashMap::new();
        for (seq, topic, pay) in g {
            let Some(pi) = bypay.get(pay) else { return vec![viol("pubsub-invented", format!("subscriber {s} received at #{seq} a payload nobody published: topic {topic:?} payload {pay:?}"))] };
            let p = &pubs[*pi];
            if p.4 > *seq { return vec![viol("pubsub-invented", format!("subscriber {s} received message {} at #{seq} before it was published at #{}", p.0, p.4))]; }
            let Some(ti) = TOPICS.iter().position(|t| *t == &topic[..]) else { return vec![viol("pubsub-topic", format!("subscriber {s} received message {} with topic {topic:?} nobody published to", p.0))] };
            let ti = ti as u8;
            if p.1 != d { return vec![viol("pubsub-database", format!("subscriber {s} of database {} received message {} published in database {}", DBS[d as usize], p.0, DBS[p.1 as usize]))]; }
            let Some(tpos) = p.2.iter().position(|x| *x == ti) else { return vec![viol("pubsub-topic", format!("subscriber {s} received message {} for topic {topic:?} it was not published to", p.0))] };
            let k = n.entry((*pi, ti)).or_default();
            *k += 1;
            if *k > 1 { return vec![viol("pubsub-duplicate", format!("subscriber {s} received message {} for topic {topic:?} twice (#{seq})", p.0))]; }
            let iv = ivs.get(&(s, ti)).map(|v| &v[..]).unwrap_or(&[]);
            let may = iv.iter().any(|i| i.sub && i.inv < p.5 && !iv.iter().any(|u| !u.sub && u.inv > i.res && u.res < p.4));
            if !may { return vec![viol("pubsub-unsubscribed", format!("subscriber {s} received message {} (published #{}–#{}) for topic {topic:?} it was not subscribed to", p.0, p.4, p.5))]; }
            if drop_.map_or(false, |dr| dr.1 < p.4) { return vec![viol("pubsub-unsubscribed", format!("subscriber {s} received message {} published after it was dropped", p.0))]; }
            // order per publisher
            if let Some(l) = last.get(&p.3) {
                if *l > (p.4, tpos) { return vec![viol("pubsub-order", format!("subscriber {s} received message {} at #{seq} after a later one of the same publisher", p.0))]; }
            }
            last.insert(p.3, (p.4, tpos));
        }
        for (pi, p) in pubs.iter().enumerate() {
            if p.1 != d || p.6 || p.5 > lost_at { continue }
            for ti in &p.2 {
                let iv = ivs.get(&(s, *ti)).map(|v| &v[..]).unwrap_or(&[]);
                let must = iv.iter().any(|i| i.sub && i.res < p.4 && !iv.iter().any(|u| !u.sub && u.res > i.inv && u.inv < p.5)) && drop_.map_or(true, |dr| dr.0 > p.5);
                if must && !n.contains_key(&(pi, *ti)) && p.5 != u64::MAX {
                    return vec![viol("pubsub-missed", format!("subscriber {s} never received message {} published #{}–#{} to topic {:?} it was subscribed to", p.0, p.4, p.5, TOPICS[*ti as usize]))];
                }
            }
        }
        if drop_.is_some() && !ended.contains_key(&s) { return vec![viol("pubsub-not-ended", format!("the receiver of subscriber {s} was dropped and never ended"))]; }
    }
    vec![]
}
