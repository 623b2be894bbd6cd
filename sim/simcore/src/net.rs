//! Simulated sockets (TCP over a loopback network with delays, segmentation, resets,
//! refusals and outages), socket pairs, eventfd and epoll.
use crate::fs::FdKind;
use crate::sched::*;
use std::collections::{BTreeMap, VecDeque};

pub const ANY: usize = usize::MAX;
#[derive(Default)]
pub struct Tcp {
    pub local: u16,
    pub remote: u16,
    pub peer: Option<usize>,
    /// connected, or connecting until then
    pub up: bool,
    pub up_at: Option<u64>,
    /// arrived
    pub rx: VecDeque<u8>,
    /// on the way: time of arrival, bytes; none: end of the stream
    pub wire: VecDeque<(u64, Option<Vec<u8>>)>,
    pub inflight: usize,
    pub eof: bool,
    pub err: i32,
    pub sent_fin: bool,
    pub accepted_from: bool,
    /// the other side does not know this connection any more and says so then
    pub rst_at: Option<u64>,
    /// never broken on purpose
    pub safe: bool,
}
pub enum Sock {
    Free,
    New,
    Event(u64),
    /// descriptor -> (socket, events, data, pending)
    Epoll(BTreeMap<i32, (usize, u32, u64, bool)>),
    /// port, connections to accept: time, socket
    Listen(u16, VecDeque<(u64, usize)>),
    Tcp(Tcp),
}
#[derive(Default)]
pub struct Net {
    pub socks: Vec<Sock>,
    pub refs: Vec<u32>,
    pub nonblock: Vec<bool>,
    next_port: u16,
    /// earliest time something arrives
    next: Option<u64>,
    /// nothing arrives before then
    pub outage: u64,
    pub refuse: bool,
    pub resets: u64,
    /// bytes that fit on the way
    pub window: usize,
}
type R<T> = Result<T, i32>;
const IN: u32 = libc::EPOLLIN as u32;
const OUT: u32 = libc::EPOLLOUT as u32;
const RDHUP: u32 = libc::EPOLLRDHUP as u32;
const HUP: u32 = libc::EPOLLHUP as u32;
const ERR: u32 = libc::EPOLLERR as u32;

impl Sim {
    fn net_new(&mut self, k: Sock) -> usize {
        self.net.socks.push(k);
        self.net.refs.push(1);
        self.net.nonblock.push(true);
        self.net.socks.len() - 1
    }
    pub fn net_fd(&mut self, k: Sock) -> i32 {
        let s = self.net_new(k);
        self.alloc_fd(FdKind::Net(s))
    }
    fn sock(&self, fd: i32) -> R<usize> {
        match self.fs.fds.get(&fd) { Some(FdKind::Net(s)) => Ok(*s), Some(_) => Err(libc::ENOTSOCK), None => Err(libc::EBADF) }
    }
    fn tcp(&mut self, s: usize) -> R<&mut Tcp> {
        match &mut self.net.socks[s] { Sock::Tcp(t) => Ok(t), Sock::New => Err(libc::ENOTCONN), _ => Err(libc::EOPNOTSUPP) }
    }
    fn window(&self) -> usize { if self.net.window == 0 { 1 << 18 } else { self.net.window } }
    fn ready(&self, s: usize) -> u32 {
        match &self.net.socks[s] {
            Sock::Event(n) => (if *n > 0 { IN } else { 0 }) | OUT,
            Sock::Listen(_, q) => if q.front().map_or(false, |(t, _)| *t <= self.now) { IN } else { 0 },
            Sock::Tcp(t) => {
                if !t.up && t.err == 0 { return if t.up_at.is_some() { 0 } else { OUT | HUP }; }
                let mut m = 0;
                if !t.rx.is_empty() || t.eof { m |= IN; }
                if t.eof { m |= RDHUP; }
                let room = match t.peer { Some(p) => match &self.net.socks[p] { Sock::Tcp(q) => q.inflight + q.rx.len() < self.window(), _ => true }, None => true };
                if room || t.sent_fin { m |= OUT; }
                if t.err != 0 { m |= IN | OUT | ERR | HUP; }
                if t.eof && t.sent_fin { m |= HUP; }
                m
            }
            Sock::New => OUT | HUP,
            _ => 0,
        }
    }
    /// Something happened at this socket.
    fn net_poke(&mut self, s: usize) {
        let mut eps = vec![];
        for (i, k) in self.net.socks.iter_mut().enumerate() {
            if let Sock::Epoll(m) = k {
                for e in m.values_mut() { if e.0 == s { e.3 = true; eps.push(i); } }
            }
        }
        for e in eps {
            for t in 0..self.thr.len() { if self.thr[t].st == St::Poll(e as i32) { self.wake_thread(t); } }
        }
    }
    fn net_schedule(&mut self, at: u64) { if self.net.next.map_or(true, |n| at < n) { self.net.next = Some(at); } }
    pub fn net_next_event(&mut self) -> Option<u64> { self.net.next }
    /// Everything that arrives by now.
    pub fn net_deliver(&mut self) {
        match self.net.next { Some(n) if n <= self.now => {} _ => return }
        self.net.next = None;
        let now = self.now;
        let mut poke = vec![];
        for s in 0..self.net.socks.len() {
            match &mut self.net.socks[s] {
                Sock::Tcp(t) => {
                    let mut hit = false;
                    if let Some(at) = t.up_at {
                        if at <= now { t.up_at = None; if t.err == 0 { t.up = true; } hit = true; }
                    }
                    while let Some((at, _)) = t.wire.front() {
                        if *at > now { break; }
                        match t.wire.pop_front().unwrap().1 {
                            Some(b) => { t.inflight -= b.len(); t.rx.extend(b); }
                            None => t.eof = true,
                        }
                        hit = true;
                    }
                    if t.rst_at.map_or(false, |at| at <= now) {
                        t.rst_at = None;
                        t.err = libc::ECONNRESET;
                        t.eof = true;
                        t.wire.clear();
                        t.inflight = 0;
                        t.rx.clear();
                        hit = true;
                    }
                    if hit { poke.push(s); }
                }
                Sock::Listen(_, q) => if q.iter().any(|(t, _)| *t <= now) { poke.push(s); },
                _ => {}
            }
        }
        let mut next: Option<u64> = None;
        for k in &self.net.socks {
            let t = match k {
                Sock::Tcp(t) => t.up_at.into_iter().chain(t.rst_at).chain(t.wire.front().map(|w| w.0)).min(),
                Sock::Listen(_, q) => q.iter().map(|w| w.0).filter(|t| *t > now).min(),
                _ => None,
            };
            if let Some(t) = t { if next.map_or(true, |n| t < n) { next = Some(t); } }
        }
        self.net.next = next;
        for s in poke { self.net_poke(s); }
    }
    pub fn net_close(&mut self, fd: i32, s: usize) {
        for k in self.net.socks.iter_mut() { if let Sock::Epoll(m) = k { if m.get(&fd).map_or(false, |e| e.0 == s) { m.remove(&fd); } } }
        self.net.refs[s] -= 1;
        if self.net.refs[s] > 0 { return; }
        self.point(0x70 << 32);
        match std::mem::replace(&mut self.net.socks[s], Sock::Free) {
            Sock::Tcp(t) => {
                if let Some(p) = t.peer {
                    if t.rx.is_empty() { if !t.sent_fin { self.net_fin(p); } } else { self.net_err(p, libc::ECONNRESET); }
                    if let Sock::Tcp(q) = &mut self.net.socks[p] { q.peer = None; }
                }
            }
            Sock::Listen(_, q) => for (_, c) in q {
                // not accepted: reset
                if let Sock::Tcp(t) = std::mem::replace(&mut self.net.socks[c], Sock::Free) { if let Some(p) = t.peer { self.net_err(p, libc::ECONNRESET); if let Sock::Tcp(q) = &mut self.net.socks[p] { q.peer = None; } } }
            },
            _ => {}
        }
    }
    pub fn net_dup(&mut self, s: usize) { self.net.refs[s] += 1; }
    fn net_arrival(&mut self, extra: u64) -> u64 {
        (self.now + 1_000 + extra).max(self.net.outage)
    }
    fn net_fin(&mut self, p: usize) {
        let at = self.net_arrival(0);
        let Sock::Tcp(q) = &mut self.net.socks[p] else { return };
        let at = q.wire.back().map_or(at, |w| w.0.max(at));
        q.wire.push_back((at, None));
        self.net_schedule(at);
    }
    fn net_err(&mut self, p: usize, e: i32) {
        let Sock::Tcp(q) = &mut self.net.socks[p] else { return };
        q.err = e;
        q.eof = true;
        q.up_at = None;
        q.wire.clear();
        q.inflight = 0;
        q.rx.clear();
        self.net_poke(p);
    }
    /// Reset the connection of a socket: both ends fail.
    fn net_reset(&mut self, s: usize) {
        let p = match &self.net.socks[s] { Sock::Tcp(t) => t.peer, _ => None };
        self.net_err(s, libc::ECONNRESET);
        if let Some(p) = p { self.net_err(p, libc::ECONNRESET); if let Sock::Tcp(q) = &mut self.net.socks[p] { q.peer = None; } }
        if let Sock::Tcp(t) = &mut self.net.socks[s] { t.peer = None; }
    }
    /// The n-th of the client ends of connections that are up.
    fn net_conns(&self) -> Vec<usize> {
        (0..self.net.socks.len()).filter(|&i| matches!(&self.net.socks[i], Sock::Tcp(t) if t.peer.is_some() && !t.accepted_from && t.remote != 0 && !t.safe)).collect()
    }
    /// Break connections: 0 reset, 1 end of the stream seen by both, 2 the client sees nothing
    /// (all it sends is lost and the server sees a reset), 3 the other way round.
    pub fn net_cut(&mut self, which: usize, how: u64) -> usize {
        let c = self.net_conns();
        let v: Vec<usize> = if which == ANY { c } else if c.is_empty() { vec![] } else { vec![c[which % c.len()]] };
        for &s in &v {
            let Sock::Tcp(t) = &self.net.socks[s] else { continue };
            let Some(p) = t.peer else { continue };
            // data not acknowledged is sent again until the other side answers that it knows nothing of it
            let un = |x: usize| match &self.net.socks[x] { Sock::Tcp(q) => q.inflight + q.rx.len() > 0, _ => false };
            let (to_p, to_s) = (un(p), un(s));
            let at = self.now + 3_000_000_000;
            match how {
                0 => self.net_reset(s),
                1 => { self.net_fin(s); self.net_fin(p); for x in [s, p] { if let Sock::Tcp(t) = &mut self.net.socks[x] { t.peer = None; t.sent_fin = true; } } }
                2 => { if to_p { if let Sock::Tcp(t) = &mut self.net.socks[s] { t.rst_at = Some(at); self.net_schedule(at); } } self.net_err(p, libc::ECONNRESET); for x in [s, p] { if let Sock::Tcp(t) = &mut self.net.socks[x] { t.peer = None; } } }
                _ => { if to_s { if let Sock::Tcp(t) = &mut self.net.socks[p] { t.rst_at = Some(at); self.net_schedule(at); } } self.net_err(s, libc::ECONNRESET); for x in [s, p] { if let Sock::Tcp(t) = &mut self.net.socks[x] { t.peer = None; } } }
            }
        }
        if !v.is_empty() { self.fault(["net_reset", "net_close", "net_client_cut_off", "net_server_cut_off"][(how % 4) as usize]); }
        v.len()
    }
    /// Nothing breaks the connections that exist now.
    pub fn net_protect(&mut self) {
        for k in self.net.socks.iter_mut() { if let Sock::Tcp(t) = k { t.safe = true; } }
    }
    pub fn net_outage(&mut self, ns: u64) {
        let until = self.now + ns;
        self.net.outage = self.net.outage.max(until);
        for k in self.net.socks.iter_mut() {
            if let Sock::Tcp(t) = k { if let Some(u) = &mut t.rst_at { *u = (*u).max(until); } for w in t.wire.iter_mut() { w.0 = w.0.max(until); } if let Some(u) = &mut t.up_at { *u = (*u).max(until); } }
        }
        self.fault("net_outage");
    }
    pub fn net_recv(&mut self, fd: i32, b: &mut [u8], peek: bool) -> R<usize> {
        self.point(0x71 << 32);
        let s = self.sock(fd)?;
        if let Sock::Event(n) = &mut self.net.socks[s] {
            if *n == 0 { return Err(libc::EAGAIN); }
            let v = std::mem::take(n);
            b[..8].copy_from_slice(&v.to_ne_bytes());
            return Ok(8);
        }
        self.net_deliver();
        let short = if self.cfg.net_short_p > 0 || self.replay.is_some() {
            let p = self.cfg.net_short_p;
            self.choose(S_NET, 0, |r| if r.chance(p, 10_000) { 1 + r.below(64) } else { 0 })
        } else { 0 };
        let w = self.window();
        let t = self.tcp(s)?;
        if t.err != 0 { let e = std::mem::take(&mut t.err); t.eof = true; return Err(e); }
        if t.rx.is_empty() { return if t.eof { Ok(0) } else if t.up { Err(libc::EAGAIN) } else { Err(libc::ENOTCONN) }; }
        let was_full = t.rx.len() + t.inflight >= w;
        let mut n = b.len().min(t.rx.len());
        if short > 0 { n = n.min(short as usize); }
        if peek { for i in 0..n { b[i] = t.rx[i]; } return Ok(n); }
        for x in b[..n].iter_mut() { *x = t.rx.pop_front().unwrap(); }
        let more = !t.rx.is_empty();
        let peer = t.peer;
        if short > 0 {
            self.fault("net_short_recv");
            // a partial read means "empty" to an edge-triggered reader: the rest is a new arrival
            if more { self.net_poke(s); }
        }
        if was_full { if let Some(p) = peer { self.net_poke(p); } }
        Ok(n)
    }
    pub fn net_send(&mut self, fd: i32, b: &[u8]) -> R<usize> {
        self.point(0x72 << 32);
        let s = self.sock(fd)?;
        if let Sock::Event(n) = &mut self.net.socks[s] {
            *n += u64::from_ne_bytes(b[..8].try_into().unwrap());
            self.net_poke(s);
            return Ok(8);
        }
        self.net_deliver();
        let c = &self.cfg;
        let (sp, rp, lat) = (c.net_short_p, if self.faults_on && self.net.resets < c.net_max_resets { c.net_reset_p } else { 0 }, c.net_latency_max_ns);
        // low bits: 1 short, 2 reset; then the length, then the delay
        let v = if sp > 0 || rp > 0 || lat > 0 || self.replay.is_some() {
            let len = b.len() as u64;
            self.choose(S_NET, 0, |r| {
                let mut v = 0;
                if r.chance(sp, 10_000) { v |= 1; }
                if r.chance(rp, 10_000) { v |= 2; }
                if v != 0 { v |= (r.below(len.max(1)) & 0xfffff) << 4; }
                if lat > 0 && r.chance(1, 2) { let bits = 64 - (lat | 1).leading_zeros() as u64; v |= ((1u64 << r.range(6.min(bits), bits)).min(lat) / 1000) << 24; }
                v
            })
        } else { 0 };
        let w = self.window();
        let t = self.tcp(s)?;
        if t.err != 0 { let e = std::mem::take(&mut t.err); t.eof = true; return Err(e); }
        if !t.up { return Err(libc::ENOTCONN); }
        if t.sent_fin { return Err(libc::EPIPE); }
        let (peer, eof) = (t.peer, t.eof);
        let at = self.net_arrival((v >> 24) * 1000);
        let Some(p) = peer else {
            if eof { return Err(libc::EPIPE); }
            if let Sock::Tcp(t) = &mut self.net.socks[s] { let at = *t.rst_at.get_or_insert(at); self.net_schedule(at); }
            return Ok(b.len());
        };
        let Sock::Tcp(q) = &mut self.net.socks[p] else { return Err(libc::EPIPE) };
        let room = w.saturating_sub(q.inflight + q.rx.len());
        if room == 0 { self.probe("net-backpressure"); return Err(libc::EAGAIN); }
        let mut n = b.len().min(room);
        let cut = (v >> 4 & 0xfffff) as usize;
        if v & 1 == 1 && n > 1 { n = 1 + cut % (n - 1); }
        let at = q.wire.back().map_or(at, |x| x.0.max(at));
        if v & 2 == 2 && !q.safe && q.remote != 0 {
            // part of it arrives, then the connection breaks
            let k = cut.min(n);
            if cut & 1 == 1 { q.wire.push_back((at, Some(b[..k].to_vec()))); q.inflight += k; }
            let now_ = self.now;
            self.net.resets += 1;
            self.fault("net_reset");
            if cut & 1 == 1 {
                // the receiver reads what arrived and then the end
                self.net_fin(p);
                if let Sock::Tcp(q) = &mut self.net.socks[p] { q.peer = None; }
                self.net_schedule(at);
                self.net_err(s, libc::ECONNRESET);
                if let Sock::Tcp(t) = &mut self.net.socks[s] { t.peer = None; t.err = 0; }
            } else { self.net_reset(s); if let Sock::Tcp(t) = &mut self.net.socks[s] { t.err = 0; } }
            let _ = now_;
            return Err(libc::ECONNRESET);
        }
        q.wire.push_back((at, Some(b[..n].to_vec())));
        q.inflight += n;
        self.net_schedule(at);
        if v & 1 == 1 { self.fault("net_short_send"); if n < b.len() { self.net_poke(s); } }
        if v >> 24 > 0 { *self.stats.faults.entry("net_delay".into()).or_default() += 1; }
        Ok(n)
    }
    pub fn net_bind(&mut self, fd: i32, port: u16) -> R<()> {
        let s = self.sock(fd)?;
        if port != 0 && self.net.socks.iter().any(|k| matches!(k, Sock::Listen(p, _) if *p == port)) { return Err(libc::EADDRINUSE); }
        self.net.socks[s] = Sock::Listen(port, VecDeque::new());
        Ok(())
    }
    pub fn net_connect(&mut self, fd: i32, port: u16) -> R<()> {
        self.point(0x73 << 32);
        let s = self.sock(fd)?;
        let (rp, lat) = (if self.faults_on { self.cfg.net_refuse_p } else { 0 }, self.cfg.net_latency_max_ns);
        let v = if rp > 0 || lat > 0 || self.replay.is_some() {
            self.choose(S_NET, 0, |r| r.chance(rp, 10_000) as u64 | if lat > 0 { r.below(lat) / 1000 << 1 } else { 0 })
        } else { 0 };
        let at = self.net_arrival((v >> 1) * 1000);
        self.net.next_port = self.net.next_port.wrapping_add(1);
        let local = 40_000 + self.net.next_port % 20_000;
        let mut t = Tcp { local, remote: port, up_at: Some(at), ..Default::default() };
        let l = self.net.socks.iter().position(|k| matches!(k, Sock::Listen(p, _) if *p == port));
        match l {
            Some(l) if !self.net.refuse && v & 1 == 0 => {
                let c = self.net_new(Sock::Tcp(Tcp { local: port, remote: local, peer: Some(s), up: true, accepted_from: true, ..Default::default() }));
                t.peer = Some(c);
                if let Sock::Listen(_, q) = &mut self.net.socks[l] { q.push_back((at, c)); }
            }
            _ => { t.err = libc::ECONNREFUSED; self.fault("net_refused"); }
        }
        self.net.socks[s] = Sock::Tcp(t);
        self.net_schedule(at);
        Err(libc::EINPROGRESS)
    }
    pub fn net_accept(&mut self, fd: i32) -> R<(i32, u16)> {
        self.point(0x74 << 32);
        self.net_deliver();
        let s = self.sock(fd)?;
        let now = self.now;
        let Sock::Listen(_, q) = &mut self.net.socks[s] else { return Err(libc::EINVAL) };
        let Some(k) = q.iter().position(|(t, _)| *t <= now) else { return Err(libc::EAGAIN) };
        let (_, c) = q.remove(k).unwrap();
        let r = match &self.net.socks[c] { Sock::Tcp(t) => t.remote, _ => 0 };
        Ok((self.alloc_fd(FdKind::Net(c)), r))
    }
    /// local and remote port
    pub fn net_names(&self, fd: i32) -> R<(u16, u16)> {
        let s = self.sock(fd)?;
        match &self.net.socks[s] {
            Sock::Tcp(t) if t.up => Ok((t.local, t.remote)),
            Sock::Tcp(_) => Err(libc::ENOTCONN),
            Sock::Listen(p, _) => Ok((*p, 0)),
            _ => Err(libc::ENOTCONN),
        }
    }
    pub fn net_soerror(&mut self, fd: i32) -> R<i32> {
        let s = self.sock(fd)?;
        Ok(match &mut self.net.socks[s] { Sock::Tcp(t) => std::mem::take(&mut t.err), _ => 0 })
    }
    pub fn net_shutdown(&mut self, fd: i32, how: i32) -> R<()> {
        self.point(0x75 << 32);
        let s = self.sock(fd)?;
        let t = self.tcp(s)?;
        if !t.up { return Err(libc::ENOTCONN); }
        if how != libc::SHUT_RD && !t.sent_fin {
            t.sent_fin = true;
            let p = t.peer;
            if let Some(p) = p { self.net_fin(p); }
        }
        if how != libc::SHUT_WR { let t = self.tcp(s)?; t.eof = true; self.net_poke(s); }
        Ok(())
    }
    pub fn net_pair(&mut self) -> (i32, i32) {
        let a = self.net_new(Sock::Free);
        let b = self.net_new(Sock::Tcp(Tcp { peer: Some(a), up: true, ..Default::default() }));
        self.net.socks[a] = Sock::Tcp(Tcp { peer: Some(b), up: true, ..Default::default() });
        (self.alloc_fd(FdKind::Net(a)), self.alloc_fd(FdKind::Net(b)))
    }
    pub fn ep_ctl(&mut self, ep: i32, op: i32, fd: i32, ev: Option<(u32, u64)>) -> R<()> {
        self.bump();
        let e = self.sock(ep)?;
        let s = self.sock(fd)?;
        let Sock::Epoll(m) = &mut self.net.socks[e] else { return Err(libc::EINVAL) };
        match op {
            libc::EPOLL_CTL_ADD if m.contains_key(&fd) => return Err(libc::EEXIST),
            libc::EPOLL_CTL_MOD | libc::EPOLL_CTL_DEL if !m.contains_key(&fd) => return Err(libc::ENOENT),
            libc::EPOLL_CTL_DEL => { m.remove(&fd); return Ok(()); }
            _ => {}
        }
        let (events, data) = ev.ok_or(libc::EFAULT)?;
        m.insert(fd, (s, events, data, false));
        if self.ready(s) & (events | ERR | HUP) != 0 { self.net_poke(s); }
        Ok(())
    }
    /// events, data
    pub fn ep_wait(&mut self, ep: i32, max: usize, timeout_ms: i32) -> R<Vec<(u32, u64)>> {
        self.point(0x76 << 32);
        let e = self.sock(ep)?;
        let deadline = if timeout_ms < 0 { None } else { Some(self.now + timeout_ms as u64 * MS) };
        loop {
            self.net_deliver();
            let Sock::Epoll(m) = &self.net.socks[e] else { return Err(libc::EINVAL) };
            let mut out = vec![];
            let mut clear = vec![];
            for (fd, (s, events, data, pending)) in m {
                if !*pending || out.len() >= max { continue; }
                let r = self.ready(*s) & (*events | ERR | HUP);
                if r == 0 || *events & libc::EPOLLET as u32 != 0 { clear.push(*fd); }
                if r != 0 { out.push((r, *data)); }
            }
            let Sock::Epoll(m) = &mut self.net.socks[e] else { unreachable!() };
            for fd in clear { m.get_mut(&fd).unwrap().3 = false; }
            if !out.is_empty() { return Ok(out); }
            if let Some(d) = deadline { if self.now >= d { return Ok(out); } }
            if !self.block(St::Poll(e as i32), deadline) && deadline.map_or(false, |d| self.now >= d) { self.net_deliver(); let _ = 0; return self.ep_last(e, max); }
        }
    }
    fn ep_last(&mut self, e: usize, max: usize) -> R<Vec<(u32, u64)>> {
        let Sock::Epoll(m) = &self.net.socks[e] else { return Err(libc::EINVAL) };
        let mut out = vec![];
        let mut clear = vec![];
        for (fd, (s, events, data, pending)) in m {
            if !*pending || out.len() >= max { continue; }
            let r = self.ready(*s) & (*events | ERR | HUP);
            clear.push(*fd);
            if r != 0 { out.push((r, *data)); }
        }
        let Sock::Epoll(m) = &mut self.net.socks[e] else { unreachable!() };
        for fd in clear { m.get_mut(&fd).unwrap().3 = false; }
        Ok(out)
    }
}
