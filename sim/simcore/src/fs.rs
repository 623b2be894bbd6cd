//! An in-memory file system under `/simfs` with a durability model: data is
//! durable once fsync'd; after a crash each file keeps its durable content plus
//! a chosen prefix of the writes made since (the last one possibly torn), and
//! the name space keeps a prefix of the operations made since the last fsync.
use crate::sched::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const ROOT: &str = "/simfs";
pub const FD0: i32 = 5000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    Write(u64, Vec<u8>),
    Trunc(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NOp {
    Create(String, u64),
    Mkdir(String, u64),
    Unlink(String),
    Rmdir(String),
    Rename(String, String),
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Inode {
    pub dir: bool,
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub pending: Vec<DOp>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Image {
    pub inodes: BTreeMap<u64, Inode>,
    pub names: BTreeMap<String, u64>,
    pub durable_names: BTreeMap<String, u64>,
    pub ns_pending: Vec<NOp>,
    pub next_ino: u64,
}
#[derive(Clone, Debug)]
pub struct Ofd {
    pub ino: u64,
    pub pos: u64,
    pub append: bool,
    pub read: bool,
    pub write: bool,
    pub refs: u32,
    pub path: String,
}
pub struct DirStream {
    pub entries: Vec<(String, u64, bool)>,
    pub pos: usize,
    pub fd: i32,
    pub buf: Box<libc::dirent64>,
}
#[derive(Clone, Debug)]
pub enum FdKind {
    File(usize),
    Dir(String),
    Virt(Vec<u8>, usize),
    Net(usize),
}
#[derive(Default)]
pub struct Fs {
    pub img: Image,
    pub ofds: Vec<Option<Ofd>>,
    pub fds: BTreeMap<i32, FdKind>,
    /// flock: inode -> (exclusive, holders)
    pub locks: BTreeMap<u64, (bool, Vec<usize>)>,
    /// bytes that must not be written: needle, label, directory where they may be
    pub needles: Vec<(Vec<u8>, String, String)>,
}

pub fn find(hay: &[u8], needle: &[u8]) -> bool {
    let Some(f) = needle.first() else { return false };
    hay.len() >= needle.len() && (0..=hay.len() - needle.len()).any(|i| hay[i] == *f && &hay[i..i + needle.len()] == needle)
}
pub fn apply_ns(names: &mut BTreeMap<String, u64>, op: &NOp) {
    match op {
        NOp::Create(p, i) | NOp::Mkdir(p, i) => { names.insert(p.clone(), *i); }
        NOp::Unlink(p) | NOp::Rmdir(p) => { names.remove(p); }
        NOp::Rename(a, b) => rename_in(names, a, b),
    }
}
fn rename_in(names: &mut BTreeMap<String, u64>, a: &str, b: &str) {
    let pre = format!("{a}/");
    let moved: Vec<String> = names.keys().filter(|k| *k == a || k.starts_with(&pre)).cloned().collect();
    for k in moved {
        let v = names.remove(&k).unwrap();
        let nk = format!("{b}{}", &k[a.len()..]);
        names.insert(nk, v);
    }
}
pub fn apply_data(d: &mut Vec<u8>, op: &DOp) {
    match op {
        DOp::Write(off, b) => {
            let end = *off as usize + b.len();
            if d.len() < end { d.resize(end, 0); }
            d[*off as usize..end].copy_from_slice(b);
        }
        DOp::Trunc(n) => d.resize(*n as usize, 0),
    }
}

pub fn norm(p: &str) -> String {
    let mut out: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => { out.pop(); }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') { Some(0) | None => "/".into(), Some(i) => p[..i].to_string() }
}

impl Image {
    pub fn fresh() -> Self {
        let mut i = Image { next_ino: 2, ..Default::default() };
        i.inodes.insert(1, Inode { dir: true, ..Default::default() });
        i.names.insert(ROOT.into(), 1);
        i.durable_names.insert(ROOT.into(), 1);
        i
    }
    pub fn get(&self, p: &str) -> Option<u64> { self.names.get(p).copied() }
    pub fn sync_ns(&mut self) {
        let ops = std::mem::take(&mut self.ns_pending);
        for op in &ops { apply_ns(&mut self.durable_names, op); }
    }
    pub fn fsync(&mut self, ino: u64) {
        if let Some(i) = self.inodes.get_mut(&ino) {
            i.durable = i.data.clone();
            i.pending.clear();
        }
        self.sync_ns();
    }
    /// Everything reaches the disk (a clean exit: the page cache survives the process).
    pub fn sync_all(&mut self) {
        for i in self.inodes.values_mut() {
            i.durable = i.data.clone();
            i.pending.clear();
        }
        self.sync_ns();
        self.gc();
    }
    pub fn gc(&mut self) {
        let live: std::collections::BTreeSet<u64> = self.names.values().chain(self.durable_names.values()).copied().collect();
        self.inodes.retain(|k, _| live.contains(k));
    }
    pub fn total(&self) -> usize { self.inodes.values().map(|i| i.data.len()).sum() }
    pub fn hash(&self) -> u64 {
        let mut h = 7u64;
        for (k, v) in &self.names {
            h = mix(h ^ hash_str(k));
            if let Some(i) = self.inodes.get(v) {
                for c in i.data.chunks(8) {
                    let mut b = [0u8; 8];
                    b[..c.len()].copy_from_slice(c);
                    h = mix(h ^ u64::from_le_bytes(b));
                }
            }
        }
        h
    }
    /// The state of the disk after a power loss.
    /// mode: 0 only durable state, 1 everything written, 2 a prefix of what was pending.
    pub fn crash(&mut self, rng: &mut Rng, mode: u64) -> (u64, u64) {
        let mut lost = 0;
        let mut torn = 0;
        let n = self.ns_pending.len() as u64;
        let keep = match mode { 0 => 0, 1 => n, _ => rng.range(0, n) };
        let ops: Vec<NOp> = self.ns_pending.drain(..).collect();
        for (i, op) in ops.iter().enumerate() {
            if (i as u64) < keep { apply_ns(&mut self.durable_names, op); } else { lost += 1; }
        }
        self.names = self.durable_names.clone();
        for i in self.inodes.values_mut() {
            let n = i.pending.len() as u64;
            let keep = match mode { 0 => 0, 1 => n, _ => rng.range(0, n) };
            let ops: Vec<DOp> = i.pending.drain(..).collect();
            for (k, op) in ops.iter().enumerate() {
                if (k as u64) < keep {
                    apply_data(&mut i.durable, op);
                } else {
                    if k as u64 == keep && mode == 2 && rng.chance(1, 3) {
                        if let DOp::Write(off, b) = op {
                            // torn at a sector boundary
                            let secs = b.len() as u64 / 512;
                            if secs > 0 {
                                let cut = (rng.range(0, secs) * 512) as usize;
                                if cut > 0 && cut < b.len() {
                                    apply_data(&mut i.durable, &DOp::Write(*off, b[..cut].to_vec()));
                                    torn += 1;
                                }
                            }
                        }
                    }
                    lost += 1;
                }
            }
            i.data = i.durable.clone();
        }
        self.gc();
        (lost, torn)
    }
}

pub struct IoErr(pub i32);
type R<T> = Result<T, i32>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IoKind { Open, Read, Write, Fsync, Meta, Stat, Trunc }

impl Sim {
    /// The scheduling/fault point of a file operation.
    pub fn io_point(&mut self, kind: IoKind, path: &str) -> Result<u64, i32> {
        self.point((0x10 + kind as u64) << 32);
        if self.log.is_some() { self.note(format!("io {kind:?} {path}")); }
        if self.cfg.disk_latency_p > 0 && kind != IoKind::Stat {
            let (p, m) = (self.cfg.disk_latency_p, self.cfg.disk_latency_max_ns);
            let d = self.choose(S_LAT, 0, |r| if r.chance(p, 10_000) { 1 + r.below(m.max(1)) } else { 0 });
            if d > 0 {
                *self.stats.faults.entry("slow_disk".into()).or_default() += 1;
                let dl = self.now + d;
                self.block(St::Sleep, Some(dl));
            }
        }
        let mutating = matches!(kind, IoKind::Write | IoKind::Fsync | IoKind::Meta | IoKind::Trunc);
        if mutating {
            self.mut_ios += 1;
            if Some(self.mut_ios) == self.crash_at {
                self.note("CRASH".into());
                (self.finish)(self, Outcome::Crashed);
            }
        }
        if self.frozen { return Ok(0); }
        let c = &self.cfg;
        let (eintr, short, eio, nospc, fse) = (c.eintr_p, c.short_io_p, c.eio_p, c.enospc_p, c.fsync_eio_p);
        if eintr + short + eio + nospc + fse == 0 { return Ok(0); }
        let nebari = path.ends_with(".nebari") || path.ends_with(".compacting") || path.ends_with("/_transactions");
        let target = match (nebari, mutating) { (true, false) => 1, (true, true) => 2, (false, false) => 4, (false, true) => 8 };
        let hard = self.faults_on && self.io_faults < self.cfg.max_io_faults && self.cfg.io_spare & target == 0;
        // 0 none, 1 EINTR, 2 short, 3 EIO, 4 ENOSPC
        let v = self.choose(S_IO, 0, |r| {
            let x = r.below(10_000);
            match kind {
                IoKind::Read => if x < eintr { 1 } else if x < eintr + short { 2 } else if hard && x < eintr + short + eio { 3 } else { 0 },
                IoKind::Write => if x < eintr { 1 } else if x < eintr + short { 2 } else if hard && x < eintr + short + eio { 3 } else if hard && x < eintr + short + eio + nospc { 4 } else { 0 },
                IoKind::Fsync => if x < eintr { 1 } else if hard && x < eintr + fse { 3 } else { 0 },
                IoKind::Open | IoKind::Meta | IoKind::Trunc => if hard && x < eio { 3 } else if hard && x < eio + nospc && kind != IoKind::Open { 4 } else { 0 },
                IoKind::Stat => 0,
            }
        });
        if v > 2 { let q = self.seq; self.stats.io_at.push(q); self.probe(match target { 1 => "io-error-nebari-read", 2 => "io-error-nebari-write", 4 => "io-error-other-read", _ => "io-error-other-write" }); }
        match v {
            1 => { self.fault("eintr"); Err(libc::EINTR) }
            2 => { self.fault("short_io"); Ok(1) }
            3 => { self.io_faults += 1; self.fault(&format!("eio_{kind:?}").to_lowercase()); Err(libc::EIO) }
            4 => { self.io_faults += 1; self.fault("enospc"); Err(libc::ENOSPC) }
            _ => Ok(0),
        }
    }
    pub fn alloc_fd(&mut self, k: FdKind) -> i32 {
        let mut fd = FD0;
        for k in self.fs.fds.keys() {
            if *k == fd { fd += 1; } else { break; }
        }
        self.fs.fds.insert(fd, k);
        fd
    }
    pub fn f_open(&mut self, path: &str, flags: i32) -> R<i32> {
        let p = norm(path);
        let creating = flags & libc::O_CREAT != 0 && self.fs.img.get(&p).is_none();
        self.io_point(if creating || flags & libc::O_TRUNC != 0 { IoKind::Meta } else { IoKind::Open }, &p)?;
        let ino = match self.fs.img.get(&p) {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 { return Err(libc::EEXIST); }
                let n = &self.fs.img.inodes[&i];
                if n.dir {
                    if flags & libc::O_ACCMODE != libc::O_RDONLY { return Err(libc::EISDIR); }
                    return Ok(self.alloc_fd(FdKind::Dir(p)));
                }
                if flags & libc::O_DIRECTORY != 0 { return Err(libc::ENOTDIR); }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 { return Err(libc::ENOENT); }
                match self.fs.img.get(&parent(&p)) {
                    Some(d) if self.fs.img.inodes[&d].dir => {}
                    _ => return Err(libc::ENOENT),
                }
                let i = self.fs.img.next_ino;
                self.fs.img.next_ino += 1;
                self.fs.img.inodes.insert(i, Inode::default());
                self.fs.img.names.insert(p.clone(), i);
                self.fs.img.ns_pending.push(NOp::Create(p.clone(), i));
                i
            }
        };
        let acc = flags & libc::O_ACCMODE;
        let (r, w) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
        if flags & libc::O_TRUNC != 0 && w {
            let n = self.fs.img.inodes.get_mut(&ino).unwrap();
            if !n.data.is_empty() {
                n.data.clear();
                n.pending.push(DOp::Trunc(0));
            }
        }
        let o = self.fs.ofds.len();
        self.fs.ofds.push(Some(Ofd { ino, pos: 0, append: flags & libc::O_APPEND != 0, read: r, write: w, refs: 1, path: p }));
        Ok(self.alloc_fd(FdKind::File(o)))
    }
    fn ofd(&mut self, fd: i32) -> R<usize> {
        match self.fs.fds.get(&fd) {
            Some(FdKind::File(o)) => Ok(*o),
            Some(FdKind::Dir(_)) => Err(libc::EISDIR),
            _ => Err(libc::EBADF),
        }
    }
    pub fn f_read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> R<usize> {
        if let Some(FdKind::Virt(d, pos)) = self.fs.fds.get_mut(&fd) {
            let n = buf.len().min(d.len() - *pos);
            buf[..n].copy_from_slice(&d[*pos..*pos + n]);
            *pos += n;
            return Ok(n);
        }
        let o = self.ofd(fd)?;
        let path = self.fs.ofds[o].as_ref().unwrap().path.clone();
        let f = self.io_point(IoKind::Read, &path)?;
        let of = self.fs.ofds[o].as_mut().unwrap();
        if !of.read { return Err(libc::EBADF); }
        let pos = at.unwrap_or(of.pos) as usize;
        let d = &self.fs.img.inodes[&of.ino].data;
        let mut n = if pos >= d.len() { 0 } else { buf.len().min(d.len() - pos) };
        if f == 1 && n > 1 { n = 1 + n / 2; }
        buf[..n].copy_from_slice(&d[pos.min(d.len())..pos.min(d.len()) + n]);
        if at.is_none() { of.pos += n as u64; }
        Ok(n)
    }
    pub fn f_write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> R<usize> {
        let o = self.ofd(fd)?;
        let path = self.fs.ofds[o].as_ref().unwrap().path.clone();
        let r = self.io_point(IoKind::Write, &path);
        let of = self.fs.ofds[o].as_mut().unwrap();
        if !of.write { return Err(libc::EBADF); }
        let ino = self.fs.img.inodes.get_mut(&of.ino).unwrap();
        let pos = at.unwrap_or(if of.append { ino.data.len() as u64 } else { of.pos });
        let mut n = buf.len();
        match r {
            Ok(1) if n > 1 => n = n / 2,
            Ok(_) => {}
            Err(e) => return Err(e),
        }
        let op = DOp::Write(pos, buf[..n].to_vec());
        apply_data(&mut ino.data, &op);
        ino.pending.push(op);
        if at.is_none() { of.pos = pos + n as u64; }
        if !self.fs.needles.is_empty() {
            let ino = &self.fs.img.inodes[&self.fs.ofds[o].as_ref().unwrap().ino];
            let mut hits = vec![];
            for (needle, label, except) in &self.fs.needles {
                if path.starts_with(&except[..]) && !except.is_empty() { continue; }
                let k = needle.len() - 1;
                let (a, b) = ((pos as usize).saturating_sub(k), (pos as usize + n + k).min(ino.data.len()));
                if find(&ino.data[a..b], needle) { hits.push(format!("leak {label} {path}")); }
            }
            for h in hits { self.probe(&h); }
        }
        Ok(n)
    }
    pub fn f_fsync(&mut self, fd: i32) -> R<()> {
        let (ino, path) = match self.fs.fds.get(&fd) {
            Some(FdKind::File(o)) => { let o = self.fs.ofds[*o].as_ref().unwrap(); (Some(o.ino), o.path.clone()) }
            Some(FdKind::Dir(p)) => (None, p.clone()),
            _ => return Err(libc::EBADF),
        };
        self.io_point(IoKind::Fsync, &path)?;
        match ino {
            Some(i) => self.fs.img.fsync(i),
            None => self.fs.img.sync_ns(),
        }
        Ok(())
    }
    pub fn f_trunc(&mut self, fd: i32, len: u64) -> R<()> {
        let o = self.ofd(fd)?;
        let (ino, path) = { let o = self.fs.ofds[o].as_ref().unwrap(); (o.ino, o.path.clone()) };
        self.io_point(IoKind::Trunc, &path)?;
        let n = self.fs.img.inodes.get_mut(&ino).unwrap();
        n.data.resize(len as usize, 0);
        n.pending.push(DOp::Trunc(len));
        Ok(())
    }
    pub fn f_seek(&mut self, fd: i32, off: i64, whence: i32) -> R<u64> {
        let o = self.ofd(fd)?;
        let of = self.fs.ofds[o].as_mut().unwrap();
        let len = self.fs.img.inodes[&of.ino].data.len() as i64;
        let base = match whence { libc::SEEK_SET => 0, libc::SEEK_CUR => of.pos as i64, libc::SEEK_END => len, _ => return Err(libc::EINVAL) };
        let n = base + off;
        if n < 0 { return Err(libc::EINVAL); }
        of.pos = n as u64;
        Ok(n as u64)
    }
    pub fn f_close(&mut self, fd: i32) -> R<()> {
        match self.fs.fds.remove(&fd) {
            Some(FdKind::File(o)) => {
                let of = self.fs.ofds[o].as_mut().unwrap();
                of.refs -= 1;
                if of.refs == 0 {
                    self.fs.ofds[o] = None;
                    self.unlock(o);
                }
                Ok(())
            }
            Some(FdKind::Net(s)) => { self.net_close(fd, s); Ok(()) }
            Some(_) => Ok(()),
            None => Err(libc::EBADF),
        }
    }
    pub fn f_dup(&mut self, fd: i32) -> R<i32> {
        let k = self.fs.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
        match &k {
            FdKind::File(o) => self.fs.ofds[*o].as_mut().unwrap().refs += 1,
            FdKind::Net(s) => self.net_dup(*s),
            _ => {}
        }
        Ok(self.alloc_fd(k))
    }
    fn unlock(&mut self, o: usize) {
        let mut free = Vec::new();
        for (ino, l) in self.fs.locks.iter_mut() {
            l.1.retain(|x| *x != o);
            if l.1.is_empty() { free.push(*ino); }
        }
        for i in free {
            self.fs.locks.remove(&i);
            for t in 0..self.thr.len() {
                if self.thr[t].st == St::Flock(i as usize) { self.wake_thread(t); }
            }
        }
    }
    pub fn f_flock(&mut self, fd: i32, op: i32) -> R<()> {
        let o = self.ofd(fd)?;
        let ino = self.fs.ofds[o].as_ref().unwrap().ino;
        self.point(0x30 << 32);
        if op & libc::LOCK_UN != 0 { self.unlock(o); return Ok(()); }
        let ex = op & libc::LOCK_EX != 0;
        loop {
            let ok = match self.fs.locks.get(&ino) {
                None => true,
                Some((x, h)) => (h.len() == 1 && h[0] == o) || (!*x && !ex),
            };
            if ok {
                let e = self.fs.locks.entry(ino).or_insert((ex, Vec::new()));
                e.0 = ex;
                if !e.1.contains(&o) { e.1.push(o); }
                return Ok(());
            }
            if op & libc::LOCK_NB != 0 { return Err(libc::EWOULDBLOCK); }
            self.block(St::Flock(ino as usize), None);
        }
    }
    pub fn f_stat(&mut self, path: &str) -> R<(bool, u64, u64)> {
        let p = norm(path);
        self.io_point(IoKind::Stat, &p)?;
        let i = self.fs.img.get(&p).ok_or(libc::ENOENT)?;
        let n = &self.fs.img.inodes[&i];
        Ok((n.dir, n.data.len() as u64, i))
    }
    pub fn f_fstat(&mut self, fd: i32) -> R<(bool, u64, u64)> {
        match self.fs.fds.get(&fd) {
            Some(FdKind::File(o)) => {
                let o = self.fs.ofds[*o].as_ref().unwrap();
                let (ino, p) = (o.ino, o.path.clone());
                self.io_point(IoKind::Stat, &p)?;
                Ok((false, self.fs.img.inodes[&ino].data.len() as u64, ino))
            }
            Some(FdKind::Dir(p)) => { let p = p.clone(); self.f_stat(&p) }
            Some(FdKind::Virt(d, _)) => Ok((false, d.len() as u64, 9999)),
            _ => Err(libc::EBADF),
        }
    }
    pub fn f_mkdir(&mut self, path: &str) -> R<()> {
        let p = norm(path);
        self.io_point(IoKind::Meta, &p)?;
        if self.fs.img.get(&p).is_some() { return Err(libc::EEXIST); }
        match self.fs.img.get(&parent(&p)) {
            Some(d) if self.fs.img.inodes[&d].dir => {}
            _ => return Err(libc::ENOENT),
        }
        let i = self.fs.img.next_ino;
        self.fs.img.next_ino += 1;
        self.fs.img.inodes.insert(i, Inode { dir: true, ..Default::default() });
        self.fs.img.names.insert(p.clone(), i);
        self.fs.img.ns_pending.push(NOp::Mkdir(p, i));
        Ok(())
    }
    pub fn f_unlink(&mut self, path: &str, dir: bool) -> R<()> {
        let p = norm(path);
        self.io_point(IoKind::Meta, &p)?;
        let i = self.fs.img.get(&p).ok_or(libc::ENOENT)?;
        let isdir = self.fs.img.inodes[&i].dir;
        if dir {
            if !isdir { return Err(libc::ENOTDIR); }
            let pre = format!("{p}/");
            if self.fs.img.names.keys().any(|k| k.starts_with(&pre)) { return Err(libc::ENOTEMPTY); }
            self.fs.img.names.remove(&p);
            self.fs.img.ns_pending.push(NOp::Rmdir(p));
        } else {
            if isdir { return Err(libc::EISDIR); }
            self.fs.img.names.remove(&p);
            self.fs.img.ns_pending.push(NOp::Unlink(p));
        }
        Ok(())
    }
    pub fn f_rename(&mut self, a: &str, b: &str) -> R<()> {
        let (a, b) = (norm(a), norm(b));
        self.io_point(IoKind::Meta, &a)?;
        if self.fs.img.get(&a).is_none() { return Err(libc::ENOENT); }
        if self.fs.img.get(&parent(&b)).is_none() { return Err(libc::ENOENT); }
        if a == b { return Ok(()); }
        rename_in(&mut self.fs.img.names, &a, &b);
        self.fs.img.ns_pending.push(NOp::Rename(a, b));
        Ok(())
    }
    pub fn f_list(&mut self, path: &str) -> R<Vec<(String, u64, bool)>> {
        let p = norm(path);
        self.io_point(IoKind::Open, &p)?;
        let i = self.fs.img.get(&p).ok_or(libc::ENOENT)?;
        if !self.fs.img.inodes[&i].dir { return Err(libc::ENOTDIR); }
        let pre = format!("{p}/");
        let mut v: Vec<_> = self.fs.img.names.iter()
            .filter(|(k, _)| k.starts_with(&pre) && !k[pre.len()..].contains('/'))
            .map(|(k, i)| (k[pre.len()..].to_string(), *i, self.fs.img.inodes[i].dir)).collect();
        // directory order is unspecified: derive one from the seed
        let s = self.seed;
        v.sort_by_key(|e| mix(hash_str(&e.0) ^ s));
        Ok(v)
    }
}
