//! C20: files in bonsaidb-files, blocking and async, with crashes.
use crate::common::*;
use crate::lin::*;
use bonsaidb_core::connection::{LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::schema::{CollectionName, Qualified};
use bonsaidb_files::direct::{Async, Blocking, Contents, File};
use bonsaidb_files::{FileConfig, FilesSchema, Truncate};
use bonsaidb_local::config::*;
use bonsaidb_local::{AsyncDatabase, Database, Storage};
use serde::{Deserialize, Serialize};
use simcore::run::*;
use simcore::sched::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Seek, SeekFrom, Write};

/// Files stored in blocks of `B` bytes; the metadata is a number.
#[derive(Debug)]
pub struct Cfg<const B: usize>;
impl<const B: usize> FileConfig for Cfg<B> {
    type Metadata = u64;
    const BLOCK_SIZE: usize = B;
    fn files_name() -> CollectionName { CollectionName::new("t", "files") }
    fn blocks_name() -> CollectionName { CollectionName::new("t", "blocks") }
}
const NAMES: &[&str] = &["/a", "/b", "/d/a", "/d/b", "/d/e/a", "/da", "/d/\u{e4}", "/d e/x"];
const DIRS: &[&str] = &["/", "/d", "/d/", "/d/e/", "/x", "/da", "/d/e", "/d e/"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    /// unique number, path, metadata, length of the contents, only if missing
    Create(u64, String, u64, u32, bool),
    Load(String),
    /// file, unique number, offset in that number's bytes, length
    Append(u32, u64, u32, u32),
    /// file, unique number, length, size of the buffer: one append per buffer
    Buffered(u32, u64, u32, u32),
    /// file, length, from the start
    Truncate(u32, u64, bool),
    Delete(u32),
    /// file, new absolute path
    Move(u32, String),
    Meta(u32, u64),
    Read(u32),
    Len(u32),
    /// directory, recursive
    List(String, bool),
    Stats(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ret {
    Ok,
    Id(u32),
    Nothing,
    Exists,
    Conflict,
    Gone,
    Invalid,
    /// length and hash of what was read, none if reading failed
    Bytes(u64, Option<u64>),
    Len(u64),
    Found(u32, u64),
    /// id, path, metadata
    Items(Vec<(u32, String, u64)>),
    Stat(u64, u64),
    Other(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Open,
    /// the call, when its handle was loaded
    Inv(Call, u64),
    Res(u64, Ret),
    /// reading what #n opened ended
    ReadEnd(u64, Ret),
    Bad(String),
    /// reading what #n opened ended early, as if the file had been cut
    Cut(u64, String),
    Orphans(u64),
    Closed,
    Mark(String),
}
fn data(uniq: u64, off: u32, len: u32) -> Vec<u8> {
    (off..off + len).map(|i| (mix(uniq.wrapping_mul(0x9e37) ^ (i / 8) as u64) >> (i % 8 * 8)) as u8).collect()
}
enum H<const B: usize> {
    S(File<Blocking<Database>, Cfg<B>>),
    A(File<Async<AsyncDatabase>, Cfg<B>>),
}
struct Conn {
    db: Database,
    rt: Option<(tokio::runtime::Runtime, AsyncDatabase)>,
}
impl Conn {
    fn new(db: &Database, asy: bool) -> Conn {
        let rt = asy.then(|| { let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap(); let a = db.to_async_with_runtime(rt.handle().clone()); (rt, a) });
        Conn { db: db.clone(), rt }
    }
    fn run<T>(&self, f: impl std::future::Future<Output = T>) -> T { self.rt.as_ref().unwrap().0.block_on(f) }
}
macro_rules! both {
    ($c:expr, $h:expr, $f:ident => $e:expr) => { match $h { H::S($f) => $e, H::A($f) => $c.run(async { $e.await }) } };
}
fn er(e: bonsaidb_files::Error) -> Ret {
    use bonsaidb_files::Error as X;
    match e {
        X::Database(e) => ce(e),
        X::InvalidName | X::InvalidPath => Ret::Invalid,
        X::AlreadyExists => Ret::Exists,
        X::Deleted => Ret::Gone,
    }
}
fn ce(e: bonsaidb_core::Error) -> Ret {
    use bonsaidb_core::Error as X;
    match e {
        X::DocumentNotFound(..) => Ret::Gone,
        X::DocumentConflict(..) => Ret::Conflict,
        X::UniqueKeyViolation { .. } => Ret::Exists,
        e => Ret::Other(e.to_string()),
    }
}
fn ioe(e: &std::io::Error) -> Ret {
    match e.get_ref().and_then(|e| e.downcast_ref::<bonsaidb_core::Error>()) { Some(e) => ce(e.clone()), None => Ret::Other(e.to_string()) }
}
fn inv(c: Call, at: u64) -> u64 { record(&E::Inv(c, at)) }
fn res(i: u64, r: Ret) { record(&E::Res(i, r)); }
fn bad(i: u64, m: String) { record(&E::Bad(format!("file opened at #{i}: {m}"))); }

fn load<const B: usize>(c: &Conn, path: &str) -> (u64, Option<H<B>>) {
    let i = inv(Call::Load(path.into()), 0);
    let r = match &c.rt {
        None => Cfg::<B>::load(path, &c.db).map(|f| f.map(H::S)),
        Some((_, a)) => c.run(Cfg::<B>::load_async(path, a)).map(|f| f.map(H::A)),
    };
    let (r, h) = match r {
        Ok(None) => (Ret::Nothing, None),
        Ok(Some(h)) => {
            let (id, p, m) = about(&h);
            if p != path.trim_end_matches('/') { bad(i, format!("loaded {path:?}, got a file with path {p:?}")); }
            (Ret::Found(id, m), Some(h))
        }
        Err(e) => (er(e), None),
    };
    res(i, r);
    (i, h)
}
fn about<const B: usize>(h: &H<B>) -> (u32, String, u64) {
    match h { H::S(f) => (f.id(), f.path(), *f.metadata()), H::A(f) => (f.id(), f.path(), *f.metadata()) }
}
fn read_sync<const B: usize>(i: u64, mut c: Contents<Blocking<Database>, Cfg<B>>, r: &mut Rng) -> Ret {
    let len = c.len();
    if r.chance(1, 2) { c = c.with_buffer_size(r.below(6 * B as u64) as usize); }
    let got = match c.to_vec() { Ok(v) => v, Err(_) => return Ret::Bytes(len, None) };
    let out = Ret::Bytes(got.len() as u64, Some(fnv(&got)));
    if got.len() as u64 != len { bad(i, format!("length {len}, read {}", got.len())); return out; }
    if c.is_empty() != (len == 0) { bad(i, format!("is_empty of {len} bytes")); }
    let c2 = c.clone();
    // reading in pieces, with seeks
    let mut pos = 0u64;
    for _ in 0..r.below(12) {
        match r.below(6) {
            0 => {
                let to = r.below(len + 20);
                let w = match r.below(3) { 0 => SeekFrom::Start(to), 1 => SeekFrom::End(to.min(len) as i64 - len as i64), _ => SeekFrom::Current(to as i64 - pos as i64) };
                match c.seek(w) {
                    Ok(n) => { if n != to.min(len) { bad(i, format!("at {pos} of {len}, {w:?} moved to {n}")); return out; } pos = n; }
                    Err(e) => { bad(i, format!("{w:?} at {pos} of {len}: {e}")); return out; }
                }
            }
            1 => match c.stream_position() { Ok(n) if n == pos => {} x => { bad(i, format!("position is {x:?} instead of {pos} of {len}")); return out; } },
            2 => {
                let w = *r.pick(&[SeekFrom::Current(-(pos as i64) - 1), SeekFrom::End(-(len as i64) - 3)]);
                if let Ok(n) = c.seek(w) { bad(i, format!("{w:?} at {pos} of {len} moved to {n}")); return out; }
            }
            3 => match c.next() {
                None => { if pos < len { bad(i, format!("no further block at {pos} of {len}")); return out; } }
                Some(Ok(b)) => { if got.get(pos as usize..pos as usize + b.len()) != Some(&b[..]) { bad(i, format!("block of {} at {pos} of {len} differs", b.len())); return out; } pos += b.len() as u64; }
                Some(Err(_)) => return out,
            },
            _ => {
                let n = *r.pick(&[0, 1, 3, B as u64, B as u64 + 1, 4 * B as u64]);
                let mut buf = vec![0; n as usize];
                match c.read(&mut buf) {
                    Err(_) => return out,
                    Ok(k) => {
                        if k as u64 > n || (k == 0 && n > 0 && pos < len) || got.get(pos as usize..pos as usize + k) != Some(&buf[..k]) { bad(i, format!("read of {n} at {pos} of {len} gave {k} bytes {:?}", &buf[..k.min(8)])); return out; }
                        pos += k as u64;
                    }
                }
            }
        }
    }
    // the rest
    let mut rest = vec![];
    if r.chance(1, 2) { match c.to_vec() { Ok(v) => rest = v, Err(_) => return out } } else if c.read_to_end(&mut rest).is_err() { return out; }
    if rest != got[pos as usize..] { bad(i, format!("the rest at {pos} of {len} has {} bytes", rest.len())); }
    let mut all = vec![];
    for b in c2 { match b { Ok(b) => { if b.is_empty() || b.len() > B { bad(i, format!("block of {}", b.len())); } all.extend(b) } Err(_) => return out } }
    if all != got { bad(i, format!("the blocks have {} of {len} bytes", all.len())); }
    out
}
async fn read_async<const B: usize>(i: u64, mut c: Contents<Async<AsyncDatabase>, Cfg<B>>, r: &mut Rng) -> Ret {
    use futures::StreamExt;
    use tokio::io::{AsyncReadExt, AsyncSeekExt};
    let len = c.len();
    if r.chance(1, 2) { c = c.with_buffer_size(r.below(6 * B as u64) as usize); }
    let got = match c.to_vec().await { Ok(v) => v, Err(_) => return Ret::Bytes(len, None) };
    let out = Ret::Bytes(got.len() as u64, Some(fnv(&got)));
    if got.len() as u64 != len { bad(i, format!("length {len}, read {}", got.len())); return out; }
    let c2 = c.clone();
    let mut pos = 0u64;
    for _ in 0..r.below(12) {
        match r.below(6) {
            0 => {
                let to = r.below(len + 20);
                let w = match r.below(3) { 0 => SeekFrom::Start(to), 1 => SeekFrom::End(to.min(len) as i64 - len as i64), _ => SeekFrom::Current(to as i64 - pos as i64) };
                match AsyncSeekExt::seek(&mut c, w).await {
                    Ok(n) => { if n != to.min(len) { bad(i, format!("at {pos} of {len}, {w:?} moved to {n}")); return out; } pos = n; }
                    Err(e) => { bad(i, format!("{w:?} at {pos} of {len}: {e}")); return out; }
                }
            }
            1 => match AsyncSeekExt::stream_position(&mut c).await { Ok(n) if n == pos => {} x => { bad(i, format!("position is {x:?} instead of {pos} of {len}")); return out; } },
            2 => {
                // a read that is given up
                let mut buf = vec![0; 3 * B];
                let k = tokio::select! { biased; k = AsyncReadExt::read(&mut c, &mut buf) => Some(k), _ = tokio::task::yield_now() => None };
                match k {
                    None => { if r.chance(1, 2) { let to = r.below(len + 1); match AsyncSeekExt::seek(&mut c, SeekFrom::Start(to)).await { Ok(n) if n == to => pos = n, x => { bad(i, format!("seek to {to} of {len}: {x:?}")); return out; } } } }
                    Some(Err(_)) => return out,
                    Some(Ok(k)) => {
                        if (k == 0 && pos < len) || got.get(pos as usize..pos as usize + k) != Some(&buf[..k]) { bad(i, format!("read at {pos} of {len} gave {k} bytes")); return out; }
                        pos += k as u64;
                    }
                }
            }
            3 => match StreamExt::next(&mut c).await {
                None => { if pos < len { bad(i, format!("no further block at {pos} of {len}")); return out; } }
                Some(Ok(b)) => { if got.get(pos as usize..pos as usize + b.len()) != Some(&b[..]) { bad(i, format!("block of {} at {pos} of {len} differs", b.len())); return out; } pos += b.len() as u64; }
                Some(Err(_)) => return out,
            },
            _ => {
                let n = *r.pick(&[0, 1, 3, B as u64, B as u64 + 1, 4 * B as u64]);
                let mut buf = vec![0; n as usize];
                match AsyncReadExt::read(&mut c, &mut buf).await {
                    Err(_) => return out,
                    Ok(k) => {
                        if k as u64 > n || (k == 0 && n > 0 && pos < len) || got.get(pos as usize..pos as usize + k) != Some(&buf[..k]) { bad(i, format!("read of {n} at {pos} of {len} gave {k} bytes {:?}", &buf[..k.min(8)])); return out; }
                        pos += k as u64;
                    }
                }
            }
        }
    }
    let mut rest = vec![];
    if r.chance(1, 2) { match c.to_vec().await { Ok(v) => rest = v, Err(e) => { if e.kind() == std::io::ErrorKind::UnexpectedEof { record(&E::Cut(i, format!("file opened at #{i}: to_vec at {pos} of {len}: {e}"))); } return out } } } else if AsyncReadExt::read_to_end(&mut c, &mut rest).await.is_err() { return out; }
    if rest != got[pos as usize..] { bad(i, format!("the rest at {pos} of {len} has {} bytes", rest.len())); }
    let mut all = vec![];
    let mut c2 = c2;
    while let Some(b) = StreamExt::next(&mut c2).await { match b { Ok(b) => { if b.is_empty() || b.len() > B { bad(i, format!("block of {}", b.len())); } all.extend(b) } Err(_) => return out } }
    if all != got { bad(i, format!("the blocks have {} of {len} bytes", all.len())); }
    out
}
fn read<const B: usize>(c: &Conn, h: &H<B>, at: u64, r: &mut Rng) {
    let i = inv(Call::Read(about(h).0), at);
    match h {
        H::S(f) => match f.contents() { Ok(x) => { res(i, Ret::Ok); let o = read_sync::<B>(i, x, r); record(&E::ReadEnd(i, o)); } Err(e) => res(i, ce(e)) },
        H::A(f) => c.run(async { match f.contents().await { Ok(x) => { res(i, Ret::Ok); let o = read_async::<B>(i, x, r).await; record(&E::ReadEnd(i, o)); } Err(e) => res(i, ce(e)) } }),
    }
}
fn list<const B: usize>(c: &Conn, dir: &str, rec: bool) -> Vec<H<B>> {
    let i = inv(Call::List(dir.into(), rec), 0);
    let r: Result<Vec<H<B>>, _> = match (&c.rt, rec) {
        (None, false) => Cfg::<B>::list(dir, &c.db).map(|v| v.into_iter().map(H::S).collect()),
        (None, true) => Cfg::<B>::list_recursive(dir, &c.db).map(|v| v.into_iter().map(H::S).collect()),
        (Some((_, a)), false) => c.run(Cfg::<B>::list_async(dir, a)).map(|v| v.into_iter().map(H::A).collect()),
        (Some((_, a)), true) => c.run(Cfg::<B>::list_recursive_async(dir, a)).map(|v| v.into_iter().map(H::A).collect()),
    };
    match r {
        Ok(v) => { res(i, Ret::Items(v.iter().map(about).collect())); v }
        Err(e) => { res(i, ce(e)); vec![] }
    }
}
fn buffered<const B: usize>(c: &Conn, h: &mut H<B>, at: u64, uniq: u64, len: u32, cap: u32, r: &mut Rng) {
    let bytes = data(uniq, 0, len);
    let i = inv(Call::Buffered(about(h).0, uniq, len, cap), at);
    let mut cuts: Vec<usize> = (0..r.below(4)).map(|_| r.below(len as u64 + 1) as usize).chain([0, len as usize]).collect();
    cuts.sort();
    let end = r.below(2);
    let x: std::io::Result<()> = match h {
        H::S(f) => (|| {
            let mut w = f.append_buffered();
            w.set_buffer_size(cap as usize)?;
            for p in cuts.windows(2) { w.write_all(&bytes[p[0]..p[1]])?; }
            if end == 0 { w.flush()?; } else { w.set_buffer_size(7)?; }
            Ok(())
        })(),
        H::A(f) => c.run(async {
            use tokio::io::AsyncWriteExt;
            let mut w = f.append_buffered();
            w.set_buffer_size(cap as usize).await?;
            for p in cuts.windows(2) { w.write_all(&bytes[p[0]..p[1]]).await?; }
            if end == 0 { w.flush().await?; } else { w.shutdown().await?; }
            Ok(())
        }),
    };
    res(i, match x { Ok(()) => Ret::Ok, Err(e) => ioe(&e) });
}
fn client<const B: usize>(c: &Conn, ep: usize, t: usize, ops: &[Op]) {
    for (k, o) in ops.iter().enumerate() {
        let uniq = crate::docs::uniq(ep, t, k);
        let path = NAMES[o.arg(0) as usize % NAMES.len()];
        let (a, b) = (o.arg(1) as u64, o.arg(2) as u64);
        let mut rng = Rng::new(mix(b ^ 0x66));
        let r = &mut rng;
        let size = |a: u64| -> u32 { let b = B as u64; (match a % 8 { 0 => 0, 1 => 1, 2 => b, 3 => b + 1, 4 => b - 1, 5 => 2 * b, _ => a / 8 % (5 * b) }) as u32 };
        match o.k.as_str() {
            "create" => {
                let n = size(a);
                let only = b % 3 == 0;
                let n = if only { 0 } else { n };
                let bytes = data(uniq, 0, n);
                let i = inv(Call::Create(uniq, path.into(), uniq, n, only), 0);
                let x = match &c.rt {
                    None if only => Cfg::<B>::load_or_create_with_metadata(path, uniq, b & 8 == 8, &c.db).map(H::S),
                    None => Cfg::<B>::build_with_metadata(path, uniq).contents(&bytes).create(&c.db).map(H::S),
                    Some((_, a)) if only => c.run(Cfg::<B>::load_or_create_with_metadata_async(path, uniq, b & 8 == 8, a)).map(H::A),
                    Some((_, a)) => c.run(Cfg::<B>::build_with_metadata(path, uniq).contents(&bytes).create_async(a)).map(H::A),
                };
                res(i, match &x { Ok(h) => { let (id, p, m) = about(h); if p != path { bad(i, format!("created {path:?}, got a file with path {p:?}")); } if only { Ret::Found(id, m) } else { Ret::Id(id) } } Err(_) => er(x.err().unwrap()) });
                continue;
            }
            "list" => {
                let dir = DIRS[a as usize % DIRS.len()];
                if b % 3 == 2 {
                    let i = inv(Call::Stats(dir.into()), 0);
                    let x = match &c.rt { None => Cfg::<B>::stats_for_path(dir, &c.db), Some((_, a)) => c.run(Cfg::<B>::stats_for_path_async(dir, a)) };
                    res(i, match x { Ok(s) => { if s.last_appended_at.is_none() != (s.total_bytes == 0) { bad(i, format!("{s:?}")); } Ret::Stat(s.file_count as u64, s.total_bytes) } Err(e) => ce(e) });
                } else { list::<B>(c, dir, b % 3 == 1); }
                continue;
            }
            "sleep" => { sim_sleep_ns(a * 1_000_000); continue; }
            _ => {}
        }
        let (at, h) = load::<B>(c, path);
        let Some(mut h) = h else { continue };
        // the handle may be old when it is used
        if b & 7 == 7 { sim_sleep_ns((b >> 3 & 15) * 10_000_000); }
        let id = about(&h).0;
        match o.k.as_str() {
            "append" => {
                let n = size(a);
                let bytes = data(uniq, 0, n);
                let i = inv(Call::Append(id, uniq, 0, n), at);
                let x = both!(c, &h, f => f.append(&bytes));
                res(i, x.map_or_else(ce, |()| Ret::Ok));
            }
            "buffered" => { let n = size(a); let cap = 1 + (a >> 20) as u32 % (3 * B as u32); buffered(c, &mut h, at, uniq, n, cap, r); }
            "truncate" => {
                let n = match a % 4 { 0 => 0, _ => size(a >> 2) as u64 };
                let from = b >> 8 & 1 == 1;
                let i = inv(Call::Truncate(id, n, from), at);
                let w = if from { Truncate::RemovingStart } else { Truncate::RemovingEnd };
                let x = both!(c, &h, f => f.truncate(n, w));
                res(i, x.map_or_else(ce, |()| Ret::Ok));
            }
            "delete" => {
                let i = inv(Call::Delete(id), at);
                let x = both!(c, &h, f => f.delete());
                res(i, x.map_or_else(er, |()| Ret::Ok));
            }
            "move" => {
                let to = NAMES[a as usize % NAMES.len()];
                let (dir, name) = to.rsplit_once('/').unwrap();
                let (p, new, arg): (u64, String, String) = match b >> 8 & 3 {
                    // to another directory, under the same name
                    0 => { let d = DIRS[(b >> 10) as usize % DIRS.len()].trim_end_matches('/'); (0, format!("{d}/{}", about(&h).1.rsplit_once('/').unwrap().1), format!("{d}/")) }
                    // another name in the same directory
                    1 => (1, format!("{}/{name}", about(&h).1.rsplit_once('/').unwrap().0), name.to_string()),
                    2 => (2, String::new(), (*r.pick(&["", "a/b", "/"])).to_string()),
                    _ => { let _ = dir; (0, to.to_string(), to.to_string()) }
                };
                let i = inv(Call::Move(id, new.clone()), at);
                let x = if p == 0 { both!(c, &mut h, f => f.move_to(&arg)) } else { both!(c, &mut h, f => f.rename(arg.clone())) };
                if x.is_ok() && about(&h).1 != new { bad(i, format!("moved to {new:?}, the path is {:?}", about(&h).1)); }
                res(i, x.map_or_else(er, |()| Ret::Ok));
            }
            "meta" => {
                let i = inv(Call::Meta(id, uniq), at);
                match &mut h { H::S(f) => *f.metadata_mut() = uniq, H::A(f) => *f.metadata_mut() = uniq }
                let x = both!(c, &mut h, f => f.update_metadata());
                res(i, x.map_or_else(ce, |()| Ret::Ok));
            }
            "len" => {
                let i = inv(Call::Len(id), at);
                let x = both!(c, &mut h, f => f.len());
                res(i, x.map_or_else(ce, Ret::Len));
            }
            _ => read(c, &h, at, r),
        }
    }
}
fn everything<const B: usize>(c: &Conn, seed: u64) {
    let mut r = Rng::new(mix(seed));
    for d in DIRS { list::<B>(c, d, false); }
    for d in &DIRS[1..] { list::<B>(c, d, true); }
    let all = list::<B>(c, "/", true);
    for mut h in all {
        let i = inv(Call::Len(about(&h).0), 0);
        let x = both!(c, &mut h, f => f.len());
        res(i, x.map_or_else(ce, Ret::Len));
        read(c, &h, 0, &mut r);
        load::<B>(c, &about(&h).1);
    }
    let files: BTreeSet<u32> = match c.db.list_from_collection(Range::from(..), Sort::Ascending, None, &Cfg::<B>::files_name()) { Ok(v) => v.iter().filter_map(|d| d.header.id.deserialize::<u32>().ok()).collect(), Err(e) => { record(&E::Mark(e.to_string())); return } };
    let blocks = match c.db.list_from_collection(Range::from(..), Sort::Ascending, None, &Cfg::<B>::blocks_name()) { Ok(v) => v, Err(e) => { record(&E::Mark(e.to_string())); return } };
    let lost = blocks.iter().filter(|b| { let n = b.contents.len(); !files.contains(&u32::from_be_bytes(b.contents[n - 12..n - 8].try_into().unwrap())) }).count();
    record(&E::Orphans(lost as u64));
}
fn epoch<const B: usize>(plan: &Plan, ep: usize) -> Result<(), String> {
    let last = ep + 1 == plan.epochs.len();
    freeze(last && ep > 0);
    if last && ep > 0 { set_faults(false); }
    let cfg = crate::crypt::configure(plan, base_config(plan)).with_schema::<FilesSchema<Cfg<B>>>().map_err(|e| e.to_string())?;
    let st = Storage::open(cfg).map_err(|e| format!("open: {e}"))?;
    let db = st.create_database::<FilesSchema<Cfg<B>>>("d", true).map_err(|e| format!("create: {e}"))?;
    record(&E::Open);
    let asy = plan.knob("async");
    let hs: Vec<_> = plan.epochs[ep].threads.iter().cloned().enumerate().map(|(t, ops)| {
        let db = db.clone();
        std::thread::Builder::new().name(format!("client{t}")).spawn(move || { let c = Conn::new(&db, asy >> t & 1 == 1); client::<B>(&c, ep, t, &ops); }).unwrap()
    }).collect();
    for h in hs { let _ = h.join(); }
    everything::<B>(&Conn::new(&db, asy >> 8 & 1 == 1), plan.seed ^ ep as u64);
    drop((db, st));
    sim_sleep_ns(100_000_000_000);
    record(&E::Closed);
    Ok(())
}
fn block(plan: &Plan) -> u32 { [16, 40, 1000][plan.knob("block") as usize % 3] }
pub struct Files;
impl Scenario for Files {
    fn plan(&self, prop: &str, seed: u64, thorough: bool) -> Plan {
        let mut rng = Rng::new(mix(seed ^ 0x66696c65));
        let r = &mut rng;
        let mut p = Plan { prop: prop.into(), scenario: "files".into(), seed, sim: swarm(r), knobs: Default::default(), epochs: vec![] };
        std_knobs(&mut p, r);
        crate::crypt::plan_knobs(prop, &mut p, r);
        p.knobs.insert("async".into(), *r.pick(&[0, 0, 0xfff, 2, 0x101]));
        p.knobs.insert("block".into(), *r.pick(&[0, 0, 1, 2]));
        let names = r.range(1, NAMES.len() as u64);
        for _ in 0..r.range(1, if thorough { 4 } else { 2 }) {
            let mut ep = EpochPlan::default();
            let mut total = 0;
            for _ in 0..r.range(1, 3) {
                let mut ops = vec![];
                for _ in 0..r.range(2, if thorough { 14 } else { 9 }) {
                    let k = *r.pick::<&str>(&["create", "create", "create", "append", "append", "append", "append", "buffered", "truncate", "truncate", "read", "read", "read", "len", "move", "move", "meta", "delete", "list", "sleep"]);
                    let a = if k == "sleep" { *r.pick(&[1, 50, 400]) } else { (r.next() >> 30) as i64 };
                    ops.push(Op::new(k, &[r.below(names) as i64, a, (r.next() >> 30) as i64]));
                    total += 1;
                }
                ep.threads.push(ops);
            }
            if r.chance(3, 5) { ep.crash_at = Some(r.range(1, 60 + 20 * total as u64)); ep.crash_mode = crash_mode(r); }
            p.epochs.push(ep);
        }
        p.epochs.push(EpochPlan::default());
        p
    }
    fn epoch(&self, plan: &Plan, ep: usize) {
        let r = match block(plan) { 16 => epoch::<16>(plan, ep), 40 => epoch::<40>(plan, ep), _ => epoch::<1000>(plan, ep) };
        if let Err(m) = r { record(&E::Mark(m)); }
    }
    fn check(&self, plan: &Plan, r: &RunResult) -> Vec<Violation> {
        let mut v = base_checks(r);
        if v.is_empty() { v = check(plan, r, &r.events::<E>()); }
        crate::neb::attribute(r, v)
    }
    fn flags(&self, img: &simcore::fs::Image, crashed: bool) -> Vec<String> { crate::neb::flags(img, crashed) }
    fn nontrivial(&self, plan: &Plan, r: &RunResult) -> bool { hostile(plan) && r.epochs.iter().any(|e| e.history.len() > 30) }
    fn describe(&self, _p: &Plan, r: &RunResult) -> Vec<String> {
        r.events::<E>().iter().map(|e| format!("{:>12.6}s e{} t{} #{} {:?}", e.at as f64 / 1e9, e.epoch, e.tid, e.seq, e.e)).collect()
    }
}
/// A piece of what was appended: unique number, offset, length.
type Block = (u64, u32, u32);
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct F {
    path: String,
    meta: u64,
    blocks: Vec<Block>,
    /// unique number of the creation
    by: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
struct S {
    /// by id, or by 2^32 + unique number of the creation while the id is not known
    files: BTreeMap<u64, F>,
    /// calls between their first and their last step
    open: BTreeMap<u64, Vec<Block>>,
}
const NEW: u64 = 1 << 32;
const PIECES: u64 = 1 << 40;
#[derive(Clone, Debug)]
enum Step {
    New { uniq: u64, path: String, meta: u64, r: Option<Ret>, also_append: bool },
    /// call it belongs to, file (none: the one made by the unique number), number of the step, block
    App { file: Option<u32>, uniq: u64, off: u32, len: u32, r: Option<Ret> },
    Snap(u64, u32, u64, bool),
    SnapAll(u64, u32),
    Cut(u64, u32, Option<Ret>),
    Del(u64, u32, Option<Ret>),
    Stat1(u64, String, Option<Ret>),
    Stat2(u64, Option<Ret>),
    One(Call, Option<Ret>, Option<Ret>),
}
/// the file called `id` in `s`; it may be one whose id was not known
fn bind(s: &S, id: u32, path: Option<&str>) -> Option<S> {
    if s.files.contains_key(&(id as u64)) { return Some(s.clone()); }
    let path = path?;
    let k = s.files.iter().find(|(k, f)| **k >= NEW && f.path == path).map(|(k, _)| *k)?;
    let mut s = s.clone();
    let f = s.files.remove(&k).unwrap();
    s.files.insert(id as u64, f);
    Some(s)
}
fn within(path: &str, dir: &str, rec: bool) -> bool {
    let p = path.rsplit_once('/').unwrap().0.to_string() + "/";
    if rec { p.starts_with(dir) } else { p == dir.trim_end_matches('/').to_string() + "/" }
}
fn chunks(uniq: u64, off: u32, len: u32, b: u32) -> Vec<Block> {
    let mut v = vec![];
    let mut o = 0;
    while o < len { let n = b.min(len - o); v.push((uniq, off + o, n)); o += n; }
    v
}
fn step(b: u32, c: &Step, s: &S) -> Vec<S> {
    match c {
        Step::New { uniq, path, meta, r, also_append } => {
            let taken = s.files.iter().find(|(_, f)| f.path == *path);
            let fresh = |id: u64| { let mut s = s.clone(); if s.files.contains_key(&id) { return vec![]; } s.files.insert(id, F { path: path.clone(), meta: *meta, blocks: vec![], by: *uniq }); vec![s] };
            match r {
                None => { let mut v = vec![s.clone()]; if taken.is_none() { v.extend(fresh(NEW + uniq)); } v }
                Some(Ret::Id(id)) => if taken.is_none() { fresh(*id as u64) } else { vec![] },
                // load or create
                Some(Ret::Found(id, m)) => match taken {
                    None if m == meta => fresh(*id as u64),
                    Some(_) => bind(s, *id, Some(path)).filter(|s| s.files.get(&(*id as u64)).map_or(false, |f| f.path == *path && f.meta == *m)).into_iter().collect(),
                    _ => vec![],
                },
                Some(Ret::Exists) => if taken.is_some() { vec![s.clone()] } else { vec![] },
                // created, and deleted before the contents were appended; or, for a load or create, deleted in between
                Some(Ret::Gone) => if *also_append && taken.is_none() { fresh(NEW + uniq) } else if !*also_append { vec![s.clone()] } else { vec![] },
                _ => vec![],
            }
        }
        Step::App { file, uniq, off, len, r } => {
            let key = match file { Some(id) => *id as u64, None => s.files.iter().find(|(_, f)| f.by == *uniq).map_or(NEW + uniq, |x| *x.0) };
            let progress = s.open.get(&(PIECES + uniq)).map_or(0, |b| b[0].1);
            if *off != progress { return if r.is_none() || *r == Some(Ret::Gone) { vec![s.clone()] } else { vec![] }; }
            let ok = || { let mut s = s.clone(); let f = s.files.get_mut(&key)?; f.blocks.extend(chunks(*uniq, *off, *len, b)); s.open.insert(PIECES + uniq, vec![(0, off + len, 0)]); Some(s) };
            match r {
                Some(Ret::Ok) => if *len == 0 { vec![s.clone()] } else { ok().into_iter().collect() },
                Some(Ret::Gone) => if s.files.contains_key(&key) { vec![] } else { vec![s.clone()] },
                None => ok().into_iter().chain([s.clone()]).collect(),
                _ => vec![],
            }
        }
        Step::Snap(op, id, n, start) => {
            let mut s = s.clone();
            let blocks = s.files.get(&(*id as u64)).map(|f| f.blocks.clone()).unwrap_or_default();
            let total: u64 = blocks.iter().map(|b| b.2 as u64).sum();
            let mut rest = total.saturating_sub(*n);
            let mut cut = vec![];
            let it: Vec<Block> = if *start { blocks } else { blocks.into_iter().rev().collect() };
            for b in it { if rest == 0 || b.2 as u64 > rest { break; } rest -= b.2 as u64; cut.push(b); }
            s.open.insert(*op, cut);
            vec![s]
        }
        Step::SnapAll(op, id) => { let mut s = s.clone(); let b = s.files.get(&(*id as u64)).map(|f| f.blocks.clone()).unwrap_or_default(); s.open.insert(*op, b); vec![s] }
        Step::Cut(op, id, r) => {
            let Some(cut) = s.open.get(op).cloned() else { return vec![] };
            let mut t = s.clone();
            t.open.remove(op);
            let apply = || { let mut t = t.clone(); if cut.is_empty() { return Some(t); } let f = t.files.get_mut(&(*id as u64))?; if !cut.iter().all(|b| f.blocks.contains(b)) { return None; } f.blocks.retain(|b| !cut.contains(b)); Some(t) };
            match r {
                Some(Ret::Ok) => apply().into_iter().collect(),
                // judged apart from the model
                Some(Ret::Conflict) | Some(Ret::Gone) => vec![t],
                None => apply().into_iter().chain([t.clone()]).collect(),
                _ => vec![],
            }
        }
        Step::Del(op, id, r) => {
            if !s.open.contains_key(op) { return vec![]; }
            let mut t = s.clone();
            t.open.remove(op);
            let apply = || { let mut t = t.clone(); t.files.remove(&(*id as u64))?; Some(t) };
            match r {
                Some(Ret::Ok) => apply().into_iter().collect(),
                Some(Ret::Conflict) | Some(Ret::Gone) => vec![t],
                None => apply().into_iter().chain([t.clone()]).collect(),
                _ => vec![],
            }
        }
        Step::Stat1(op, dir, r) => {
            let ids: Vec<Block> = s.files.iter().filter(|(_, f)| within(&f.path, dir, true)).map(|(k, _)| (*k, 0, 0)).collect();
            if let Some(Ret::Stat(n, _)) = r { if *n != ids.len() as u64 { return vec![]; } }
            let mut s = s.clone();
            s.open.insert(*op, ids);
            vec![s]
        }
        Step::Stat2(op, r) => {
            let Some(ids) = s.open.get(op) else { return vec![] };
            let sum: u64 = ids.iter().filter_map(|k| s.files.get(&k.0)).flat_map(|f| f.blocks.iter().map(|b| b.2 as u64)).sum();
            match r { Some(Ret::Stat(_, n)) if *n != sum => return vec![], Some(Ret::Stat(..)) | None => {} _ => return vec![] }
            let mut s = s.clone();
            s.open.remove(op);
            vec![s]
        }
        Step::One(c, r, end) => match c {
            Call::Load(p) => match r {
                None => vec![s.clone()],
                Some(Ret::Nothing) => if s.files.values().any(|f| f.path == *p) { vec![] } else { vec![s.clone()] },
                Some(Ret::Found(id, m)) => bind(s, *id, Some(p)).filter(|s| s.files.get(&(*id as u64)).map_or(false, |f| f.path == *p && f.meta == *m)).into_iter().collect(),
                _ => vec![],
            },
            Call::Move(id, to) => {
                let Some(f) = s.files.get(&(*id as u64)) else { return if matches!(r, None | Some(Ret::Conflict) | Some(Ret::Gone)) || (to.is_empty() && *r == Some(Ret::Invalid)) { vec![s.clone()] } else { vec![] } };
                let taken = s.files.iter().any(|(k, f)| *k != *id as u64 && f.path == *to);
                let moved = || { let mut s = s.clone(); let mut f = f.clone(); f.path = to.clone(); s.files.insert(*id as u64, f); s };
                match r {
                    Some(Ret::Ok) => if taken || to.is_empty() { vec![] } else { vec![moved()] },
                    Some(Ret::Exists) => if taken { vec![s.clone()] } else { vec![] },
                    Some(Ret::Invalid) => if to.is_empty() { vec![s.clone()] } else { vec![] },
                    Some(Ret::Conflict) | Some(Ret::Gone) => vec![s.clone()],
                    None => if taken || to.is_empty() { vec![s.clone()] } else { vec![moved(), s.clone()] },
                    _ => vec![],
                }
            }
            Call::Meta(id, m) => {
                let set = || { let mut s = s.clone(); let f = s.files.get_mut(&(*id as u64))?; f.meta = *m; Some(s) };
                match r {
                    Some(Ret::Ok) => set().into_iter().collect(),
                    Some(Ret::Conflict) | Some(Ret::Gone) => vec![s.clone()],
                    None => set().into_iter().chain([s.clone()]).collect(),
                    _ => vec![],
                }
            }
            Call::Read(id) => {
                let Some(f) = s.files.get(&(*id as u64)) else { return vec![s.clone()] };
                let ok = match (r, end) {
                    (None, _) | (Some(Ret::Ok), None) => true,
                    (Some(Ret::Ok), Some(Ret::Bytes(n, h))) => {
                        let len: u64 = f.blocks.iter().map(|b| b.2 as u64).sum();
                        len == *n && h.map_or(true, |h| { let mut d = vec![]; for b in &f.blocks { d.extend(data(b.0, b.1, b.2)); } fnv(&d) == h })
                    }
                    _ => false,
                };
                if ok { vec![s.clone()] } else { vec![] }
            }
            Call::Len(id) => {
                let Some(f) = s.files.get(&(*id as u64)) else { return vec![s.clone()] };
                let len: u64 = f.blocks.iter().map(|b| b.2 as u64).sum();
                if r.is_none() || *r == Some(Ret::Len(len)) { vec![s.clone()] } else { vec![] }
            }
            Call::List(d, rec) => match r {
                None => vec![s.clone()],
                Some(Ret::Items(l)) => {
                    let mut s = s.clone();
                    for x in l { match bind(&s, x.0, Some(&x.1)) { Some(t) => s = t, None => return vec![] } }
                    let mut want: Vec<(u32, String, u64)> = vec![];
                    for (k, f) in &s.files { if within(&f.path, d, *rec) { if *k >= NEW { return vec![]; } want.push((*k as u32, f.path.clone(), f.meta)); } }
                    let mut l = l.clone();
                    l.sort();
                    if l == want { vec![s] } else { vec![] }
                }
                _ => vec![],
            },
            _ => vec![],
        },
    }
}
fn check(plan: &Plan, r: &RunResult, ev: &[Ev<E>]) -> Vec<Violation> {
    let b = block(plan);
    let mut results: HashMap<u64, (u64, Ret)> = HashMap::new();
    let mut ends: HashMap<u64, (u64, Ret)> = HashMap::new();
    for e in ev {
        if let E::Cut(i, m) = &e.e {
            let of = |s: u64| ev.iter().find(|x| x.seq == s).and_then(|x| if let E::Inv(Call::Read(id), _) = &x.e { Some(*id) } else { None });
            let file = of(*i);
            let cut = ev.iter().any(|x| x.epoch == e.epoch && x.seq < e.seq && matches!(&x.e, E::Inv(Call::Truncate(id, ..) | Call::Delete(id), _) if Some(*id) == file)
                && !ev.iter().any(|y| matches!(&y.e, E::Res(c, _) if *c == x.seq && y.seq < *i)));
            if !cut { return vec![viol("file-read", m.clone())]; }
        }
    }
    for e in ev {
        match &e.e {
            E::Cut(..) => {}
            E::Mark(m) => return vec![viol("open-failed", format!("epoch {}: {m}", e.epoch))],
            E::Bad(m) => return vec![viol("file-read", m.clone())],
            E::Res(i, Ret::Other(m)) => return vec![viol("unexpected-error", format!("call #{i}: {m}"))],
            E::Res(i, x) => { results.insert(*i, (e.seq, x.clone())); }
            E::ReadEnd(i, x) => { ends.insert(*i, (e.seq, x.clone())); }
            E::Orphans(n) if *n > 0 && !r.epochs[..e.epoch].iter().any(|e| e.outcome == Outcome::Crashed) => return vec![viol("orphaned-blocks", format!("epoch {}: {n} blocks of files that do not exist", e.epoch))],
            _ => {}
        }
    }
    let calls: Vec<(u64, usize, Call, u64, u64)> = ev.iter().filter_map(|e| match &e.e { E::Inv(c, at) => Some((e.seq, e.epoch, c.clone(), *at, results.get(&e.seq).map_or(u64::MAX, |r| r.0))), _ => None }).collect();
    // conflicts and missing files need a reason
    for (i, ep, c, at, end) in &calls {
        let Some((_, ret)) = results.get(i) else { continue };
        let other = |id: u32, from: u64, to: u64, f: &dyn Fn(&Call) -> bool| calls.iter().any(|(j, e2, c2, _, end2)| j != i && e2 == ep && *j < to && *end2 > from && f(c2) && match c2 { Call::Truncate(x, ..) | Call::Delete(x) | Call::Move(x, _) | Call::Meta(x, _) => *x == id, _ => false });
        let doc = |c: &Call| matches!(c, Call::Delete(_) | Call::Move(..) | Call::Meta(..));
        let any = |_: &Call| true;
        let blocks = |c: &Call| matches!(c, Call::Truncate(..) | Call::Delete(_));
        let bad = match (c, ret) {
            (Call::Move(id, _) | Call::Meta(id, _), Ret::Conflict | Ret::Gone) => !other(*id, *at, *end, &doc),
            (Call::Delete(id), Ret::Conflict | Ret::Gone) => !other(*id, *at, *end, &any),
            (Call::Truncate(id, ..), Ret::Conflict | Ret::Gone) => !other(*id, *i, *end, &blocks),
            (Call::Create(_, p, _, _, true), Ret::Gone) => !calls.iter().any(|(j, e2, c2, _, end2)| e2 == ep && *j < *end && *end2 > *i && matches!(c2, Call::Delete(_) | Call::Move(..))) || p.is_empty(),
            _ => false,
        };
        if bad { return vec![viol("unexpected-conflict", format!("call #{i} {c:?}: {ret:?} although nothing else changed the file"))]; }
        if let (Call::Read(id), Some((e, Ret::Bytes(_, None)))) = (c, ends.get(i)) {
            if !other(*id, *i, *e, &blocks) { return vec![viol("read-failed", format!("call #{i} {c:?}: reading failed although no block was removed"))]; }
        }
    }
    let mut init = vec![S::default()];
    for ep in 0..r.epochs.len() {
        let mut ops: Vec<LOp<Step>> = vec![];
        for (i, e, c, _, end) in &calls {
            if e != &ep { continue; }
            let ret = results.get(i).map(|r| r.1.clone());
            let mut add = |s: Step| ops.push(LOp { inv: *i, res: *end, c: s });
            match c {
                Call::Create(u, p, m, n, only) => {
                    add(Step::New { uniq: *u, path: p.clone(), meta: *m, r: ret.clone(), also_append: *n > 0 && !*only });
                    if *n > 0 && matches!(ret, None | Some(Ret::Id(_)) | Some(Ret::Gone)) {
                        let file = match ret { Some(Ret::Id(id)) => Some(id), _ => None };
                        add(Step::App { file, uniq: *u, off: 0, len: *n, r: match ret { Some(Ret::Id(_)) => Some(Ret::Ok), x => x } });
                    }
                }
                Call::Append(id, u, o, n) => add(Step::App { file: Some(*id), uniq: *u, off: *o, len: *n, r: ret }),
                Call::Buffered(id, u, n, cap) => {
                    let mut o = 0;
                    while o < *n {
                        let l = (*cap).min(n - o);
                        // after a failure, the first pieces may be there
                        add(Step::App { file: Some(*id), uniq: *u, off: o, len: l, r: match &ret { Some(Ret::Gone) => None, x => x.clone() } });
                        o += l;
                    }
                }
                Call::Truncate(id, n, st) => { add(Step::Snap(*i, *id, *n, *st)); add(Step::Cut(*i, *id, ret)); }
                Call::Delete(id) => { add(Step::SnapAll(*i, *id)); add(Step::Del(*i, *id, ret)); }
                Call::Stats(d) => { add(Step::Stat1(*i, d.clone(), ret.clone())); add(Step::Stat2(*i, ret)); }
                c => add(Step::One(c.clone(), ret, ends.get(i).map(|e| e.1.clone()))),
            }
        }
        let l = lin(&ops, &init, 300_000, &|c, s| step(b, c, s));
        if l.over { probe("files-over"); break; }
        if l.out.is_empty() {
            let h: Vec<String> = ops.iter().map(|o| format!("#{} {:?}", o.inv, o.c)).collect();
            let from = l.deepest.saturating_sub(6).min(h.len());
            let to = (l.deepest + 8).min(h.len());
            return vec![viol("file-history", format!("epoch {ep}: no order of the calls explains the results from {} possible states {:?}; at most {} of {} steps can be ordered: {}", init.len(), init.iter().take(2).collect::<Vec<_>>(), l.deepest, ops.len(), h[from..to].join("; ")))];
        }
        init = l.out;
        for s in init.iter_mut() { s.open.clear(); }
        init.sort();
        init.dedup();
        if init.len() > 2000 { break; }
    }
    vec![]
}
