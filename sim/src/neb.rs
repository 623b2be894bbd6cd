//! Reads nebari's on-disk formats (transaction log and tree headers) from a
//! disk image, to recognise three known defects of that dependency precisely:
//! - ghost: a tree header written by a transaction that never reached the log.
//!   Its id is given out again after the restart, and once the new holder is
//!   logged, the old header counts as committed.
//! - torn-header: the last page of a tree file starts with a header but the
//!   header's chunk is incomplete. Opening the tree fails.
//! - torn-log: the last entry of the transaction log spans several pages and
//!   not all of them were written. Opening the roots fails.
//! - log-search: the search for an id in a log that contains an entry of several
//!   pages can miss an entry that is there. A tree whose last header has that id
//!   is rolled back to an earlier header when it is opened.
use simcore::fs::Image;
use simcore::run::*;
use simcore::sched::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct RootsInfo {
    /// (position, id, pages)
    pub log: Vec<(u64, u64, u64)>,
    pub torn_log: bool,
    /// entries of the log that name the users' collection (its trees are encrypted)
    pub users: usize,
    /// the log can't be read: encrypted
    pub opaque: bool,
    pub trees: BTreeMap<String, TreeInfo>,
}
#[derive(Clone, Debug, Default)]
pub struct TreeInfo {
    /// transaction ids of the headers from the end back to the first logged one
    pub tail: Vec<u64>,
    pub torn_header: bool,
    /// number of headers, if they are encrypted
    pub sealed: usize,
    /// ids of all headers
    pub all: BTreeSet<u64>,
}
/// nebari's search for an entry of its log, with the state of the log after the
/// first `upto` entries; true if it finds the entry.
fn search(log: &[(u64, u64, u64)], upto: usize, id: u64) -> bool {
    let log = &log[..upto];
    let Some(last) = log.last() else { return false };
    let (mut upper_id, mut upper) = (last.1 + 1, last.0 / 1024 + last.2);
    if id == 0 || upper_id <= id { return false; }
    let mut lower: Option<(u64, u64)> = None;
    loop {
        let guess = match lower {
            Some((lid, lp)) => {
                let avg = (upper_id - lid) as f64 / (upper - lp) as f64;
                let g = lp + (((id - lid) as f64 * avg).floor() as u64).max(1);
                if g >= upper { if upper - 1 > lp { upper - 1 } else { return false; } } else { g }
            }
            None => upper.saturating_sub(((upper_id - id) as f64 * (upper_id as f64 / upper as f64)).ceil() as u64),
        };
        if guess == upper { return false; }
        let k = log.partition_point(|e| e.0 / 1024 <= guess);
        if k == 0 { return false; }
        let e = log[k - 1];
        match e.1.cmp(&id) {
            std::cmp::Ordering::Equal => return true,
            std::cmp::Ordering::Less => { if lower.map_or(true, |l| e.1 > l.0) { lower = Some((e.1, e.0 / 1024)); } else { return false; } }
            std::cmp::Ordering::Greater => { if e.1 < upper_id { upper_id = e.1; upper = e.0 / 1024; } else { return false; } }
        }
    }
}

thread_local!(static KEYS: std::cell::RefCell<Option<Vec<[u8; 32]>>> = const { std::cell::RefCell::new(None) });
fn plain(p: &[u8], img: &Image, dir: &str) -> Option<Vec<u8>> {
    if p.len() >= 4 && &p[..3] == b"trv" {
        let inner = if p[3] & 0x80 != 0 {
            KEYS.with(|k| k.borrow_mut().get_or_insert_with(|| master_keys(img, dir)).iter().find_map(|k| open(k, &p[4..])))?
        } else {
            p[4..].to_vec()
        };
        if p[3] & 0x7f != 0 { return lz4_flex::block::decompress_size_prepended(&inner).ok(); }
        return Some(inner);
    }
    Some(p.to_vec())
}
fn le64(p: &[u8], at: usize) -> Option<usize> { Some(u64::from_le_bytes(p.get(at..at + 8)?.try_into().ok()?) as usize) }
/// Decrypts what the vault wrote: key (master), version, algorithm, payload, nonce.
fn open(key: &[u8; 32], p: &[u8]) -> Option<Vec<u8>> {
    use chacha20poly1305::aead::Aead;
    use chacha20poly1305::KeyInit;
    let n = le64(p, 12)?;
    let m = p.get(20..20usize.checked_add(n)?)?;
    let nonce = p.get(28 + n..28 + n + 24)?;
    chacha20poly1305::XChaCha20Poly1305::new(key.into()).decrypt(nonce.into(), m).ok()
}
/// The vault keys of the image (private keys) and the master keys they open.
pub fn vault_keys(img: &Image) -> Vec<[u8; 32]> {
    let mut v = vec![];
    for (p, ino) in &img.names {
        let Some(i) = img.inodes.get(ino) else { continue };
        // variant, private key, public key
        if i.data.len() == 4 + 32 + 65 && i.data[..4] == [0; 4] && p.contains("keys/") { v.push(i.data[4..36].try_into().unwrap()); }
    }
    v
}
pub fn master_keys(img: &Image, dir: &str) -> Vec<[u8; 32]> {
    use hpke::{Deserializable, Kem};
    type K = hpke::kem::DhP256HkdfSha256;
    let mut v = vec![];
    let path = format!("{dir}/master-keys");
    let Some(i) = img.names.get(&path).and_then(|i| img.inodes.get(i)) else { return v };
    let d = &i.data;
    // algorithm, payload, tag, encapsulated key
    for k in vault_keys(img) {
        let one = || -> Option<Vec<[u8; 32]>> {
            let n = le64(d, 4)?;
            let mut m = d.get(12..12 + n)?.to_vec();
            let tag = hpke::aead::AeadTag::<hpke::aead::ChaCha20Poly1305>::from_bytes(d.get(12 + n..28 + n)?).ok()?;
            let enc = <K as Kem>::EncappedKey::from_bytes(d.get(28 + n..28 + n + 65)?).ok()?;
            let sk = <K as Kem>::PrivateKey::from_bytes(&k).ok()?;
            let mut c = hpke::setup_receiver::<hpke::aead::ChaCha20Poly1305, hpke::kdf::HkdfSha256, K>(&hpke::OpModeR::Base, &sk, &enc, b"").ok()?;
            c.open_in_place_detached(&mut m, b"", &tag).ok()?;
            // map from version to key
            (0..le64(&m, 0)?).map(|j| m.get(8 + j * 36 + 4..8 + j * 36 + 36).and_then(|x| x.try_into().ok())).collect()
        };
        v.extend(one().unwrap_or_default());
    }
    v
}
/// Looks up what the ciphers keep about the processor, before any run: a run that finds it
/// there takes another path than the one that looks it up.
pub fn warm() {
    use hpke::{Kem, Serializable};
    type K = hpke::kem::DhP256HkdfSha256;
    let (sk, pk) = K::derive_keypair(&[7; 32]);
    let mut img = Image::default();
    let mut file = |p: &str, data: Vec<u8>| { let mut i = simcore::fs::Inode::default(); i.data = data.into(); let n = img.inodes.len() as u64 + 1; img.inodes.insert(n, i); img.names.insert(p.into(), n); };
    file("/w/vault-keys/1", [&[0; 4][..], &sk.to_bytes(), &pk.to_bytes()].concat());
    file("/w/master-keys", [&[0; 4][..], &8u64.to_le_bytes(), &[0; 24], &K::derive_keypair(&[8; 32]).1.to_bytes()].concat());
    let _ = master_keys(&img, "/w");
    let _ = open(&[1; 32], &[&[0; 12][..], &16u64.to_le_bytes(), &[0; 16], &24u64.to_le_bytes(), &[0; 24]].concat());
}
fn be64(p: &[u8]) -> u64 { u64::from_be_bytes(p[..8].try_into().unwrap()) }

fn names_users(p: &[u8]) -> bool {
    let has = |w: &[u8]| p.windows(w.len()).any(|x| x == w);
    has(b"khonsulabs.user") || has(b"khonsulabs") && has(b"\x04user") || has(b"khonsulabs") && has(b"user") && !has(b"permission-group") && !has(b"role")
}
fn parse_log(d: &[u8], info: &mut RootsInfo, img: &Image, top: &str) {
    let d = &d[..d.len() / 1024 * 1024];
    let mut at = 0;
    while at < d.len() {
        if d[at] != 1 { at += 1024; continue; }
        let len = (d[at + 1] as usize) << 16 | (d[at + 2] as usize) << 8 | d[at + 3] as usize;
        let (mut buf, mut pos, mut first) = (Vec::new(), at, true);
        let mut torn = false;
        while buf.len() < len {
            if pos >= d.len() || (!first && d[pos] == 1) { torn = true; break; }
            let h = if first { 4 } else { 1 };
            let n = (1024 - h).min(len - buf.len());
            buf.extend_from_slice(&d[pos + h..pos + h + n]);
            pos += 1024;
            first = false;
        }
        if torn {
            info.torn_log |= pos >= d.len();
            at = pos.max(at + 1024);
            continue;
        }
        match plain(&buf, img, top) {
            Some(p) if p.len() >= 8 => {
                info.log.push((at as u64, be64(&p), ((pos - at) / 1024) as u64));
                info.users += names_users(&p) as usize;
            }
            _ => info.opaque = true,
        }
        at = pos;
    }
}
fn parse_tree(d: &[u8], logged: &BTreeSet<u64>, all: bool, img: &Image, top: &str) -> TreeInfo {
    let mut t = TreeInfo::default();
    if d.is_empty() { return t; }
    let mut bs = d.len() / 256 * 256;
    if d.len() - bs < 4 {
        if bs == 0 { t.torn_header = true; return t; }
        bs -= 256;
    }
    let mut tail = true;
    let mut done = false;
    loop {
        if &d[bs..bs + 3] == b"Nbr" && matches!(d[bs + 3], 2 | 3) {
            let chunk = |at: usize| -> Option<Vec<u8>> {
                if at + 8 > d.len() { return None; }
                let len = u32::from_be_bytes(d[at..at + 4].try_into().unwrap()) as usize;
                d.get(at + 8..at + 8 + len).map(|x| x.to_vec())
            };
            match chunk(bs + 4) {
                None => { t.torn_header |= tail; }
                Some(c) => {
                    if let Some(p) = plain(&c, img, top) {
                        if p.len() >= 8 {
                            let id = be64(&p);
                            t.all.insert(id);
                            if !done { t.tail.push(id); }
                            done |= id == 0 || logged.contains(&id);
                            if done && !all { break; }
                        }
                    } else {
                        t.sealed += 1;
                    }
                }
            }
            tail = false;
        }
        if bs == 0 { break; }
        bs -= 256;
    }
    t
}
/// Information about each database directory of the image.
pub fn inspect(img: &Image) -> BTreeMap<String, RootsInfo> {
    let mut m: BTreeMap<String, RootsInfo> = BTreeMap::new();
    KEYS.with(|k| *k.borrow_mut() = None);
    let mut of = String::new();
    // the keys are those of the storage the files belong to
    let mut top = |p: &str| -> String {
        let t = p.rsplit_once('/').map_or("", |x| x.0).to_string();
        if t != of { of = t.clone(); KEYS.with(|k| *k.borrow_mut() = None); }
        t
    };
    for (p, ino) in &img.names {
        if let (Some(dir), Some(i)) = (p.strip_suffix("/_transactions"), img.inodes.get(ino)) {
            let info = m.entry(dir.to_string()).or_default();
            parse_log(&i.data, info, img, &top(dir));
            info.torn_log |= !i.data.is_empty() && i.data.len() < 1024;
        }
    }
    for (p, ino) in &img.names {
        let (Some(f), Some(i)) = (p.strip_suffix(".nebari"), img.inodes.get(ino)) else { continue };
        let Some((dir, name)) = f.rsplit_once('/') else { continue };
        let Some(info) = m.get_mut(dir) else { continue };
        let logged: BTreeSet<u64> = info.log.iter().map(|x| x.1).collect();
        let t = parse_tree(&i.data, &logged, info.log.iter().any(|e| e.2 > 1), img, &top(dir));
        info.trees.insert(name.to_string(), t);
    }
    m
}
/// "ghost DIR TREE ID", "torn-header DIR TREE", "torn-log DIR", "opaque DIR", "log DIR ID,ID,.."
pub fn flags(img: &Image, _crashed: bool) -> Vec<String> {
    let mut v = vec![];
    for (dir, i) in inspect(img) {
        let short = dir.rsplit('/').next().unwrap_or("").to_string();
        v.push(format!("log {short} {}", i.log.iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(",")));
        if i.opaque { v.push(format!("opaque {short}")); }
        if i.log.iter().any(|e| e.2 > 1) {
            for (name, t) in &i.trees {
                let miss = (1..=i.log.len()).find_map(|n| {
                    let id = *t.all.range(..=i.log[n - 1].1).rev().find(|id| i.log[..n].iter().any(|e| e.1 == **id))?;
                    (!search(&i.log, n, id)).then_some(id)
                });
                if let Some(id) = miss { v.push(format!("miss {short} {name} {id}")); }
            }
        }
        let last = i.log.last().map_or(0, |x| x.1);
        if i.torn_log { v.push(format!("torn-log {short}")); }
        for (name, t) in &i.trees {
            // the trees of the users: a header per logged transaction, one more when it is created
            let most = match &name[..] {
                "collection.khonsulabs.user" => i.users + 1,
                "view.khonsulabs.user.by-name" | "view.khonsulabs.user.by-name.document-map" => i.users,
                _ => usize::MAX,
            };
            if std::env::var("TREES").is_ok() && most < usize::MAX { v.push(format!("sealed {short} {name} {} of {most}", t.sealed)); }
            if t.sealed > most { v.push(format!("ghost {short} {name} ?")); }
            if t.torn_header { v.push(format!("torn-header {short} {name}")); }
            for id in &t.tail {
                if *id > last { v.push(format!("ghost {short} {name} {id}")); }
            }
        }
    }
    v
}
const STATE: &[&str] = &["wrong-read", "wrong-view", "wrong-reduce", "wrong-refusal", "acked-lost", "log-unexplained", "delete-docs", "no-further-writes", "kv-", "restored", "admin-", "listing", "missing", "user-", "file-history", "orphaned", "unexpected-conflict", "read-failed"];
/// Renames the class of violations that the known nebari defects explain.
pub fn attribute(r: &RunResult, v: Vec<Violation>) -> Vec<Violation> {
    if v.is_empty() { return v; }
    let flags: Vec<Vec<&str>> = r.epochs.iter().flat_map(|e| e.flags.iter().map(|f| f.split(' ').collect())).collect();
    // in the log of another image: given out again after the crash, or found by the
    // program after a kill of the process, not synced, and lost by the next power loss
    let logged = |dir: &str, id: u64| flags.iter().any(|f| f[0] == "log" && f[1] == dir && f[2].split(',').any(|x| x.parse() == Ok(id)))
        // or the log was deleted with the database, so what was in it can't be known
        || flags.iter().filter(|f| f[0] == "log" && f[1] == dir).collect::<Vec<_>>().windows(2).any(|w| !w[1][2].starts_with(w[0][2].rsplit_once(',').map_or(w[0][2], |x| x.0)));
    // or the database was deleted after this image, and its log with it
    let gone = |dir: &str, from: usize| r.epochs[from + 1..].iter().any(|e| !e.flags.is_empty() && !e.flags.iter().any(|f| f.starts_with(&format!("log {dir} "))));
    let gone = |f: &[&str]| r.epochs.iter().enumerate().any(|(i, e)| e.flags.iter().any(|x| *x == f.join(" ")) && gone(f[1], i));
    let died = !matches!(r.epochs.last().map(|e| &e.outcome), Some(Outcome::Finished));
    let ghost: Vec<String> = flags.iter().filter(|f| f[0] == "ghost" && (died || f[3] == "?" || gone(f) || logged(f[1], f[3].parse().unwrap_or(0)))).map(|f| f[1..].join(" ")).collect();
    let torn: Vec<String> = flags.iter().filter(|f| f[0] == "torn-header").map(|f| f[1..].join(" ")).collect();
    let tlog: Vec<String> = flags.iter().filter(|f| f[0] == "torn-log").map(|f| f[1..].join(" ")).collect();
    let miss: Vec<String> = flags.iter().filter(|f| f[0] == "miss").map(|f| f[1..].join(" ")).collect();
    v.into_iter().map(|x| {
        let c = x.class.clone();
        // a key-value state can only be explained by the tree of the key-value store
        let kv = |l: &Vec<String>| -> Vec<String> { l.iter().filter(|i| !c.starts_with("kv-") || i.split(' ').nth(1) == Some("kv") || i.starts_with("_admin collection.bonsaidb.databases")).cloned().collect() };
        let adm = |l: Vec<String>| -> Vec<String> { l.into_iter().filter(|i| { let d = i.split(' ').next().unwrap_or(""); !c.starts_with("admin-") || d == "_admin" || x.msg.starts_with(&format!("database {d:?}")) }).collect() };
        let (ghost, miss) = (adm(kv(&ghost)), adm(kv(&miss)));
        let err = matches!(&c[..], "open-failed" | "unexpected-error" | "no-further-writes" | "panic" | "aborted" | "deadlock");
        if !tlog.is_empty() && err {
            return viol("nebari-torn-log", format!("{tlog:?}: {c}: {}", x.msg));
        }
        if !torn.is_empty() && err {
            return viol("nebari-torn-header", format!("{torn:?}: {c}: {}", x.msg));
        }
        if !miss.is_empty() && (STATE.iter().any(|s| c.starts_with(s)) || c == "unexpected-error" || err) {
            return viol("nebari-log-search", format!("{miss:?}: {c}: {}", x.msg));
        }
        // a failed operation on one of nebari's files leaves its trees in memory, and
        // what they write afterwards, in an arbitrary state
        if !c.starts_with("acked-lost") && r.epochs.iter().any(|e| e.stats.probes.keys().any(|k| k.starts_with("io-error-nebari"))) {
            return viol("nebari-io-error", format!("{c}: {}", x.msg));
        }
        if !ghost.is_empty() && (STATE.iter().any(|s| c.starts_with(s)) || c == "unexpected-error") {
            return viol("nebari-ghost", format!("{ghost:?}: {c}: {}", x.msg));
        }
        x
    }).collect()
}
