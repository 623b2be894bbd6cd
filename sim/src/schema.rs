//! The document schema used by the scenarios. View versions and which views
//! exist are decided per epoch, so that definitions can change across restarts.
use bonsaidb_core::connection::Bound;
use bonsaidb_core::document::{BorrowedDocument, Emit, KeyId};
use bonsaidb_core::key::KeyEncoding;
use bonsaidb_core::schema::view::{map::Mappings, ViewUpdatePolicy};
use bonsaidb_core::schema::{
    Collection, CollectionName, MapReduce, Qualified, ReduceResult, Schema, SchemaName, Schematic, SerializedView, View, ViewMapResult,
    ViewMappedValue, ViewName, ViewSchema,
};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

/// version of the view definitions in this epoch
pub static VIEW_VER: AtomicI64 = AtomicI64::new(0);
/// are the late views part of the schema?
pub static LATE_VIEWS: AtomicI64 = AtomicI64::new(1);
/// collection B is stored with its own encryption key
pub static COLL_KEY: AtomicI64 = AtomicI64::new(0);

pub const NO_KEY: u32 = 99;
pub const NCOLL: usize = 3;
pub const COLLS: [&str; NCOLL] = ["A", "U", "B"];
pub const NVIEW: usize = 5;
pub const V_KEY: u8 = 0;
pub const V_TAG: u8 = 1;
pub const V_EAGER: u8 = 2;
pub const V_UNIQ: u8 = 3;
pub const V_LAZYU: u8 = 4;
pub const VIEW_COLL: [u8; NVIEW] = [0, 0, 0, 1, 1];
pub fn is_eager(v: u8) -> bool { v == V_EAGER || v == V_UNIQ }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Body {
    pub uniq: u64,
    pub k: u32,
    pub k2: u32,
    pub n: i64,
    pub tags: u16,
    pub pad: u32,
}
/// A marker that no unrelated file content can hold.
pub const MARK: &[u8] = b"TOPSECRET-9d1f";
impl Body {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = bincode::serialize(self).unwrap();
        v.extend_from_slice(MARK);
        let mut x = self.uniq | 1;
        for i in 0..self.pad {
            if i % 3 == 0 { x = simcore::sched::mix(x); v.push(x as u8); } else { v.push(b'p'); }
        }
        v
    }
    pub fn parse(b: &[u8]) -> Option<Body> { bincode::deserialize(b).ok() }
    pub fn tag_list(&self) -> Vec<u32> { (0..6).filter(|i| self.tags >> i & 1 == 1).collect() }
}
/// What a view maps from a document; the map functions below and the oracle
/// must agree, so the views call this and translate.
pub fn u32_keys(view: u8, b: &Body, ver: i64) -> Vec<u32> {
    match view {
        V_KEY | V_LAZYU => if b.k == NO_KEY { vec![] } else { vec![(b.k + 5 * ver as u32) % 12] },
        V_EAGER => if b.k2 == NO_KEY { vec![] } else { vec![(b.k2 + 3 * ver as u32) % 12] },
        V_UNIQ => {
            let f = |k: u32| k ^ ((ver as u32 & 1) << 6);
            let mut v = vec![];
            if b.k != NO_KEY { v.push(f(b.k)); }
            if b.k2 != NO_KEY && b.k2 != b.k { v.push(f(b.k2)); }
            v
        }
        _ => vec![],
    }
}
pub type Val = (i64, i64);

macro_rules! coll {
    ($t:ident, $n:expr, $views:expr) => {
        #[derive(Debug, Clone)]
        pub struct $t;
        impl Collection for $t {
            type PrimaryKey = u64;
            fn collection_name() -> CollectionName { CollectionName::new("t", $n) }
            fn define_views(schema: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
                let f: fn(&mut Schematic) -> Result<(), bonsaidb_core::Error> = $views;
                f(schema)
            }
            fn encryption_key() -> Option<KeyId> {
                if COLL_KEY.load(Relaxed) == 1 && ($n == "B" || $n == "A") { Some(KeyId::Master) } else { None }
            }
        }
    };
}
coll!(A, "A", |s| {
    s.define_view(ByKey)?;
    if LATE_VIEWS.load(Relaxed) == 1 {
        s.define_view(ByTag)?;
        s.define_view(EagerK)?;
    }
    Ok(())
});
coll!(U, "U", |s| {
    s.define_view(UniqK)?;
    s.define_view(LazyU)?;
    Ok(())
});
coll!(B, "B", |_s| Ok(()));

macro_rules! view {
    ($t:ident, $c:ident, $n:expr, $pol:expr, $id:expr) => {
        #[derive(Debug, Clone)]
        pub struct $t;
        impl View for $t {
            type Collection = $c;
            type Key = u32;
            type Value = Val;
            fn name(&self) -> bonsaidb_core::schema::Name { bonsaidb_core::schema::Name::new($n) }
        }
        impl ViewSchema for $t {
            type View = Self;
            type MappedKey<'doc> = u32;
            fn version(&self) -> u64 { VIEW_VER.load(Relaxed) as u64 }
            fn update_policy(&self) -> ViewUpdatePolicy { $pol }
        }
        impl bonsaidb_core::schema::DefaultViewSerialization for $t {}
        impl MapReduce for $t {
            fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
                let b = Body::parse(&d.contents).expect("body");
                let mut m = Mappings::none();
                for k in u32_keys($id, &b, VIEW_VER.load(Relaxed)) { m = m.and(d.header.emit_key_and_value(k, (1, b.n))?); }
                Ok(m)
            }
            fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
                Ok(m.iter().fold((0, 0), |a, x| (a.0 + x.value.0, a.1 + x.value.1)))
            }
        }
    };
}
view!(ByKey, A, "by-key", ViewUpdatePolicy::Lazy, V_KEY);
view!(EagerK, A, "eager", ViewUpdatePolicy::Eager, V_EAGER);
view!(UniqK, U, "uniq", ViewUpdatePolicy::Unique, V_UNIQ);
view!(LazyU, U, "lazyu", ViewUpdatePolicy::Lazy, V_LAZYU);

#[derive(Debug, Clone)]
pub struct ByTag;
impl View for ByTag {
    type Collection = A;
    type Key = String;
    type Value = Val;
    fn name(&self) -> bonsaidb_core::schema::Name { bonsaidb_core::schema::Name::new("by-tag") }
}
impl ViewSchema for ByTag {
    type View = Self;
    type MappedKey<'doc> = String;
    fn version(&self) -> u64 { VIEW_VER.load(Relaxed) as u64 }
}
impl bonsaidb_core::schema::DefaultViewSerialization for ByTag {}
fn tag_key(t: u32, ver: i64) -> String { format!("t{}", (t as i64 * 3 + ver) % 12) }
impl MapReduce for ByTag {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let b = Body::parse(&d.contents).expect("body");
        let mut m = Mappings::none();
        for t in b.tag_list() { m = m.and(d.header.emit_key_and_value(tag_key(t, VIEW_VER.load(Relaxed)), (1, b.n + t as i64))?); }
        Ok(m)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().fold((0, 0), |a, x| (a.0 + x.value.0, a.1 + x.value.1)))
    }
}

/// Oracle: everything `view` maps from a document, by encoded key.
pub fn emits(view: u8, b: &Body, ver: i64) -> Vec<(Vec<u8>, Val)> {
    if view == V_TAG {
        let mut m = std::collections::BTreeMap::new();
        for t in b.tag_list() { m.insert(tag_key(t, ver).into_bytes(), (1, b.n + t as i64)); }
        m.into_iter().collect()
    } else {
        u32_keys(view, b, ver).into_iter().map(|k| (k.to_be_bytes().to_vec(), (1, b.n))).collect()
    }
}
/// The key bytes the n-th key selector stands for.
pub fn key_bytes(view: u8, n: i64) -> Vec<u8> {
    if view == V_TAG { format!("t{}", n.rem_euclid(12)).into_bytes() } else if view == V_UNIQ { (n.rem_euclid(80) as u32).to_be_bytes().to_vec() } else { (n.rem_euclid(12) as u32).to_be_bytes().to_vec() }
}
pub fn view_name(view: u8) -> ViewName {
    match view { V_KEY => ByKey.view_name(), V_TAG => ByTag.view_name(), V_EAGER => EagerK.view_name(), V_UNIQ => UniqK.view_name(), _ => LazyU.view_name() }
}
pub fn view_no(n: &ViewName) -> u8 { (0..NVIEW as u8).find(|v| view_name(*v) == *n).unwrap_or(255) }
pub fn coll_name(c: u8) -> CollectionName {
    match c { 0 => A::collection_name(), 1 => U::collection_name(), _ => B::collection_name() }
}
pub fn coll_no(n: &CollectionName) -> u8 { (0..NCOLL as u8).find(|c| coll_name(*c) == *n).unwrap_or(255) }
pub fn val(view: u8, b: &[u8]) -> Result<Val, bonsaidb_core::Error> {
    if view == V_TAG { ByTag::deserialize(b) } else { ByKey::deserialize(b) }
}

#[derive(Debug)]
pub struct DocSchema;
impl Schema for DocSchema {
    fn schema_name() -> SchemaName { SchemaName::new("t", "docs") }
    fn define_collections(s: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        s.define_collection::<A>()?;
        s.define_collection::<U>()?;
        s.define_collection::<B>()?;
        Ok(())
    }
}
#[allow(dead_code)]
fn _unused() -> (Option<Bound<u32>>, Option<Vec<u8>>) { (None, 1u32.as_ord_bytes().ok().map(|c| c.to_vec())) }
