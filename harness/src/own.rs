//! Keys and values that report when they are released.
use crate::kinds::{KeyKind, ValKind, DEFAULT_ID};
use candid::CandidType;
use certified_vars::label::Label;
use certified_vars::{AsHashTree, Hash, HashTree};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;

thread_local! {
    static LIVE: RefCell<BTreeSet<i64>> = const { RefCell::new(BTreeSet::new()) };
    static LAST: Cell<i64> = const { Cell::new(0) };
    static FAULT: Cell<bool> = const { Cell::new(false) };
    static SAW: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}
fn born() -> i64 {
    let n = LAST.with(|c| { c.set(c.get() + 1); c.get() });
    LIVE.with(|l| l.borrow_mut().insert(n));
    n
}
fn dies(id: i64) { if !LIVE.with(|l| l.borrow_mut().remove(&id)) { FAULT.with(|f| f.set(true)) } }
fn used(id: i64) { if !LIVE.with(|l| l.borrow().contains(&id)) { FAULT.with(|f| f.set(true)) } }
/// The instances that exist; was one released twice or used after its release?
pub fn live() -> Vec<i64> { LIVE.with(|l| l.borrow().iter().copied().collect()) }
pub fn fault() -> bool { FAULT.with(|f| f.get()) }
/// Forget all; which instances were left?
pub fn fresh_start() -> Vec<i64> {
    let left = live();
    LIVE.with(|l| l.borrow_mut().clear());
    FAULT.with(|f| f.set(false));
    LAST.with(|f| f.set(0));
    left
}
/// The instances that an operation handed back, in the order in which they were looked at.
pub fn saw(id: Option<i64>) {
    if let Some(id) = id { SAW.with(|s| { let mut s = s.borrow_mut(); if s.len() < 3 { s.push(id) } }) }
}
pub fn begin() { SAW.with(|s| s.borrow_mut().clear()) }

// Code of the caller that panics: the n-th comparison, label, hash, release, copy or default from now on.
pub const CMP: i64 = 1;
pub const LABEL: i64 = 2;
pub const HASH: i64 = 3;
pub const DROP: i64 = 4;
pub const CLONE: i64 = 5;
pub const DEFAULT: i64 = 6;
thread_local! { static TRIP: Cell<(i64, i64)> = const { Cell::new((0, 0)) }; }
pub fn arm(kind: i64, n: i64) { TRIP.with(|t| t.set((kind, n))) }
pub fn disarm() { arm(0, 0) }
fn trip(kind: i64) {
    TRIP.with(|t| {
        let (k, n) = t.get();
        if k == kind {
            if n == 1 { t.set((0, 0)); std::panic::panic_any("trip") }
            t.set((k, n - 1));
        }
    })
}

/// A tracked number, as a key or a value.
#[derive(Debug)]
pub struct Tracked { n: u32, id: i64 }
impl Tracked {
    pub fn new(n: u32) -> Self { Tracked { n, id: born() } }
    pub fn n(&self) -> u32 { used(self.id); self.n }
    pub fn id(&self) -> i64 { used(self.id); self.id }
}
impl Drop for Tracked { fn drop(&mut self) { dies(self.id); if !std::thread::panicking() { trip(DROP) } } }
impl Clone for Tracked { fn clone(&self) -> Self { used(self.id); trip(CLONE); Tracked::new(self.n) } }
impl Default for Tracked { fn default() -> Self { trip(DEFAULT); Tracked::new(0) } }
impl PartialEq for Tracked { fn eq(&self, o: &Self) -> bool { trip(CMP); self.n() == o.n() } }
impl Eq for Tracked {}
impl Ord for Tracked { fn cmp(&self, o: &Self) -> std::cmp::Ordering { trip(CMP); self.n().cmp(&o.n()) } }
impl PartialOrd for Tracked { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Label for Tracked { fn as_label(&self) -> Cow<[u8]> { trip(LABEL); Cow::Owned(self.n().to_be_bytes().to_vec()) } }
impl AsHashTree for Tracked {
    fn root_hash(&self) -> Hash { trip(HASH); crate::tree::h_leaf(&self.n().to_be_bytes()) }
    fn as_hash_tree(&self) -> HashTree<'_> { trip(HASH); HashTree::Leaf(Cow::Owned(self.n().to_be_bytes().to_vec())) }
}
impl serde::Serialize for Tracked {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(self.n()) }
}
impl<'de> serde::Deserialize<'de> for Tracked {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <u32 as serde::Deserialize>::deserialize(d).map(Tracked::new) }
}
impl CandidType for Tracked {
    fn _ty() -> candid::types::Type { <u32 as CandidType>::_ty() }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> { self.n().idl_serialize(s) }
}

pub struct KTrack;
impl KeyKind for KTrack {
    type K = Tracked;
    const TRACKED: bool = true;
    fn key(r: i64) -> Tracked { Tracked::new(r as u32 * 77_777) }
    fn label(r: i64) -> Vec<u8> { (r as u32 * 77_777).to_be_bytes().to_vec() }
    fn id(k: &Tracked) -> Option<i64> { Some(k.id()) }
}
pub struct VTrack;
impl ValKind for VTrack {
    type V = Tracked;
    fn val(k: i64, v: i64) -> Tracked { Tracked::new(if v == DEFAULT_ID { 0 } else { (k * 1000 + v) as u32 }) }
    fn bytes(v: &Tracked) -> Vec<u8> { v.n().to_be_bytes().to_vec() }
    fn id(v: &Tracked) -> Option<i64> { Some(v.id()) }
}
impl crate::seq::Item for Tracked {
    fn make(v: i64) -> Tracked { Tracked::new(v as u32) }
    fn hash(v: i64) -> Hash { crate::tree::h_leaf(&(v as u32).to_be_bytes()) }
    const TRACKED: bool = true;
    fn id(&self) -> Option<i64> { Some(Tracked::id(self)) }
}
impl crate::paged::PItem for Tracked {
    fn make(v: i64) -> Tracked { Tracked::new(v as u32) }
    fn bytes(v: i64) -> Vec<u8> { (v as u32).to_be_bytes().to_vec() }
    const TRACKED: bool = true;
    fn id(&self) -> Option<i64> { Some(Tracked::id(self)) }
}

/// What every event on tracked keys and values reports; `held` says what is stored.
pub fn report(held: Value) -> Value {
    json!({"live": live(), "fault": fault(), "held": held, "saw": SAW.with(|s| s.borrow().clone())})
}
