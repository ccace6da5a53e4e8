//! Seq<T> in numbered slots.
use crate::kinds::rank_string;
use crate::map::{cut_short, i, list, read_as, say, RawList};
use crate::tree::*;
use crate::Machine;
use candid::CandidType;
use certified_vars::{AsHashTree, HashTree, Map, Seq};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::borrow::Borrow;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Item: AsHashTree + Sized + PartialEq + 'static {
    fn make(v: i64) -> Self;
    /// The root hash of the item, computed here.
    fn hash(v: i64) -> Hash;
    const TRACKED: bool = false;
    fn id(&self) -> Option<i64> { None }
}
macro_rules! num_item { ($($t:ty, $f:expr;)*) => { $(
    impl Item for $t {
        fn make(v: i64) -> $t { let f: fn(i64) -> $t = $f; f(v) }
        fn hash(v: i64) -> Hash { h_leaf(&<$t as Item>::make(v).to_be_bytes()) }
    }
)* } }
num_item! {
    u8, |v| (v - 1) as u8; u16, |v| (v - 1) as u16 * 257; u32, |v| v as u32; u64, |v| (v as u64) << 33;
    i8, |v| (3 - v) as i8; i64, |v| (v - 3) << 20; u128, |v| v as u128; usize, |v| v as usize;
}
impl Item for String {
    fn make(v: i64) -> String { match v { 1 => String::new(), 2 => "a".into(), 3 => "b".into(), 4 => "ab".into(), 5 => "\0".into(), v => rank_string(v) } }
    fn hash(v: i64) -> Hash { h_leaf(Self::make(v).as_bytes()) }
}
impl Item for Vec<u8> {
    fn make(v: i64) -> Vec<u8> { match v { 1 => vec![], 2 => vec![0; 32], 3 => vec![0; 64], 4 => vec![0], v => vec![v as u8; v as usize] } }
    fn hash(v: i64) -> Hash { h_leaf(&<Vec<u8> as Item>::make(v)) }
}
impl Item for [u8; 32] {
    fn make(v: i64) -> [u8; 32] { let mut a = [0; 32]; a[31] = (v - 1) as u8; a }
    fn hash(v: i64) -> Hash { h_leaf(&<[u8; 32] as Item>::make(v)) }
}
impl Item for bool { // two values only
    fn make(v: i64) -> bool { v % 2 == 0 }
    fn hash(v: i64) -> Hash { h_leaf(&[(v % 2 == 0) as u8]) }
}
/// 1 is the empty sequence, others hold one or more numbers.
impl Item for Seq<u32> {
    fn make(v: i64) -> Self { (1..v).map(|x| x as u32).collect() }
    fn hash(v: i64) -> Hash {
        (1..v).fold([0; 32], |h, x| h_chain(&h, &h_leaf(&(x as u32).to_be_bytes())))
    }
}
/// 1 is the empty map, 2 has one entry, ...
#[derive(Serialize, serde::Deserialize, CandidType)]
pub struct MapItem(Map<u32, u32>);
impl PartialEq for MapItem {
    fn eq(&self, o: &Self) -> bool { self.0.iter().eq(o.0.iter()) }
}
impl Clone for MapItem {
    fn clone(&self) -> Self { let mut m = Map::new(); for (k, v) in self.0.iter() { m.insert(*k, *v); } MapItem(m) }
}
impl AsHashTree for MapItem {
    fn root_hash(&self) -> Hash { self.0.root_hash() }
    fn as_hash_tree(&self) -> HashTree<'_> { self.0.as_hash_tree() }
}
impl Item for MapItem {
    fn make(v: i64) -> Self { let mut m = Map::new(); if v > 1 { m.insert(7, v as u32); } MapItem(m) }
    fn hash(v: i64) -> Hash {
        if v > 1 { h_labeled(&7u32.to_be_bytes(), &h_leaf(&(v as u32).to_be_bytes())) } else { h_empty() }
    }
}

type Ext<T> = Option<fn(&mut Seq<T>, &[T])>;
/// Extending by references needs Copy.
pub fn by_ref<T: Item + Copy>() -> Ext<T> { Some(|s, v| s.extend(v.iter())) }

pub struct SeqM<T: Item> {
    q: Vec<Seq<T>>,
    own: Vec<Hash>,
    nv: i64,
    ids: HashMap<Hash, i64>,
    ext: Ext<T>,
}

fn codec<T: Item + Clone + Serialize + DeserializeOwned + CandidType>(s: &Seq<T>, c: &str) -> Result<(Seq<T>, bool), String> {
    fn e(x: impl std::fmt::Display) -> String { x.to_string() }
    let plain = s.as_vec().clone();
    let b = if c == "candid" { candid::encode_one(s).map_err(say)? } else { serde_cbor::to_vec(s).map_err(say)? };
    crate::replica::saw(|| b.clone());
    let v: Vec<T> = read_as(&b, c)?;
    let b2 = if c == "candid" { candid::encode_one(&v).map_err(say)? } else { serde_cbor::to_vec(&v).map_err(say)? };
    let s2: Seq<T> = read_as(&b2, c)?;
    Ok((read_as(&b, c)?, b == b2 && v == plain && s2.as_vec() == &plain && s2.root_hash() == s.root_hash()))
}
fn decode<T: Item + Serialize + DeserializeOwned + CandidType>(v: Vec<T>, c: &str) -> Result<Seq<T>, String> {
    let b = if c == "candid" { candid::encode_one(&v).map_err(say)? }
        else { serde_cbor::to_vec(&RawList(&v, c == "cbor-lazy")).map_err(say)? };
    read_as(&b, c)
}
fn bad<T: Item + Serialize + DeserializeOwned + CandidType + Clone>(s: &Seq<T>, c: &str) -> bool {
    let no = |b: Vec<u8>| read_as::<Seq<T>>(&b, c).is_err();
    let mut x: Vec<Option<T>> = s.iter().map(|x| Some(x.clone())).collect();
    let some = !x.is_empty();
    if let Some(l) = x.last_mut() { *l = None }
    if c == "candid" {
        cut_short::<Seq<T>>(&candid::encode_one(s).unwrap(), c) && no(candid::encode_one("x").unwrap())
            && (!some || no(candid::encode_one(&x).unwrap()))
    } else {
        cut_short::<Seq<T>>(&serde_cbor::to_vec(s).unwrap(), c) && no(serde_cbor::to_vec(&7u16).unwrap())
            && (!some || no(serde_cbor::to_vec(&RawList(&x, c == "cbor-lazy")).unwrap()))
    }
}

/// Yields its items without saying how many there are.
struct Lazy<I>(I);
impl<I: Iterator> Iterator for Lazy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
}

fn make<T: Item + Clone>(mut v: Vec<T>, how: &str) -> Seq<T> {
    match how {
        "vec" => Seq::from(v),
        "slice" => Seq::from(v.as_slice()),
        "mutslice" => Seq::from(v.as_mut_slice()),
        "iter" => v.into_iter().collect(),
        "lazy" => Lazy(v.into_iter()).collect(),
        "cap" => { let mut q = Seq::with_capacity(v.len() / 2); for x in v { q.append(x) } q }
        "new" => { let mut q = Seq::new(); q.extend(v); q }
        _ => panic!("script: make {}", how),
    }
}

impl<T: Item + Clone + Serialize + DeserializeOwned + CandidType> SeqM<T> {
    pub fn boxed(o: &Value, ext: Ext<T>) -> Box<dyn Machine> {
        let n = i(o, "slots") as usize;
        let mut ids = HashMap::new();
        ids.insert([0; 32], 0);
        Box::new(SeqM::<T> {
            q: (0..n).map(|j| if j % 2 == 0 { Seq::new() } else { Seq::with_capacity(j) }).collect(),
            own: vec![[0; 32]; n], nv: i(o, "nv"), ids, ext,
        })
    }
    fn name(&self, x: &T) -> i64 { (1..=self.nv).find(|v| T::make(*v) == *x).unwrap_or(BAD) }
    fn names<'a>(&self, it: impl Iterator<Item = &'a T>) -> Vec<i64> {
        it.map(|x| self.name(x)).collect()
    }
    fn add(&mut self, s: usize, v: i64) {
        self.own[s] = h_chain(&self.own[s], &T::hash(v));
    }
    fn extend(&mut self, s: usize, items: &[i64], how: &str) {
        let v: Vec<T> = items.iter().map(|v| T::make(*v)).collect();
        match (how, self.ext) {
            ("ref", Some(f)) => f(&mut self.q[s], &v),
            ("lazy", _) => self.q[s].extend(Lazy(v.into_iter())),
            _ => self.q[s].extend(v),
        }
        for v in items { self.add(s, *v) }
    }
    fn reset(&mut self, s: usize, items: &[i64]) {
        self.own[s] = [0; 32];
        for v in items { self.add(s, *v) }
    }
}

impl<T: Item + Clone + Serialize + DeserializeOwned + CandidType> Machine for SeqM<T> {
    fn owned(&self) -> Option<Value> {
        T::TRACKED.then(|| json!(self.q.iter().map(|s| s.iter().filter_map(|x| x.id()).collect::<Vec<_>>()).collect::<Vec<_>>()))
    }
    fn step(&mut self, o: &Value) -> Value {
        let s = i(o, "s") as usize - 1;
        let items: Vec<i64> = if o["items"].is_array() { list(o, "items").iter().map(|x| x.as_i64().unwrap()).collect() } else { vec![] };
        let vals = || items.iter().map(|v| T::make(*v));
        let how = o["how"].as_str().unwrap_or("");
        match o["op"].as_str().unwrap() {
            "make" => {
                self.q[s] = make(vals().collect(), how);
                self.reset(s, &items);
                json!({})
            }
            "app" => { let x = i(o, "x"); self.q[s].append(T::make(x)); self.add(s, x); json!({}) }
            "ext" => { self.extend(s, &items, how); json!({}) }
            // items in a pattern: added, or as all there are
            "many" | "fresh" => {
                let (n, x, nv) = (i(o, "n"), i(o, "x"), i(o, "nv"));
                let items: Vec<i64> = (1..=n).map(|j| 1 + (x + j) % nv).collect();
                if o["op"] == "fresh" {
                    let v: Vec<T> = items.iter().map(|v| T::make(*v)).collect();
                    self.q[s] = match how {
                        "cbor" | "cbor-lazy" | "candid" => decode(v, how).expect("decoded"),
                        _ => make(v, how),
                    };
                    self.reset(s, &items);
                } else if how == "" {
                    for v in items { self.q[s].append(T::make(v)); self.add(s, v) }
                } else {
                    self.extend(s, &items, how);
                }
                json!({})
            }
            // a look at a long sequence
            "peek" => {
                let q = &self.q[s];
                let n = q.len();
                let h = q.root_hash();
                let m = (i(o, "m") as usize).min(n);
                json!({"len": n as i64, "own": h == self.own[s], "head": self.names(q[..m].iter()), "tail": self.names(q.iter().skip(n - m)),
                       "iterlen": q.iter().count() as i64, "eq": *q == Seq::from(q.as_vec().clone())})
            }
            "clear" => { self.q[s].clear(); self.reset(s, &[]); json!({}) }
            "room" => {
                match how {
                    "shrink" => self.q[s].shrink_to_fit(),
                    "reserve" => self.q[s].reserve(17),
                    _ => self.q[s].reserve_exact(5),
                }
                json!({})
            }
            "clone" => {
                let f = i(o, "from") as usize - 1;
                self.q[s] = self.q[f].clone();
                self.own[s] = self.own[f];
                json!({})
            }
            "eq" => { let f = i(o, "from") as usize - 1; json!({"r": self.q[s] == self.q[f]}) }
            "take" => {
                let v: Vec<T> = std::mem::replace(&mut self.q[s], Seq::new()).into();
                for x in &v { crate::own::saw(x.id()) }
                self.reset(s, &[]);
                json!({"vec": self.names(v.iter())})
            }
            "reload" | "save" => match codec(&self.q[s], o["codec"].as_str().unwrap()) {
                Ok((d, inter)) => { if o["op"] == "reload" { self.q[s] = d } json!({"res": "ok", "inter": inter}) }
                Err(e) => json!({"res": "error", "inter": false, "msg": e}),
            },
            "decode" => match decode(vals().collect(), o["codec"].as_str().unwrap()) {
                Ok(d) => { self.q[s] = d; self.reset(s, &items); json!({"res": "ok"}) }
                Err(e) => json!({"res": "error", "msg": e}),
            },
            "badcodec" => json!({"refused": bad(&self.q[s], o["codec"].as_str().unwrap())}),
            "sha" => {
                let q = &self.q[s];
                json!({"hash": q.root_hash(), "trees": q.iter().map(|x| tree_json(&x.as_hash_tree())).collect::<Vec<_>>()})
            }
            "obs" => {
                let q = &self.q[s];
                let n = q.len();
                let fresh = self.ids.len() as i64;
                let h = q.root_hash();
                let id = *self.ids.entry(h).or_insert(fresh);
                let slices: Vec<Value> = list(o, "q").iter().filter_map(|p| {
                    let (a, b) = (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize);
                    if a > b || b > n { return None }
                    let x = if a == 0 { &q[..b] } else if b == n { &q[a..] } else { &q[a..b] };
                    Some(json!([a, b, self.names(x.iter())]))
                }).collect();
                let oob = [n, n + 1, n + 1000].iter().all(|j| catch_unwind(AssertUnwindSafe(|| { let _ = &q[*j]; })).is_err());
                let tree = match q.as_hash_tree() { HashTree::Pruned(p) => p == h, _ => false };
                let b: &[T] = q.borrow();
                json!({"items": self.names(q.iter()), "len": n as i64, "empty": q.is_empty(),
                    "vec": self.names(q.as_vec().iter()), "asref": self.names(AsRef::<[T]>::as_ref(q).iter()),
                    "borrow": self.names(b.iter()), "index": self.names((0..n).map(|j| &q[j])),
                    "slices": slices, "oob": oob, "iterlen": q.iter().len() as i64, "rev": self.names(q.iter().rev()),
                    "cap": q.capacity() >= n, "own": h == self.own[s], "tree": tree, "hash": id})
            }
            x => panic!("script: unknown op {}", x),
        }
    }
}
