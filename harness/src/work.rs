//! Collections that count what is asked of their keys and items: comparisons, labels of keys,
//! hashes of items (C21).
use crate::kinds::{cost, Counted, ITEMS};
use crate::map::{i, say, RawList};
use crate::Machine;
use candid::CandidType;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Paged, Seq};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// An item that counts how often it is hashed.
#[derive(Clone, Copy, Default, PartialEq, Serialize, Deserialize, CandidType)]
pub struct H(u32);
impl AsHashTree for H {
    fn root_hash(&self) -> Hash { ITEMS.with(|c| c.set(c.get() + 1)); self.0.root_hash() }
    fn as_hash_tree(&self) -> HashTree<'_> { ITEMS.with(|c| c.set(c.get() + 1)); self.0.as_hash_tree() }
}

fn key(x: i64) -> Counted { Counted(x as u32) }
fn items(o: &Value) -> Vec<H> { (0..o["n"].as_i64().unwrap_or(0)).map(|x| H(x as u32 * 7 + o["x"].as_i64().unwrap_or(0) as u32)).collect() }
/// Does not say how many there are.
struct Lazy<I>(I);
impl<I: Iterator> Iterator for Lazy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
}
fn how(o: &Value) -> &str { o["how"].as_str().unwrap_or("") }
/// What a call takes: comparisons, labels, item hashes.
fn took<T>(f: impl FnOnce() -> T) -> Value {
    ITEMS.with(|c| c.set(0));
    let (c, l) = cost(f);
    json!({"cmps": c, "labs": l, "items": ITEMS.with(|c| c.get())})
}

enum W {
    Seq(Seq<H>),
    P1(Paged<Counted, H, 1>),
    P8(Paged<Counted, H, 8>),
    P300(Paged<Counted, H, 300>),
    Map(Map<Counted, H>),
    Rb(RbTree<Counted, H>),
    MapSeq(Map<Counted, Seq<H>>),
    RbSeq(RbTree<Counted, Seq<H>>),
    MapMap(Map<Counted, Map<Counted, H>>),
    RbRb(RbTree<Counted, RbTree<Counted, H>>),
    MapMapSeq(Map<Counted, Map<Counted, Seq<H>>>),
}
pub struct WorkM(W);
pub fn boxed(o: &Value) -> Box<dyn Machine> {
    Box::new(WorkM(match o["kt"].as_str().unwrap() {
        "seq" => W::Seq(Seq::new()),
        "paged1" => W::P1(Paged::new()), "paged8" => W::P8(Paged::new()), "paged300" => W::P300(Paged::new()),
        "map" => W::Map(Map::new()), "rb" => W::Rb(RbTree::new()),
        "map-seq" => W::MapSeq(Map::new()), "rb-seq" => W::RbSeq(RbTree::new()),
        "map-map" => W::MapMap(Map::new()), "rb-rb" => W::RbRb(RbTree::new()),
        "map-map-seq" => W::MapMapSeq(Map::new()),
        k => panic!("script: kind {}", k),
    }))
}

fn seq(s: &mut Seq<H>, o: &Value) -> Value {
    let mut xs = items(o);
    match o["op"].as_str().unwrap() {
        "app" => { let x = H(i(o, "x") as u32); took(|| s.append(x)) }
        "ext" => match how(o) {
            "ref" => took(|| s.extend(xs.iter())),
            "lazy" => took(|| s.extend(Lazy(xs.into_iter()))),
            _ => took(|| s.extend(xs)),
        },
        "make" => {
            let mut new = Seq::new();
            let r = match how(o) {
                "vec" => took(|| new = Seq::from(xs)),
                "slice" => took(|| new = Seq::from(xs.as_slice())),
                "mutslice" => took(|| new = Seq::from(xs.as_mut_slice())),
                _ => took(|| new = xs.into_iter().collect()),
            };
            *s = new;
            r
        }
        "decode" => {
            let b = match how(o) {
                "candid" => candid::encode_one(&xs).map_err(say),
                h => serde_cbor::to_vec(&RawList(&xs, h == "cbor-lazy")).map_err(say),
            }.expect("encoded");
            let mut new = Seq::new();
            let r = took(|| new = crate::map::read_as::<Seq<H>>(&b, how(o)).expect("decoded"));
            *s = new;
            r
        }
        "clear" => took(|| s.clear()),
        "room" => took(|| { s.reserve(i(o, "n") as usize); s.shrink_to_fit() }),
        "clone" => took(|| *s = s.clone()),
        "root" => took(|| s.root_hash()),
        "tree" => took(|| s.as_hash_tree()),
        "read" => took(|| (s.len(), s.is_empty(), s.iter().count(), s.as_vec().len(), s == &s.clone())),
        "encode" => took(|| (serde_cbor::to_vec(s).is_ok(), candid::encode_one(s).is_ok())),
        x => panic!("script: unknown op {}", x),
    }
}
fn paged<const S: usize>(p: &mut Paged<Counted, H, S>, o: &Value) -> Value {
    let k = key(o["k"].as_i64().unwrap_or(0));
    let n = o["n"].as_i64().unwrap_or(0) as usize;
    match o["op"].as_str().unwrap() {
        "ins" => { let x = H(i(o, "x") as u32); took(|| p.insert(k, x)) }
        "fill" => took(|| for x in items(o) { p.insert(k, x) }),
        "root" => took(|| p.root_hash()),
        "get" => took(|| p.get(&k, n).map(|s| s.len())),
        "page" => took(|| p.witness(&k, n)),
        "last" => took(|| p.get_last_page_number(&k)),
        "lwit" => took(|| p.witness_last_page_number(&k)),
        x => panic!("script: unknown op {}", x),
    }
}
/// A change inside the collection under k.
macro_rules! inside {
    ($m:expr, $k:expr, $o:expr, $f:expr) => {{
        let f = $f;
        match how($o) {
            "or_default" => took(|| f($m.entry($k).or_default())),
            "and_modify" => took(|| { let f = &f; $m.entry($k).and_modify(|x| f(x)).or_insert_with(|| { let mut x = Default::default(); f(&mut x); x }); }),
            _ => took(|| if let Some(x) = $m.get_mut(&$k) { f(x) }),
        }
    }};
}
macro_rules! common {
    ($m:expr, $k:expr, $o:expr, $del:ident) => {
        match $o["op"].as_str().unwrap() {
            "root" => took(|| $m.root_hash()),
            "rem" => took(|| $m.$del(&$k).is_some()),
            "wit" => took(|| tree(&$m).witness(&$k)),
            "nwit" => took(|| tree(&$m).nested_witness(&$k, |x| HashTree::Pruned(x.root_hash()))),
            x => panic!("script: unknown op {}", x),
        }
    };
}
trait T<K: certified_vars::label::Label + 'static, V: AsHashTree + 'static> { fn t(&self) -> &RbTree<K, V>; }
impl<K: certified_vars::label::Label + 'static, V: AsHashTree + 'static> T<K, V> for Map<K, V> { fn t(&self) -> &RbTree<K, V> { self.as_tree() } }
impl<K: certified_vars::label::Label + 'static, V: AsHashTree + 'static> T<K, V> for RbTree<K, V> { fn t(&self) -> &RbTree<K, V> { self } }
fn tree<K: certified_vars::label::Label + 'static, V: AsHashTree + 'static>(x: &impl T<K, V>) -> &RbTree<K, V> { x.t() }

impl Machine for WorkM {
    fn step(&mut self, o: &Value) -> Value {
        let op = o["op"].as_str().unwrap();
        let k = key(o["k"].as_i64().unwrap_or(0));
        let j = key(o["j"].as_i64().unwrap_or(0));
        let x = H(o["x"].as_i64().unwrap_or(0) as u32);
        match &mut self.0 {
            W::Seq(s) => seq(s, o),
            W::P1(p) => paged(p, o), W::P8(p) => paged(p, o), W::P300(p) => paged(p, o),
            W::Map(m) => match op {
                "put" if how(o) == "insert" => took(|| m.insert(k, x)),
                "put" => inside!(m, k, o, |c: &mut H| { *c = x; }),
                _ => common!(*m, k, o, remove),
            },
            W::Rb(m) => match op {
                "put" if how(o) == "insert" => took(|| m.insert(k, x).0),
                "put" if how(o) == "modify" => took(|| { m.modify(&k, |c| { *c = x; }); }),
                "put" => inside!(m, k, o, |c: &mut H| { *c = x; }),
                _ => common!(*m, k, o, delete),
            },
            W::MapSeq(m) => match op {
                "app" if how(o) == "deep" => took(|| m.append_deep(k, x)),
                "app" => inside!(m, k, o, |s: &mut Seq<H>| s.append(x)),
                "ext" => { let v = items(o); inside!(m, k, o, |s: &mut Seq<H>| s.extend(v.clone())) }
                "len" => took(|| m.len_deep(&k)),
                _ => common!(*m, k, o, remove),
            },
            W::RbSeq(m) => match op {
                "app" if how(o) == "modify" => took(|| { m.modify(&k, |s| s.append(x)); }),
                "app" => inside!(m, k, o, |s: &mut Seq<H>| s.append(x)),
                "ext" => { let v = items(o); inside!(m, k, o, |s: &mut Seq<H>| s.extend(v.clone())) }
                _ => common!(*m, k, o, delete),
            },
            W::MapMap(m) => match op {
                "put" => inside!(m, k, o, |c: &mut Map<Counted, H>| { c.insert(j, x); }),
                "del" => inside!(m, k, o, |c: &mut Map<Counted, H>| { c.remove(&j); }),
                _ => common!(*m, k, o, remove),
            },
            W::RbRb(m) => match op {
                "put" if how(o) == "modify" => took(|| { m.modify(&k, |c| { c.insert(j, x); }); }),
                "put" => inside!(m, k, o, |c: &mut RbTree<Counted, H>| { c.insert(j, x); }),
                "del" => inside!(m, k, o, |c: &mut RbTree<Counted, H>| { c.delete(&j); }),
                _ => common!(*m, k, o, delete),
            },
            W::MapMapSeq(m) => match op {
                "app" => inside!(m, k, o, |c: &mut Map<Counted, Seq<H>>| c.append_deep(j, x)),
                _ => common!(*m, k, o, remove),
            },
        }
    }
}
