//! Collections whose keys, values and callers panic (C22).
use crate::map::{i, list};
use crate::own::{arm, disarm, fault, live, Tracked};
use crate::tree::{h_chain, h_leaf, own_hash};
use crate::Machine;
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Paged, Seq};
use serde_json::{json, Value};
use std::borrow::{Borrow, Cow};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// A key of two parts, for prefixes; its number is 10 * the first + the second.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Pair { a: Tracked, b: Tracked }
impl Label for Pair {
    fn as_label(&self) -> Cow<[u8]> { let mut v = self.a.as_label().into_owned(); v.extend(self.b.as_label().iter()); Cow::Owned(v) }
}
impl Borrow<Tracked> for Pair { fn borrow(&self) -> &Tracked { &self.a } }
impl Prefix<Tracked> for Pair {}

trait FKey: Label + Sized + 'static {
    fn make(k: i64) -> Self;
    fn n(&self) -> i64;
    /// Tracked instances in a key.
    const N: usize = 1;
    fn pmod<V: FVal>(_: &mut RbTree<Self, V>, o: &Value) { panic!("script: how {}", o["how"]) }
}
impl FKey for Tracked {
    fn make(k: i64) -> Self { Tracked::new(k as u32) }
    fn n(&self) -> i64 { Tracked::n(self) as i64 }
}
impl FKey for Pair {
    fn make(k: i64) -> Self { Pair { a: Tracked::new(k as u32 / 10), b: Tracked::new(k as u32 % 10) } }
    const N: usize = 2;
    fn pmod<V: FVal>(t: &mut RbTree<Pair, V>, o: &Value) {
        let p = Tracked::new(i(o, "k") as u32 / 10);
        t.modify_max_with_prefix(&p, |_, v| boom(o, || v.change(o)));
    }
    fn n(&self) -> i64 { self.a.n() as i64 * 10 + self.b.n() as i64 }
}

trait FVal: AsHashTree + Default + Sized + 'static {
    /// A new value.
    fn fresh(o: &Value) -> Self;
    /// What the closures do to a value.
    fn change(&mut self, o: &Value);
    fn read(&self) -> Value;
    fn instances(&self) -> usize;
    /// Its root hash, computed from what it holds.
    fn truth(&self) -> Hash;
    /// What there is only for maps of such values.
    fn deep<K: FKey>(_: &mut Map<K, Self>, o: &Value) { panic!("script: how {}", o["how"]) }
}
impl FVal for Tracked {
    fn fresh(o: &Value) -> Self { Tracked::new(i(o, "x") as u32) }
    fn change(&mut self, o: &Value) { *self = Self::fresh(o) }
    fn read(&self) -> Value { json!(self.n()) }
    fn instances(&self) -> usize { 1 }
    fn truth(&self) -> Hash { h_leaf(&self.n().to_be_bytes()) }
}
impl FVal for Seq<Tracked> {
    fn fresh(o: &Value) -> Self { let mut s = Seq::new(); s.append(Tracked::fresh(o)); s }
    fn change(&mut self, o: &Value) { self.append(Tracked::fresh(o)) }
    fn read(&self) -> Value { self.iter().map(|x| x.read()).collect() }
    fn instances(&self) -> usize { self.len() }
    fn deep<K: FKey>(m: &mut Map<K, Self>, o: &Value) {
        let k = K::make(i(o, "k"));
        match o["op"].as_str().unwrap() {
            "put" => m.append_deep(k, Tracked::fresh(o)),
            _ => { m.len_deep(&k); }
        }
    }
    fn truth(&self) -> Hash { self.iter().fold([0; 32], |h, x| h_chain(&h, &x.truth())) }
}
impl FVal for Map<Tracked, Tracked> {
    fn fresh(o: &Value) -> Self { let mut m = Map::new(); m.change(o); m }
    fn change(&mut self, o: &Value) {
        if i(o, "x") == 0 { self.remove(&Tracked::new(i(o, "j") as u32)); } else { self.insert(Tracked::new(i(o, "j") as u32), Tracked::fresh(o)); }
    }
    fn read(&self) -> Value { self.iter().map(|(k, v)| json!([k.read(), v.read()])).collect() }
    fn instances(&self) -> usize { 2 * self.iter().count() }
    fn truth(&self) -> Hash { own_hash(&self.as_hash_tree()) }
}

/// Code of the caller that may panic before or after it has done its work.
fn boom<T>(o: &Value, f: impl FnOnce() -> T) -> T {
    if o["boom"] == "before" { panic_any("boom") }
    let r = f();
    if o["boom"] == "after" { panic_any("boom") }
    r
}
/// An iterator that panics before its n-th item.
struct Fuse<I>(I, i64);
impl<I: Iterator> Iterator for Fuse<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 -= 1;
        if self.1 == 0 { panic_any("boom") }
        self.0.next()
    }
}
fn fuse<I: Iterator>(o: &Value, it: I) -> Fuse<I> { Fuse(it, o["at"].as_i64().unwrap_or(0)) }

/// The label of an entry and the hash of what it shows.
fn shown(t: &HashTree, out: &mut Vec<(Vec<u8>, Hash)>) {
    match t {
        HashTree::Fork(f) => { shown(f.left(), out); shown(f.right(), out) }
        HashTree::Labeled(l, s) => out.push((l.to_vec(), own_hash(s))),
        _ => {}
    }
}

trait Coll {
    fn op(&mut self, o: &Value) -> Value;
    fn len(&self) -> i64;
    fn items(&self) -> Value;
    fn held(&self) -> usize;
    fn own(&self) -> bool;
    /// [key, right, shown] for each key: does the witness lead to the root and show, if
    /// anything, what is stored; is the key in it?
    fn wits(&self, _q: &[Value]) -> Value { json!([]) }
}

trait Tree<K: 'static + Label, V: 'static + AsHashTree>: Sized {
    fn tree(&self) -> &RbTree<K, V>;
    fn take(&mut self, k: &K);
    fn more(&mut self, o: &Value);
    fn wipe(&mut self);
    fn gather(it: impl Iterator<Item = (K, V)>) -> Self;
}
impl<K: FKey, V: FVal> Tree<K, V> for Map<K, V> {
    fn tree(&self) -> &RbTree<K, V> { self.as_tree() }
    fn take(&mut self, k: &K) { self.remove(k); }
    fn wipe(&mut self) { self.clear() }
    fn more(&mut self, o: &Value) { V::deep(self, o) }
    fn gather(it: impl Iterator<Item = (K, V)>) -> Self { it.collect() }
}
impl<K: FKey, V: FVal> Tree<K, V> for RbTree<K, V> {
    fn tree(&self) -> &RbTree<K, V> { self }
    fn take(&mut self, k: &K) { self.delete(k); }
    fn wipe(&mut self) { *self = RbTree::new() }
    fn more(&mut self, o: &Value) {
        match o["how"].as_str().unwrap() {
            "modify" => { let k = K::make(i(o, "k")); self.modify(&k, |v| boom(o, || v.change(o))); }
            _ => K::pmod(self, o),
        }
    }
    fn gather(it: impl Iterator<Item = (K, V)>) -> Self { let mut m = RbTree::new(); for (k, v) in it { m.insert(k, v); } m }
}

macro_rules! tree_coll {
    ($t:ident) => {
        impl<K: FKey, V: FVal> Coll for $t<K, V> {
            fn op(&mut self, o: &Value) -> Value {
                let k = || K::make(i(o, "k"));
                match o["op"].as_str().unwrap() {
                    "put" => match o["how"].as_str().unwrap_or("") {
                        "insert" => { let v = V::fresh(o); let _ = self.insert(k(), v); }
                        "set" => { let k = k(); if let Some(r) = self.get_mut(&k) { r.change(o) } }
                        "and_modify" => { self.entry(k()).and_modify(|v| boom(o, || v.change(o))); }
                        "mod_or" => { let v = V::fresh(o); self.entry(k()).and_modify(|v| boom(o, || v.change(o))).or_insert(v); }
                        "or_insert" => { let v = V::fresh(o); self.entry(k()).or_insert(v); }
                        "or_insert_with" => { self.entry(k()).or_insert_with(|| boom(o, || V::fresh(o))); }
                        "or_insert_with_key" => { self.entry(k()).or_insert_with_key(|_| boom(o, || V::fresh(o))); }
                        "or_default" => self.entry(k()).or_default().change(o),
                        "into_mut" => match self.entry(k()) {
                            Entry::Occupied(e) => e.into_mut().change(o),
                            Entry::Vacant(e) => { let v = V::fresh(o); e.insert(v); }
                        },
                        "get_mut" => if let Entry::Occupied(mut e) = self.entry(k()) { boom(o, || e.get_mut().change(o)) },
                        _ => self.more(o),
                    },
                    "rem" => match o["how"].as_str().unwrap_or("") {
                        "entry" => if let Entry::Occupied(e) = self.entry(k()) { e.remove_entry(); },
                        _ => { let k = k(); self.take(&k); }
                    },
                    "clear" => self.wipe(),
                    "collect" => {
                        let xs: Vec<(K, V)> = list(o, "xs").iter().map(|x| (K::make(x[0].as_i64().unwrap()), V::fresh(&json!({"x": x[1], "j": 1})))).collect();
                        *self = Self::gather(fuse(o, xs.into_iter()));
                    }
                    "root" => { self.root_hash(); }
                    "tree" => { self.as_hash_tree(); }
                    "get" => { self.get(&k()); }
                    "wit" => { self.witness(&k()); }
                    "nwit" => { self.tree().nested_witness(&k(), |v| boom(o, || v.as_hash_tree())); }
                    "each" => { let mut n = i(o, "at"); self.tree().for_each(|_, _| { n -= 1; if n == 0 { panic_any("boom") } }); }
                    "keys" => { self.tree().keys(); }
                    "krange" => { let (a, b) = (k(), K::make(i(o, "to"))); self.tree().key_range(&a, &b); }
                    "vrange" => { let (a, b) = (k(), K::make(i(o, "to"))); self.tree().value_range(&a, &b); }
                    "with" => { self.tree().get_with(|x| boom(o, || K::make(i(o, "k")).cmp(x))); }
                    "len" => self.more(o),
                    x => panic!("script: unknown op {}", x),
                }
                json!({})
            }
            fn len(&self) -> i64 { $t::len(self) as i64 }
            fn items(&self) -> Value {
                let mut r = vec![];
                self.tree().for_each(|k, v| r.push(json!([k.n(), v.read()])));
                json!(r)
            }
            fn held(&self) -> usize {
                let mut n = 0;
                self.tree().for_each(|_, v| n += v.instances() + K::N);
                n
            }
            fn own(&self) -> bool {
                let mut ok = own_hash(&self.as_hash_tree()) == self.root_hash();
                self.tree().for_each(|_, v| ok &= v.root_hash() == v.truth());
                ok
            }
            fn wits(&self, q: &[Value]) -> Value {
                q.iter().map(|q| {
                    let k = K::make(q.as_i64().unwrap());
                    let w = self.witness(&k);
                    let mut all = vec![];
                    shown(&w, &mut all);
                    let label = k.as_label().into_owned();
                    let it = all.iter().find(|(l, _)| *l == label);
                    let right = own_hash(&w) == self.root_hash()
                        && match (it, self.get(&k)) { (Some((_, h)), Some(v)) => *h == v.truth(), (None, None) => true, _ => false };
                    json!([q, right, it.is_some()])
                }).collect()
            }
        }
    };
}
tree_coll!(Map);
tree_coll!(RbTree);

impl Coll for Seq<Tracked> {
    fn op(&mut self, o: &Value) -> Value {
        let xs = || list(o, "xs").into_iter().map(|x| Tracked::new(x.as_i64().unwrap() as u32)).collect::<Vec<_>>();
        match o["op"].as_str().unwrap() {
            "app" => self.append(Tracked::fresh(o)),
            "ext" => { let xs = xs(); self.extend(fuse(o, xs.into_iter())) }
            "collect" => { let xs = xs(); *self = fuse(o, xs.into_iter()).collect() }
            "make" => *self = Seq::from(xs()),
            "clear" => self.clear(),
            "clone" => { let _ = self.clone(); }
            "root" => { self.root_hash(); }
            "tree" => { self.as_hash_tree(); }
            x => panic!("script: unknown op {}", x),
        }
        json!({})
    }
    fn len(&self) -> i64 { Seq::len(self) as i64 }
    fn items(&self) -> Value { self.read() }
    fn held(&self) -> usize { self.instances() }
    fn own(&self) -> bool { self.root_hash() == self.truth() && own_hash(&self.as_hash_tree()) == self.truth() }
}

struct Pages(Paged<Tracked, Tracked, 2>);
const KEYS: u32 = 8;
impl Pages {
    fn pages<'a>(&'a self, k: &'a Tracked) -> impl Iterator<Item = &'a Seq<Tracked>> + 'a { (0..).map_while(move |p| self.0.get(k, p)) }
    fn all(&self) -> Vec<(u32, Vec<Value>)> {
        (0..KEYS).filter_map(|k| {
            let v: Vec<Value> = self.pages(&Tracked::new(k)).map(|p| p.read()).collect();
            if v.is_empty() { None } else { Some((k, v)) }
        }).collect()
    }
}
impl Coll for Pages {
    fn op(&mut self, o: &Value) -> Value {
        let k = || Tracked::new(i(o, "k") as u32);
        match o["op"].as_str().unwrap() {
            "ins" => self.0.insert(k(), Tracked::fresh(o)),
            "clear" => self.0 = Default::default(),
            "root" => { self.0.root_hash(); }
            "tree" => { self.0.as_hash_tree(); }
            "last" => { self.0.get_last_page_number(&k()); }
            "lwit" => { self.0.witness_last_page_number(&k()); }
            "get" => { self.0.get(&k(), 0); }
            "wit" => { self.0.witness(&k(), 1); }
            x => panic!("script: unknown op {}", x),
        }
        json!({})
    }
    /// Whether the last page numbers fit is part of it.
    fn len(&self) -> i64 {
        let all = self.all();
        let fits = (0..KEYS).all(|k| {
            let n = all.iter().find(|x| x.0 == k).map(|x| x.1.len() - 1);
            self.0.get_last_page_number(&Tracked::new(k)) == n
        });
        if fits { all.len() as i64 } else { -1 }
    }
    fn items(&self) -> Value { json!(self.all()) }
    fn held(&self) -> usize { (0..KEYS).map(|k| self.pages(&Tracked::new(k)).map(|p| 1 + p.len()).sum::<usize>()).sum() }
    fn own(&self) -> bool {
        let t = self.0.as_hash_tree();
        let mut all = vec![];
        shown(&t, &mut all);
        let pages: usize = self.all().iter().map(|x| x.1.len()).sum();
        own_hash(&t) == self.0.root_hash() && all.len() == pages
            && (0..KEYS).all(|k| self.pages(&Tracked::new(k)).all(|p| p.root_hash() == p.truth()))
    }
    fn wits(&self, q: &[Value]) -> Value {
        q.iter().map(|q| {
            let k = Tracked::new(q.as_i64().unwrap() as u32);
            let w = self.0.witness(&k, 0);
            let mut all = vec![];
            shown(&w, &mut all);
            let mut label = k.as_label().into_owned();
            label.extend([0; 4]);
            let it = all.iter().find(|(l, _)| *l == label);
            let right = own_hash(&w) == self.0.root_hash()
                && own_hash(&self.0.witness_last_page_number(&k)) == self.0.root_hash()
                && match (it, self.0.get(&k, 0)) { (Some((_, h)), Some(v)) => *h == v.truth(), (None, None) => true, _ => false };
            json!([q, right, it.is_some()])
        }).collect()
    }
}

pub struct FaultM(Box<dyn Coll>);
pub fn boxed(o: &Value) -> Box<dyn Machine> {
    Box::new(FaultM(match o["kt"].as_str().unwrap() {
        "map" => Box::new(Map::<Tracked, Tracked>::new()),
        "rb" => Box::new(RbTree::<Tracked, Tracked>::new()),
        "pair" => Box::new(RbTree::<Pair, Tracked>::new()),
        "map-seq" => Box::new(Map::<Tracked, Seq<Tracked>>::new()),
        "rb-seq" => Box::new(RbTree::<Tracked, Seq<Tracked>>::new()),
        "pair-seq" => Box::new(RbTree::<Pair, Seq<Tracked>>::new()),
        "map-map" => Box::new(Map::<Tracked, Map<Tracked, Tracked>>::new()),
        "rb-map" => Box::new(RbTree::<Tracked, Map<Tracked, Tracked>>::new()),
        "seq" => Box::new(Seq::<Tracked>::new()),
        "paged" => Box::new(Pages(Paged::new())),
        k => panic!("script: kind {}", k),
    }))
}
impl Machine for FaultM {
    fn step(&mut self, o: &Value) -> Value {
        let c = &mut self.0;
        if let Some(t) = o["trip"].as_array().filter(|t| !t.is_empty()) { arm(t[0].as_i64().unwrap(), t[1].as_i64().unwrap()) }
        let r = catch_unwind(AssertUnwindSafe(|| c.op(o)));
        disarm();
        let how = match r {
            Ok(_) => "",
            Err(e) => match e.downcast_ref::<&str>() {
                Some(s @ (&"boom" | &"trip")) => *s,
                _ => std::panic::resume_unwind(e),
            },
        };
        let (live, held) = (live().len() as i64, c.held() as i64);
        let mut r = json!({"panicked": how, "len": c.len(), "items": c.items(), "extra": live - held, "fault": false});
        // At times no hash is asked for, so that what comes next finds the collection as it was left.
        if o["quiet"] != true {
            r["own"] = json!(c.own());
            r["wits"] = c.wits(o["q"].as_array().map_or(&[][..], |q| q));
        }
        r["fault"] = json!(fault());
        r
    }
}
