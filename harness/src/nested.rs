//! Collections inside collections.
use crate::kinds::rank_string;
use crate::map::{cut_short, i, list, read_as, say, RawMap};
use crate::tree::*;
use crate::Machine;
use candid::CandidType;
use certified_vars::label::Label;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map, Seq};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// Keys by rank.
pub trait RK: Label + Clone + Serialize + CandidType + 'static {
    fn make(r: i64) -> Self;
    fn rank_of(label: &[u8]) -> i64;
}
impl RK for u32 {
    fn make(r: i64) -> u32 { r as u32 }
    fn rank_of(l: &[u8]) -> i64 { if l.len() == 4 { u32::from_be_bytes([l[0], l[1], l[2], l[3]]) as i64 } else { BAD } }
}
impl RK for String {
    fn make(r: i64) -> String { rank_string(r) }
    fn rank_of(l: &[u8]) -> i64 { (1..250).find(|r| rank_string(*r).as_bytes() == l).unwrap_or(BAD) }
}
fn rank<K: RK>(k: &K) -> i64 { K::rank_of(&k.as_label()) }

/// What can be stored at some level.
pub trait Level: AsHashTree + Sized + 'static {
    fn fresh() -> Self;
    fn build(v: &Value) -> Self;
    fn from_op(o: &Value) -> Self { Self::build(&o["items"]) }
    fn dump(&self) -> Value;
    fn consistent(&self) -> bool { true }
    fn chains(&self) -> bool { true }
    /// What the entry holding a value of this type shows.
    fn shown(t: &HashTree) -> Value;
    fn sel<'a>(&'a self, s: &Value, calls: &mut i64) -> HashTree<'a>;
    fn change(&mut self, path: &[Value], via: &[Value], make: bool, o: &Value) -> Option<Value>;
    /// The same data as plain lists: what a CBOR or Candid value of it is made of.
    type Wire: Serialize + CandidType;
    fn wire(v: &Value) -> Self::Wire;
    fn adeep<K: RK>(_m: &mut Map<K, Self>, _k: K, _v: i64) { panic!("script: append_deep") }
    fn ldeep<K: RK>(_m: &mut Map<K, Self>, _k: &K) -> usize { panic!("script: len_deep") }
}

/// Pairs, possibly with a key more than once: a CBOR map, a Candid list of pairs.
pub struct WirePairs<K, W>(Vec<(K, W)>);
impl<K: Serialize, W: Serialize> Serialize for WirePairs<K, W> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { RawMap(&self.0, self.0.len() % 3 == 2).serialize(s) }
}
impl<K: CandidType, W: CandidType> CandidType for WirePairs<K, W> {
    fn _ty() -> candid::types::Type { <Vec<(K, W)>>::_ty() }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> { self.0.idl_serialize(s) }
}

impl Level for u32 {
    type Wire = u32;
    fn wire(v: &Value) -> u32 { v.as_i64().expect("script: value") as u32 }
    fn fresh() -> u32 { 0 }
    fn build(v: &Value) -> u32 { v.as_i64().expect("script: value") as u32 }
    fn from_op(o: &Value) -> u32 { i(o, "v") as u32 }
    fn dump(&self) -> Value { json!(*self) }
    fn shown(t: &HashTree) -> Value {
        match t {
            HashTree::Leaf(b) if b.len() == 4 => json!(u32::from_be_bytes([b[0], b[1], b[2], b[3]])),
            HashTree::Pruned(_) => json!(HIDDEN),
            _ => json!(BAD),
        }
    }
    fn sel<'a>(&'a self, s: &Value, _: &mut i64) -> HashTree<'a> {
        if s["t"] == "pruned" { HashTree::Pruned(self.root_hash()) } else { self.as_hash_tree() }
    }
    fn change(&mut self, _: &[Value], _: &[Value], _: bool, _: &Value) -> Option<Value> { panic!("script: path") }
}

impl Level for Seq<u32> {
    type Wire = Vec<u32>;
    fn wire(v: &Value) -> Vec<u32> { v.as_array().expect("script: items").iter().map(|x| x.as_i64().unwrap() as u32).collect() }
    fn fresh() -> Self { Seq::new() }
    fn build(v: &Value) -> Self {
        let mut s = Seq::new();
        for x in v.as_array().expect("script: items") { s.append(x.as_i64().unwrap() as u32) }
        s
    }
    fn dump(&self) -> Value { json!(self.iter().collect::<Vec<_>>()) }
    fn chains(&self) -> bool {
        let mut h = [0; 32];
        for x in self.iter() { h = h_chain(&h, &h_leaf(&x.to_be_bytes())) }
        h == self.root_hash()
    }
    fn shown(t: &HashTree) -> Value { if let HashTree::Pruned(_) = t { json!(HIDDEN) } else { json!(BAD) } }
    fn sel<'a>(&'a self, s: &Value, _: &mut i64) -> HashTree<'a> {
        if s["t"] == "pruned" { HashTree::Pruned(self.root_hash()) } else { self.as_hash_tree() }
    }
    fn change(&mut self, path: &[Value], _: &[Value], _: bool, o: &Value) -> Option<Value> {
        assert!(path.is_empty(), "script: path");
        match o["op"].as_str().unwrap() {
            "app" => self.append(i(o, "v") as u32),
            "ext" => {
                let v: Vec<u32> = list(o, "items").iter().map(|x| x.as_i64().unwrap() as u32).collect();
                if v.len() % 2 == 0 { self.extend(v.iter()) } else { self.extend(v) }
            }
            "sclear" => self.clear(),
            x => panic!("script: unknown op {}", x),
        }
        Some(json!({}))
    }
    fn adeep<K: RK>(m: &mut Map<K, Self>, k: K, v: i64) { m.append_deep(k, v as u32) }
    fn ldeep<K: RK>(m: &mut Map<K, Self>, k: &K) -> usize { m.len_deep(k) }
}

fn old<L: Level>(v: Option<&L>) -> Value { v.map_or(json!([]), |v| json!([v.dump()])) }

trait Common<K: 'static + Label, L: 'static + AsHashTree> {
    fn tree(&self) -> &RbTree<K, L>;
}
macro_rules! level_for {
    ($t:ident, $tree:expr, $insert:expr, $remove:expr, $clear:expr, $modify:expr, $kr:expr, $vr:expr, $keys:expr,
     $insert_ref:expr, $adeep:expr, $ldeep:expr) => {
impl<K: RK, L: Level> Level for $t<K, L> {
    type Wire = WirePairs<K, L::Wire>;
    fn wire(v: &Value) -> Self::Wire {
        WirePairs(v.as_array().expect("script: items").iter().map(|p| (K::make(p[0].as_i64().unwrap()), L::wire(&p[1]))).collect())
    }
    fn fresh() -> Self { $t::new() }
    fn build(v: &Value) -> Self {
        let mut m = $t::new();
        for p in v.as_array().expect("script: items") { m.insert(K::make(p[0].as_i64().unwrap()), L::build(&p[1])); }
        m
    }
    fn dump(&self) -> Value {
        let tree: &RbTree<K, L> = $tree(self);
        json!(RbTreeIterator::new(tree).map(|(k, v)| json!([rank(k), v.dump()])).collect::<Vec<_>>())
    }
    fn consistent(&self) -> bool {
        let tree: &RbTree<K, L> = $tree(self);
        let mut n = 0;
        let ok = RbTreeIterator::new(tree).all(|(k, v)| { n += 1; self.get(k).map_or(false, |x| std::ptr::eq(x, v)) && v.consistent() });
        ok && n == self.len()
    }
    fn chains(&self) -> bool {
        let tree: &RbTree<K, L> = $tree(self);
        RbTreeIterator::new(tree).all(|(_, v)| v.chains())
    }
    fn shown(t: &HashTree) -> Value {
        if let HashTree::Pruned(_) = t { return json!([[HIDDEN, HIDDEN]]) }
        json!(tokens(t, &mut |l, s| json!([K::rank_of(l), L::shown(s)])))
    }
    fn sel<'a>(&'a self, s: &Value, calls: &mut i64) -> HashTree<'a> {
        match s["t"].as_str().unwrap() {
            "full" => self.as_hash_tree(),
            "pruned" => HashTree::Pruned(self.root_hash()),
            "keys" => $keys(self),
            "kr" => $kr(self, &K::make(i(s, "a")), &K::make(i(s, "b"))),
            "vr" => $vr(self, &K::make(i(s, "a")), &K::make(i(s, "b"))),
            "w" if s["in"].is_null() => self.witness(&K::make(i(s, "k"))),
            "w" => {
                let tree: &'a RbTree<K, L> = $tree(self);
                tree.nested_witness(&K::make(i(s, "k")), |v: &'a L| { *calls += 1; v.sel(&s["in"], &mut 0) })
            }
            x => panic!("script: selection {}", x),
        }
    }
    fn change(&mut self, path: &[Value], via: &[Value], make: bool, o: &Value) -> Option<Value> {
        if !path.is_empty() {
            let k = K::make(path[0].as_i64().unwrap());
            let (p, v) = (&path[1..], &via[1..]);
            return match via[0].as_str().unwrap() {
                "gm" => self.get_mut(&k)?.change(p, v, make, o),
                "ent" => match self.entry(k) {
                    Entry::Occupied(e) => e.into_mut().change(p, v, make, o),
                    Entry::Vacant(e) if make => e.insert(L::fresh()).change(p, v, make, o),
                    _ => None,
                },
                "egm" => match self.entry(k) {
                    Entry::Occupied(mut e) => e.get_mut().change(p, v, make, o),
                    Entry::Vacant(e) if make => e.insert(L::fresh()).change(p, v, make, o),
                    _ => None,
                },
                "eoi" => { assert!(make, "script: eoi makes"); self.entry(k).or_insert_with(L::fresh).change(p, v, make, o) }
                "eam" => {
                    let mut r = None;
                    let mut hit = false;
                    let e = self.entry(k).and_modify(|x| { hit = true; r = x.change(p, v, make, o) });
                    if make { let x = e.or_insert_with(L::fresh); if !hit { return x.change(p, v, make, o) } }
                    r
                }
                "ins" => {
                    assert!(make, "script: ins makes");
                    if self.get(&k).is_none() { return $insert_ref(self, k, L::fresh()).change(p, v, make, o) }
                    self.get_mut(&k)?.change(p, v, make, o)
                }
                "mod" => $modify(self, &k, |x: &mut L| x.change(p, v, make, o)).flatten(),
                x => panic!("script: via {}", x),
            };
        }
        Some(match o["op"].as_str().unwrap() {
            "ins" => json!({"ret": old($insert(self, K::make(i(o, "k")), L::from_op(o)).as_ref())}),
            "rem" => {
                let r: Option<(K, L)> = $remove(self, &K::make(i(o, "k")));
                json!({"ret": old(r.as_ref().map(|x| &x.1))})
            }
            "clear" => { $clear(self); json!({}) }
            "gmw" => json!({"ret": old(self.get_mut(&K::make(i(o, "k"))).map(|x| std::mem::replace(x, L::from_op(o))).as_ref())}),
            "mod" => json!({"ret": old($modify(self, &K::make(i(o, "k")), |x: &mut L| std::mem::replace(x, L::from_op(o))).as_ref())}),
            "adeep" => { $adeep(self, K::make(i(o, "k")), i(o, "v")); json!({}) }
            "ldeep" => json!({"ret": $ldeep(self, &K::make(i(o, "k"))) as i64}),
            x => panic!("script: unknown op {}", x),
        })
    }
}
    };
}
fn id<T>(x: &T) -> &T { x }
level_for!(Map, |m| id::<Map<K, L>>(m).as_tree(), |m: &mut Map<K, L>, k, v| m.insert(k, v),
    |m: &mut Map<K, L>, k: &K| m.remove_entry(k), |m: &mut Map<K, L>| m.clear(),
    (|m, k, f| map_modify(m, k, f)),
    |m: &'a Map<K, L>, a: &K, b: &K| m.witness_key_range::<K, K>(a, b), |m: &'a Map<K, L>, a: &K, b: &K| m.witness_value_range::<K, K>(a, b),
    |m: &'a Map<K, L>| m.witness_keys(),
    map_insert_ref, L::adeep::<K>, L::ldeep::<K>);
level_for!(RbTree, id::<RbTree<K, L>>, |m: &mut RbTree<K, L>, k, v| m.insert(k, v).0,
    |m: &mut RbTree<K, L>, k: &K| m.delete(k), |m: &mut RbTree<K, L>| *m = RbTree::new(),
    (|m, k, f| rb_modify(m, k, f)),
    |m: &'a RbTree<K, L>, a: &K, b: &K| m.key_range(a, b), |m: &'a RbTree<K, L>, a: &K, b: &K| m.value_range(a, b),
    |m: &'a RbTree<K, L>| m.keys(),
    rb_insert_ref, |_: &mut RbTree<K, L>, _: K, _: i64| panic!("script: append_deep"), |_: &mut RbTree<K, L>, _: &K| -> usize { panic!("script: len_deep") });

fn map_modify<K: RK, L: Level, T>(m: &mut Map<K, L>, k: &K, f: impl FnOnce(&mut L) -> T) -> Option<T> { m.get_mut(k).map(f) }
fn rb_modify<K: RK, L: Level, T>(m: &mut RbTree<K, L>, k: &K, f: impl FnOnce(&mut L) -> T) -> Option<T> { m.modify(k, f) }
fn map_insert_ref<K: RK, L: Level>(m: &mut Map<K, L>, k: K, v: L) -> &mut L { m.entry(k).or_insert(v) }
fn rb_insert_ref<K: RK, L: Level>(m: &mut RbTree<K, L>, k: K, v: L) -> &mut L { m.insert(k, v).1 }

#[derive(Clone, Copy)]
pub struct Codec<T: Level> {
    reload: fn(&T, &str) -> Result<(T, bool), String>,
    decode: fn(&T::Wire, &str) -> Result<T, String>,
    bad: fn(&T, &str) -> bool,
}
/// P: the same data as dictionaries; C: as lists of pairs.
pub fn reload<T, P, C>() -> Option<Codec<T>>
where T: Level + Serialize + DeserializeOwned + CandidType, P: Serialize + DeserializeOwned, C: CandidType + DeserializeOwned {
    fn bytes<X: Serialize + CandidType>(x: &X, codec: &str) -> Result<Vec<u8>, String> {
        if codec == "candid" { candid::encode_one(x).map_err(say) } else { serde_cbor::to_vec(x).map_err(say) }
    }
    fn go<T, P, C>(m: &T, codec: &str) -> Result<(T, bool), String>
    where T: Level + Serialize + DeserializeOwned + CandidType, P: Serialize + DeserializeOwned, C: CandidType + DeserializeOwned {
        let b = bytes(m, codec)?;
        crate::replica::saw(|| b.clone());
        let b2 = if codec == "candid" {
            candid::encode_one(&candid::decode_one::<C>(&b).map_err(say)?).map_err(say)?
        } else {
            serde_cbor::to_vec(&serde_cbor::from_slice::<P>(&b).map_err(say)?).map_err(say)?
        };
        let t2: T = read_as(&b2, codec)?;
        let inter = b == b2 && t2.dump() == m.dump() && t2.root_hash() == own_hash(&t2.as_hash_tree());
        Ok((read_as(&b, codec)?, inter))
    }
    Some(Codec { reload: go::<T, P, C>, decode: |w, c| read_as(&bytes(w, c)?, c),
                 bad: |m, c| cut_short::<T>(&bytes(m, c).unwrap(), c) })
}

pub struct NestedM<T: Level> { c: T, codec: Option<Codec<T>> }
impl<T: Level> NestedM<T> {
    pub fn boxed(codec: Option<Codec<T>>) -> Box<dyn Machine> { Box::new(Self { c: T::fresh(), codec }) }
}
impl<T: Level> Machine for NestedM<T> {
    fn step(&mut self, o: &Value) -> Value {
        match o["op"].as_str().unwrap() {
            "dump" => json!({"items": self.c.dump(), "same": self.c.consistent(), "hok": self.c.chains()}),
            "root" => {
                let h0 = if o["first"] == true { Some(self.c.root_hash()) } else { None };
                let (own, rec, full) = {
                    let t = self.c.as_hash_tree();
                    (own_hash(&t), t.reconstruct(), T::shown(&t))
                };
                let h = self.c.root_hash();
                json!({"own": own == h && h0.map_or(true, |x| x == h), "rec": rec == h, "full": full, "hok": self.c.chains()})
            }
            "nw" => {
                let r: Vec<Value> = list(o, "q").iter().map(|s| {
                    let mut calls = 0;
                    let (own, shown) = {
                        let t = self.c.sel(s, &mut calls);
                        (own_hash(&t), T::shown(&t))
                    };
                    json!([s, own == self.c.root_hash(), shown, calls])
                }).collect();
                json!({"r": r})
            }
            "badcodec" => json!({"refused": (self.codec.as_ref().expect("script: no codec").bad)(&self.c, o["codec"].as_str().unwrap())}),
            "decode" => match (self.codec.as_ref().expect("script: no codec").decode)(&T::wire(&o["items"]), o["codec"].as_str().unwrap()) {
                Ok(d) => { self.c = d; json!({"res": "ok"}) }
                Err(e) => json!({"res": "error", "msg": e}),
            },
            "reload" | "save" => match (self.codec.as_ref().expect("script: no codec").reload)(&self.c, o["codec"].as_str().unwrap()) {
                Ok((d, inter)) => { if o["op"] == "reload" { self.c = d } json!({"res": "ok", "inter": inter}) }
                Err(e) => json!({"res": "error", "inter": false, "msg": e}),
            },
            _ => match self.c.change(list(o, "path"), list(o, "via"), o["make"] == true, o) {
                Some(Value::Object(mut r)) => { r.insert("found".into(), json!(true)); Value::Object(r) }
                _ => json!({"found": false}),
            },
        }
    }
}
