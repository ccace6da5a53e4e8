//! Prefix queries on byte-string keys and on composite keys.
use crate::map::{i, list};
use crate::tree::*;
use crate::Machine;
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map};
use serde_json::{json, Value};
use std::borrow::{Borrow, Cow};
use std::collections::HashMap;

pub trait PKey: Label + 'static + Prefix<Self::P> {
    type P: Ord + ?Sized;
    fn make(parts: &[u64]) -> Self;
    fn bytes(parts: &[u64]) -> Vec<u8> { parts.iter().map(|x| *x as u8).collect() }
    fn with<R>(parts: &[u64], f: impl FnOnce(&Self::P) -> R) -> R;
}
fn by(p: &[u64]) -> Vec<u8> { p.iter().map(|x| *x as u8).collect() }

impl PKey for String {
    type P = str;
    fn make(p: &[u64]) -> String { String::from_utf8(by(p)).expect("script: utf8") }
    fn with<R>(p: &[u64], f: impl FnOnce(&str) -> R) -> R { f(&Self::make(p)) }
}
impl PKey for Vec<u8> {
    type P = [u8];
    fn make(p: &[u64]) -> Vec<u8> { by(p) }
    fn with<R>(p: &[u64], f: impl FnOnce(&[u8]) -> R) -> R { f(&by(p)) }
}
impl PKey for Box<[u8]> {
    type P = [u8];
    fn make(p: &[u64]) -> Box<[u8]> { by(p).into() }
    fn with<R>(p: &[u64], f: impl FnOnce(&[u8]) -> R) -> R { f(&by(p)) }
}
macro_rules! arr { ($($n:expr),*) => { $(
    impl PKey for [u8; $n] {
        type P = [u8];
        fn make(p: &[u64]) -> [u8; $n] { let mut a = [0; $n]; a.copy_from_slice(&by(p)); a }
        fn with<R>(p: &[u64], f: impl FnOnce(&[u8]) -> R) -> R { f(&by(p)) }
    }
)* } }
arr!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32);

/// A key of two parts, ordered by the first, then the second.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Comp { a: u32, b: u32 }
impl Label for Comp {
    fn as_label(&self) -> Cow<[u8]> {
        let mut v = self.a.to_be_bytes().to_vec();
        v.extend(self.b.to_be_bytes());
        Cow::Owned(v)
    }
}
impl Borrow<u32> for Comp { fn borrow(&self) -> &u32 { &self.a } }
impl Prefix<u32> for Comp {}
impl PKey for Comp {
    type P = u32;
    fn make(p: &[u64]) -> Comp { Comp { a: p[0] as u32, b: p[1] as u32 } }
    fn bytes(p: &[u64]) -> Vec<u8> { let mut v = (p[0] as u32).to_be_bytes().to_vec(); v.extend((p[1] as u32).to_be_bytes()); v }
    fn with<R>(p: &[u64], f: impl FnOnce(&u32) -> R) -> R { assert!(p.len() == 1, "script: prefix"); f(&(p[0] as u32)) }
}
/// The same with a text part.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct CompS { a: String, b: u64 }
impl Label for CompS {
    fn as_label(&self) -> Cow<[u8]> {
        let mut v = self.a.as_bytes().to_vec();
        v.push(0);
        v.extend(self.b.to_be_bytes());
        Cow::Owned(v)
    }
}
impl Borrow<String> for CompS { fn borrow(&self) -> &String { &self.a } }
impl Prefix<String> for CompS {}
fn text(n: u64) -> String { format!("{:03}", n) }
impl PKey for CompS {
    type P = String;
    fn make(p: &[u64]) -> CompS { CompS { a: text(p[0]), b: p[1] } }
    fn bytes(p: &[u64]) -> Vec<u8> { let mut v = text(p[0]).into_bytes(); v.push(0); v.extend(p[1].to_be_bytes()); v }
    fn with<R>(p: &[u64], f: impl FnOnce(&String) -> R) -> R { assert!(p.len() == 1, "script: prefix"); f(&text(p[0])) }
}

enum C<K: 'static + Label> { M(Map<K, u32>), R(RbTree<K, u32>) }
pub struct PrefixM<K: PKey> { c: C<K>, keys: Vec<Vec<u64>>, ranks: HashMap<Vec<u8>, i64> }

fn parts(v: &Value) -> Vec<u64> { v.as_array().expect("script: prefix").iter().map(|x| x.as_u64().unwrap()).collect() }

impl<K: PKey> PrefixM<K> {
    pub fn boxed(o: &Value) -> Box<dyn Machine> {
        let keys: Vec<Vec<u64>> = list(o, "keys").iter().map(parts).collect();
        let ranks = keys.iter().enumerate().map(|(i, k)| (K::bytes(k), i as i64 + 1)).collect();
        let c = if o["flavor"] == "rb" { C::R(RbTree::new()) } else { C::M(Map::new()) };
        Box::new(Self { c, keys, ranks })
    }
    fn key(&self, k: i64) -> K { K::make(&self.keys[k as usize - 1]) }
    fn tree(&self) -> &RbTree<K, u32> { match &self.c { C::M(m) => m.as_tree(), C::R(r) => r } }
    fn rank(&self, k: &K) -> i64 { *self.ranks.get(&k.as_label().into_owned()).unwrap_or(&BAD) }
    fn toks(&self, t: &HashTree) -> Vec<Value> {
        tokens(t, &mut |l, s| {
            let v = match s {
                HashTree::Pruned(_) => HIDDEN,
                HashTree::Leaf(b) if b.len() == 4 => u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as i64,
                _ => BAD,
            };
            json!([self.ranks.get(l).unwrap_or(&BAD), v])
        })
    }
}

impl<K: PKey> Machine for PrefixM<K> {
    fn step(&mut self, o: &Value) -> Value {
        match o["op"].as_str().unwrap() {
            "ins" => {
                let k = self.key(i(o, "k"));
                let v = i(o, "v") as u32;
                match &mut self.c { C::M(m) => { m.insert(k, v); } C::R(m) => { m.insert(k, v); } }
                json!({})
            }
            "rem" => {
                let k = self.key(i(o, "k"));
                match &mut self.c { C::M(m) => { m.remove::<K>(&k); } C::R(m) => { m.delete::<K>(&k); } }
                json!({})
            }
            "pmod" => {
                let (p, v) = (parts(&o["p"]), i(o, "v") as u32);
                let mut calls = 0;
                let ranks = &self.ranks;
                let r = match &mut self.c {
                    C::R(m) => K::with(&p, |p| m.modify_max_with_prefix(p, |k, x| {
                        calls += 1;
                        (*ranks.get(&k.as_label().into_owned()).unwrap_or(&BAD), std::mem::replace(x, v) as i64)
                    })),
                    _ => panic!("script: pmod on a map"),
                };
                json!({"ret": r.map_or(json!([0, 0]), |x| json!([x.0, x.1])), "calls": calls})
            }
            "pmax" => {
                let r: Vec<Value> = list(o, "q").iter().map(|q| {
                    let r = K::with(&parts(q), |p| self.tree().max_entry_with_prefix(p));
                    json!([q, r.map_or(json!([0, 0]), |(k, v)| json!([self.rank(k), *v]))])
                }).collect();
                json!({"r": r})
            }
            "pws" => {
                let root = match &self.c { C::M(m) => m.root_hash(), C::R(m) => m.root_hash() };
                let r: Vec<Value> = list(o, "q").iter().map(|q| {
                    let t = K::with(&parts(q), |p| {
                        let t = match &self.c { C::M(m) => m.witness_keys_with_prefix(p), C::R(m) => m.keys_with_prefix(p) };
                        (own_hash(&t) == root, self.toks(&t))
                    });
                    json!([q, t.0, t.1])
                }).collect();
                json!({"r": r})
            }
            "root" => {
                let t = self.tree().as_hash_tree();
                json!({"own": own_hash(&t) == self.tree().root_hash(), "full": self.toks(&t)})
            }
            x => panic!("script: unknown op {}", x),
        }
    }
}
