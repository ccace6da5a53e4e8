//! Paged<K, V, S>: items by key, in pages of S.
use crate::kinds::{cost, KeyKind};
use crate::map::{cut_short, i, list, read_as, say};
use crate::tree::*;
use crate::Machine;
use candid::{CandidType, Principal};
use certified_vars::{AsHashTree, HashTree, Paged};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;

pub const SCALE: i64 = 1_000_000;

/// Strings and byte strings of one length.
pub struct KStrFix;
impl KeyKind for KStrFix {
    type K = String;
    fn key(r: i64) -> String { format!("k\0{:03}", r) }
    fn label(r: i64) -> Vec<u8> { Self::key(r).into_bytes() }
}
pub struct KVecFix;
impl KeyKind for KVecFix {
    type K = Vec<u8>;
    fn key(r: i64) -> Vec<u8> { vec![0xff, (r / 16) as u8, (r % 16 * 16) as u8] }
    fn label(r: i64) -> Vec<u8> { Self::key(r) }
}
/// Keys that extend one another by what looks like page numbers (known finding).
pub struct KStrVar;
impl KeyKind for KStrVar {
    type K = String;
    fn key(r: i64) -> String { String::from_utf8(KVecVar::key(r)).unwrap() }
    fn label(r: i64) -> Vec<u8> { KVecVar::key(r) }
}
pub struct KVecVar;
impl KeyKind for KVecVar {
    type K = Vec<u8>;
    fn key(r: i64) -> Vec<u8> {
        let (q, j) = (r / 4, r % 4);
        let mut b = vec![b'a' + q as u8];
        b.extend_from_slice([&[][..], &[0], &[0, 0, 0, 0], &[0, 0, 0, 1, 0]][j as usize]);
        b
    }
    fn label(r: i64) -> Vec<u8> { Self::key(r) }
}
pub struct KUser; // self-authenticating principals
impl KeyKind for KUser {
    type K = Principal;
    fn key(r: i64) -> Principal { Principal::from_slice(&Self::label(r)) }
    fn label(r: i64) -> Vec<u8> { let mut v = vec![0x5a; 29]; v[0] = (r * 2) as u8; v[28] = 2; v }
}

pub trait PItem: AsHashTree + PartialEq + Sized + 'static {
    fn make(x: i64) -> Self;
    fn bytes(x: i64) -> Vec<u8>;
    const TRACKED: bool = false;
    fn id(&self) -> Option<i64> { None }
}
impl PItem for u32 {
    fn make(x: i64) -> u32 { x as u32 * 16_777_259 }
    fn bytes(x: i64) -> Vec<u8> { <u32 as PItem>::make(x).to_be_bytes().to_vec() }
}
impl PItem for String {
    fn make(x: i64) -> String { "é".repeat(x as usize - 1) }
    fn bytes(x: i64) -> Vec<u8> { <String as PItem>::make(x).into_bytes() }
}
impl PItem for bool {
    fn make(x: i64) -> bool { x % 2 == 0 }
    fn bytes(x: i64) -> Vec<u8> { vec![(x % 2 == 0) as u8] }
}

pub type Reload<K, V, const S: usize> = Option<fn(&Paged<K, V, S>, &str) -> Result<(Paged<K, V, S>, bool), String>>;

/// The plain data an encoded paged map has to be interchangeable with.
#[derive(serde::Serialize, serde::Deserialize, CandidType)]
struct PlainKey<K> { key: K, page: u32 }
#[derive(serde::Serialize, serde::Deserialize)]
struct Plain<K: Ord, V> { data: Pairs<K, V> }
#[derive(CandidType, serde::Deserialize)]
struct PlainC<K, V> { data: Vec<(PlainKey<K>, Vec<V>)> }
/// The pairs of a CBOR map in the order in which they come.
struct Pairs<K, V>(Vec<(PlainKey<K>, Vec<V>)>);
impl<K: Serialize, V: Serialize> Serialize for Pairs<K, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 { m.serialize_entry(k, v)? }
        m.end()
    }
}
impl<'de, K: serde::Deserialize<'de>, V: serde::Deserialize<'de>> serde::Deserialize<'de> for Pairs<K, V> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(std::marker::PhantomData<(K, V)>);
        impl<'de, K: serde::Deserialize<'de>, V: serde::Deserialize<'de>> serde::de::Visitor<'de> for Vis<K, V> {
            type Value = Pairs<K, V>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a map") }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Pairs<K, V>, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? { v.push(e) }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(Vis(std::marker::PhantomData))
    }
}

pub fn codec<K, V, const S: usize>() -> Reload<K, V, S>
where
    K: certified_vars::label::Label + Ord + Serialize + DeserializeOwned + CandidType + 'static,
    V: AsHashTree + PartialEq + Serialize + DeserializeOwned + CandidType + 'static,
{
    Some(|p, c| {
        // what was encoded, as plain data: the pages by key and number, in order, none missing
        let same = |v: &[(PlainKey<K>, Vec<V>)]| {
            v.windows(2).all(|w| (&w[0].0.key, w[0].0.page) < (&w[1].0.key, w[1].0.page))
                && v.iter().all(|(k, x)| p.get(&k.key, k.page as usize).map_or(false, |s| s.as_vec() == x))
                && v.iter().enumerate().all(|(n, (k, _))| {
                    let last = n + 1 == v.len() || v[n + 1].0.key != k.key;
                    (p.get_last_page_number(&k.key) == Some(k.page as usize)) == last
                })
        };
        if c == "bad-cbor" {
            return Ok((Paged::new(), cut_short::<Paged<K, V, S>>(&serde_cbor::to_vec(p).map_err(say)?, "cbor")));
        }
        if c == "bad-candid" {
            return Ok((Paged::new(), cut_short::<Paged<K, V, S>>(&candid::encode_one(p).map_err(say)?, "candid")));
        }
        if c != "candid" {
            let b = serde_cbor::to_vec(p).map_err(say)?;
            crate::replica::saw(|| b.clone());
            let v: Plain<K, V> = serde_cbor::from_slice(&b).map_err(say)?;
            let b2 = serde_cbor::to_vec(&v).map_err(say)?;
            let (q, d): (Paged<K, V, S>, Paged<K, V, S>) = (read_as(&b2, c)?, read_as(&b, c)?);
            let inter = b == b2 && same(&v.data.0) && q.root_hash() == d.root_hash() && q.root_hash() == own_hash(&q.as_hash_tree());
            Ok((d, inter))
        } else {
            let b = candid::encode_one(p).map_err(say)?;
            crate::replica::saw(|| b.clone());
            let v: PlainC<K, V> = candid::decode_one(&b).map_err(say)?;
            let b2 = candid::encode_one(&v).map_err(say)?;
            let (q, d): (Paged<K, V, S>, Paged<K, V, S>) = (read_as(&b2, c)?, read_as(&b, c)?);
            let inter = b == b2 && same(&v.data) && q.root_hash() == d.root_hash() && q.root_hash() == own_hash(&q.as_hash_tree());
            Ok((d, inter))
        }
    })
}

pub struct PagedM<KK: KeyKind, V: PItem, const S: usize> where KK::K: Clone {
    p: Paged<KK::K, V, S>,
    labels: HashMap<Vec<u8>, i64>,
    reload: Reload<KK::K, V, S>,
}

impl<KK: KeyKind, V: PItem, const S: usize> PagedM<KK, V, S> where KK::K: Clone {
    pub fn boxed(o: &Value, reload: Reload<KK::K, V, S>) -> Box<dyn Machine> {
        let max = i(o, "max");
        let labels = (1..=max).filter(|r| KK::has(*r)).map(|r| (KK::label(r), r)).collect();
        let p = if o["default"] == true { Paged::default() } else { Paged::new() };
        Box::new(Self { p, labels, reload })
    }
    fn names(&self, s: &certified_vars::Seq<V>) -> Vec<i64> {
        let n = if std::any::TypeId::of::<V>() == std::any::TypeId::of::<bool>() { 2 } else { 9 };
        s.iter().map(|x| (1..=n).find(|y| V::make(*y) == *x).unwrap_or(BAD)).collect()
    }
    /// The hash of a page, from its items.
    fn chain(&self, s: &certified_vars::Seq<V>) -> Hash {
        self.names(s).iter().fold([0; 32], |h, x| if *x == BAD { [0xff; 32] } else { h_chain(&h, &h_leaf(&V::bytes(*x))) })
    }
    /// <<rank, page>> of a label: the key's label and four bytes of page number.
    fn place(&self, l: &[u8]) -> Option<(i64, u32)> {
        let n = l.len().checked_sub(4)?;
        let k = *self.labels.get(&l[..n])?;
        Some((k, u32::from_be_bytes([l[n], l[n + 1], l[n + 2], l[n + 3]])))
    }
    /// The tokens of a tree, and whether the hashes shown are those of the pages.
    fn toks(&self, t: &HashTree) -> (Vec<Value>, bool) {
        let mut ph = true;
        let v = tokens(t, &mut |l, s| {
            let (k, p) = match self.place(l) { Some(x) => x, None => return json!([BAD, BAD]) };
            if p as i64 >= SCALE { return json!([BAD, BAD]) }
            let shown = match s {
                HashTree::Pruned(h) => {
                    if self.p.get(&KK::key(k), p as usize).map(|s| self.chain(s)) != Some(*h) { ph = false }
                    HIDDEN
                }
                _ => BAD,
            };
            json!([k * SCALE + p as i64, shown])
        });
        (v, ph)
    }
    fn wit(&self, t: HashTree) -> (bool, Vec<Value>, bool) {
        let own = own_hash(&t);
        let (v, ph) = self.toks(&t);
        drop(t);
        (own == self.p.root_hash(), v, ph)
    }
}

/// A page number in base 65536.
fn number(d: &Value) -> usize {
    d.as_array().unwrap().iter().fold(0, |n, x| n << 16 | x.as_u64().unwrap() as usize)
}

impl<KK: KeyKind, V: PItem, const S: usize> Machine for PagedM<KK, V, S> where KK::K: Clone {
    fn owned(&self) -> Option<Value> {
        V::TRACKED.then(|| {
            let ks = self.labels.values().copied().collect::<std::collections::BTreeSet<_>>();
            json!(ks.iter().filter_map(|r| {
                let k = KK::key(*r);
                let n = self.p.get_last_page_number(&k)?;
                Some(json!([r, (0..=n).map(|j| self.p.get(&k, j).map_or(vec![], |s| s.iter().filter_map(|x| x.id()).collect())).collect::<Vec<_>>()]))
            }).collect::<Vec<_>>())
        })
    }
    fn hello(&self, o: &Value) -> Value {
        if o["uselabels"] != true { return json!({}); }
        let mut t: Vec<_> = self.labels.iter().map(|(b, r)| json!([r, b])).collect();
        t.sort_by_key(|x| x[0].as_i64());
        json!({"labels": t})
    }
    fn step(&mut self, o: &Value) -> Value {
        let qs = |f: &dyn Fn(&Value) -> Value| -> Value { json!({"r": list(o, "q").iter().map(|q| f(q)).collect::<Vec<_>>()}) };
        match o["op"].as_str().unwrap() {
            "ins" => {
                let (k, x) = (KK::key(i(o, "k")), V::make(i(o, "x")));
                let c = cost(|| self.p.insert(k, x));
                if c.0 > 0 { json!({"cmps": c.0, "labs": c.1}) } else { json!({}) }
            }
            "cost" => {
                let mut r = vec![];
                for q in list(o, "q") {
                    let (k, n) = (KK::key(q[0].as_i64().unwrap()), number(&q[1]));
                    let mut say = |what: &str, c: (i64, i64)| r.push(json!([q[0], what, c.0, c.1]));
                    say("get", cost(|| self.p.get(&k, n)));
                    say("last", cost(|| self.p.get_last_page_number(&k)));
                    say("witness", cost(|| self.p.witness(&k, n)));
                    say("last witness", cost(|| self.p.witness_last_page_number(&k)));
                    say("root_hash", cost(|| self.p.root_hash()));
                }
                json!({"r": r})
            }
            "bulk" => {
                let (k, n, x) = (i(o, "k"), i(o, "n"), i(o, "x"));
                for j in 1..=n { self.p.insert(KK::key(k), V::make(1 + (x + j) % 9)) }
                json!({})
            }
            "reload" | "save" => match (self.reload.expect("script: no codec"))(&self.p, o["codec"].as_str().unwrap()) {
                Ok((d, inter)) => { if o["op"] == "reload" { self.p = d } json!({"res": "ok", "inter": inter}) }
                Err(e) => json!({"res": "error", "inter": false, "msg": e}),
            },
            "badcodec" => json!({"refused":
                (self.reload.expect("script: no codec"))(&self.p, &format!("bad-{}", o["codec"].as_str().unwrap())).map_or(false, |x| x.1)}),
            "get" => qs(&|q| {
                let s = self.p.get(&KK::key(q[0].as_i64().unwrap()), number(&q[1]));
                let ok = s.map_or(true, |s| s.root_hash() == self.chain(s) && s.len() == s.iter().count());
                json!([q[0], q[1], s.map(|s| self.names(s)).into_iter().collect::<Vec<_>>(), ok])
            }),
            "all" => qs(&|q| {
                let k = KK::key(q.as_i64().unwrap());
                let n = self.p.get_last_page_number(&k).map_or(0, |n| n + 1);
                json!([q, (0..n).map(|p| self.p.get(&k, p).map_or(vec![], |s| self.names(s))).collect::<Vec<_>>()])
            }),
            "last" => qs(&|q| {
                let n = self.p.get_last_page_number(&KK::key(q.as_i64().unwrap()));
                json!([q, n.into_iter().collect::<Vec<_>>()])
            }),
            "pwit" => qs(&|q| {
                let (ok, t, ph) = self.wit(self.p.witness(&KK::key(q[0].as_i64().unwrap()), number(&q[1])));
                json!([q[0], q[1], ok, t, ph])
            }),
            "lwit" => qs(&|q| {
                let (ok, t, ph) = self.wit(self.p.witness_last_page_number(&KK::key(q.as_i64().unwrap())));
                json!([q, ok, t, ph])
            }),
            "root" => {
                let h0 = if o["first"] == true { Some(self.p.root_hash()) } else { None };
                let (own, rec, (t, ph)) = {
                    let t = self.p.as_hash_tree();
                    (own_hash(&t), t.reconstruct(), self.toks(&t))
                };
                let h = self.p.root_hash();
                json!({"own": own == h && h0.map_or(true, |x| x == h), "rec": rec == h, "full": t, "ph": ph})
            }
            x => panic!("script: unknown op {}", x),
        }
    }
}
