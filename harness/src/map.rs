//! Flat maps: Map<K, V> and RbTree<K, V>.
use crate::kinds::*;
use crate::tree::*;
use crate::Machine;
use candid::CandidType;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;

pub enum Coll<K: 'static + certified_vars::label::Label, V: 'static + AsHashTree> {
    M(Map<K, V>),
    R(RbTree<K, V>),
}
macro_rules! both {
    ($c:expr, $x:ident => $e:expr) => { match $c { Coll::M($x) => $e, Coll::R($x) => $e } };
}

/// Encoding and decoding, for the types that support it.
pub struct Codec<K: 'static + certified_vars::label::Label, V: 'static + AsHashTree> {
    reload: fn(&Map<K, V>, &str) -> Result<(Map<K, V>, bool), String>,
    decode: fn(Vec<(K, V)>, &str) -> Result<Map<K, V>, String>,
    bad: fn(&Map<K, V>, &str) -> bool,
}
pub fn codec<K, V>() -> Option<Codec<K, V>>
where
    K: 'static + certified_vars::label::Label + Serialize + DeserializeOwned + CandidType + Clone + Ord,
    V: 'static + AsHashTree + Serialize + DeserializeOwned + CandidType + Clone + PartialEq,
{
    Some(Codec { reload: reload_codec, decode: decode_plain, bad: bad_codec })
}

pub fn say(x: impl std::fmt::Display) -> String { x.to_string() }

/// Decoding by one of the ways there are: CBOR from memory, from a stream; Candid.
pub fn read_as<T: DeserializeOwned + CandidType>(b: &[u8], codec: &str) -> Result<T, String> {
    match codec {
        "cbor" | "cbor-lazy" => serde_cbor::from_slice(b).map_err(say),
        "cbor-reader" => serde_cbor::from_reader(b).map_err(say),
        _ => candid::decode_one(b).map_err(say),
    }
}

/// Input that is cut short is refused.
pub fn cut_short<T: DeserializeOwned + CandidType>(b: &[u8], codec: &str) -> bool {
    let step = 1 + b.len() / 300;
    (0..b.len()).step_by(step).chain([b.len() - 1]).all(|n| read_as::<T>(&b[..n], codec).is_err())
}

/// A CBOR map that may list a key more than once, of a length given or not.
pub struct RawMap<'a, K, V>(pub &'a [(K, V)], pub bool);
impl<K: Serialize, V: Serialize> Serialize for RawMap<'_, K, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(if self.1 { None } else { Some(self.0.len()) })?;
        for (k, v) in self.0 { m.serialize_entry(k, v)? }
        m.end()
    }
}
/// A CBOR list of a length given or not.
pub struct RawList<'a, T>(pub &'a [T], pub bool);
impl<T: Serialize> Serialize for RawList<'_, T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut m = s.serialize_seq(if self.1 { None } else { Some(self.0.len()) })?;
        for x in self.0 { m.serialize_element(x)? }
        m.end()
    }
}

/// Input that is cut short, of another type, or of another type in its last value is refused.
fn bad_codec<K, V>(m: &Map<K, V>, codec: &str) -> bool
where
    K: 'static + certified_vars::label::Label + Serialize + DeserializeOwned + CandidType + Clone,
    V: 'static + AsHashTree + Serialize + DeserializeOwned + CandidType + Clone,
{
    let no = |b: Vec<u8>| read_as::<Map<K, V>>(&b, codec).is_err();
    if codec == "candid" {
        let mut x: Vec<(K, Option<V>)> = m.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
        if let Some(l) = x.last_mut() { l.1 = None }
        cut_short::<Map<K, V>>(&candid::encode_one(m).unwrap(), codec)
            && no(candid::encode_one(7u16).unwrap()) && (x.is_empty() || no(candid::encode_one(&x).unwrap()))
    } else {
        let mut x: Vec<(K, Option<V>)> = m.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
        let some = !x.is_empty();
        if let Some(l) = x.last_mut() { l.1 = None }
        cut_short::<Map<K, V>>(&serde_cbor::to_vec(m).unwrap(), codec)
            && no(serde_cbor::to_vec(&7u16).unwrap()) && no(serde_cbor::to_vec(&vec![1u8, 2]).unwrap())
            && (!some || no(serde_cbor::to_vec(&RawMap(&x, codec == "cbor-lazy")).unwrap()))
    }
}
fn decode_plain<K, V>(from: Vec<(K, V)>, codec: &str) -> Result<Map<K, V>, String>
where
    K: 'static + certified_vars::label::Label + Serialize + DeserializeOwned + CandidType,
    V: 'static + AsHashTree + Serialize + DeserializeOwned + CandidType,
{
    let b = if codec == "candid" { candid::encode_one(&from).map_err(say)? }
        else { serde_cbor::to_vec(&RawMap(&from, codec == "cbor-lazy")).map_err(say)? };
    read_as(&b, codec)
}

pub struct MapM<KK: KeyKind, VK: ValKind> {
    c: Coll<KK::K, VK::V>,
    labels: HashMap<Vec<u8>, i64>,
    values: HashMap<(i64, Vec<u8>), i64>,
    codec: Option<Codec<KK::K, VK::V>>,
}

pub fn reload_codec<K, V>(m: &Map<K, V>, codec: &str) -> Result<(Map<K, V>, bool), String>
where
    K: 'static + certified_vars::label::Label + Serialize + DeserializeOwned + CandidType + Clone + Ord,
    V: 'static + AsHashTree + Serialize + DeserializeOwned + CandidType + Clone + PartialEq,
{
    let mut plain: Vec<(K, V)> = vec![];
    for (k, v) in m.iter() {
        plain.push((k.clone(), v.clone()));
    }
    let same = |d: &Map<K, V>| {
        let mut i = plain.iter();
        d.iter().all(|(k, v)| i.next().map_or(false, |(a, b)| a == k && b == v)) && i.next().is_none()
    };
    if codec != "candid" {
        let b = serde_cbor::to_vec(m).map_err(say)?;
        crate::replica::saw(|| b.clone());
        // interchangeable with a dictionary, in both directions
        let bt: std::collections::BTreeMap<K, V> = read_as_plain(&b)?;
        let b2 = serde_cbor::to_vec(&bt).map_err(say)?;
        let d2: Map<K, V> = read_as(&b2, codec)?;
        let inter = b2 == b && bt.into_iter().collect::<Vec<_>>() == plain && same(&d2);
        Ok((read_as(&b, codec)?, inter))
    } else {
        let b = candid::encode_one(m).map_err(say)?;
        crate::replica::saw(|| b.clone());
        // interchangeable with a list of pairs, in both directions
        let v: Vec<(K, V)> = candid::decode_one(&b).map_err(say)?;
        let b2 = candid::encode_one(&v).map_err(say)?;
        let d2: Map<K, V> = candid::decode_one(&b2).map_err(say)?;
        let inter = b2 == b && v == plain && same(&d2);
        Ok((candid::decode_one(&b).map_err(say)?, inter))
    }
}
fn read_as_plain<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> { serde_cbor::from_slice(b).map_err(say) }

pub fn i(o: &Value, f: &str) -> i64 {
    o[f].as_i64().unwrap_or_else(|| panic!("script: field {} in {}", f, o))
}
pub fn list<'a>(o: &'a Value, f: &str) -> &'a Vec<Value> {
    o[f].as_array().unwrap_or_else(|| panic!("script: list {} in {}", f, o))
}

impl<KK: KeyKind, VK: ValKind> MapM<KK, VK> {
    pub fn boxed(o: &Value, codec: Option<Codec<KK::K, VK::V>>) -> Box<dyn Machine> {
        let (max, nv) = (i(o, "max"), i(o, "nv"));
        let mut labels = HashMap::new();
        let mut values = HashMap::new();
        for r in 1..=max {
            if KK::has(r) {
                labels.insert(KK::label(r), r);
            }
            for v in (1..=nv).chain([DEFAULT_ID]) {
                values.insert((r, VK::bytes(&VK::val(r, v))), v);
            }
        }
        let c = if o["flavor"] == "rb" { Coll::R(RbTree::new()) } else { Coll::M(Map::new()) };
        Box::new(Self { c, labels, values, codec })
    }
    fn rank(&self, l: &[u8]) -> i64 {
        *self.labels.get(l).unwrap_or(&BAD)
    }
    fn vid(&self, k: i64, v: &VK::V) -> i64 {
        *self.values.get(&(k, VK::bytes(v))).unwrap_or(&BAD)
    }
    fn vid_opt(&self, k: i64, v: Option<&VK::V>) -> i64 {
        crate::own::saw(v.and_then(VK::id));
        v.map_or(0, |v| self.vid(k, v))
    }
    fn kid(&self, k: &KK::K) -> i64 {
        self.rank(&k.as_label_bytes())
    }
    fn toks(&self, t: &HashTree) -> Vec<Value> {
        tokens(t, &mut |l, s| {
            let k = self.rank(l);
            let v = match s {
                HashTree::Pruned(_) => HIDDEN,
                HashTree::Leaf(b) => *self.values.get(&(k, b.to_vec())).unwrap_or(&BAD),
                _ => BAD,
            };
            json!([k, v])
        })
    }
    /// A witness as the verifier sees it: does it hash to the root, and its tokens.
    fn wit(&self, t: HashTree) -> (bool, Vec<Value>) {
        let own = own_hash(&t);
        let toks = self.toks(&t);
        drop(t);
        (own == self.root(), toks)
    }
    fn root(&self) -> Hash {
        both!(&self.c, c => c.root_hash())
    }
    fn entry(&mut self, k: i64) -> Entry<'_, KK::K, VK::V> {
        match &mut self.c {
            Coll::M(m) => m.entry(KK::key(k)),
            Coll::R(m) => m.entry(KK::key(k)),
        }
    }
    fn witness(&self, q: i64) -> HashTree<'_> {
        match &self.c {
            Coll::M(m) => m.witness(&KK::key(q)),
            Coll::R(m) => m.witness(&KK::key(q)),
        }
    }
    fn range(&self, a: i64, b: i64, vals: bool) -> HashTree<'_> {
        let (a, b) = (KK::key(a), KK::key(b));
        match (&self.c, vals) {
            (Coll::M(m), false) => m.witness_key_range::<KK::K, KK::K>(&a, &b),
            (Coll::M(m), true) => m.witness_value_range::<KK::K, KK::K>(&a, &b),
            (Coll::R(m), false) => m.key_range(&a, &b),
            (Coll::R(m), true) => m.value_range(&a, &b),
        }
    }
    fn iter(&self) -> RbTreeIterator<'_, KK::K, VK::V> {
        match &self.c {
            Coll::M(m) => m.iter(),
            Coll::R(m) => RbTreeIterator::new(m),
        }
    }
    fn tree(&self) -> &RbTree<KK::K, VK::V> {
        match &self.c {
            Coll::M(m) => m.as_tree(),
            Coll::R(m) => m,
        }
    }
    /// What the debug output lists, for maps of numbers.
    fn shown(&self) -> Option<Vec<Value>> {
        use std::any::Any;
        let Coll::M(m) = &self.c else { return None };
        let text = format!("{:?}", (m as &dyn Any).downcast_ref::<Map<u32, u32>>()?);
        let text = text.strip_prefix('{')?.strip_suffix('}')?;
        text.split_terminator(", ").map(|x| {
            let (k, v) = x.split_once(": ")?;
            let (k, v): (u32, u32) = (k.parse().ok()?, v.parse().ok()?);
            let k = self.kid((&k as &dyn Any).downcast_ref()?);
            Some(json!([k, self.vid(k, (&v as &dyn Any).downcast_ref()?)]))
        }).collect()
    }
    fn items(&self) -> Vec<Value> {
        self.iter().map(|(k, v)| { let k = self.kid(k); json!([k, self.vid(k, v)]) }).collect()
    }
}

/// as_label() as owned bytes.
pub trait LabelBytes {
    fn as_label_bytes(&self) -> Vec<u8>;
}
impl<T: certified_vars::label::Label> LabelBytes for T {
    fn as_label_bytes(&self) -> Vec<u8> {
        self.as_label().into_owned()
    }
}

impl<KK: KeyKind, VK: ValKind> Machine for MapM<KK, VK> {
    fn hello(&self, o: &Value) -> Value {
        if o["uselabels"] != true { return json!({}); }
        let mut t: Vec<_> = self.labels.iter().map(|(b, r)| json!([r, b])).collect();
        t.sort_by_key(|x| x[0].as_i64());
        json!({"labels": t})
    }
    fn owned(&self) -> Option<Value> {
        self.iter().map(|(k, v)| Some(json!([self.kid(k), KK::id(k)?, VK::id(v)?]))).collect::<Option<Vec<_>>>()
            .filter(|v| !v.is_empty() || KK::TRACKED).map(|v| json!(v))
    }
    fn step(&mut self, o: &Value) -> Value {
        CMPS.with(|c| c.set(0));
        LABS.with(|c| c.set(0));
        let mut r = self.op(o);
        let (c, b) = (CMPS.with(|c| c.get()), LABS.with(|c| c.get()));
        if c > 0 { r["cmps"] = json!(c); r["labs"] = json!(b) }
        r
    }
}

impl<KK: KeyKind, VK: ValKind> MapM<KK, VK> {
    fn op(&mut self, o: &Value) -> Value {
        let op = o["op"].as_str().unwrap();
        match op {
            // ---- changes
            "ins" => {
                let (k, v) = (i(o, "k"), i(o, "v"));
                let old = match &mut self.c {
                    Coll::M(m) => m.insert(KK::key(k), VK::val(k, v)),
                    Coll::R(m) => m.insert(KK::key(k), VK::val(k, v)).0,
                };
                json!({"ret": self.vid_opt(k, old.as_ref())})
            }
            "insw" => {
                let (k, v, w) = (i(o, "k"), i(o, "v"), i(o, "w"));
                if let Coll::R(m) = &mut self.c {
                    let (old, r) = m.insert(KK::key(k), VK::val(k, v));
                    let seen = r.clone();
                    *r = VK::val(k, w);
                    json!({"ret": self.vid_opt(k, old.as_ref()), "seen": self.vid(k, &seen)})
                } else {
                    // a map offers the returned reference through get_mut only
                    let old = both_insert(&mut self.c, KK::key(k), VK::val(k, v));
                    let mut seen = None;
                    if let Coll::M(m) = &mut self.c {
                        if let Some(r) = m.get_mut(&KK::key(k)) {
                            seen = Some(r.clone());
                            *r = VK::val(k, w);
                        }
                    }
                    json!({"ret": self.vid_opt(k, old.as_ref()), "seen": self.vid_opt(k, seen.as_ref())})
                }
            }
            "rem" => {
                let k = i(o, "k");
                let old = match &mut self.c {
                    Coll::M(m) => m.remove(&KK::key(k)),
                    Coll::R(m) => m.delete(&KK::key(k)).map(|x| x.1),
                };
                json!({"ret": self.vid_opt(k, old.as_ref())})
            }
            "reme" => {
                let k = i(o, "k");
                let old = match &mut self.c {
                    Coll::M(m) => m.remove_entry(&KK::key(k)),
                    Coll::R(m) => m.delete(&KK::key(k)),
                };
                if let Some((a, b)) = &old { crate::own::saw(KK::id(a)); crate::own::saw(VK::id(b)) }
                json!({"ret": old.map_or(json!([0, 0]), |(a, b)| json!([self.kid(&a), self.vid(k, &b)]))})
            }
            "clear" => {
                match &mut self.c {
                    Coll::M(m) => m.clear(),
                    Coll::R(m) => *m = RbTree::default(),
                }
                json!({})
            }
            "mod" => {
                let (k, v) = (i(o, "k"), i(o, "v"));
                let old = match &mut self.c {
                    Coll::R(m) => m.modify(&KK::key(k), |x| std::mem::replace(x, VK::val(k, v))),
                    Coll::M(m) => m.get_mut(&KK::key(k)).map(|x| std::mem::replace(x, VK::val(k, v))),
                };
                json!({"ret": self.vid_opt(k, old.as_ref())})
            }
            "gmw" => {
                let (k, v) = (i(o, "k"), i(o, "v"));
                let f = |x: &mut VK::V| std::mem::replace(x, VK::val(k, v));
                let old = match &mut self.c {
                    Coll::M(m) => m.get_mut(&KK::key(k)).map(f),
                    Coll::R(m) => match m.entry(KK::key(k)) {
                        Entry::Occupied(mut e) => Some(f(e.get_mut())),
                        Entry::Vacant(_) => None,
                    },
                };
                json!({"ret": self.vid_opt(k, old.as_ref())})
            }
            "fromiter" => {
                let mut from = vec![];
                for p in list(o, "items") {
                    let (k, v) = (p[0].as_i64().unwrap(), p[1].as_i64().unwrap());
                    from.push((KK::key(k), VK::val(k, v)));
                }
                self.c = match &self.c {
                    Coll::M(_) => Coll::M(from.into_iter().collect()),
                    Coll::R(_) => {
                        let mut t = RbTree::new();
                        for (k, v) in from { t.insert(k, v); }
                        Coll::R(t)
                    }
                };
                json!({})
            }
            "reload" | "save" => {
                let codec = o["codec"].as_str().unwrap();
                let m = match (&self.c, &self.codec) {
                    (Coll::M(m), Some(f)) => (f.reload)(m, codec),
                    _ => panic!("script: no codec"),
                };
                match m {
                    Ok((d, inter)) => { if op == "reload" { self.c = Coll::M(d) } json!({"res": "ok", "inter": inter}) }
                    Err(e) => json!({"res": "error", "inter": false, "msg": e}),
                }
            }
            "decode" => {
                let from = list(o, "items").iter().map(|p| {
                    let (k, v) = (p[0].as_i64().unwrap(), p[1].as_i64().unwrap());
                    (KK::key(k), VK::val(k, v))
                }).collect();
                match (self.codec.as_ref().expect("script: no codec").decode)(from, o["codec"].as_str().unwrap()) {
                    Ok(d) => { self.c = Coll::M(d); json!({"res": "ok"}) }
                    Err(e) => json!({"res": "error", "msg": e}),
                }
            }
            "badcodec" => match (&self.c, &self.codec) {
                (Coll::M(m), Some(f)) => json!({"refused": (f.bad)(m, o["codec"].as_str().unwrap())}),
                _ => panic!("script: no codec"),
            },
            // ---- entries
            "eoi" | "eoiw" | "eoik" | "eod" => {
                let (k, v, w) = (i(o, "k"), i(o, "v"), i(o, "w"));
                let e = self.entry(k);
                let mut called = 0;
                let r = match op {
                    "eoi" => e.or_insert(VK::val(k, v)),
                    "eoiw" => e.or_insert_with(|| { called += 1; VK::val(k, v) }),
                    "eoik" => {
                        let want = KK::label(k);
                        e.or_insert_with_key(|kk| { called += 1; if kk.as_label_bytes() == want { VK::val(k, v) } else { VK::V::default() } })
                    }
                    _ => e.or_default(),
                };
                let seen = r.clone();
                if w != 0 { *r = VK::val(k, w) }
                json!({"seen": self.vid(k, &seen), "called": called})
            }
            "eam" => {
                let (k, v, w) = (i(o, "k"), i(o, "v"), i(o, "w"));
                let mut before = None;
                let mut called = 0;
                let e = self.entry(k).and_modify(|x| { called += 1; before = Some(std::mem::replace(x, VK::val(k, v))) });
                let mut after = None;
                if w != 0 { after = Some(e.or_insert(VK::val(k, w)).clone()) }
                json!({"ret": self.vid_opt(k, before.as_ref()), "seen": self.vid_opt(k, after.as_ref()), "called": called})
            }
            "erem" => {
                let k = i(o, "k");
                let old = match self.entry(k) {
                    Entry::Occupied(e) => Some(e.remove()),
                    Entry::Vacant(_) => None,
                };
                json!({"ret": self.vid_opt(k, old.as_ref())})
            }
            "ereme" => {
                let k = i(o, "k");
                let old = match self.entry(k) {
                    Entry::Occupied(e) => Some(e.remove_entry()),
                    Entry::Vacant(_) => None,
                };
                if let Some((a, b)) = &old { crate::own::saw(KK::id(a)); crate::own::saw(VK::id(b)) }
                json!({"ret": old.map_or(json!([0, 0]), |(a, b)| json!([self.kid(&a), self.vid(k, &b)]))})
            }
            "eget" => {
                let k = i(o, "k");
                let (occ, key, into, v) = match self.entry(k) {
                    Entry::Occupied(e) => {
                        let key = e.key().as_label_bytes();
                        let v = e.get().clone();
                        (1, key.clone(), Entry::Occupied(e).key().as_label_bytes(), Some(v))
                    }
                    Entry::Vacant(e) => {
                        let key = e.key().as_label_bytes();
                        (0, key, e.into_key().as_label_bytes(), None)
                    }
                };
                json!({"occ": occ, "key": self.rank(&key), "into": self.rank(&into), "ret": self.vid_opt(k, v.as_ref())})
            }
            "egmw" => {
                let (k, v) = (i(o, "k"), i(o, "v"));
                let (old, now) = match self.entry(k) {
                    Entry::Occupied(mut e) => {
                        let old = std::mem::replace(e.get_mut(), VK::val(k, v));
                        (Some(old), Some(e.get().clone()))
                    }
                    Entry::Vacant(_) => (None, None),
                };
                json!({"ret": self.vid_opt(k, old.as_ref()), "seen": self.vid_opt(k, now.as_ref())})
            }
            "eimw" => {
                let (k, v) = (i(o, "k"), i(o, "v"));
                let old = match self.entry(k) {
                    Entry::Occupied(e) => Some(std::mem::replace(e.into_mut(), VK::val(k, v))),
                    Entry::Vacant(_) => None,
                };
                json!({"ret": self.vid_opt(k, old.as_ref())})
            }
            "evi" => {
                let (k, v, w) = (i(o, "k"), i(o, "v"), i(o, "w"));
                let seen = match self.entry(k) {
                    Entry::Vacant(e) => {
                        let r = e.insert(VK::val(k, v));
                        let seen = r.clone();
                        if w != 0 { *r = VK::val(k, w) }
                        Some(seen)
                    }
                    Entry::Occupied(_) => None,
                };
                json!({"seen": self.vid_opt(k, seen.as_ref())})
            }
            // ---- reads
            "obs" => {
                let mut fe = vec![];
                let tree: &RbTree<KK::K, VK::V> = match &self.c { Coll::M(m) => m.as_ref(), Coll::R(m) => m };
                tree.for_each(|k, v| { let k = self.kid(k); fe.push(json!([k, self.vid(k, v)])) });
                let mut hints = vec![];
                let mut it = self.iter();
                loop {
                    let (lo, hi) = it.size_hint();
                    hints.push(if hi == Some(lo) { lo as i64 } else { BAD });
                    if it.next().is_none() { break }
                }
                if it.next().is_some() { hints.push(BAD) }
                let gets: Vec<Value> = list(o, "q").iter().map(|q| {
                    let q = q.as_i64().unwrap();
                    let key = KK::key(q);
                    let a = match &self.c { Coll::M(m) => m.get(&key), Coll::R(m) => m.get(&key) };
                    let b = self.tree().get_with(|k| key.cmp(k));
                    json!([q, self.vid_opt(q, a), self.vid_opt(q, b)])
                }).collect();
                let n = both!(&self.c, c => c.len());
                let shown = if n < 100 { self.shown() } else { None };
                let mut r = json!({"len": n as i64, "empty": both!(&self.c, c => c.is_empty()),
                       "items": self.items(), "fe": fe, "hints": hints, "gets": gets});
                if let Some(x) = shown { r["shown"] = x.into() }
                r
            }
            "root" => {
                // `first` says whether the hash or the tree is asked for first
                let h0 = if o["first"] == true { Some(self.root()) } else { None };
                let (own, rec, toks) = {
                    let t = both!(&self.c, c => c.as_hash_tree());
                    (own_hash(&t), t.reconstruct(), self.toks(&t))
                };
                let h = self.root();
                json!({"own": own == h && h0.map_or(true, |x| x == h), "rec": rec == h, "full": toks})
            }
            "sha" => {
                let h = self.root();
                let t = both!(&self.c, c => c.as_hash_tree());
                json!({"tree": tree_json(&t), "hash": h})
            }
            "shape" => {
                let t = both!(&self.c, c => c.as_hash_tree());
                let wd = list(o, "q").iter().map(|q| fork_depth_witness(&self.witness(q.as_i64().unwrap()))).max().unwrap_or(0);
                let n = both!(&self.c, c => c.len()) as i64;
                let mut r = json!({"depth": fork_depth(&t), "wdepth": wd, "n": n});
                if o["tree"] == true { r["tree"] = shape(&t, &|l| self.rank(l)); }
                r
            }
            "cost" => {
                let mut r = vec![];
                for q in list(o, "q") {
                    let k = q.as_i64().unwrap();
                    let key = KK::key(k);
                    let mut say = |what: &str, c: (i64, i64)| r.push(json!([k, what, c.0, c.1]));
                    say("get", match &self.c { Coll::M(m) => cost(|| m.get(&key)), Coll::R(m) => cost(|| m.get(&key)) });
                    say("get_with", cost(|| self.tree().get_with(|x| key.cmp(x))));
                    say("witness", match &self.c { Coll::M(m) => cost(|| m.witness(&key)), Coll::R(m) => cost(|| m.witness(&key)) });
                    say("nested_witness", cost(|| self.tree().nested_witness(&key, |v| v.as_hash_tree())));
                    say("get_mut", match &mut self.c { Coll::M(m) => cost(|| m.get_mut(&key).is_some()), Coll::R(m) => cost(|| m.get_mut(&key).is_some()) });
                    say("entry", match &mut self.c { Coll::M(m) => cost(|| { m.entry(KK::key(k)).key(); }), Coll::R(m) => cost(|| { m.entry(KK::key(k)).key(); }) });
                    say("root_hash", both!(&self.c, c => cost(|| c.root_hash())));
                    say("len", both!(&self.c, c => cost(|| (c.len(), c.is_empty()))));
                }
                json!({"r": r})
            }
            "wits" => {
                let r: Vec<Value> = list(o, "q").iter().map(|q| {
                    let q = q.as_i64().unwrap();
                    let (ok, t) = self.wit(self.witness(q));
                    json!([q, ok, t])
                }).collect();
                json!({"r": r})
            }
            "krs" | "vrs" => {
                let r: Vec<Value> = list(o, "q").iter().map(|q| {
                    let (a, b) = (q[0].as_i64().unwrap(), q[1].as_i64().unwrap());
                    let (ok, t) = self.wit(self.range(a, b, op == "vrs"));
                    json!([a, b, ok, t])
                }).collect();
                json!({"r": r})
            }
            "keys" => {
                let t = match &self.c { Coll::M(m) => m.witness_keys(), Coll::R(m) => m.keys() };
                let (ok, t) = self.wit(t);
                json!({"ok": ok, "toks": t})
            }
            "inside" => {
                // reads made while another read is under way
                let q = list(o, "q")[0].as_i64().unwrap();
                let key = KK::key(list(o, "q")[1].as_i64().unwrap());
                let mut r = vec![];
                let mut seen = |place: &str| {
                    let before = self.root();
                    let (ok, toks) = self.wit(self.witness(q));
                    let t = both!(&self.c, c => c.as_hash_tree());
                    let own = own_hash(&t) == before && self.root() == before;
                    let mut fe = vec![];
                    self.tree().for_each(|k, v| { let k = self.kid(k); fe.push(json!([k, self.vid(k, v)])) });
                    r.push(json!([place, both!(&self.c, c => c.len()), self.items(), q,
                                  self.vid_opt(q, self.tree().get_with(|k| KK::key(q).cmp(k))), toks, ok && own, fe]));
                };
                let h = {
                    let t = self.tree().nested_witness(&key, |v| { seen("nested_witness"); v.as_hash_tree() });
                    own_hash(&t)
                };
                let pending = self.witness(q);
                let mut n = 0;
                let (mut whole, mut visited) = (vec![], vec![]);
                self.tree().for_each(|k, v| {
                    n += 1;
                    if n < 3 { seen("for_each") }
                    let k = self.kid(k);
                    visited.push(json!([k, self.vid(k, v)]));
                });
                n = 0;
                for (k, v) in self.iter() {
                    n += 1;
                    if n < 3 { seen("iteration") }
                    let k = self.kid(k);
                    whole.push(json!([k, self.vid(k, v)]));
                }
                seen("a witness held");
                let ok = own_hash(&pending) == self.root() && h == self.root();
                json!({"r": r, "items": whole, "fe": visited, "ok": ok})
            }
            _ => panic!("script: unknown op {}", op),
        }
    }
}

fn both_insert<K: 'static + certified_vars::label::Label, V: 'static + AsHashTree>(c: &mut Coll<K, V>, k: K, v: V) -> Option<V> {
    match c { Coll::M(m) => m.insert(k, v), Coll::R(m) => m.insert(k, v).0 }
}

/// Forks from the root of a witness down to its deepest node.
fn fork_depth_witness(t: &HashTree) -> i64 {
    fork_depth(t)
}
