//! A group of collections whose certificates are given to a client as bytes.
//! Keys, values and path labels are byte strings in the script.
use crate::map::{list, read_as, say};
use crate::tree::{h_empty, h_fork, h_labeled, h_leaf, Hash};
use crate::Machine;
use certified_vars::label::Label;
use certified_vars::{AsHashTree, Group, GroupBuilder, HashTree, Map, Paged, Seq};
use candid::CandidType;
use serde::{de::DeserializeOwned, Serialize};
use serde_cbor::Value as Cbor;
use serde_json::{json, Value};

fn bytes(v: &Value) -> Vec<u8> { v.as_array().expect("script: bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn text(v: &Value) -> String { String::from_utf8(bytes(v)).expect("script: text") }
fn num(v: &Value) -> u64 { bytes(v).iter().fold(0, |n, b| n << 8 | *b as u64) }

trait Key: Label + Ord + Clone + Serialize + DeserializeOwned + CandidType + 'static {
    fn key(v: &Value) -> Self;
    fn with_prefix<'a, V: AsHashTree>(_: &'a Map<Self, V>, _: &Value) -> HashTree<'a> { panic!("script: prefix") }
}
impl Key for u32 { fn key(v: &Value) -> u32 { num(v) as u32 } }
impl Key for String {
    fn key(v: &Value) -> String { text(v) }
    fn with_prefix<'a, V: AsHashTree>(m: &'a Map<String, V>, p: &Value) -> HashTree<'a> { m.witness_keys_with_prefix(&text(p)[..]) }
}
impl Key for Vec<u8> {
    fn key(v: &Value) -> Vec<u8> { bytes(v) }
    fn with_prefix<'a, V: AsHashTree>(m: &'a Map<Vec<u8>, V>, p: &Value) -> HashTree<'a> { m.witness_keys_with_prefix(&bytes(p)[..]) }
}

/// Anything at the end of a path.
trait Node: AsHashTree + Serialize + DeserializeOwned + CandidType + 'static {
    fn fresh() -> Self;
    fn change(&mut self, keys: &[Value], o: &Value);
    fn sel<'a>(&'a self, r: &Value) -> HashTree<'a>;
    /// Saved and loaded again.
    fn reload(&mut self, codec: &str) {
        let b = if codec == "candid" { candid::encode_one(&*self).map_err(say) } else { serde_cbor::to_vec(self).map_err(say) };
        *self = b.and_then(|b| read_as(&b, codec)).expect("saving and loading")
    }
}
fn plain<'a, T: AsHashTree>(x: &'a T, r: &Value) -> HashTree<'a> {
    match r["how"].as_str().unwrap() {
        "full" => x.as_hash_tree(),
        "pruned" => HashTree::Pruned(x.root_hash()),
        h => panic!("script: how {}", h),
    }
}
macro_rules! leaves { ($($t:ty, $zero:expr, $f:expr;)*) => { $(
    impl Node for $t {
        fn fresh() -> $t { $zero }
        fn change(&mut self, keys: &[Value], o: &Value) {
            assert!(keys.is_empty(), "script: keys");
            let f: fn(&Value) -> $t = $f;
            *self = f(&o["v"])
        }
        fn sel<'a>(&'a self, r: &Value) -> HashTree<'a> { plain(self, r) }
    }
)* } }
leaves! { u32, 0, |v| num(v) as u32; u64, 0, num; String, String::new(), text; }

macro_rules! seqs { ($($t:ty)*) => { $(
    impl Node for Seq<$t> {
        fn fresh() -> Self { Seq::new() }
        fn change(&mut self, keys: &[Value], o: &Value) {
            assert!(keys.is_empty(), "script: keys");
            match o["op"].as_str().unwrap() {
                "push" => self.append(num(&o["v"]) as $t),
                "clear" => self.clear(),
                "sub" => {}
                x => panic!("script: {}", x),
            }
        }
        fn sel<'a>(&'a self, r: &Value) -> HashTree<'a> { plain(self, r) }
    }
)* } }
seqs!(u32 u64);

impl<K: Key, V: Node> Node for Map<K, V> {
    fn fresh() -> Self { Map::new() }
    fn change(&mut self, keys: &[Value], o: &Value) {
        if keys.is_empty() {
            match o["op"].as_str().unwrap() { "clear" => self.clear(), "sub" => {} x => panic!("script: {}", x) }
            return;
        }
        let (k, rest) = (K::key(&keys[0]), &keys[1..]);
        match (o["op"].as_str().unwrap(), rest.len()) {
            ("del", 0) => { self.remove(&k); }
            ("del", _) | ("clear", _) => if let Some(v) = self.get_mut(&k) { v.change(rest, o) }
            (_, 0) if o["via"] == "insert" => {
                let mut v = V::fresh();
                v.change(rest, o);
                self.insert(k, v);
            }
            _ => self.entry(k).or_insert_with(V::fresh).change(rest, o),
        }
    }
    fn sel<'a>(&'a self, r: &Value) -> HashTree<'a> {
        let k = |f: &str| K::key(&r[f]);
        match r["how"].as_str().unwrap() {
            "wit" => self.witness(&k("a")),
            "kr" => self.witness_key_range::<K, K>(&k("a"), &k("b")),
            "vr" => self.witness_value_range::<K, K>(&k("a"), &k("b")),
            "keys" => self.witness_keys(),
            "prefix" => K::with_prefix(self, &r["a"]),
            "in" => self.as_tree().nested_witness(&k("a"), |v| v.sel(&r["in"])),
            _ => plain(self, r),
        }
    }
}
type Pages = Paged<u32, u32, 2>;
impl Node for Pages {
    fn fresh() -> Self { Paged::new() }
    fn change(&mut self, keys: &[Value], o: &Value) {
        assert!(o["op"] == "push", "script: paged");
        self.insert(u32::key(&keys[0]), num(&o["v"]) as u32)
    }
    fn sel<'a>(&'a self, r: &Value) -> HashTree<'a> {
        match r["how"].as_str().unwrap() {
            "page" => Paged::witness(self, &u32::key(&r["a"]), num(&r["b"]) as usize),
            "last" => self.witness_last_page_number(&u32::key(&r["a"])),
            _ => plain(self, r),
        }
    }
}

macro_rules! with {
    ($n:expr, $T:ident => $e:expr) => {
        match $n {
            "ms" => { type $T = Map<String, u32>; $e }
            "mu" => { type $T = Map<u32, String>; $e }
            "mm" => { type $T = Map<Vec<u8>, Map<u32, u32>>; $e }
            "mq" => { type $T = Map<u32, Seq<u32>>; $e }
            "m3" => { type $T = Map<String, Map<u32, Seq<u32>>>; $e }
            "pg" => { type $T = Pages; $e }
            "sq" => { type $T = Seq<u64>; $e }
            "nu" => { type $T = u64; $e }
            "tx" => { type $T = String; $e }
            x => panic!("script: member {}", x),
        }
    };
}

/// The hash of the tree in the certificate, by the certificate rules.
fn hash_of(v: &Cbor) -> Option<Hash> {
    let a = if let Cbor::Array(a) = v { a } else { return None };
    let b = |i: usize| if let Some(Cbor::Bytes(b)) = a.get(i) { Some(b) } else { None };
    match (a.get(0)?, a.len()) {
        (Cbor::Integer(0), 1) => Some(h_empty()),
        (Cbor::Integer(1), 3) => Some(h_fork(&hash_of(&a[1])?, &hash_of(&a[2])?)),
        (Cbor::Integer(2), 3) => Some(h_labeled(b(1)?, &hash_of(&a[2])?)),
        (Cbor::Integer(3), 2) => Some(h_leaf(b(1)?)),
        (Cbor::Integer(4), 2) => b(1)?[..].try_into().ok(),
        _ => None,
    }
}

pub struct ClientM(Group);
pub fn boxed(o: &Value) -> Box<dyn Machine> {
    let mut b = GroupBuilder::new();
    for m in list(o, "members") {
        let path = m[1].as_array().expect("script: path").iter().map(text);
        b = with!(m[0].as_str().unwrap(), T => b.insert(path, T::fresh()));
    }
    Box::new(ClientM(b.build()))
}
impl Machine for ClientM {
    fn step(&mut self, o: &Value) -> Value {
        if o["op"] == "reload" {
            with!(o["mem"].as_str().unwrap(), T => Node::reload(self.0.get_mut::<T>(), o["codec"].as_str().unwrap()));
            return json!({});
        }
        if o["op"] != "ask" {
            with!(o["mem"].as_str().unwrap(), T => Node::change(self.0.get_mut::<T>(), list(o, "keys"), o));
            return json!({});
        }
        let g = &self.0;
        let before = if o["first"] == true { Some(g.root_hash()) } else { None };
        let mut ray = g.witness();
        for r in list(o, "reqs") {
            ray = with!(r["mem"].as_str().unwrap(), T => match r["how"].as_str().unwrap() {
                "full" => ray.full::<T>(),
                _ => ray.partial(|m: &T| Node::sel(m, r)),
            });
        }
        let t = ray.build();
        let cert = serde_cbor::to_vec(&t).unwrap();
        let root = before.unwrap_or_else(|| g.root_hash());
        let own = serde_cbor::from_slice(&cert).ok().and_then(|v| hash_of(&v)) == Some(root);
        json!({"cert": cert, "root": root, "own": own})
    }
}
