//! Group and GroupBuilder.
use crate::map::{i, list};
use crate::tree::*;
use crate::Machine;
use certified_vars::collections::group::Ray;
use certified_vars::{AsHashTree, Group, GroupBuilder, HashTree, Map, Paged, Seq};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

type M = Map<u32, u32>;
type P = Paged<u32, u32, 2>;

/// The names that stand for the labels 1, 2, ... of the specification, in order.
fn names() -> &'static Vec<String> {
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<String> = ["", "\0", " ", "  ", "A", "AB", "B", "a", "a\0", "a ", "a  ", "a/b", "aB", "ab", "b", "b ",
            "members and more, quite a long name indeed", "z", "é", "\u{10ffff}"].iter().map(|s| s.to_string()).collect();
        v.extend((0..28).map(|j| format!("n{:02}", j * 3)));
        // long names, some of which differ at the end only
        for (k, n) in [(31, "p"), (32, "p"), (33, "p"), (63, "q"), (64, "q"), (255, "r"), (256, "r"), (300, "s")] {
            v.push(n.repeat(k));
        }
        v.extend(["x", "y"].iter().map(|e| format!("{}{}", "t".repeat(299), e)));
        v.extend(["x", "y"].iter().map(|e| format!("{}{}", "u".repeat(70_000), e)));
        v.sort();
        v
    })
}

pub enum Content { Num(u32), Text(String), Map(M), Seq(Seq<u32>), Paged(P) }
/// Many types with any content.
pub struct Leaf<const N: usize>(Content);
impl<const N: usize> AsHashTree for Leaf<N> {
    fn as_hash_tree(&self) -> HashTree<'_> {
        match &self.0 {
            Content::Num(x) => x.as_hash_tree(), Content::Text(x) => x.as_hash_tree(), Content::Map(x) => x.as_hash_tree(),
            Content::Seq(x) => x.as_hash_tree(), Content::Paged(x) => x.as_hash_tree(),
        }
    }
    fn root_hash(&self) -> Hash {
        match &self.0 {
            Content::Num(x) => x.root_hash(), Content::Text(x) => x.root_hash(), Content::Map(x) => x.root_hash(),
            Content::Seq(x) => x.root_hash(), Content::Paged(x) => x.root_hash(),
        }
    }
}
/// A member without data.
pub struct Unit;
impl AsHashTree for Unit {
    fn as_hash_tree(&self) -> HashTree<'_> { HashTree::Leaf(std::borrow::Cow::Borrowed(b"unit")) }
}

enum Ref<'a> { Num(&'a u32), Text(&'a str), Map(&'a M), Seq(&'a Seq<u32>), Paged(&'a P), Unit, Group(&'a Group) }
enum Mut<'a> { Num(&'a mut u32), Text(&'a mut String), Map(&'a mut M), Seq(&'a mut Seq<u32>), Paged(&'a mut P), Unit, Group(&'a mut Group) }
trait Member: AsHashTree + 'static {
    fn make(kind: &str, x: &Value) -> Self;
    fn get(&self) -> Ref<'_>;
    fn get_mut(&mut self) -> Mut<'_>;
}
fn num(x: &Value) -> u32 { x.as_u64().expect("script: number") as u32 }
fn text(v: u32) -> String { format!("t{}", v) }
fn map(x: &Value) -> M { x.as_array().expect("script: pairs").iter().map(|p| (num(&p[0]), num(&p[1]))).collect() }
fn seq(x: &Value) -> Seq<u32> { x.as_array().expect("script: items").iter().map(num).collect() }
impl<const N: usize> Member for Leaf<N> {
    fn make(kind: &str, x: &Value) -> Self {
        Leaf(match kind {
            "num" => Content::Num(num(x)), "text" => Content::Text(text(num(x))), "map" => Content::Map(map(x)),
            "seq" => Content::Seq(seq(x)), "paged" => Content::Paged(Paged::new()), k => panic!("script: kind {}", k),
        })
    }
    fn get(&self) -> Ref<'_> {
        match &self.0 {
            Content::Num(x) => Ref::Num(x), Content::Text(x) => Ref::Text(x), Content::Map(x) => Ref::Map(x),
            Content::Seq(x) => Ref::Seq(x), Content::Paged(x) => Ref::Paged(x),
        }
    }
    fn get_mut(&mut self) -> Mut<'_> {
        match &mut self.0 {
            Content::Num(x) => Mut::Num(x), Content::Text(x) => Mut::Text(x), Content::Map(x) => Mut::Map(x),
            Content::Seq(x) => Mut::Seq(x), Content::Paged(x) => Mut::Paged(x),
        }
    }
}
macro_rules! member { ($($t:ty, $v:ident, $f:expr;)*) => { $(
    impl Member for $t {
        fn make(_: &str, x: &Value) -> Self { let f: fn(&Value) -> $t = $f; f(x) }
        fn get(&self) -> Ref<'_> { Ref::$v(self) }
        fn get_mut(&mut self) -> Mut<'_> { Mut::$v(self) }
    }
)* } }
member! { M, Map, map; Seq<u32>, Seq, seq; String, Text, |x| text(num(x)); u32, Num, num; P, Paged, |_| Paged::new();
          Group, Group, |x| GroupBuilder::new().insert([&names()[2][..]], M::new()).insert([&names()[1][..], &names()[0][..]], num(x)).build(); }
impl Member for Unit {
    fn make(_: &str, _: &Value) -> Self { Unit }
    fn get(&self) -> Ref<'_> { Ref::Unit }
    fn get_mut(&mut self) -> Mut<'_> { Mut::Unit }
}

macro_rules! with_type {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            1 => { type $T = Leaf<1>; $e } 2 => { type $T = Leaf<2>; $e } 3 => { type $T = Leaf<3>; $e }
            4 => { type $T = Leaf<4>; $e } 5 => { type $T = Leaf<5>; $e } 6 => { type $T = Leaf<6>; $e }
            7 => { type $T = M; $e } 8 => { type $T = Seq<u32>; $e } 9 => { type $T = String; $e }
            10 => { type $T = u32; $e } 11 => { type $T = Unit; $e } 12 => { type $T = Group; $e }
            13 => { type $T = P; $e } 14 => { type $T = Leaf<14>; $e } 15 => { type $T = Leaf<15>; $e } 16 => { type $T = Leaf<16>; $e }
            17 => { type $T = Leaf<17>; $e } 18 => { type $T = Leaf<18>; $e } 19 => { type $T = Leaf<19>; $e } 20 => { type $T = Leaf<20>; $e } 
            21 => { type $T = Leaf<21>; $e } 22 => { type $T = Leaf<22>; $e } 23 => { type $T = Leaf<23>; $e } 24 => { type $T = Leaf<24>; $e } 
            25 => { type $T = Leaf<25>; $e } 26 => { type $T = Leaf<26>; $e } 27 => { type $T = Leaf<27>; $e } 28 => { type $T = Leaf<28>; $e } 
            29 => { type $T = Leaf<29>; $e } 30 => { type $T = Leaf<30>; $e } 31 => { type $T = Leaf<31>; $e } 32 => { type $T = Leaf<32>; $e } 
            33 => { type $T = Leaf<33>; $e } 34 => { type $T = Leaf<34>; $e } 35 => { type $T = Leaf<35>; $e } 36 => { type $T = Leaf<36>; $e } 
            37 => { type $T = Leaf<37>; $e } 38 => { type $T = Leaf<38>; $e } 39 => { type $T = Leaf<39>; $e } 40 => { type $T = Leaf<40>; $e } 
            41 => { type $T = Leaf<41>; $e } 42 => { type $T = Leaf<42>; $e } 43 => { type $T = Leaf<43>; $e } 44 => { type $T = Leaf<44>; $e } 
            45 => { type $T = Leaf<45>; $e } 46 => { type $T = Leaf<46>; $e } 47 => { type $T = Leaf<47>; $e } 48 => { type $T = Leaf<48>; $e }
            x => panic!("script: type {}", x),
        }
    };
}

fn change(m: Mut<'_>, o: &Value) {
    match (m, o["act"].as_str().unwrap()) {
        (_, "none") => {}
        (Mut::Num(x), "set") => *x = i(o, "v") as u32,
        (Mut::Text(x), "set") => *x = text(i(o, "v") as u32),
        (Mut::Map(x), "ins") => { x.insert(i(o, "k") as u32, i(o, "v") as u32); }
        (Mut::Map(x), "rem") => { x.remove(&(i(o, "k") as u32)); }
        (Mut::Map(x), "clear") => x.clear(),
        (Mut::Seq(x), "app") => x.append(i(o, "v") as u32),
        (Mut::Seq(x), "clear") => x.clear(),
        (Mut::Paged(x), "ins") => x.insert(i(o, "k") as u32, i(o, "v") as u32),
        (Mut::Group(g), "set") => *g.get_mut::<u32>() = i(o, "v") as u32,
        (Mut::Group(g), "ins") => { g.get_mut::<M>().insert(i(o, "k") as u32, i(o, "v") as u32); }
        (Mut::Group(g), "rem") => { g.get_mut::<M>().remove(&(i(o, "k") as u32)); }
        (_, a) => panic!("a member of another kind: {}", a),
    }
}
fn pairs(m: &M) -> Value { json!(m.iter().map(|(k, v)| [*k, *v]).collect::<Vec<_>>()) }
fn dump(r: Ref<'_>, max: i64) -> Value {
    match r {
        Ref::Num(x) => json!(x),
        Ref::Text(x) => json!(x[1..].parse::<i64>().unwrap_or(BAD)),
        Ref::Map(m) => pairs(m),
        Ref::Seq(s) => json!(s.iter().collect::<Vec<_>>()),
        Ref::Unit => json!(0),
        Ref::Group(g) => json!([g.get::<u32>(), pairs(g.get::<M>())]),
        Ref::Paged(p) => {
            let mut out = vec![];
            for k in 1..=max as u32 {
                if let Some(n) = p.get_last_page_number(&k) {
                    out.push(json!([k, (0..=n).map(|j| p.get(&k, j).unwrap().iter().collect::<Vec<_>>()).collect::<Vec<_>>()]))
                }
            }
            json!(out)
        }
    }
}
/// The part of a member that is asked for.
fn part<'a>(r: Ref<'a>, whole: &'a dyn AsHashTree, h: &Value) -> HashTree<'a> {
    let n = |f: &str| i(h, f) as u32;
    match (h["t"].as_str().unwrap(), r) {
        ("pruned", _) => HashTree::Pruned(whole.root_hash()),
        ("whole", _) => whole.as_hash_tree(),
        ("wit", Ref::Map(m)) => m.witness(&n("a")),
        ("kr", Ref::Map(m)) => m.witness_key_range::<u32, u32>(&n("a"), &n("b")),
        ("vr", Ref::Map(m)) => m.witness_value_range::<u32, u32>(&n("a"), &n("b")),
        ("keys", Ref::Map(m)) => m.witness_keys(),
        ("page", Ref::Paged(p)) => p.witness(&n("a"), n("b") as usize),
        ("last", Ref::Paged(p)) => p.witness_last_page_number(&n("a")),
        ("inner", Ref::Group(g)) => {
            let mut ray = g.witness();
            if h["m"].is_object() { ray = ray.partial(|m: &M| part(Ref::Map(m), m, &h["m"])) }
            if h["n"].is_object() { ray = ray.partial(|m: &u32| part(Ref::Num(m), m, &h["n"])) }
            ray.build()
        }
        (x, _) => panic!("a member of another kind: {}", x),
    }
}

fn raw(t: &HashTree) -> Value {
    match t {
        HashTree::Empty => json!([0]),
        HashTree::Fork(f) => json!([1, raw(f.left()), raw(f.right())]),
        HashTree::Labeled(l, s) => {
            let name = match names().iter().position(|n| n.as_bytes() == &l[..]) {
                Some(n) => n as i64 + 1,
                None if l.len() == 4 => 1000 + u32::from_be_bytes([l[0], l[1], l[2], l[3]]) as i64,
                None if l.len() == 8 => u32::from_be_bytes([l[0], l[1], l[2], l[3]]) as i64 * 1_000_000
                    + u32::from_be_bytes([l[4], l[5], l[6], l[7]]) as i64,
                None => BAD,
            };
            json!([2, name, raw(s)])
        }
        HashTree::Leaf(b) => json!([3, match &b[..] {
            b"unit" => 7777,
            b if b.first() == Some(&b't') => 100_000 + std::str::from_utf8(&b[1..]).ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(BAD),
            b if b.len() == 4 => u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as i64,
            _ => BAD,
        }]),
        HashTree::Pruned(_) => json!([4]),
    }
}

#[derive(Default)]
pub struct GroupM {
    adds: Vec<Value>,
    acts: Vec<Value>,
    builder: Option<GroupBuilder>,
    group: Option<Group>,
}

fn add(b: GroupBuilder, o: &Value) -> GroupBuilder {
    let path = list(o, "path").iter().map(|n| &names()[n.as_u64().unwrap() as usize - 1][..]);
    with_type!(i(o, "ty"), T => {
        let m = T::make(o["kind"].as_str().unwrap(), &o["x"]);
        match o["how"].as_str().unwrap_or("") {
            "string" => b.insert(path.map(String::from).collect::<Vec<_>>(), m),
            _ => b.insert(path, m),
        }
    })
}
fn act(g: &mut Group, o: &Value) {
    with_type!(i(o, "ty"), T => change(Member::get_mut(g.get_mut::<T>()), o))
}
fn ask<'a>(ray: Ray<'a>, ty: i64, h: &Value) -> Ray<'a> {
    with_type!(ty, T => if h["t"] == "full" { ray.full::<T>() } else { ray.partial(|m: &T| part(Member::get(m), m, h)) })
}

impl GroupM {
    pub fn boxed() -> Box<dyn Machine> { Box::new(GroupM { builder: Some(GroupBuilder::new()), ..Default::default() }) }
    fn again(&self, order: &[usize]) -> GroupBuilder {
        order.iter().fold(GroupBuilder::default(), |b, j| add(b, &self.adds[*j]))
    }
    fn g(&self) -> &Group { self.group.as_ref().expect("script: not built") }
}

impl Machine for GroupM {
    fn step(&mut self, o: &Value) -> Value {
        match o["op"].as_str().unwrap() {
            "add" => {
                let b = self.builder.take().expect("script: already built");
                match catch_unwind(AssertUnwindSafe(|| add(b, o))) {
                    Ok(b) => { self.builder = Some(b); self.adds.push(o.clone()); json!({"res": "ok"}) }
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
                        if m.starts_with("script:") { panic!("{}", m) }
                        // the builder is gone; start over
                        let all: Vec<usize> = (0..self.adds.len()).collect();
                        self.builder = Some(self.again(&all));
                        json!({"res": "refused"})
                    }
                }
            }
            "build" => { self.group = Some(self.builder.take().expect("script: already built").build()); json!({}) }
            "act" => { act(self.group.as_mut().expect("script: not built"), o); self.acts.push(o.clone()); json!({}) }
            "get" => json!({"r": with_type!(i(o, "ty"), T => dump(Member::get(self.g().get::<T>()), 60))}),
            "root" => {
                let g = self.g();
                let h0 = if o["first"] == true { Some(g.root_hash()) } else { None };
                let t = g.as_hash_tree();
                let (own, rec, full) = (own_hash(&t), t.reconstruct(), raw(&t));
                let h = g.root_hash();
                json!({"own": own == h && h0.map_or(true, |x| x == h), "rec": rec == h, "full": full})
            }
            "perm" => {
                let order: Vec<usize> = list(o, "order").iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let mut g = self.again(&order).build();
                for a in &self.acts { act(&mut g, a) }
                let same = g.root_hash() == self.g().root_hash() && g.as_hash_tree() == self.g().as_hash_tree();
                json!({"same": same})
            }
            "wit" => {
                let g = self.g();
                let ray = list(o, "reqs").iter().fold(g.witness(), |r, q| ask(r, q[0].as_i64().unwrap(), &q[1]));
                let t = ray.build();
                json!({"ok": own_hash(&t) == g.root_hash(), "tree": raw(&t)})
            }
            x => panic!("script: unknown op {}", x),
        }
    }
}
