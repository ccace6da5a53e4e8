//! Groups whose members lie at the end of very long paths; a path is a list of
//! [name, how often] (C14, C15).
use crate::map::{i, list};
use crate::tree::own_hash;
use crate::Machine;
use certified_vars::{AsHashTree, Group, GroupBuilder, HashTree};
use serde_json::{json, Value};

fn path(p: &Value) -> Vec<String> {
    p.as_array().expect("script: path").iter()
        .flat_map(|r| std::iter::repeat(r[0].as_str().unwrap().to_string()).take(r[1].as_u64().unwrap() as usize)).collect()
}
/// The members have different types; their values are 1, 2, ...
macro_rules! types { ($ty:expr, $T:ident, $e:expr) => {
    match $ty { 0 => { type $T = u8; $e } 1 => { type $T = u16; $e } 2 => { type $T = u32; $e } 3 => { type $T = u64; $e } _ => panic!("script: type") }
} }

pub struct DeepM { g: Group, paths: Vec<Vec<String>> }
pub fn boxed(o: &Value) -> Box<dyn Machine> {
    let paths: Vec<_> = list(o, "paths").iter().map(path).collect();
    let mut b = GroupBuilder::new();
    for j in list(o, "order") {
        let j = j.as_u64().unwrap() as usize;
        b = types!(j, T, b.insert(paths[j].clone(), (j + 1) as T));
    }
    Box::new(DeepM { g: b.build(), paths })
}
/// What is at the end of a path, and what is there: a value, something pruned, or none.
fn at(t: &HashTree, p: &[String]) -> (String, i64) {
    let mut t = t;
    for l in p {
        let mut open = vec![t];
        let mut next = None;
        while let Some(x) = open.pop() {
            match x {
                HashTree::Fork(f) => { open.push(f.left()); open.push(f.right()) }
                HashTree::Labeled(a, s) if a[..] == *l.as_bytes() => next = Some(&**s),
                _ => {}
            }
        }
        match next { Some(s) => t = s, None => return ("none".into(), 0) }
    }
    match t {
        HashTree::Leaf(b) => ("value".into(), b.iter().fold(0, |n, x| (n << 8 | *x as i64) & 0xffff_ffff)),
        HashTree::Pruned(_) => ("pruned".into(), 0),
        _ => ("other".into(), 0),
    }
}
fn count(t: &HashTree) -> (i64, i64) {
    let mut open = vec![t];
    let (mut labels, mut leaves) = (0, 0);
    while let Some(x) = open.pop() {
        match x {
            HashTree::Fork(f) => { open.push(f.left()); open.push(f.right()) }
            HashTree::Labeled(_, s) => { labels += 1; open.push(s) }
            HashTree::Leaf(_) => leaves += 1,
            _ => {}
        }
    }
    (labels, leaves)
}
impl Machine for DeepM {
    fn step(&mut self, o: &Value) -> Value {
        let g = &mut self.g;
        if let Some(v) = o["set"].as_i64() {
            types!(i(o, "ty"), T, *g.get_mut::<T>() = v as T);
            return json!({});
        }
        let t = if o["all"] == true { g.as_hash_tree() } else {
            let mut r = g.witness();
            for (j, s) in list(o, "sel").iter().enumerate() {
                r = match s.as_i64().unwrap() {
                    0 => r,
                    1 => types!(j, T, r.partial(|x: &T| HashTree::Pruned(x.root_hash()))),
                    _ => types!(j, T, r.full::<T>()),
                };
            }
            r.build()
        };
        let own = own_hash(&t) == g.root_hash() && t.reconstruct() == g.root_hash();
        let (labels, leaves) = count(&t);
        let seen: Vec<Value> = self.paths.iter().map(|p| { let (a, b) = at(&t, p); json!([a, b]) }).collect();
        json!({"own": own, "labels": labels, "leaves": leaves, "seen": seen})
    }
}
