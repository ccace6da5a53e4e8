//! Hash trees built as the script says.
use crate::map::i;
use crate::tree::*;
use crate::Machine;
use certified_vars::hashtree::{fork, fork_hash, labeled, labeled_hash, leaf_hash, ForkInner};
use certified_vars::HashTree;
use serde_json::{json, Value};
use std::borrow::Cow;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("script: bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn leak(v: Vec<u8>) -> &'static [u8] { Box::leak(v.into_boxed_slice()) }

type Tree = HashTree<'static>;
/// The script's tree; borrowed and owned bytes and both ways to construct a node take turns.
fn build(v: &Value, turn: &mut u32, pruned: &mut Vec<Hash>) -> Tree {
    *turn += 1;
    let odd = *turn % 2 == 1;
    match v[0].as_str().expect("script: tree") {
        "E" => HashTree::Empty,
        "F" => {
            let (l, r) = (build(&v[1], turn, pruned), build(&v[2], turn, pruned));
            if odd { fork(l, r) } else { HashTree::Fork(Box::new(ForkInner(l, r))) }
        }
        "L" => {
            let k = bytes(&v[1]);
            let t = build(&v[2], turn, pruned);
            if odd { labeled(leak(k), t) } else { HashTree::Labeled(Cow::Owned(k), Box::new(t)) }
        }
        "V" => if odd { HashTree::Leaf(Cow::Borrowed(leak(bytes(&v[1])))) } else { HashTree::Leaf(Cow::Owned(bytes(&v[1]))) },
        "P" => {
            let h = own_hash(&build(&v[1], turn, &mut vec![]));
            pruned.push(h);
            HashTree::Pruned(h)
        }
        x => panic!("script: node {}", x),
    }
}
/// The root hash by the public helpers, where there is one.
fn node(t: &Tree) -> Hash {
    match t {
        HashTree::Fork(f) => fork_hash(&node(f.left()), &node(f.right())),
        HashTree::Labeled(l, s) => labeled_hash(l, &node(s)),
        HashTree::Leaf(b) => leaf_hash(b),
        HashTree::Empty => h_empty(),
        HashTree::Pruned(h) => *h,
    }
}
fn comb(kind: &str, n: i64) -> Tree {
    let mut t = HashTree::Leaf(Cow::Owned(vec![0]));
    for k in 1..=n {
        let b = vec![k as u8];
        let leaf = HashTree::Leaf(Cow::Owned(b.clone()));
        t = match kind {
            "left" => fork(t, leaf),
            "right" => fork(leaf, t),
            "chain" => HashTree::Labeled(Cow::Owned(b), Box::new(t)),
            "zigzag" => if k % 2 == 0 { fork(t, HashTree::Empty) } else { fork(labeled(leak(b), leaf), t) },
            x => panic!("script: comb {}", x),
        };
    }
    t
}
fn flat(v: Vec<&[u8]>) -> Vec<Vec<u8>> { v.into_iter().map(|b| b.to_vec()).collect() }

pub struct HashM;
impl HashM {
    pub fn boxed() -> Box<dyn Machine> { Box::new(HashM) }
}
impl Machine for HashM {
    fn step(&mut self, o: &Value) -> Value {
        match o["op"].as_str().unwrap() {
            "trees" => {
                let mut turn = i(o, "turn") as u32;
                let ts: Vec<(Tree, Vec<Hash>)> = o["ts"].as_array().expect("script: ts").iter()
                    .map(|v| { let mut p = vec![]; let t = build(v, &mut turn, &mut p); (t, p) }).collect();
                let eq: Vec<Vec<bool>> = ts.iter().map(|a| ts.iter().map(|b| a.0 == b.0).collect()).collect();
                let r: Vec<Value> = ts.into_iter().map(|(t, p)| {
                    let t: &'static Tree = Box::leak(Box::new(t));
                    let cbor = serde_cbor::to_vec(t).unwrap();
                    let mut w = vec![];
                    serde_cbor::to_writer(&mut w, &(1u8, t)).unwrap();
                    let packed = serde_cbor::ser::to_vec_packed(t).unwrap();
                    let back: serde_cbor::Value = serde_cbor::from_slice(&cbor).unwrap();
                    let same = w[2..] == cbor[..] && packed == cbor && w[0] == 0x82
                        && serde_cbor::value::to_value(t).unwrap() == back
                        && serde_cbor::to_vec(&back).unwrap() == cbor
                        && serde_cbor::to_vec(&Box::new(t)).unwrap() == cbor;
                    json!({"rec": t.reconstruct(), "pruned": p, "node": node(t), "json": serde_json::to_value(t).unwrap(),
                           "cbor": cbor, "same": same, "labels": flat(t.get_labels()), "leaves": flat(t.get_leaf_values())})
                }).collect();
                json!({"eq": eq, "r": r})
            }
            "comb" => {
                let t: &'static Tree = Box::leak(Box::new(comb(o["kind"].as_str().unwrap(), i(o, "n"))));
                json!({"rec": t.reconstruct(), "own": own_hash(t), "cbor": serde_cbor::to_vec(t).unwrap(),
                       "labels": flat(t.get_labels()), "leaves": flat(t.get_leaf_values())})
            }
            x => panic!("script: unknown op {}", x),
        }
    }
}
