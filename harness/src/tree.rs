//! Projection of certificate trees to what the specification talks about, and an
//! implementation of the certificate hash rules that is independent of the library.
use certified_vars::HashTree;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

pub type Hash = [u8; 32];

fn sep(s: &str) -> Sha256 {
    let mut h = Sha256::new();
    h.update([s.len() as u8]);
    h.update(s.as_bytes());
    h
}
pub fn h_empty() -> Hash {
    sep("ic-hashtree-empty").finalize().into()
}
pub fn h_fork(l: &Hash, r: &Hash) -> Hash {
    let mut h = sep("ic-hashtree-fork");
    h.update(l);
    h.update(r);
    h.finalize().into()
}
pub fn h_leaf(b: &[u8]) -> Hash {
    let mut h = sep("ic-hashtree-leaf");
    h.update(b);
    h.finalize().into()
}
pub fn h_labeled(l: &[u8], c: &Hash) -> Hash {
    let mut h = sep("ic-hashtree-labeled");
    h.update(l);
    h.update(c);
    h.finalize().into()
}
pub fn h_chain(prev: &Hash, item: &Hash) -> Hash {
    let mut h = Sha256::new();
    h.update(prev);
    h.update(item);
    h.finalize().into()
}

/// The verifier's own root computation.
pub fn own_hash(t: &HashTree) -> Hash {
    crate::replica::saw(|| serde_cbor::to_vec(t).unwrap());
    hash_of(t)
}
fn hash_of(t: &HashTree) -> Hash {
    match t {
        HashTree::Empty => h_empty(),
        HashTree::Fork(f) => h_fork(&hash_of(f.left()), &hash_of(f.right())),
        HashTree::Labeled(l, t) => h_labeled(l, &hash_of(t)),
        HashTree::Leaf(b) => h_leaf(b),
        HashTree::Pruned(h) => *h,
    }
}

pub const GAP: (i64, i64) = (0, 0);
pub const HIDDEN: i64 = -1;
pub const BAD: i64 = -9;

/// Flatten a tree; `entry(label, subtree)` projects one labelled entry.
pub fn tokens(t: &HashTree, entry: &mut dyn FnMut(&[u8], &HashTree) -> Value) -> Vec<Value> {
    fn go(t: &HashTree, entry: &mut dyn FnMut(&[u8], &HashTree) -> Value, out: &mut Vec<Value>) {
        match t {
            HashTree::Empty => {}
            HashTree::Fork(f) => {
                go(f.left(), entry, out);
                go(f.right(), entry, out);
            }
            HashTree::Labeled(l, s) => out.push(entry(l, s)),
            HashTree::Leaf(_) => out.push(json!([BAD, BAD])),
            HashTree::Pruned(_) => {
                let gap = json!([GAP.0, GAP.1]);
                if out.last() != Some(&gap) {
                    out.push(gap)
                }
            }
        }
    }
    let mut out = vec![];
    go(t, entry, &mut out);
    out
}

/// The fork structure over the entries: [rank] for an entry, [left, right] for a fork.
pub fn shape(t: &HashTree, rank: &dyn Fn(&[u8]) -> i64) -> Value {
    match t {
        HashTree::Fork(f) => json!([shape(f.left(), rank), shape(f.right(), rank)]),
        HashTree::Labeled(l, _) => json!([rank(l)]),
        _ => json!([]),
    }
}

/// Number of forks on the longest way down to an entry.
pub fn fork_depth(t: &HashTree) -> i64 {
    match t {
        HashTree::Fork(f) => 1 + fork_depth(f.left()).max(fork_depth(f.right())),
        _ => 0,
    }
}

/// A tree as the trace specifications write it, with the bytes of pruned hashes.
pub fn tree_json(t: &HashTree) -> Value {
    match t {
        HashTree::Empty => json!(["E"]),
        HashTree::Fork(f) => json!(["F", tree_json(f.left()), tree_json(f.right())]),
        HashTree::Labeled(l, t) => json!(["L", l, tree_json(t)]),
        HashTree::Leaf(b) => json!(["V", b]),
        HashTree::Pruned(h) => json!(["P", h]),
    }
}
