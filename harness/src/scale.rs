//! The same operations on a small and on a large collection: processor time and allocated
//! memory of one operation (C04, C21).
use crate::map::i;
use crate::Machine;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map, Paged, Seq};
use serde_json::{json, Value};
use std::hint::black_box;

#[repr(C)]
struct Timespec { sec: i64, nsec: i64 }
extern "C" { fn clock_gettime(clock: i32, t: *mut Timespec) -> i32; }
/// Processor time of this thread in ns.
fn now() -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec * 1_000_000_000 + t.nsec
}

type S = Seq<u32>;
enum C { Map(Map<u32, u32>), Rb(RbTree<u32, u32>), Paged(Paged<u32, u32, 2>), Seq(S), MapSeq(Map<u32, S>) }

/// The even numbers up to 2n, in no order; n is a power of two.
fn key(j: u64, n: u64) -> u32 { 2 + 2 * ((j * 40_503 + 7) % n) as u32 }

impl C {
    fn make(kt: &str, n: u64) -> C {
        let keys = || (0..n).map(|j| key(j, n));
        match kt {
            "map" => C::Map(keys().map(|k| (k, k)).collect()),
            "rb" => { let mut t = RbTree::new(); for k in keys() { t.insert(k, k); } C::Rb(t) }
            "paged2" => { let mut p = Paged::new(); for k in keys() { p.insert(k, k) } C::Paged(p) }
            "seq" => C::Seq(keys().collect()),
            "map-seq" => { let mut s: S = keys().collect(); s.reserve(4096); let mut m = Map::new(); m.insert(1, Seq::new()); m.insert(2, s); m.insert(3, Seq::new()); C::MapSeq(m) }
            k => panic!("script: kind {}", k),
        }
    }
    /// One operation; j varies.
    fn act(&mut self, a: &str, j: u64, n: u64) {
        let k = key(j * 977 + 3, n);
        match (self, a) {
            (C::Map(m), "get") => { black_box(m.get(&k)); black_box(m.get(&(k + 1))); }
            (C::Map(m), "change") => { m.insert(k + 1, 5); m.insert(k, 6); m.remove(&(k + 1)); }
            (C::Map(m), "entry") => {
                m.entry(k).and_modify(|x| *x += 1).or_insert(1);
                *m.entry(k + 1).or_default() += 1;
                m.remove_entry(&(k + 1));
                if let certified_vars::rbtree::entry::Entry::Occupied(e) = m.entry(k) { black_box(e.get()); }
            }
            (C::Map(m), "mut") => { *m.get_mut(&k).unwrap() += 1; black_box(m.root_hash()); }
            (C::Map(m), "wit") => { black_box(m.witness(&k)); black_box(m.witness(&(k + 1))); }
            (C::Map(m), "range") => { black_box(m.witness_key_range::<u32, u32>(&k, &(k + 3))); black_box(m.witness_value_range::<u32, u32>(&k, &(k + 3))); }
            (C::Map(m), "first") => { black_box(m.iter().next()); black_box((m.len(), m.is_empty(), m.iter().size_hint(), m.root_hash())); }
            (C::Rb(t), "get") => { black_box(t.get(&k)); black_box(t.get_with(|x| k.cmp(x))); black_box((t.len(), t.is_empty())); }
            (C::Rb(t), "change") => { t.insert(k + 1, 5); t.insert(k, 6); t.delete(&(k + 1)); t.modify(&k, |x| *x += 1); }
            (C::Rb(t), "wit") => { black_box(t.witness(&k)); black_box(t.nested_witness(&(k + 1), |_| HashTree::Empty)); }
            (C::Rb(t), "range") => { black_box(t.key_range(&k, &(k + 3))); black_box(t.value_range(&k, &(k + 3))); }
            (C::Paged(p), "get") => { black_box(p.get(&k, 0)); black_box(p.get(&k, 1)); black_box(p.get_last_page_number(&k)); }
            (C::Paged(p), "change") => p.insert(k, 1),
            (C::Paged(p), "wit") => { black_box(p.witness(&k, 0)); black_box(p.witness_last_page_number(&(k + 1))); }
            (C::Seq(s), "change") => s.append(j as u32),
            (C::Seq(s), "get") => { black_box((s.len(), s.is_empty(), s[j as usize], s.iter().next(), s.as_vec().last())); }
            (C::Seq(s), "wit") => { black_box(s.root_hash()); black_box(s.as_hash_tree()); }
            (C::MapSeq(m), "change") => m.append_deep(2, j as u32),
            (C::MapSeq(m), "mut") => { m.get_mut(&2).unwrap().append(1); m.entry(2).and_modify(|s| s.append(2)); black_box(m.root_hash()); }
            (C::MapSeq(m), "get") => { black_box(m.len_deep(&2)); black_box(m.get(&2).unwrap().len()); }
            (C::MapSeq(m), "wit") => { black_box(m.witness(&2)); black_box(m.witness(&1)); black_box(m.as_hash_tree()); }
            (_, a) => panic!("script: act {}", a),
        }
    }
}

pub struct ScaleM([(u64, C); 2]);
pub fn boxed(o: &Value) -> Box<dyn Machine> {
    let kt = o["kt"].as_str().unwrap();
    let (a, b) = (1u64 << i(o, "small"), 1u64 << i(o, "large"));
    Box::new(ScaleM([(a, C::make(kt, a)), (b, C::make(kt, b))]))
}
impl Machine for ScaleM {
    fn step(&mut self, o: &Value) -> Value {
        let a = o["act"].as_str().unwrap();
        let mut out = self.0.iter_mut().map(|(n, c)| {
            const BATCH: u64 = 12;
            let (mut ns, mut bytes) = (i64::MAX, i64::MAX);
            for b in 0..9 {
                let m = crate::alloc::taken();
                let t = now();
                for j in 0..BATCH { c.act(a, b * BATCH + j, *n) }
                ns = ns.min((now() - t) / BATCH as i64);
                bytes = bytes.min((crate::alloc::taken() - m) / BATCH as i64);
            }
            (ns.min(1_000_000_000), bytes.min(1_000_000_000))
        }).collect::<Vec<_>>();
        let l = out.pop().unwrap();
        let s = out.pop().unwrap();
        json!({"ns": [s.0, l.0], "bytes": [s.1, l.1], "sizes": [self.0[0].0, self.0[1].0]})
    }
}
