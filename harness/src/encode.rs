//! Encodings of values (leaves) and keys (labels), through every pointer wrapper.
use crate::map::{i, list, LabelBytes};
use crate::tree::*;
use crate::Machine;
use candid::{Nat, Principal};
use certified_vars::label::Label;
use certified_vars::{AsHashTree, HashTree, Map, Seq};
use serde_json::{json, Value};
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

/// <<is one leaf with the right hash, bytes>>
fn one<T: AsHashTree + ?Sized>(x: &T) -> (bool, Vec<u8>) {
    let h0 = x.root_hash();
    let t = x.as_hash_tree();
    let own = own_hash(&t);
    let rec = t.reconstruct();
    match t {
        HashTree::Leaf(b) => (h0 == own && rec == own && x.root_hash() == own, b.into_owned()),
        _ => (false, vec![]),
    }
}
fn value<T: AsHashTree>(mk: &dyn Fn() -> T, wrap: &str) -> (bool, Vec<u8>) {
    match wrap {
        "" => one(&mk()),
        "box" => one(&Box::new(mk())),
        "rc" => one(&Rc::new(mk())),
        "arc" => one(&Arc::new(mk())),
        "nn" => { let x = mk(); one(&NonNull::from(&x)) }
        "boxrc" => one(&Box::new(Rc::new(mk()))),
        "arcbox" => one(&Arc::new(Box::new(mk()))),
        "rcarcbox" => one(&Rc::new(Arc::new(Box::new(mk())))),
        "nnbox" => { let x = Box::new(mk()); one(&NonNull::from(&x)) }
        w => panic!("script: wrap {}", w),
    }
}
fn label<T: Label>(mk: &dyn Fn() -> T, wrap: &str) -> Vec<u8> {
    match wrap {
        "" => mk().as_label_bytes(),
        "box" => Box::new(mk()).as_label_bytes(),
        "rc" => Rc::new(mk()).as_label_bytes(),
        "arc" => Arc::new(mk()).as_label_bytes(),
        "nn" => { let x = mk(); NonNull::from(&x).as_label_bytes() }
        "boxrc" => Box::new(Rc::new(mk())).as_label_bytes(),
        "arcbox" => Arc::new(Box::new(mk())).as_label_bytes(),
        "rcarcbox" => Rc::new(Arc::new(Box::new(mk()))).as_label_bytes(),
        "nnbox" => { let x = Box::new(mk()); NonNull::from(&x).as_label_bytes() }
        w => panic!("script: wrap {}", w),
    }
}
fn both<T: AsHashTree + Label>(mk: &dyn Fn() -> T, wrap: &str) -> Value {
    let (ok, b) = value(mk, wrap);
    json!([ok, b, [label(mk, wrap)]])
}
fn val_only<T: AsHashTree>(mk: &dyn Fn() -> T, wrap: &str) -> Value {
    let (ok, b) = value(mk, wrap);
    json!([ok, b, []])
}

fn nums(v: &Value) -> Vec<i64> { v.as_array().expect("script: list").iter().map(|x| x.as_i64().unwrap()).collect() }
fn bytes(v: &Value) -> Vec<u8> { nums(v).iter().map(|x| *x as u8).collect() }
fn decimal(v: &Value) -> String {
    let d: String = nums(&v[1]).iter().map(|x| char::from(b'0' + *x as u8)).collect();
    if v[0] == 1 { format!("-{}", d) } else { d }
}
fn text(v: &Value) -> String { nums(v).iter().map(|c| char::from_u32(*c as u32).expect("script: char")).collect() }
/// <<sign, kind, digits, e>>
fn f64_of(v: &Value, f32_too: bool) -> f64 {
    let m: f64 = decimal(&json!([0, v[2]])).parse::<u64>().unwrap() as f64;
    let e = v[3].as_i64().unwrap() as i32;
    let neg = v[0] == 1;
    let x = match v[1].as_i64().unwrap() {
        0 => m * 2f64.powi(e / 2) * 2f64.powi(e - e / 2),
        1 => f64::INFINITY,
        _ => {
            let p: u64 = decimal(&json!([0, v[2]])).parse().unwrap();
            let _ = f32_too;
            f64::from_bits(0x7ff0_0000_0000_0000 | p)
        }
    };
    if neg { -x } else { x }
}

fn enc(ty: &str, w: &str, v: &Value) -> Value {
    macro_rules! ints { ($($n:literal $t:ty),*) => { match ty {
        $( $n => { let x: $t = decimal(v).parse().expect("script: number"); return both(&|| x, w) } )* _ => {} } } }
    ints!("u8" u8, "u16" u16, "u32" u32, "u64" u64, "u128" u128, "usize" usize,
          "i8" i8, "i16" i16, "i32" i32, "i64" i64, "i128" i128, "isize" isize);
    macro_rules! arrays { ($($n:literal)*) => { match v.as_array().unwrap().len() {
        $( $n => { let mut a = [0u8; $n]; a.copy_from_slice(&bytes(v)); both(&|| a, w) } )* _ => panic!("script: array") } } }
    match ty {
        "array" => arrays!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32),
        "nat" => { let s = decimal(v); val_only(&|| Nat(s.parse().unwrap()), w) }
        "f64" => { let x = f64_of(v, false); val_only(&|| x, w) }
        "f32" => {
            let x = if v[1] == 2 {
                let p: u32 = decimal(&json!([0, v[2]])).parse().unwrap();
                let x = f32::from_bits(0x7f80_0000 | p);
                if v[0] == 1 { -x } else { x }
            } else { f64_of(v, true) as f32 };
            val_only(&|| x, w)
        }
        "bool" => { let x = v == 1; both(&|| x, w) }
        "string" => { let s = text(v); both(&|| s.clone(), w) }
        "str" => { let s = text(v); val_only(&|| s.as_str(), w) }
        "bytes" => { let b = bytes(v); both(&|| b.clone(), w) }
        "slice" => { let b = bytes(v); val_only(&|| b.as_slice(), w) }
        "boxslice" => { let b = bytes(v); json!([true, [], [label(&|| b.clone().into_boxed_slice(), w)]]) }
        "principal" => { let p = Principal::from_slice(&bytes(v)); both(&|| p, w) }
        t => panic!("script: type {}", t),
    }
}

/// Does the wrapped collection export what it does without the pointer?
fn same<T: AsHashTree>(x: T) -> bool {
    let h = x.root_hash();
    let t = format!("{:?}", x.as_hash_tree());
    let mut ok = own_hash(&x.as_hash_tree()) == h;
    let is = |y: &dyn AsHashTree| y.root_hash() == h && format!("{:?}", y.as_hash_tree()) == t;
    ok &= is(&NonNull::from(&x));
    let b = Box::new(x);
    ok &= is(&b);
    let r = Rc::new(b);
    ok &= is(&r) && is(&r.clone());
    let a = Arc::new(r);
    ok && is(&a) && is(&Box::new(a.clone()))
}

pub struct EncodeM;
impl EncodeM {
    pub fn boxed() -> Box<dyn Machine> { Box::new(EncodeM) }
}
impl Machine for EncodeM {
    fn step(&mut self, o: &Value) -> Value {
        let (ty, w) = (o["ty"].as_str().unwrap_or(""), o["wrap"].as_str().unwrap_or(""));
        match o["op"].as_str().unwrap() {
            "enc" => json!({"r": list(o, "vals").iter().map(|v| enc(ty, w, v)).collect::<Vec<_>>()}),
            "range" => {
                let from = i(o, "from");
                json!({"r": (0..i(o, "n")).map(|j| {
                    let x = from + j;
                    let d: Vec<u8> = x.abs().to_string().bytes().map(|b| b - b'0').collect();
                    enc(ty, w, &json!([(x < 0) as u8, d]))
                }).collect::<Vec<_>>()})
            }
            "wrap" => {
                let n = i(o, "n");
                let m = || (0..n).map(|k| (k as u32, format!("v{}", k))).collect::<Map<u32, String>>();
                let s = || (0..n).map(|k| k as u64).collect::<Seq<u64>>();
                let mm = (0..n).map(|k| (format!("{}", k), Box::new(s()))).collect::<Map<String, Box<Seq<u64>>>>();
                let mn = (0..n).map(|k| (Rc::new(format!("{}", k)), s())).collect::<Map<Rc<String>, Seq<u64>>>();
                let plain = (0..n).map(|k| (format!("{}", k), s())).collect::<Map<String, Seq<u64>>>();
                let eq = mm.root_hash() == plain.root_hash() && mn.root_hash() == plain.root_hash();
                json!({"same": same(m()) && same(s()) && same(mm) && eq})
            }
            x => panic!("script: unknown op {}", x),
        }
    }
}
