//! Concrete key and value types for the abstract keys (ranks) and values of the
//! specification. `label` / `bytes` are the canonical encodings, written out here
//! independently of the library.
use candid::Principal;
use certified_vars::label::Label;
use certified_vars::AsHashTree;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

pub trait KeyKind: 'static {
    type K: Label + Ord + 'static;
    fn key(r: i64) -> Self::K;
    fn label(r: i64) -> Vec<u8>;
    const TRACKED: bool = false;
    /// The instance, for tracked keys.
    fn id(_k: &Self::K) -> Option<i64> { None }
    /// Is there a value of the type for this rank?
    fn has(_r: i64) -> bool { true }
}

pub trait ValKind: 'static {
    type V: AsHashTree + Clone + PartialEq + Default + 'static;
    fn val(k: i64, v: i64) -> Self::V;
    fn bytes(v: &Self::V) -> Vec<u8>;
    fn id(_v: &Self::V) -> Option<i64> { None }
}

macro_rules! num_key {
    ($($n:ident $t:ty, $f:expr;)*) => { $(
        pub struct $n;
        impl KeyKind for $n {
            type K = $t;
            fn key(r: i64) -> $t { let f: fn(i64) -> $t = $f; f(r) }
            fn label(r: i64) -> Vec<u8> { Self::key(r).to_be_bytes().to_vec() }
        }
    )* };
}
// Ranks run over 1..=120; spread them so that every byte of the number matters.
num_key! {
    KU8 u8, |r| (r * 2) as u8;
    KU16 u16, |r| (r as u16) * (u16::MAX / 125);
    KU32 u32, |r| (r as u32) * (u32::MAX / 125);
    KU64 u64, |r| (r as u64) * (u64::MAX / 125);
    KU128 u128, |r| (r as u128) * (u128::MAX / 125);
    KUsize usize, |r| (r as usize) * (usize::MAX / 125);
    KI8 i8, |r| r as i8;
    KI16 i16, |r| (r as i16) * (i16::MAX / 125);
    KI32 i32, |r| (r as i32) * (i32::MAX / 125);
    KI64 i64, |r| r * (i64::MAX / 125);
    KI128 i128, |r| (r as i128) * (i128::MAX / 125);
    KIsize isize, |r| (r as isize) * (isize::MAX / 125);
    KI32Neg i32, |r| (r as i32 - 126) * (i32::MAX / 125);
    KI8Neg i8, |r| (r - 126) as i8;
    KI64Neg i64, |r| (r - 126) * (i64::MAX / 126);
    // across the sign: the label order differs from the key order (known finding)
    KI8Mix i8, |r| (r - 12) as i8;
    KI16Mix i16, |r| (r - 12) as i16 * 300;
    KI32Mix i32, |r| (r - 12) as i32 * 70_000;
    KI64Mix i64, |r| (r - 12) * 5_000_000_000;
    KI128Mix i128, |r| (r - 12) as i128 * (1 << 70);
    KIsizeMix isize, |r| (r - 12) as isize * 5_000_000_000;
    // small consecutive numbers, as most programs use them
    KU32Seq u32, |r| r as u32;
    KU64Seq u64, |r| 250 + r as u64;
}

/// Strings of several lengths, with NUL and non-ASCII characters, in order.
pub fn rank_string(r: i64) -> String {
    let (q, j) = (r / 4, r % 4);
    let base = format!("{}{}", (b'a' + (q / 8) as u8) as char, (b'0' + (q % 8) as u8) as char);
    format!("{}{}", base, ["", "\0", "zz", "é"][j as usize])
}
pub struct KString;
impl KeyKind for KString {
    type K = String;
    fn key(r: i64) -> String { rank_string(r) }
    fn label(r: i64) -> Vec<u8> { rank_string(r).into_bytes() }
}
/// The first key (rank 2) is the empty string; rank 1 is not available.
pub struct KStringE;
impl KeyKind for KStringE {
    type K = String;
    fn key(r: i64) -> String { if r <= 2 { String::new() } else { "x".repeat((r - 2) as usize) } }
    fn label(r: i64) -> Vec<u8> { Self::key(r).into_bytes() }
    fn has(r: i64) -> bool { r >= 2 }
}
/// Many strings with long common prefixes, for large maps; some are long.
pub struct KStringBig;
impl KeyKind for KStringBig {
    type K = String;
    fn key(r: i64) -> String {
        let s = format!("account/{:06}", r / 2);
        if r % 2 == 0 { s } else if r % 64 == 1 { s + &"/x".repeat(200) } else { s + "/a" }
    }
    fn label(r: i64) -> Vec<u8> { Self::key(r).into_bytes() }
}
/// Byte strings of several lengths with 0x00 and 0xff, in order.
pub fn rank_bytes(r: i64) -> Vec<u8> {
    let (q, j) = (r / 4, r % 4);
    if r == 3 { return vec![1]; }
    let mut b = if q == 0 { vec![] } else { vec![q as u8 * 2] };
    b.extend_from_slice([&[][..], &[0], &[0, 0xff], &[0xff]][j as usize]);
    b
}
pub struct KVec;
impl KeyKind for KVec {
    type K = Vec<u8>;
    fn key(r: i64) -> Vec<u8> { rank_bytes(r) }
    fn label(r: i64) -> Vec<u8> { rank_bytes(r) }
}
pub struct KBoxSlice;
impl KeyKind for KBoxSlice {
    type K = Box<[u8]>;
    fn key(r: i64) -> Box<[u8]> { rank_bytes(r).into() }
    fn label(r: i64) -> Vec<u8> { rank_bytes(r) }
}
macro_rules! arr_key { ($($n:ident $s:expr;)*) => { $(
    pub struct $n;
    impl KeyKind for $n {
        type K = [u8; $s];
        fn key(r: i64) -> [u8; $s] {
            let mut a = [0xa5u8; $s];
            if $s == 1 { a[0] = (r * 2) as u8 }
            else { a[0] = (r / 16 * 9) as u8; a[$s - 1] = (r % 16 * 16 + r % 3) as u8 }
            a
        }
        fn label(r: i64) -> Vec<u8> { Self::key(r).to_vec() }
    }
)* } }
arr_key! { KA1 1; KA2 2; KA8 8; KA20 20; KA32 32; }

pub struct KPrincipal; // all of one length
impl KeyKind for KPrincipal {
    type K = Principal;
    fn key(r: i64) -> Principal { Principal::from_slice(&Self::label(r)) }
    fn label(r: i64) -> Vec<u8> { vec![0, 0, 0, 0, 0, (r / 8) as u8, (r % 8 * 31) as u8, 1, 1, 1] }
}
/// Canister ids, the anonymous principal and user ids: ordered by length first
/// (known finding).
pub struct KPrincipalMix;
impl KeyKind for KPrincipalMix {
    type K = Principal;
    fn key(r: i64) -> Principal { Principal::from_slice(&Self::label(r)) }
    fn label(r: i64) -> Vec<u8> {
        match r {
            1 => vec![],
            2 => vec![4],
            3..=12 => vec![0, 0, 0, 0, 0, 0, 0, r as u8, 1, 1],
            _ => { let mut v = vec![0x5a; 29]; v[0] = (r * 2) as u8; v[28] = 2; v }
        }
    }
}
pub struct KBool; // ranks 2 (false) and 4 (true)
impl KeyKind for KBool {
    type K = bool;
    fn key(r: i64) -> bool { r >= 4 }
    fn label(r: i64) -> Vec<u8> { vec![(r >= 4) as u8] }
    fn has(r: i64) -> bool { r == 2 || r == 4 }
}
macro_rules! wrap_key { ($($n:ident $w:ident $inner:ident;)*) => { $(
    pub struct $n;
    impl KeyKind for $n {
        type K = $w<<$inner as KeyKind>::K>;
        fn key(r: i64) -> Self::K { $w::new($inner::key(r)) }
        fn label(r: i64) -> Vec<u8> { $inner::label(r) }
    }
)* } }
wrap_key! { KBoxString Box KString; KRcString Rc KString; KArcU64 Arc KU64; KBoxA8 Box KA8; KRcVec Rc KVec; }

thread_local! {
    static CELLS: (Vec<u32>, Vec<u32>) = (
        (0..200u32).map(|i| i * 1_000_003).collect(),
        (0..200u32).map(|i| (200 - i) * 1_000_003).collect());
}
/// Pointers whose addresses are in the order of what they point at.
pub struct KNonNull;
impl KeyKind for KNonNull {
    type K = NonNull<u32>;
    fn key(r: i64) -> NonNull<u32> { CELLS.with(|c| NonNull::from(&c.0[r as usize])) }
    fn label(r: i64) -> Vec<u8> { (r as u32 * 1_000_003).to_be_bytes().to_vec() }
}
/// ... and in the opposite order (known finding).
pub struct KNonNullRev;
impl KeyKind for KNonNullRev {
    type K = NonNull<u32>;
    fn key(r: i64) -> NonNull<u32> { CELLS.with(|c| NonNull::from(&c.1[r as usize])) }
    fn label(r: i64) -> Vec<u8> { ((200 - r as u32) * 1_000_003).to_be_bytes().to_vec() }
}

/// A key that counts how often it is compared, and how often its label is taken (once or
/// twice for every hash that is computed).
#[derive(Debug, Clone, Copy, Eq)]
#[derive(Default)]
pub struct Counted(pub u32);
thread_local! {
    pub static CMPS: std::cell::Cell<i64> = std::cell::Cell::new(0);
    pub static LABS: std::cell::Cell<i64> = std::cell::Cell::new(0);
    pub static ITEMS: std::cell::Cell<i64> = std::cell::Cell::new(0);
}
/// The comparisons and labels that a call takes.
pub fn cost<T>(f: impl FnOnce() -> T) -> (i64, i64) {
    CMPS.with(|c| c.set(0));
    LABS.with(|c| c.set(0));
    let r = f();
    let c = (CMPS.with(|c| c.get()), LABS.with(|c| c.get()));
    drop(r);
    c
}
impl PartialEq for Counted {
    fn eq(&self, o: &Self) -> bool { self.cmp(o) == std::cmp::Ordering::Equal }
}
impl Ord for Counted {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        CMPS.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Counted {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
impl Label for Counted {
    fn as_label(&self) -> std::borrow::Cow<[u8]> {
        LABS.with(|c| c.set(c.get() + 1));
        std::borrow::Cow::Owned(self.0.to_be_bytes().to_vec())
    }
}
pub struct KCounted;
impl KeyKind for KCounted {
    type K = Counted;
    fn key(r: i64) -> Counted { Counted(r as u32) }
    fn label(r: i64) -> Vec<u8> { (r as u32).to_be_bytes().to_vec() }
}

// ---------------------------------------------------------------- values
/// The value id of `Default::default()`.
pub const DEFAULT_ID: i64 = 99;
fn mix(k: i64, v: i64) -> i64 { k * 1000 + v }

pub struct VU32;
impl ValKind for VU32 {
    type V = u32;
    fn val(k: i64, v: i64) -> u32 { if v == DEFAULT_ID { 0 } else { mix(k, v) as u32 } }
    fn bytes(v: &u32) -> Vec<u8> { v.to_be_bytes().to_vec() }
}
pub struct VU64;
impl ValKind for VU64 {
    type V = u64;
    fn val(k: i64, v: i64) -> u64 { if v == DEFAULT_ID { 0 } else { (mix(k, v) as u64) << 20 | 7 } }
    fn bytes(v: &u64) -> Vec<u8> { v.to_be_bytes().to_vec() }
}
pub struct VI16;
impl ValKind for VI16 {
    type V = i16;
    fn val(k: i64, v: i64) -> i16 { if v == DEFAULT_ID { 0 } else { -((k * 100 + v) as i16) } }
    fn bytes(v: &i16) -> Vec<u8> { v.to_be_bytes().to_vec() }
}
pub struct VString;
impl ValKind for VString {
    type V = String;
    fn val(k: i64, v: i64) -> String { if v == DEFAULT_ID { String::new() } else { format!("v{}\0é{}", k, v) } }
    fn bytes(v: &String) -> Vec<u8> { v.as_bytes().to_vec() }
}
pub struct VVec;
impl ValKind for VVec {
    type V = Vec<u8>;
    fn val(k: i64, v: i64) -> Vec<u8> { if v == DEFAULT_ID { vec![] } else { let mut b = vec![0xff; (v % 40) as usize]; b.extend(mix(k, v).to_le_bytes()); b } }
    fn bytes(v: &Vec<u8>) -> Vec<u8> { v.clone() }
}
