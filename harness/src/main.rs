//! Executes scripts (one JSON operation per line) on the real library and records one
//! JSON event per operation: the operation plus what came back. It decides nothing; the
//! events are judged by the TLA+ trace specifications.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

mod alloc;
mod client;
mod deep;
mod encode;
mod faults;
mod group;
mod hash;
mod kinds;
mod map;
mod nested;
mod own;
mod paged;
mod prefix;
mod replica;
mod work;
mod scale;
mod seq;
mod tree;

/// One collection under test.
pub trait Machine {
    fn step(&mut self, op: &Value) -> Value;
    /// What the first event of a history reports.
    fn hello(&self, _op: &Value) -> Value { json!({}) }
    /// The tracked instances that are stored, for machines that have such.
    fn owned(&self) -> Option<Value> { None }
}

/// For histories without a collection of their own.
struct Nothing;
impl Machine for Nothing {
    fn step(&mut self, _: &Value) -> Value { json!({}) }
}

/// The memory that a program on a fresh collection leaves behind, in its second run.
fn heap(prog: &[Value]) -> Value {
    let mut r = (0, 0);
    for _ in 0..2 {
        let before = alloc::in_use();
        {
            let mut m = new_machine(&prog[0]);
            m.hello(&prog[0]);
            for o in &prog[1..] { m.step(o); }
            own::begin();
        }
        let after = alloc::in_use();
        r = (after.0 as i64 - before.0 as i64, after.1 as i64 - before.1 as i64);
    }
    json!({"bytes": r.0, "blocks": r.1, "prog": prog.len()})
}

#[global_allocator]
static ALLOC: alloc::Guard = alloc::Guard;

static STEP: AtomicU64 = AtomicU64::new(0);

fn new_machine(o: &Value) -> Box<dyn Machine> {
    use kinds::*;
    use map::*;
    let kt = o["kt"].as_str().unwrap_or("");
    let vt = o["vt"].as_str().unwrap_or("u32");
    macro_rules! maps {
        ($($n:literal $k:ident),*; $($cn:literal $ck:ident),*; $($vn:literal $v:ident),*) => {
            match (kt, vt) {
                $( ($n, "u32") => return MapM::<$k, VU32>::boxed(o, None), )*
                $( ($cn, "u32") => return MapM::<$ck, VU32>::boxed(o, codec()), )*
                $( ("String", $vn) => return MapM::<KString, $v>::boxed(o, codec()), )*
                _ => panic!("script: kinds {} {}", kt, vt),
            }
        };
    }
    match o["mach"].as_str().unwrap() {
        "map" if kt == "tracked" => MapM::<own::KTrack, own::VTrack>::boxed(o, codec()),
        "seq" if kt == "tracked" => seq::SeqM::<own::Tracked>::boxed(o, None),
        "heap" => Box::new(Nothing),
        "scale" => scale::boxed(o),
        "deep" => deep::boxed(o),
        "replica" => replica::boxed(o),
        "client" => client::boxed(o),
        "map" => {
            maps!("Box<[u8]>" KBoxSlice, "[u8;1]" KA1, "[u8;2]" KA2, "[u8;8]" KA8, "[u8;20]" KA20, "[u8;32]" KA32,
                  "Box<String>" KBoxString, "Rc<String>" KRcString, "Arc<u64>" KArcU64, "Box<[u8;8]>" KBoxA8,
                  "Rc<Vec<u8>>" KRcVec, "NonNull<u32>" KNonNull, "NonNull<u32>-reversed" KNonNullRev,
                  "String-big" KStringBig, "counted" KCounted, "usize" KUsize, "isize" KIsize, "isize-mixed" KIsizeMix;
                  "u8" KU8, "u16" KU16, "u32" KU32, "u64" KU64, "u128" KU128,
                  "i8" KI8, "i16" KI16, "i32" KI32, "i64" KI64, "i128" KI128,
                  "i32-neg" KI32Neg, "i8-neg" KI8Neg, "i64-neg" KI64Neg,
                  "i8-mixed" KI8Mix, "i16-mixed" KI16Mix, "i32-mixed" KI32Mix, "i64-mixed" KI64Mix, "i128-mixed" KI128Mix,
                  "u32-seq" KU32Seq, "u64-seq" KU64Seq,
                  "String" KString, "String-empty" KStringE, "Vec<u8>" KVec,
                  "Principal" KPrincipal, "Principal-mixed" KPrincipalMix, "bool" KBool;
                  "u64" VU64, "i16" VI16, "String" VString, "Vec<u8>" VVec);
        }
        "nested" => {
            use certified_vars::rbtree::RbTree;
            use certified_vars::{Map, Seq};
            use nested::*;
            use std::collections::BTreeMap as B;
            match kt {
                "map-map" => NestedM::<Map<String, Map<u32, u32>>>::boxed(reload::<_, B<String, B<u32, u32>>, Vec<(String, Vec<(u32, u32)>)>>()),
                "map-seq" => NestedM::<Map<String, Seq<u32>>>::boxed(reload::<_, B<String, Vec<u32>>, Vec<(String, Vec<u32>)>>()),
                "map-map-seq" => NestedM::<Map<u32, Map<String, Seq<u32>>>>::boxed(reload::<_, B<u32, B<String, Vec<u32>>>, Vec<(u32, Vec<(String, Vec<u32>)>)>>()),
                "map-map-map" => NestedM::<Map<String, Map<u32, Map<u32, u32>>>>::boxed(
                    reload::<_, B<String, B<u32, B<u32, u32>>>, Vec<(String, Vec<(u32, Vec<(u32, u32)>)>)>>()),
                "rb-rb" => NestedM::<RbTree<u32, RbTree<String, u32>>>::boxed(None),
                "rb-map" => NestedM::<RbTree<String, Map<u32, u32>>>::boxed(None),
                "rb-seq" => NestedM::<RbTree<u32, Seq<u32>>>::boxed(None),
                "rb-map-seq" => NestedM::<RbTree<u32, Map<String, Seq<u32>>>>::boxed(None),
                "rb-rb-rb" => NestedM::<RbTree<u32, RbTree<String, RbTree<u32, u32>>>>::boxed(None),
                _ => panic!("script: kind {}", kt),
            }
        }
        "seq" => {
            use certified_vars::Seq;
            use seq::*;
            match kt {
                "u8" => SeqM::<u8>::boxed(o, by_ref()),
                "u16" => SeqM::<u16>::boxed(o, by_ref()),
                "u32" => SeqM::<u32>::boxed(o, by_ref()),
                "u64" => SeqM::<u64>::boxed(o, by_ref()),
                "i8" => SeqM::<i8>::boxed(o, by_ref()),
                "i64" => SeqM::<i64>::boxed(o, by_ref()),
                "u128" => SeqM::<u128>::boxed(o, by_ref()),
                "bool" => SeqM::<bool>::boxed(o, by_ref()),
                "String" => SeqM::<String>::boxed(o, None),
                "Vec<u8>" => SeqM::<Vec<u8>>::boxed(o, None),
                "Seq" => SeqM::<Seq<u32>>::boxed(o, None),
                "Map" => SeqM::<MapItem>::boxed(o, None),
                _ => panic!("script: kind {}", kt),
            }
        }
        "encode" => encode::EncodeM::boxed(),
        "hash" => hash::HashM::boxed(),
        "group" => group::GroupM::boxed(),
        "paged" => {
            use paged::*;
            let s = o["S"].as_i64().unwrap();
            macro_rules! pages {
                ($($n:literal $k:ident $v:ty),*; $($cn:literal $ck:ident $cv:ty),*; $($s:literal)*) => {
                    match (kt, s) {
                        $( ($n, 1) => PagedM::<$k, $v, 1>::boxed(o, None), ($n, 3) => PagedM::<$k, $v, 3>::boxed(o, None), )*
                        $( ($cn, 1) => PagedM::<$ck, $cv, 1>::boxed(o, codec()), ($cn, 2) => PagedM::<$ck, $cv, 2>::boxed(o, codec()),
                           ($cn, 3) => PagedM::<$ck, $cv, 3>::boxed(o, codec()), ($cn, 7) => PagedM::<$ck, $cv, 7>::boxed(o, codec()), )*
                        ("tracked", 1) => PagedM::<own::KTrack, own::Tracked, 1>::boxed(o, codec()),
                        ("tracked", 2) => PagedM::<own::KTrack, own::Tracked, 2>::boxed(o, codec()),
                        ("tracked", 3) => PagedM::<own::KTrack, own::Tracked, 3>::boxed(o, codec()),
                        ("tracked", 7) => PagedM::<own::KTrack, own::Tracked, 7>::boxed(o, codec()),
                        $( ("u32", $s) => PagedM::<KU32, u32, $s>::boxed(o, codec()), )*
                        _ => panic!("script: kind {} {}", kt, s),
                    }
                };
            }
            pages!("counted" KCounted u32, "[u8;2]" KA2 u32, "[u8;32]" KA32 String, "Box<[u8;8]>" KBoxA8 u32, "Arc<u64>" KArcU64 u32;
                   "u32" KU32 u32, "u8" KU8 String, "u64" KU64 u32, "i32" KI32 u32, "u128" KU128 u32, "i64-neg" KI64Neg u32,
                   "u32-seq" KU32Seq u32,
                   "String" KStrFix u32, "Vec<u8>" KVecFix String, "Principal" KPrincipal u32, "user" KUser u32,
                   "paged-String" KStrVar u32, "paged-Vec<u8>" KVecVar u32;
                   4 5 10 64 256 1000)
        }
        "prefix" => {
            use prefix::*;
            match kt {
                "String" => PrefixM::<String>::boxed(o),
                "Vec<u8>" => PrefixM::<Vec<u8>>::boxed(o),
                "Box<[u8]>" => PrefixM::<Box<[u8]>>::boxed(o),
                "pair" => PrefixM::<Comp>::boxed(o),
                "text-pair" => PrefixM::<CompS>::boxed(o),
                "[u8;1]" => PrefixM::<[u8; 1]>::boxed(o),
                "[u8;2]" => PrefixM::<[u8; 2]>::boxed(o),
                "[u8;3]" => PrefixM::<[u8; 3]>::boxed(o),
                "[u8;4]" => PrefixM::<[u8; 4]>::boxed(o),
                "[u8;5]" => PrefixM::<[u8; 5]>::boxed(o),
                "[u8;6]" => PrefixM::<[u8; 6]>::boxed(o),
                "[u8;7]" => PrefixM::<[u8; 7]>::boxed(o),
                "[u8;8]" => PrefixM::<[u8; 8]>::boxed(o),
                "[u8;9]" => PrefixM::<[u8; 9]>::boxed(o),
                "[u8;10]" => PrefixM::<[u8; 10]>::boxed(o),
                "[u8;11]" => PrefixM::<[u8; 11]>::boxed(o),
                "[u8;12]" => PrefixM::<[u8; 12]>::boxed(o),
                "[u8;13]" => PrefixM::<[u8; 13]>::boxed(o),
                "[u8;14]" => PrefixM::<[u8; 14]>::boxed(o),
                "[u8;15]" => PrefixM::<[u8; 15]>::boxed(o),
                "[u8;16]" => PrefixM::<[u8; 16]>::boxed(o),
                "[u8;17]" => PrefixM::<[u8; 17]>::boxed(o),
                "[u8;18]" => PrefixM::<[u8; 18]>::boxed(o),
                "[u8;19]" => PrefixM::<[u8; 19]>::boxed(o),
                "[u8;20]" => PrefixM::<[u8; 20]>::boxed(o),
                "[u8;21]" => PrefixM::<[u8; 21]>::boxed(o),
                "[u8;22]" => PrefixM::<[u8; 22]>::boxed(o),
                "[u8;23]" => PrefixM::<[u8; 23]>::boxed(o),
                "[u8;24]" => PrefixM::<[u8; 24]>::boxed(o),
                "[u8;25]" => PrefixM::<[u8; 25]>::boxed(o),
                "[u8;26]" => PrefixM::<[u8; 26]>::boxed(o),
                "[u8;27]" => PrefixM::<[u8; 27]>::boxed(o),
                "[u8;28]" => PrefixM::<[u8; 28]>::boxed(o),
                "[u8;29]" => PrefixM::<[u8; 29]>::boxed(o),
                "[u8;30]" => PrefixM::<[u8; 30]>::boxed(o),
                "[u8;31]" => PrefixM::<[u8; 31]>::boxed(o),
                "[u8;32]" => PrefixM::<[u8; 32]>::boxed(o),
                _ => panic!("script: kind {}", kt),
            }
        }
        "panic" => faults::boxed(o),
        "work" => work::boxed(o),
        m => panic!("script: machine {}", m),
    }
}

/// Seconds of processor time this process has used.
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap().split_whitespace().collect();
    f.get(11..13).map_or(0.0, |t| t.iter().map(|x| x.parse::<f64>().unwrap_or(0.0)).sum::<f64>() / 100.0)
}

/// Ends the process when an operation takes a minute of processor time, or five minutes of
/// hardly any: however busy the machine is, nothing takes that long.  `step` changes with every
/// operation; it is 0 when there is none.
pub fn watch(step: fn() -> u64, code: i32) {
    std::thread::spawn(move || {
        let (mut last, mut used, mut rounds) = (step(), cpu(), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            rounds += 1;
            let (s, c) = (step(), cpu());
            if s != last || s == 0 {
                (last, used, rounds) = (s, c, 0);
            } else if c - used >= 60.0 || (rounds >= 600 && c - used < 5.0) {
                std::process::exit(code);
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--serve" {
        std::panic::set_hook(Box::new(|_| {}));
        return replica::serve();
    }
    let script = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("script"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("out"));
    std::panic::set_hook(Box::new(|_| {}));
    // An operation that does not come back is reported by the exit code (124).
    watch(|| STEP.load(Ordering::Relaxed), 124);
    let run = move || {
        let mut m: Option<Box<dyn Machine>> = None;
        let mut dead = false;
        for line in script.lines() {
            STEP.fetch_add(1, Ordering::Relaxed);
            let mut o: Value = serde_json::from_str(&line.unwrap()).expect("script line");
            if o["op"] == "new" {
                dead = false;
            } else if dead {
                continue;
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                own::begin();
                let mut r = match o["op"].as_str().unwrap() {
                    "new" => {
                        drop(m.take());
                        own::fresh_start();
                        let n = new_machine(&o);
                        let r = n.hello(&o);
                        m = Some(n);
                        r
                    }
                    "heap" => heap(map::list(&o, "prog")),
                    "drop" => {
                        drop(m.take());
                        json!({"own": own::report(json!([]))})
                    }
                    _ => m.as_mut().expect("script: no machine").step(&o),
                };
                if let Some(held) = m.as_ref().and_then(|m| m.owned()) { r["own"] = own::report(held) }
                r
            }));
            match r {
                Ok(Value::Object(r)) => {
                    let o = o.as_object_mut().unwrap();
                    o.extend(r);
                    if o["op"] == "heap" { o.insert("prog".into(), json!([])); }
                }
                Ok(_) => unreachable!(),
                Err(e) => {
                    let msg = e.downcast_ref::<String>().cloned()
                        .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    if msg.starts_with("script:") {
                        eprintln!("{}", msg);
                        std::process::exit(99);
                    }
                    // What is left of the collection is not usable.
                    std::mem::forget(m.take());
                    dead = true;
                    o = json!({"op": "panic", "at": o, "msg": msg});
                }
            }
            serde_json::to_writer(&mut out, &o).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
        // dropping the last collection may still fail
        if let Err(_) = catch_unwind(AssertUnwindSafe(|| drop(m.take()))) {
            writeln!(out, "{}", json!({"op": "panic", "at": {"op": "drop"}, "msg": "drop"})).unwrap();
        }
        out.flush().unwrap();
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap();
}
