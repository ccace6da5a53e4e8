//! Several instances of one collection, some of them in processes of their own, that are
//! given changes, reads and questions independently of each other.
use crate::map::{i, list};
use crate::{new_machine, Machine};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

thread_local! { static SEEN: RefCell<Option<Sha256>> = RefCell::new(None); }

/// Bytes that the library gave out: part of the answer while one is being put together.
pub fn saw(b: impl FnOnce() -> Vec<u8>) {
    SEEN.with(|s| {
        if let Some(h) = &mut *s.borrow_mut() {
            let b = b();
            h.update((b.len() as u64).to_be_bytes());
            h.update(b);
        }
    })
}

/// A digest of everything that comes back.
fn digest(f: impl FnOnce() -> Value) -> String {
    SEEN.with(|s| *s.borrow_mut() = Some(Sha256::new()));
    let v = catch_unwind(AssertUnwindSafe(f));
    let mut h = SEEN.with(|s| s.borrow_mut().take()).unwrap();
    h.update(match v {
        Ok(v) => v.to_string(),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("script:") { std::panic::resume_unwind(Box::new(m)) }
            return "panic".into();
        }
    });
    hex(&h.finalize()[..12])
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn handle(m: &mut dyn Machine, o: &Value) -> String {
    let parsed = |f: &str| -> Value { serde_json::from_str(o[f].as_str().expect("script: text")).expect("script: json") };
    match o["op"].as_str().unwrap() {
        "do" => digest(|| m.step(&parsed("c"))),
        "read" => digest(|| m.step(&parsed("r"))),
        "probe" => {
            let q = parsed("q");
            digest(|| json!(q.as_array().unwrap().iter().map(|q| m.step(q)).collect::<Vec<_>>()))
        }
        x => panic!("script: unknown op {}", x),
    }
}

enum Inst {
    Local(Box<dyn Machine>),
    Remote(Child, ChildStdin, BufReader<ChildStdout>),
}
fn tell(to: &mut ChildStdin, from: &mut BufReader<ChildStdout>, o: &Value) -> String {
    let mut s = String::new();
    if writeln!(to, "{}", o).and_then(|_| to.flush()).is_ok() { from.read_line(&mut s).ok(); }
    match s.trim() {
        "" => "crash".into(),
        s => s.to_string(),
    }
}

struct ReplicaM(Vec<Inst>);
pub fn boxed(o: &Value) -> Box<dyn Machine> {
    let base: Value = serde_json::from_str(o["base"].as_str().expect("script: base")).expect("script: json");
    Box::new(ReplicaM(list(o, "insts").iter().map(|x| match x.as_str().unwrap() {
        "local" => Inst::Local(new_machine(&base)),
        _ => {
            let mut c = Command::new(std::env::current_exe().unwrap()).arg("--serve")
                .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("a process");
            let (mut a, mut b) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            tell(&mut a, &mut b, &base);
            Inst::Remote(c, a, b)
        }
    }).collect()))
}
impl Machine for ReplicaM {
    fn step(&mut self, o: &Value) -> Value {
        let d = match &mut self.0[i(o, "i") as usize - 1] {
            Inst::Local(m) => handle(&mut **m, o),
            Inst::Remote(_, a, b) => tell(a, b, o),
        };
        if d.starts_with("script:") { panic!("{}", d) }
        json!({"d": d})
    }
}
impl Drop for Inst {
    fn drop(&mut self) {
        if let Inst::Remote(c, ..) = self { c.kill().ok(); c.wait().ok(); }
    }
}

/// An instance in a process of its own: answers line by line.
pub fn serve() {
    // Does not outlive an operation that does not come back.
    static BUSY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    crate::watch(|| { let s = BUSY.load(Relaxed); s * (s % 2) }, 1);
    let go = || {
        let mut m: Option<Box<dyn Machine>> = None;
        for line in std::io::stdin().lock().lines() {
            let o: Value = serde_json::from_str(&line.unwrap()).expect("line");
            BUSY.fetch_add(1, Relaxed);
            let r = catch_unwind(AssertUnwindSafe(|| match &mut m {
                None => { m = Some(new_machine(&o)); "ready".into() }
                Some(m) => handle(&mut **m, &o),
            }));
            BUSY.fetch_add(1, Relaxed);
            let r = r.unwrap_or_else(|e| e.downcast_ref::<String>().cloned().unwrap_or("panic".into()));
            println!("{}", r);
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(go).unwrap().join().unwrap();
}
