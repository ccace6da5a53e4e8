//! A global allocator that turns misuse of memory into crashes: freed blocks are
//! overwritten, kept back for a while and checked when they are given up (a write after
//! release); releasing a block twice, or with another size, aborts. It also counts what is
//! in use, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

const HEAD: usize = 32; // magic, size; keeps 16-byte alignment
const LIVE: u64 = 0x4c49_5645_4c49_5645;
const DEAD: u64 = 0xdead_dead_dead_dead;
const POISON: u8 = 0xdf;
const SLOTS: usize = 1 << 14;
const KEEP: usize = 2048; // larger blocks are given up at once

pub struct Guard;
static RING: [AtomicPtr<u8>; SLOTS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TAKEN: Cell<i64> = const { Cell::new(0) };
}
/// Bytes this thread has ever been given.
pub fn taken() -> i64 { TAKEN.with(|t| t.get()) }
/// Bytes and blocks this thread has in use.
pub fn in_use() -> (i64, i64) { (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get())) }

fn die(what: &str) -> ! {
    unsafe {
        // no allocation here
        extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; }
        write(2, what.as_ptr(), what.len());
    }
    std::process::abort()
}
unsafe fn give_up(base: *mut u8) {
    let size = *(base as *mut u64).add(1) as usize;
    if *(base as *mut u64) != DEAD { die("memory: block header overwritten after release\n") }
    let p = base.add(HEAD);
    if (0..size).any(|i| *p.add(i) != POISON) { die("memory: write after release\n") }
    System.dealloc(base, Layout::from_size_align_unchecked(size + HEAD, 16));
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 { return System.alloc(l) }
        let base = System.alloc(Layout::from_size_align_unchecked(l.size() + HEAD, 16));
        if base.is_null() { return base }
        *(base as *mut u64) = LIVE;
        *(base as *mut u64).add(1) = l.size() as u64;
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as i64));
        let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
        let _ = TAKEN.try_with(|t| t.set(t.get() + l.size() as i64));
        base.add(HEAD)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 { return System.dealloc(p, l) }
        let base = p.sub(HEAD);
        let (magic, size) = (*(base as *mut u64), *(base as *mut u64).add(1));
        if magic == DEAD { die("memory: released twice\n") }
        if magic != LIVE || size != l.size() as u64 { die("memory: released what was not allocated\n") }
        let _ = BYTES.try_with(|b| b.set(b.get() - l.size() as i64));
        let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
        *(base as *mut u64) = DEAD;
        std::ptr::write_bytes(p, POISON, l.size());
        if l.size() > KEEP { return give_up(base) }
        let slot = NEXT.fetch_add(1, Ordering::Relaxed) % SLOTS;
        let old = RING[slot].swap(base, Ordering::AcqRel);
        if !old.is_null() { give_up(old) }
    }
}
