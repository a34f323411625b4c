//! Counting allocator: per-thread volume for the "no allocation out of proportion" monitor, global live bytes
//! for the watchdog, and per-thread live bytes for leak accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static VOLUME: Cell<u64> = const { Cell::new(0) };
    static TLIVE: Cell<i64> = const { Cell::new(0) };
    static PENDING: Cell<i64> = const { Cell::new(0) };
}
fn note(d: i64, vol: u64) {
    let _ = VOLUME.try_with(|v| v.set(v.get() + vol));
    let _ = TLIVE.try_with(|v| v.set(v.get() + d));
    // batch updates of the shared counter
    let flush = PENDING.try_with(|p| {
        let n = p.get() + d;
        if n.abs() > 1 << 20 {
            p.set(0);
            n
        } else {
            p.set(n);
            0
        }
    });
    if let Ok(n) = flush {
        if n != 0 {
            LIVE.fetch_add(n, Ordering::Relaxed);
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, l.size() as u64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, n as u64);
        System.realloc(p, l, n)
    }
}
pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}
/// bytes requested by this thread so far
pub fn volume() -> u64 {
    VOLUME.with(Cell::get)
}
/// bytes currently held that were allocated minus freed on this thread
pub fn thread_live() -> i64 {
    TLIVE.with(Cell::get)
}
