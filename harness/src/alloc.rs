//! Counting allocator: per-thread numbers of live bytes, allocated bytes and calls.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { add(l.size()) }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { add(l.size()) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        sub(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { sub(l.size()); add(n) }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage { pub live: i64, pub peak: i64, pub total: u64, pub calls: u64 }

pub fn live() -> i64 { LIVE.with(|l| l.get()) }

/// runs f and reports what it allocated on this thread (peak and live relative to the start)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let live0 = LIVE.with(|l| l.get());
    let total0 = TOTAL.with(|t| t.get());
    let calls0 = CALLS.with(|c| c.get());
    PEAK.with(|p| p.set(live0));
    let r = f();
    let u = Usage {
        live: LIVE.with(|l| l.get()) - live0,
        peak: PEAK.with(|p| p.get()) - live0,
        total: TOTAL.with(|t| t.get()) - total0,
        calls: CALLS.with(|c| c.get()) - calls0,
    };
    (r, u)
}
