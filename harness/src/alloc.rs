//! Counting global allocator with thread-local counters.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
    /// Set while the harness itself builds messages etc. inside a measured
    /// section.
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Allocations above this fail (abort) while measuring.
const CAP: usize = 1 << 30;
/// A thread that holds more than this fails to allocate (abort).
const THREAD_CAP: i64 = 5 << 29;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
fn big(n: usize) {
    let _ = BIGGEST.try_with(|b| if n as u64 > b.get() { b.set(n as u64) });
}
fn refuse(n: usize) -> bool {
    // a runaway case aborts before the machine runs out of memory
    if n as i64 + LIVE.try_with(|l| l.get()).unwrap_or(0) > THREAD_CAP { return true; }
    n > CAP && GUARD.try_with(|g| g.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) { return std::ptr::null_mut(); }
        add(l.size() as i64);
        big(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) { return std::ptr::null_mut(); }
        add(l.size() as i64);
        big(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) { return std::ptr::null_mut(); }
        add(n as i64 - l.size() as i64);
        big(n);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    /// Peak growth over the live heap at the start.
    pub peak: u64,
    /// Largest single request.
    pub biggest: u64,
    pub calls: u64,
}

/// Runs `f` and measures what this thread allocated meanwhile.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) { GUARD.with(|g| g.set(false)); }
    }
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    BIGGEST.with(|b| b.set(0));
    let calls = CALLS.with(|c| c.get());
    GUARD.with(|g| g.set(true));
    let r = Reset;
    let out = f();
    drop(r);
    let peak = (PEAK.with(|p| p.get()) - base).max(0) as u64;
    (out, Usage { peak, biggest: BIGGEST.with(|b| b.get()), calls: CALLS.with(|c| c.get()) - calls })
}
