//! Counts bytes requested from the allocator by the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    /// All that was ever requested
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    if n > 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n as u64)));
    }
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        let p = System.alloc(l);
        if p.is_null() {
            add(-(l.size() as i64));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            add(-(l.size() as i64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // the old and the new block may exist at the same time
        add(n as i64);
        let r = System.realloc(p, l, n);
        if r.is_null() {
            add(-(n as i64));
        } else {
            add(-(l.size() as i64));
        }
        r
    }
}

/// Starts a measurement; returns the baseline
pub fn start() -> i64 {
    let c = CUR.with(Cell::get);
    PEAK.with(|p| p.set(c));
    c
}

/// Peak bytes above the baseline since `start`
pub fn peak_since(base: i64) -> u64 {
    (PEAK.with(Cell::get) - base).max(0) as u64
}

/// Bytes ever requested by this thread
pub fn total() -> u64 {
    TOTAL.with(Cell::get)
}
