//! Counting global allocator: per thread bytes in use, peak and number of allocations.
//! The monitor for bounded memory use (C15).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = COUNT.try_with(|k| k.set(k.get() + 1));
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v);
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Both blocks may exist for a moment.
        add(n as i64);
        add(-(l.size() as i64));
        unsafe { System.realloc(p, l, n) }
    }
}

/// Bytes in use by this thread.
pub fn current() -> i64 {
    CUR.with(Cell::get)
}
/// Starts a new peak measurement and returns the current use.
pub fn reset_peak() -> i64 {
    let c = current();
    PEAK.with(|p| p.set(c));
    c
}
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}
pub fn count() -> u64 {
    COUNT.with(Cell::get)
}
