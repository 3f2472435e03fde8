//! An allocator that counts what the current thread allocates, while it is asked to.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn count(plus: usize, minus: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            TOTAL.with(|t| t.set(t.get() + plus as u64));
            LIVE.with(|l| {
                l.set(l.get() + plus as i64 - minus as i64);
                PEAK.with(|p| p.set(p.get().max(l.get())));
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(0, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n, l.size());
        System.realloc(p, l, n)
    }
}

pub fn start() {
    TOTAL.with(|t| t.set(0));
    LIVE.with(|t| t.set(0));
    PEAK.with(|t| t.set(0));
    ON.with(|t| t.set(true));
}

/// (bytes allocated, peak of the bytes alive) since `start`
pub fn stop() -> (u64, u64) {
    ON.with(|t| t.set(false));
    (TOTAL.with(Cell::get), PEAK.with(Cell::get).max(0) as u64)
}
