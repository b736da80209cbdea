//! Largest single allocation requested by the current thread, and an end to growth without bounds.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

thread_local! {
    static PEAK: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// More than any case holds; beyond it the process aborts, which is reported as a failure of the case.
const LIMIT: i64 = 3 << 30;
/// Requests above this may never be touched and are only watched as peaks.
const LARGE: usize = 1 << 30;

fn live(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 && v > LIMIT {
            std::process::abort()
        }
    });
}
fn counted(n: usize) -> i64 {
    if n > LARGE { 0 } else { n as i64 }
}

/// Global allocator recording the largest single request per thread.
pub struct Tracking;

fn see(n: usize) {
    let _ = PEAK.try_with(|p| {
        if n > p.get() {
            p.set(n)
        }
    });
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        see(l.size());
        live(counted(l.size()));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-counted(l.size()));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        see(l.size());
        live(counted(l.size()));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        see(n);
        if n as i64 > LIMIT && l.size() > LARGE / 2 {
            std::process::abort()
        }
        live(counted(n) - counted(l.size()));
        System.realloc(p, l, n)
    }
}

pub fn alloc_reset() {
    PEAK.with(|p| p.set(0))
}
pub fn alloc_peak() -> usize {
    PEAK.with(|p| p.get())
}
