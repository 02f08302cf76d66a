//! An allocator that counts the bytes in use.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn add(n: i64) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if n > 0 && l > PEAK.load(Relaxed) {
        PEAK.fetch_max(l, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes in use.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// The most bytes in use since the last call.
pub fn peak() -> i64 {
    PEAK.swap(LIVE.load(Relaxed), Relaxed)
}
