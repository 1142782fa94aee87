//! Counting allocator: memory demand is an observable of the simulated process.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
/// one request above this is refused (the simulated machine has no such memory)
const REFUSE: usize = 3 << 30;

fn add(n: usize) {
    let c = CUR.fetch_add(n as u64, Relaxed) + n as u64;
    PEAK.fetch_max(c, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        add(n);
        CUR.fetch_sub(l.size() as u64, Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn reset_peak() -> u64 {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
pub fn peak() -> u64 {
    PEAK.load(Relaxed)
}
