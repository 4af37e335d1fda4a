//! Counting global allocator: bytes in use, the peak, and the number of bytes ever requested.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

fn add(n: usize) {
    let cur = CUR.fetch_add(n, Relaxed) + n;
    if cur > CAP.load(Relaxed) {
        std::process::exit(crate::core::EXIT_MEMORY);
    }
    TOTAL.fetch_add(n, Relaxed);
    PEAK.fetch_max(cur, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            add(new - l.size());
        } else {
            CUR.fetch_sub(l.size() - new, Relaxed);
        }
        System.realloc(p, l, new)
    }
}

pub fn set_cap(bytes: usize) {
    CAP.store(bytes, Relaxed);
}

/// Bytes in use
pub fn live() -> usize {
    CUR.load(Relaxed)
}

pub struct Meter {
    base: usize,
    total: usize,
}

/// Bytes above the starting point at the peak, and bytes requested, since the start.
pub struct Usage {
    pub peak: usize,
    pub total: usize,
}

impl Meter {
    pub fn start() -> Meter {
        let base = CUR.load(Relaxed);
        PEAK.store(base, Relaxed);
        Meter {
            base,
            total: TOTAL.load(Relaxed),
        }
    }
    pub fn stop(&self) -> Usage {
        Usage {
            peak: PEAK.load(Relaxed).saturating_sub(self.base),
            total: TOTAL.load(Relaxed).wrapping_sub(self.total),
        }
    }
}
