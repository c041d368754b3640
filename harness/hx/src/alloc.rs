//! An allocator that remembers how much memory an operation held at its peak, and refuses absurd requests the
//! way a machine without that memory would.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 1 << 30;

fn add(n: usize) {
    let v = NOW.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(v, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP || NOW.load(Relaxed) + l.size() > 2 * CAP {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP || NOW.load(Relaxed) + l.size() > 2 * CAP {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > CAP {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n);
            NOW.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

/// starts a measurement
pub fn mark() -> usize {
    let n = NOW.load(Relaxed);
    PEAK.store(n, Relaxed);
    n
}
/// bytes held at the peak since the mark
pub fn peak(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}
