//! Heap accounting for the contracts about memory use (native runs only).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// A single request above this is refused: the process would be killed otherwise.
const HARD: usize = 3 << 30;

pub struct Counting;

fn refuse(n: usize) -> ! {
    crate::nd::report_and_exit(&format!("a single allocation of {n} bytes was requested"))
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            refuse(l.size());
        }
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            refuse(l.size());
        }
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD {
            refuse(n);
        }
        if n >= l.size() {
            let c = CUR.fetch_add(n - l.size(), Relaxed) + (n - l.size());
            PEAK.fetch_max(c, Relaxed);
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Starts a measurement.
pub fn start() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
/// The largest number of bytes held since `start`, beyond what was held then.
pub fn peak_since(start: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(start)
}
