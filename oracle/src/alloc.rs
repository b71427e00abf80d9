//! Counting allocator: the largest single request and the peak of live bytes, per thread of interest.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIG: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            let _ = LIVE.fetch_update(Relaxed, Relaxed, |x| Some(x.saturating_sub(l.size())));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            let _ = LIVE.fetch_update(Relaxed, Relaxed, |x| Some(x.saturating_sub(l.size())));
        }
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    if ON.load(Relaxed) {
        BIG.fetch_max(n, Relaxed);
        let l = LIVE.fetch_add(n, Relaxed) + n;
        PEAK.fetch_max(l, Relaxed);
    }
}
/// (result, largest single request, peak of bytes allocated during f and still live)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    BIG.store(0, Relaxed);
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    (r, BIG.load(Relaxed), PEAK.load(Relaxed))
}
