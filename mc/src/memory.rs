//! what the current thread holds, so that memory use can be compared with the size of a file
use std::{
    alloc::{GlobalAlloc, Layout as L, System},
    cell::Cell,
};

/// to be made the `#[global_allocator]` of a check
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn count(n: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: L) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: L) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: L, n: usize) -> *mut u8 {
        // both may exist for a moment
        count(n as i64);
        count(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

const FIXED: i64 = 24 << 20;
const PER_BYTE: i64 = 256;

/// of the use of one file
pub struct Use(i64);
impl Use {
    pub fn begin() -> Use {
        let base = LIVE.with(|l| l.get());
        PEAK.with(|p| p.set(base));
        Use(base)
    }
    /// the most memory held since the beginning, if that is out of proportion to a file of `size` bytes
    pub fn excess(&self, size: usize) -> Option<i64> {
        let peak = PEAK.with(|p| p.get()) - self.0;
        (peak >= FIXED + PER_BYTE * size as i64).then_some(peak)
    }
}
