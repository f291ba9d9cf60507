//! Allocator that refuses absurd requests, so that an implementation that tries to allocate
//! without bound fails (null) instead of taking the machine down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub struct Capped;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(8 << 30);
/// Largest single allocation that is granted.
pub const SINGLE: usize = 512 << 20;
thread_local! {
    /// Bytes held by this thread since `peak_start`, and the most there were.
    static HELD: std::cell::Cell<(isize, isize)> = const { std::cell::Cell::new((0, 0)) };
}
fn held(d: isize) {
    let _ = HELD.try_with(|h| {
        let (c, p) = h.get();
        h.set((c + d, p.max(c + d)));
    });
}
pub fn peak_start() {
    HELD.with(|h| h.set((0, 0)));
}
pub fn peak_take() -> usize {
    HELD.with(|h| h.get().1.max(0) as usize)
}
unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 16 {
            if l.size() > SINGLE || LIVE.load(Relaxed) + l.size() > LIMIT.load(Relaxed) {
                return std::ptr::null_mut();
            }
            LIVE.fetch_add(l.size(), Relaxed);
        }
        held(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 1 << 16 {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        held(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 16 {
            if l.size() > SINGLE || LIVE.load(Relaxed) + l.size() > LIMIT.load(Relaxed) {
                return std::ptr::null_mut();
            }
            LIVE.fetch_add(l.size(), Relaxed);
        }
        held(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > 1 << 16 {
            if new > SINGLE || LIVE.load(Relaxed) + new > LIMIT.load(Relaxed) + l.size() {
                return std::ptr::null_mut();
            }
            LIVE.fetch_add(new, Relaxed);
        }
        if l.size() > 1 << 16 {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        held(new as isize - l.size() as isize);
        unsafe { System.realloc(p, l, new) }
    }
}
/// Bytes held by this thread now, since `peak_start`.
pub fn net() -> isize {
    HELD.with(|h| h.get().0)
}
