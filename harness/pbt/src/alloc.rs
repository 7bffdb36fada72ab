//! Allocator that poisons memory and measures the peak of a thread's allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
const POISON_MAX: usize = 1 << 14;
#[inline]
fn note(delta: isize, req: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let c = CUR.with(|c| { c.set(c.get() + delta); c.get() });
            PEAK.with(|p| if c > p.get() { p.set(c) });
            BIGGEST.with(|b| if req > b.get() { b.set(req) });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize, l.size());
        let p = System.alloc(l);
        if !p.is_null() && l.size() <= POISON_MAX { std::ptr::write_bytes(p, 0xC5, l.size()); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as isize, l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize), 0);
        if l.size() <= POISON_MAX { std::ptr::write_bytes(p, 0x5C, l.size()); }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize, n);
        System.realloc(p, l, n)
    }
}
pub struct Usage { pub peak: usize, pub biggest: usize, pub leaked: isize }
/// Runs `f` and reports the calling thread's allocation peak meanwhile.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Usage) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ON.with(|o| o.set(false)); } }
    CUR.with(|c| c.set(0)); PEAK.with(|c| c.set(0)); BIGGEST.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, Usage { peak: PEAK.with(|p| p.get()).max(0) as usize, biggest: BIGGEST.with(|b| b.get()), leaked: CUR.with(|c| c.get()) })
}
