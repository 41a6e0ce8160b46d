//! Counts what the current thread takes from the heap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

#[inline]
fn note(delta: i64, call: bool) {
    let _ = ON.try_with(|on| {
        if on.get() {
            if call {
                CALLS.with(|c| c.set(c.get() + 1));
                TOTAL.with(|c| c.set(c.get() + delta as u64));
            }
            LIVE.with(|l| {
                let v = l.get() + delta;
                l.set(v);
                PEAK.with(|p| p.set(p.get().max(v)));
            });
        }
    });
}

// SAFETY: everything is passed on to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, true);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, true);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), false);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new may exist at the same time
        note(n as i64, true);
        note(-(l.size() as i64), false);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

#[derive(Clone, Copy, Debug)]
pub struct Use {
    /// requests for memory
    pub calls: u64,
    /// bytes requested, in all
    pub total: u64,
    /// most that was held at a time
    pub peak: u64,
    /// still held at the end (may be negative: what was held before is freed)
    pub left: i64,
}

/// What `f` takes from the heap on this thread.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Use) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    CALLS.with(|c| c.set(0));
    LIVE.with(|c| c.set(0));
    TOTAL.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    let u = Use { calls: CALLS.with(|c| c.get()), total: TOTAL.with(|c| c.get()), peak: PEAK.with(|c| c.get()).max(0) as u64, left: LIVE.with(|c| c.get()) };
    (r, u)
}
