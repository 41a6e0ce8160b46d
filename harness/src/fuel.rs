//! Instrumented byte buffers. Every access to the hive bytes through the buffer burns one unit of a
//! per-call budget; an exhausted budget panics. This turns a loop that never ends into a
//! deterministic failure and lets checks measure the work of a call.
use std::cell::Cell;
use std::ops::{Deref, DerefMut};
use zerocopy::{ByteSlice, SplitByteSlice};

thread_local! {
    static USED: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const MSG: &str = "ntv: access budget of this call exhausted (does it terminate?)";

#[inline]
fn burn() {
    USED.with(|u| {
        let v = u.get() + 1;
        u.set(v);
        if v > BUDGET.with(|b| b.get()) {
            BUDGET.with(|b| b.set(u64::MAX));
            panic!("{}", MSG);
        }
    })
}

/// Resets the counter and sets the budget for the next call(s).
pub fn reset(budget: u64) {
    USED.with(|u| u.set(0));
    BUDGET.with(|b| b.set(budget));
}
pub fn used() -> u64 {
    USED.with(|u| u.get())
}

#[derive(Clone, Copy)]
pub struct Fuel<'a>(pub &'a [u8]);

impl Deref for Fuel<'_> {
    type Target = [u8];
    #[inline]
    fn deref(&self) -> &[u8] {
        burn();
        self.0
    }
}
// SAFETY: dereferences to the same slice for its whole life; splitting splits that slice.
unsafe impl ByteSlice for Fuel<'_> {}
unsafe impl SplitByteSlice for Fuel<'_> {
    unsafe fn split_at_unchecked(self, mid: usize) -> (Self, Self) {
        let (a, b) = self.0.split_at(mid);
        (Fuel(a), Fuel(b))
    }
}

pub struct FuelMut<'a>(pub &'a mut [u8]);
impl Deref for FuelMut<'_> {
    type Target = [u8];
    #[inline]
    fn deref(&self) -> &[u8] {
        burn();
        self.0
    }
}
impl DerefMut for FuelMut<'_> {
    #[inline]
    fn deref_mut(&mut self) -> &mut [u8] {
        burn();
        self.0
    }
}
// SAFETY: as above.
unsafe impl ByteSlice for FuelMut<'_> {}
unsafe impl SplitByteSlice for FuelMut<'_> {
    unsafe fn split_at_unchecked(self, mid: usize) -> (Self, Self) {
        let (a, b) = self.0.split_at_mut(mid);
        (FuelMut(a), FuelMut(b))
    }
}
