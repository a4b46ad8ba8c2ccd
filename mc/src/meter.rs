//! Metered calls: how much heap memory a call of the implementation takes, holds at most and
//! keeps, and how deep into the stack it writes. The global allocator of the binary reports here.
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NET: Cell<i64> = const { Cell::new(0) };
    static TOP: Cell<i64> = const { Cell::new(0) };
}

/// called by the allocator with the bytes taken (positive) or given back (negative)
pub fn heap(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let v = NET.with(|x| {
                x.set(x.get() + n);
                x.get()
            });
            TOP.with(|t| t.set(t.get().max(v)));
        }
    });
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Use {
    pub kept: i64,
    pub top: i64,
    pub stack: usize,
}

/// the stack below the call is painted to this depth; a call that reaches it went too deep
pub const DEEP: usize = 1 << 20;
const MARGIN: usize = 2048;
const PAINT: u64 = 0x5ea1_ed5e_a1ed_5ea1;

#[inline(never)]
fn paint(here: usize) {
    let (lo, hi) = (here - DEEP, here - MARGIN);
    let mut p = hi;
    while p > lo {
        p -= 8;
        unsafe { std::ptr::write_volatile(p as *mut u64, PAINT) };
    }
}

#[inline(never)]
fn depth(here: usize) -> usize {
    let mut p = here - DEEP;
    while p < here - MARGIN {
        if unsafe { std::ptr::read_volatile(p as *const u64) } != PAINT {
            return here - p;
        }
        p += 8;
    }
    MARGIN
}

/// keeps the frame of the call below the mark
#[inline(never)]
fn apply<R, F: FnOnce() -> R>(f: F) -> R {
    f()
}

/// Runs `f` metered; only on the explorer's threads, whose stacks are much larger than `DEEP`.
#[inline(never)]
pub fn metered<R, F: FnOnce() -> R>(f: F) -> (R, Use) {
    let mark = 0u64;
    let here = (std::hint::black_box(&mark) as *const u64 as usize) & !63;
    paint(here);
    NET.with(|x| x.set(0));
    TOP.with(|x| x.set(0));
    ON.with(|x| x.set(true));
    let r = apply(f);
    ON.with(|x| x.set(false));
    let stack = depth(here);
    (r, Use { kept: NET.with(|x| x.get()), top: TOP.with(|x| x.get()), stack })
}
