//! Counting allocator. Counts, per thread, the bytes requested and the bytes live above a mark.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

/// No single allocation of a case comes near this size. Refusing it turns a runaway
/// length into an immediate abort of the (child) process instead of an exhausted machine.
const MAX_SINGLE: usize = 3 << 30;

thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n as u64)));
    let _ = LIVE.try_with(|l| {
        let v = l.get().wrapping_add(n as i64);
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get().wrapping_sub(n as i64)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        add(layout.size());
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        sub(layout.size());
        System.dealloc(ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if layout.size() > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        add(layout.size());
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if new_size > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        sub(layout.size());
        add(new_size);
        System.realloc(ptr, layout, new_size)
    }
}

/// Runs `f` and returns its result, the bytes requested in total and the peak of live bytes.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let total0 = TOTAL.with(|t| t.get());
    let live0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live0));
    let r = f();
    let total = TOTAL.with(|t| t.get()).wrapping_sub(total0);
    let peak = PEAK.with(|p| p.get()).wrapping_sub(live0).max(0) as u64;
    (r, total, peak)
}
