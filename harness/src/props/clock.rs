//! Processor time.

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, time: *mut Timespec) -> i32;
    fn mallopt(what: i32, value: i32) -> i32;
}

/// Processor time of this thread in nanoseconds.
pub fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert!(r == 0, "no processor time clock");
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

/// Makes the allocator keep memory, so that the system's part of getting it, which large blocks
/// need each time and small ones only at first, does not count.
pub fn keep_memory() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        // M_MMAP_THRESHOLD, M_TRIM_THRESHOLD, M_TOP_PAD
        mallopt(-3, 1 << 30);
        mallopt(-1, 1 << 30);
        mallopt(-2, 16 << 20);
    });
}
