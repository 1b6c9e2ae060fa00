//! What a thread allocates. The allocator counts only where it is installed (the
//! `vharness` program); elsewhere every reading is 0.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

/// Bytes a thread may hold; what goes beyond is refused, which ends the process as an
/// allocation that never ends would, only before the machine's memory is gone.
pub static CAP: AtomicI64 = AtomicI64::new(i64::MAX);

fn beyond(more: usize) -> bool {
    let cap = CAP.load(Ordering::Relaxed);
    cap != i64::MAX && NOW.try_with(|n| n.get().live).unwrap_or(0).saturating_add(more as i64) > cap
}

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Reading {
    /// bytes this thread allocated and has not freed
    pub live: i64,
    /// the most that `live` was since the last `restart`
    pub peak: i64,
    /// bytes allocated in all
    pub total: u64,
}

thread_local! {
    static NOW: Cell<Reading> = const { Cell::new(Reading { live: 0, peak: 0, total: 0 }) };
}

fn count(more: usize, less: usize) {
    let _ = NOW.try_with(|n| {
        let mut r = n.get();
        r.live += more as i64 - less as i64;
        r.peak = r.peak.max(r.live);
        r.total += more as u64;
        n.set(r);
    });
}

// SAFETY: every call goes to the system's allocator as it came.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if beyond(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            count(l.size(), 0);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if beyond(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size(), 0);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        count(0, l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && beyond(n - l.size()) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            count(n, l.size());
        }
        q
    }
}

pub fn now() -> Reading {
    NOW.with(|n| n.get())
}

/// Sets the peak to what is live now.
pub fn restart() -> Reading {
    NOW.with(|n| {
        let mut r = n.get();
        r.peak = r.live;
        n.set(r);
        r
    })
}

extern "C" {
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}

/// Processor time of this thread in seconds.
pub fn cpu() -> f64 {
    const THREAD_CPUTIME: i32 = 3;
    let mut t = [0i64; 2];
    // SAFETY: a timespec is two 64-bit numbers here
    let r = unsafe { clock_gettime(THREAD_CPUTIME, &mut t) };
    assert_eq!(r, 0, "no thread clock");
    t[0] as f64 + t[1] as f64 / 1e9
}
