//! What a call costs: bytes asked for from the allocator and CPU time, both of the calling thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn note(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get().saturating_add(n as u64)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

fn cpu_us() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
    }
}

/// The result, bytes allocated, CPU time in microseconds.
pub fn cost<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let b = BYTES.with(|b| b.get());
    let t = cpu_us();
    let r = f();
    let t = cpu_us() - t;
    (r, BYTES.with(|x| x.get()) - b, t)
}
