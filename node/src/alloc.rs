//! A global allocator that counts, and on demand refuses, allocations made inside library calls.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static ATTEMPTS: Cell<u64> = const { Cell::new(0) };
}

/// 1: allocations inside library calls fail.
pub static FAIL: AtomicUsize = AtomicUsize::new(0);

pub struct Sim;

fn refuse() -> bool {
    if ARMED.with(|a| a.get()) {
        ATTEMPTS.with(|n| n.set(n.get() + 1));
        FAIL.load(Relaxed) == 1
    } else {
        false
    }
}

unsafe impl GlobalAlloc for Sim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}

#[global_allocator]
static A: Sim = Sim;

/// Starts afresh; what there was is for `restore`.
pub fn reset() -> (bool, u64) { (ARMED.with(|a| a.replace(false)), ATTEMPTS.with(|n| n.replace(0))) }
pub fn restore(was: (bool, u64)) {
    ARMED.with(|a| a.set(was.0));
    ATTEMPTS.with(|n| n.set(was.1));
}
pub fn disarm() { ARMED.with(|a| a.set(false)); }
pub fn attempts() -> u64 { ATTEMPTS.with(|n| n.get()) }

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) { disarm() }
}

/// Runs a library call with the allocator armed.
#[inline(always)]
pub fn armed<R>(f: impl FnOnce() -> R) -> R {
    ARMED.with(|a| a.set(true));
    let _g = Guard;
    f()
}

/// Runs harness code (a source, a sink) called back from an armed library call.
pub fn unarmed<R>(f: impl FnOnce() -> R) -> R {
    let was = ARMED.with(|a| a.replace(false));
    let r = f();
    ARMED.with(|a| a.set(was));
    r
}
