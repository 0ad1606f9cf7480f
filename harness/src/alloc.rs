//! Counts what each thread allocates.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn note(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
    let _ = CALLS.try_with(|b| b.set(b.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}

/// What `f` allocates: bytes and calls.
pub fn cost<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let (b, c) = (BYTES.with(|b| b.get()), CALLS.with(|c| c.get()));
    let t = f();
    (t, BYTES.with(|x| x.get()) - b, CALLS.with(|x| x.get()) - c)
}
