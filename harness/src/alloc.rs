//! Counting allocator: the live bytes and blocks of every thread, and a budget per call.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
    static EXCEEDED: Cell<Option<&'static AtomicBool>> = const { Cell::new(None) };
}

pub struct Counting;

fn add(bytes: i64, blocks: i64) {
    let live = LIVE.get() + bytes;
    LIVE.set(live);
    BLOCKS.set(BLOCKS.get() + blocks);
    if bytes > 0 {
        TOTAL.set(TOTAL.get() + bytes as u64);
        if live > BUDGET.get() {
            if let Some(flag) = EXCEEDED.get() {
                flag.store(true, Ordering::SeqCst);
                loop {
                    // The supervisor reports the call and ends the process.
                    std::thread::sleep(std::time::Duration::from_secs(1));
                }
            }
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        add(layout.size() as i64, 1);
        unsafe { System.alloc(layout) }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        add(-(layout.size() as i64), -1);
        unsafe { System.dealloc(ptr, layout) }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        add(layout.size() as i64, 1);
        unsafe { System.alloc_zeroed(layout) }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        add(new_size as i64 - layout.size() as i64, 0);
        unsafe { System.realloc(ptr, layout, new_size) }
    }
}

/// Live bytes and blocks of this thread.
pub fn live() -> (i64, i64) {
    (LIVE.get(), BLOCKS.get())
}

/// Bytes ever allocated by this thread.
pub fn total() -> u64 {
    TOTAL.get()
}

pub fn set_flag(flag: &'static AtomicBool) {
    EXCEEDED.set(Some(flag));
}

pub fn arm(budget: i64) -> i64 {
    BUDGET.replace(LIVE.get().saturating_add(budget))
}

pub fn restore(old: i64) {
    BUDGET.set(old);
}
