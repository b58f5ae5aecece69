//! Counts live heap bytes of the current thread and stops runaway growth.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static SPENT: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;

/// A simulated process has this much memory.
const CAP: i64 = 2 << 30;

fn bump(d: i64) {
    let v = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        v
    });
    if v.unwrap_or(0) > CAP {
        // reported by the supervisor as a crash of this run
        std::process::abort();
    }
}

/// Every allocation costs its size and a constant.
fn spend(n: usize) {
    let _ = SPENT.try_with(|s| s.set(s.get() + n as u64 + 16));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(l.size() as i64);
        spend(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump(n as i64 - l.size() as i64);
        spend(n);
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// What all allocations so far have cost: a clock that stands still when
/// nothing is done.
pub fn spent() -> u64 {
    SPENT.with(|s| s.get())
}
