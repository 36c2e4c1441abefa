//! Counts the live allocations of each thread, and of the process

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static COUNT: Cell<(isize, isize)> = const { Cell::new((0, 0)) };
}

static BLOCKS: AtomicIsize = AtomicIsize::new(0);
static BYTES: AtomicIsize = AtomicIsize::new(0);

fn add(n: isize, bytes: isize) {
    BLOCKS.fetch_add(n, Relaxed);
    BYTES.fetch_add(bytes, Relaxed);
    let _ = COUNT.try_with(|c| {
        let v = c.get();
        c.set((v.0 + n, v.1 + bytes));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as isize);
        System.alloc(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-1, -(l.size() as isize));
        System.dealloc(p, l);
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(0, n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Live allocations and bytes of this thread
pub fn live() -> (isize, isize) {
    COUNT.with(Cell::get)
}

/// Live allocations and bytes of the process
pub fn total() -> (isize, isize) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
