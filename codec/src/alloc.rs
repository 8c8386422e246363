//! Counts what each thread has allocated, and refuses single allocations no honest input of ours needs.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;
pub const REFUSE_ABOVE: usize = 256 << 20;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v);
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE_ABOVE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE_ABOVE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > REFUSE_ABOVE {
            return std::ptr::null_mut();
        }
        add(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
}

///Forget what came before, on this thread.
pub fn reset() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}
///The most this thread had allocated at once since the last reset.
pub fn peak() -> u64 {
    PEAK.with(|p| p.get().max(0) as u64)
}
///What this thread has allocated and not freed since the last reset.
pub fn live() -> u64 {
    LIVE.with(|l| l.get().max(0) as u64)
}
