//! Counting allocator: live bytes and per-thread peak, used as a resource monitor.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static T_LIVE: Cell<isize> = const { Cell::new(0) };
    static T_PEAK: Cell<isize> = const { Cell::new(0) };
}

/// No workload of the harness keeps more than a fraction of this alive.
const RUNAWAY: usize = 6 << 30;

fn add(n: usize) {
    LIVE.fetch_add(n, Ordering::Relaxed);
    let _ = T_LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = T_PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn sub(n: usize) {
    LIVE.fetch_sub(n, Ordering::Relaxed);
    let _ = T_LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // a growing reallocation may hold both blocks at once
        add(n);
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}

pub fn runaway() -> Option<String> {
    let l = LIVE.load(Ordering::Relaxed);
    (l > RUNAWAY).then(|| format!("runaway allocation: {l} bytes live"))
}

/// Bytes allocated minus freed by this thread.
pub fn thread_live() -> isize {
    T_LIVE.with(|l| l.get())
}
/// Restarts the peak measurement of this thread at its current level.
pub fn reset_peak() {
    let v = thread_live();
    T_PEAK.with(|p| p.set(v));
}
pub fn thread_peak() -> isize {
    T_PEAK.with(|p| p.get())
}
