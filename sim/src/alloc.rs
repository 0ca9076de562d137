//! Allocator that accounts for what the code under simulation allocates.
//!
//! Every block carries a header with the tag that was current on the allocating thread.
//! The tag is the number of the run while code under simulation executes, and 0 while
//! simulator code does (including callbacks from code under simulation).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering};

pub struct Tagged;

thread_local! {
    static TAG: Cell<u32> = const { Cell::new(0) };
    static NOW: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

static RUN: AtomicU32 = AtomicU32::new(1);
static LIVE: AtomicI64 = AtomicI64::new(0);

fn header(align: usize) -> usize {
    align.max(16)
}

fn account(tag: u32, delta: i64) {
    if tag == 0 {
        return;
    }
    if tag == RUN.load(Ordering::Relaxed) {
        LIVE.fetch_add(delta, Ordering::Relaxed);
    }
    let _ = NOW.try_with(|x| {
        let now = x.get() + delta;
        x.set(now);
        let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
    });
}

unsafe impl GlobalAlloc for Tagged {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let h = header(layout.align());
        let size = match layout.size().checked_add(h) {
            Some(x) => x,
            None => return std::ptr::null_mut(),
        };
        let tag = TAG.try_with(|x| x.get()).unwrap_or(0);
        if tag != 0 && size > REFUSE {
            return std::ptr::null_mut();
        }
        let p = System.alloc(Layout::from_size_align_unchecked(size, h));
        if p.is_null() {
            return p;
        }
        (p.add(h - 16) as *mut u32).write(tag);
        account(tag, layout.size() as i64);
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let h = header(layout.align());
        let tag = (p.sub(16) as *mut u32).read();
        account(tag, -(layout.size() as i64));
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(layout.size() + h, h));
    }
}

/// Starts the accounting of a new run.
pub fn new_run() {
    RUN.fetch_add(1, Ordering::SeqCst);
    LIVE.store(0, Ordering::SeqCst);
}

/// Bytes allocated by code under simulation in this run and not freed yet.
pub fn live() -> i64 {
    LIVE.load(Ordering::SeqCst)
}

struct Restore(u32);

impl Drop for Restore {
    fn drop(&mut self) {
        TAG.with(|x| x.set(self.0));
    }
}

/// Runs code under simulation.
pub fn product<R>(f: impl FnOnce() -> R) -> R {
    let _restore = Restore(TAG.with(|x| x.replace(RUN.load(Ordering::Relaxed))));
    f()
}

/// Runs simulator code, possibly called from code under simulation.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _restore = Restore(TAG.with(|x| x.replace(0)));
    f()
}

/// Resets the peak of the calling thread.
pub fn reset_peak() {
    NOW.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
}

/// Highest net allocation of code under simulation on this thread since the reset.
pub fn peak() -> i64 {
    PEAK.with(|x| x.get())
}

/// Whether code under simulation is running on this thread.
pub fn in_product() -> bool {
    TAG.with(|x| x.get() != 0)
}

/// What handling a datagram of `len` bytes may allocate at most.
pub fn limit(len: usize) -> i64 {
    len as i64 * 1024 + (256 << 10)
}

/// More than this at once is refused, as by a system that is out of memory.
const REFUSE: usize = 1 << 30;
