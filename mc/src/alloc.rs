//! Counting global allocator: per-thread live/peak bytes, a process-wide cap, and
//! an optional hook that turns every allocation into a scheduling point.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct A;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIG: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}
static GLOBAL: AtomicI64 = AtomicI64::new(0);
pub static OVER_CAP: AtomicU64 = AtomicU64::new(0);
/// Far above anything a bounded decode may need, far below the machine.
const CAP: i64 = 14 << 30;
const LARGE: usize = 1 << 16;

#[inline]
fn add(n: usize) -> bool {
    if n >= LARGE {
        let g = GLOBAL.fetch_add(n as i64, Ordering::Relaxed) + n as i64;
        if g > CAP {
            GLOBAL.fetch_sub(n as i64, Ordering::Relaxed);
            OVER_CAP.store(n as u64, Ordering::SeqCst);
            return false;
        }
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        PEAK.with(|p| if v > p.get() { p.set(v) });
        BIG.with(|b| if n as u64 > b.get() { b.set(n as u64) });
    });
    true
}
#[inline]
fn sub(n: usize) {
    if n >= LARGE {
        GLOBAL.fetch_sub(n as i64, Ordering::Relaxed);
    }
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
#[inline]
fn hook() {
    let _ = HOOK.try_with(|h| {
        if let Some(f) = h.get() {
            h.set(None);
            f();
            h.set(Some(f));
        }
    });
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hook();
        if !add(l.size()) { return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        hook();
        if !add(l.size()) { return std::ptr::null_mut(); }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hook();
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hook();
        if !add(n) { return std::ptr::null_mut(); }
        sub(l.size());
        if l.size() <= 1024 && n <= 1024 && l.align() <= 16 {
            // glibc's realloc takes the lock of the arena; malloc and free of
            // small blocks do not.
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                System.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

/// Starts measuring in this thread; `peak()` is then relative to this point.
pub fn reset() -> i64 {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    BIG.with(|b| b.set(0));
    l
}
pub fn peak_since(base: i64) -> i64 {
    PEAK.with(|p| p.get()) - base
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn biggest() -> u64 {
    BIG.with(|b| b.get())
}
pub fn set_hook(f: Option<fn()>) {
    HOOK.with(|h| h.set(f));
}
/// Runs `f` with the allocation hook off.
pub fn unhooked<T, F: FnOnce() -> T>(f: F) -> T {
    let h = HOOK.with(|h| h.take());
    let r = f();
    HOOK.with(|x| x.set(h));
    r
}
