//! Controlled scheduler: real threads of which exactly one runs at a time. The
//! running thread offers the baton at every scheduling point and the explorer
//! decides who goes on. Scheduling points are
//!
//! * `point()`, called by the callbacks and the allocator of the harness,
//! * every atomic operation and every access to writable static memory of code
//!   compiled with thread instrumentation (the `__tsan_*` functions below),
//! * futex operations and yields of std's synchronisation primitives, which reach
//!   the kernel through `syscall` and `sched_yield` and are interposed here. A wait
//!   is a blocked thread of the scheduler; when nobody can go on it is a deadlock.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

const MAX: usize = 8;
const NONE: usize = usize::MAX;
/// A thread that passes so many points without giving way is made to give way.
const SPIN: u32 = 4000;
/// An execution with so many points does not end.
const ENDLESS: u64 = 3_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Somebody must go on: all answers are natural.
    Free,
    /// Answer 0 lets the running thread go on, others preempt it.
    Preempt,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked { addr: usize, timed: bool },
    Done,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Finished,
    Deadlock,
    Endless,
}

struct Run {
    n: usize,
    st: [St; MAX],
    timed_out: [bool; MAX],
    since: u32,
    points: u64,
    switches: u64,
    decide: Option<*const (dyn Fn(Kind, usize) -> usize)>,
}
struct Cell2(UnsafeCell<Run>);
// Only the holder of the baton touches it.
unsafe impl Sync for Cell2 {}
static RUN: Cell2 = Cell2(UnsafeCell::new(Run { n: 0, st: [St::Done; MAX], timed_out: [false; MAX], since: 0, points: 0, switches: 0, decide: None }));
static GO: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
/// 0: running, 1: finished, 2: deadlock, 3: endless.
static OVER: AtomicU32 = AtomicU32::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static MASK: Cell<bool> = const { Cell::new(false) };
}

unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
const FUTEX: i64 = 202;
fn wait_word(w: &AtomicU32, while_value: u32) {
    while w.load(Ordering::SeqCst) == while_value {
        unsafe { raw_syscall(FUTEX, w as *const _ as i64, 128, while_value as i64, 0, 0, 0) };
    }
}
fn wake_word(w: &AtomicU32) {
    unsafe { raw_syscall(FUTEX, w as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0) };
}

#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { &mut *RUN.0.get() }
}
fn decide(k: Kind, n: usize) -> usize {
    match run().decide {
        Some(f) => unsafe { (*f)(k, n) },
        None => 0,
    }
}
fn ready(except: usize) -> ([usize; MAX], usize) {
    let r = run();
    let mut v = [0; MAX];
    let mut k = 0;
    for i in 0..r.n {
        if i != except && r.st[i] == St::Ready {
            v[k] = i;
            k += 1;
        }
    }
    (v, k)
}
fn park_forever() -> ! {
    loop {
        let w = AtomicU32::new(0);
        wait_word(&w, 0);
    }
}
fn over(x: u32) -> ! {
    OVER.store(x, Ordering::SeqCst);
    wake_word(&OVER);
    park_forever()
}
fn give(t: usize) {
    let r = run();
    r.since = 0;
    r.switches += 1;
    GO[t].store(1, Ordering::SeqCst);
    wake_word(&GO[t]);
}
fn take(me: usize) {
    wait_word(&GO[me], 0);
    GO[me].store(0, Ordering::SeqCst);
}
/// The running thread cannot go on: somebody else must.
fn pass_on(me: usize, wait: bool) {
    let (mut v, mut k) = ready(me);
    if k == 0 {
        // A timed wait may end.
        let r = run();
        for i in 0..r.n {
            if let St::Blocked { timed: true, .. } = r.st[i] {
                r.st[i] = St::Ready;
                r.timed_out[i] = true;
                if i == me {
                    return;
                }
            }
        }
        (v, k) = ready(me);
    }
    if k == 0 {
        if run().st[..run().n].iter().all(|s| *s == St::Done) {
            OVER.store(1, Ordering::SeqCst);
            wake_word(&OVER);
            return;
        }
        over(2);
    }
    let c = if k == 1 { 0 } else { decide(Kind::Free, k) };
    give(v[c]);
    if wait {
        take(me);
    }
}
fn masked<T>(f: impl FnOnce(usize) -> T) -> Option<T> {
    let me = ME.try_with(|m| m.get()).unwrap_or(NONE);
    if me == NONE || MASK.with(|m| m.replace(true)) {
        return None;
    }
    let x = f(me);
    MASK.with(|m| m.set(false));
    Some(x)
}
/// Is the calling thread under the scheduler?
pub fn scheduled() -> bool {
    ME.try_with(|m| m.get()).unwrap_or(NONE) != NONE
}
/// A scheduling point.
#[inline]
pub fn point() {
    if ME.try_with(|m| m.get()).unwrap_or(NONE) != NONE {
        point_slow();
    }
}
#[inline(never)]
fn point_slow() {
    masked(|me| {
        let r = run();
        r.points += 1;
        r.since += 1;
        if r.points > ENDLESS {
            over(3);
        }
        let (v, k) = ready(me);
        if k == 0 {
            return;
        }
        if r.since > SPIN {
            let next = v[..k].iter().copied().find(|x| *x > me).unwrap_or(v[0]);
            give(next);
            take(me);
            return;
        }
        let c = decide(Kind::Preempt, 1 + k);
        if c > 0 {
            give(v[c - 1]);
            take(me);
        }
    });
}
/// Runs `f` without scheduling points.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let b = MASK.with(|m| m.replace(true));
    let x = f();
    MASK.with(|m| m.set(b));
    x
}

pub struct Report {
    pub end: End,
    pub points: u64,
    pub switches: u64,
}
/// Runs the threads under the scheduler. After anything but `Finished` the threads
/// are stuck for good, and so is whatever they borrow: the process must end.
pub fn threads<'a>(fs: Vec<Box<dyn FnOnce() + Send + 'a>>, d: &(dyn Fn(Kind, usize) -> usize)) -> Report {
    let n = fs.len();
    assert!(n > 0 && n <= MAX, "harness: number of threads");
    {
        let r = run();
        r.n = n;
        r.st = [St::Ready; MAX];
        r.timed_out = [false; MAX];
        r.since = 0;
        r.points = 0;
        r.switches = 0;
        // The threads end or are stuck before `d` goes away.
        r.decide = Some(unsafe { std::mem::transmute::<*const (dyn Fn(Kind, usize) -> usize + '_), *const (dyn Fn(Kind, usize) -> usize + 'static)>(d as *const _) });
    }
    OVER.store(0, Ordering::SeqCst);
    for g in &GO {
        g.store(0, Ordering::SeqCst);
    }
    let mut hs = vec![];
    for (i, f) in fs.into_iter().enumerate() {
        let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
        hs.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    take(i);
                    ME.with(|m| m.set(i));
                    f();
                    MASK.with(|m| m.set(true));
                    run().st[i] = St::Done;
                    ME.with(|m| m.set(NONE));
                    pass_on(i, false);
                })
                .expect("harness: thread"),
        );
    }
    let first = if n == 1 { 0 } else { decide(Kind::Free, n) };
    give(first);
    wait_word(&OVER, 0);
    let end = match OVER.load(Ordering::SeqCst) {
        1 => End::Finished,
        2 => End::Deadlock,
        _ => End::Endless,
    };
    if end == End::Finished {
        for h in hs {
            h.join().expect("harness: scheduled thread panicked");
        }
    } else {
        hs.into_iter().for_each(std::mem::forget);
    }
    let r = run();
    r.decide = None;
    POINTS.store(r.points, Ordering::Relaxed);
    Report { end, points: r.points, switches: r.switches }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
/// libc's `syscall`, through which std waits on and wakes futexes.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == FUTEX && scheduled() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            let r = masked(|me| {
                if (*(a as *const AtomicU32)).load(Ordering::SeqCst) != c as u32 {
                    return -11;
                }
                let s = run();
                s.timed_out[me] = false;
                s.st[me] = St::Blocked { addr: a as usize, timed: d != 0 };
                pass_on(me, true);
                if s.timed_out[me] {
                    s.timed_out[me] = false;
                    -110
                } else {
                    0
                }
            });
            if let Some(r) = r {
                if r < 0 {
                    *__errno_location() = -(r as i32);
                    return -1;
                }
                return 0;
            }
        }
        if op == 1 || op == 10 {
            let r = masked(|_| {
                let s = run();
                let mut k = 0;
                for i in 0..s.n {
                    if k >= c {
                        break;
                    }
                    if let St::Blocked { addr, .. } = s.st[i] {
                        if addr == a as usize {
                            s.st[i] = St::Ready;
                            k += 1;
                        }
                    }
                }
                k
            });
            if let Some(k) = r {
                if k > 0 {
                    point();
                    return k;
                }
            }
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -(r as i32);
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if scheduled() {
        masked(|me| {
            let r = run();
            r.points += 1;
            if r.points > ENDLESS {
                over(3);
            }
            let (v, k) = ready(me);
            if k > 0 {
                let next = v[..k].iter().copied().find(|x| *x > me).unwrap_or(v[0]);
                give(next);
                take(me);
            }
        });
        return 0;
    }
    raw_syscall(24, 0, 0, 0, 0, 0, 0) as i32
}

// ---------------------------------------------------------------------------
// Entry points of the compiler's thread instrumentation.
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline]
fn plain(p: *const u8) {
    if ME.try_with(|m| m.get()).unwrap_or(NONE) == NONE {
        return;
    }
    let a = p as usize;
    let lo = &raw const __data_start as usize;
    let hi = &raw const _end as usize;
    if a >= lo && a < hi {
        point_slow();
    }
}
macro_rules! plain {
    ($($f:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $f(p: *const u8) { plain(p) } )* };
}
plain!(__tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
       __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
       __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
       __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
       __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
       __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
       __tsan_vptr_read __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8
       __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8);
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(p: *const u8, _v: *const u8) {
    plain(p)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(p: *const u8, _n: usize) {
    plain(p)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(p: *const u8, _n: usize) {
    plain(p)
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(d);
    plain(s);
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(d);
    plain(s);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    plain(d);
    std::ptr::write_bytes(d, c as u8, n);
    d
}
macro_rules! atomics {
    ($t:ty, $a:ident, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident, $cass:ident, $casw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const std::sync::atomic::$a, _o: i32) -> $t {
            point();
            (*p).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const std::sync::atomic::$a, v: $t, _o: i32) {
            point();
            (*p).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const std::sync::atomic::$a, v: $t, _o: i32) -> $t {
            point();
            (*p).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const std::sync::atomic::$a, v: $t, _o: i32) -> $t {
            point();
            (*p).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const std::sync::atomic::$a, v: $t, _o: i32) -> $t {
            point();
            (*p).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const std::sync::atomic::$a, v: $t, _o: i32) -> $t {
            point();
            (*p).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const std::sync::atomic::$a, v: $t, _o: i32) -> $t {
            point();
            (*p).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const std::sync::atomic::$a, v: $t, _o: i32) -> $t {
            point();
            (*p).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const std::sync::atomic::$a, v: $t, _o: i32) -> $t {
            point();
            (*p).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const std::sync::atomic::$a, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            point();
            match (*p).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cass(p: *const std::sync::atomic::$a, c: *mut $t, v: $t, _o: i32, _f: i32) -> i32 {
            point();
            match (*p).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *const std::sync::atomic::$a, c: *mut $t, v: $t, o: i32, f: i32) -> i32 {
            $cass(p, c, v, o, f)
        }
    };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    point();
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
