//! Stateless explorer: a property space is a closed program (`Body`) whose every
//! source of nondeterminism is a call to `Ch::choose`. The explorer runs the body
//! once for every sequence of answers (depth first, exhaustively), in parallel on
//! disjoint subtrees.
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub type Body = Arc<dyn Fn(&Ch) -> R + Send + Sync>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {
        match (&$a, &$b) { (x, y) => if !(*x == *y) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), x, y));
        } }
    };
}

/// One execution: answers the choices from `script`, then with 0.
pub struct Ch {
    script: Vec<u32>,
    /// Numbers of alternatives seen earlier at these choices; another number means
    /// that the executions of this process do not repeat.
    expect: Vec<u32>,
    trail: RefCell<Vec<(u32, u32)>>,
    dev_bound: u32,
    devs: Cell<u32>,
    ops: Cell<u64>,
    visits: Cell<u64>,
    outcome: Cell<u64>,
    extra: RefCell<Vec<u64>>,
    verbose: bool,
    log: RefCell<Vec<String>>,
    sample: RefCell<Option<String>>,
    want_sample: Cell<bool>,
    pub tier: Tier,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Ch {
    pub fn new(script: Vec<u32>, dev_bound: u32, verbose: bool, tier: Tier) -> Ch {
        Ch {
            script,
            expect: Vec::new(),
            trail: RefCell::new(Vec::new()),
            dev_bound,
            devs: Cell::new(0),
            ops: Cell::new(0),
            visits: Cell::new(0),
            outcome: Cell::new(0xcbf29ce484222325),
            extra: RefCell::new(Vec::new()),
            verbose,
            log: RefCell::new(Vec::new()),
            sample: RefCell::new(None),
            want_sample: Cell::new(false),
            tier,
        }
    }

    /// A choice among `n` alternatives, all of which are explored.
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0, "harness: choice without alternatives");
        if n == 1 {
            return 0;
        }
        let mut t = self.trail.borrow_mut();
        let pos = t.len();
        let c = if pos < self.script.len() { self.script[pos] } else { 0 };
        if c as usize >= n {
            // A replayed prefix diverged: an error of the harness, never a verdict.
            eprintln!("mc: divergence while replaying a prefix: choice {} of {} at {}", c, n, pos);
            std::process::exit(3);
        }
        if self.expect.get(pos).is_some_and(|e| *e != n as u32) {
            unsafe { sys::_exit(3) };
        }
        t.push((c, n as u32));
        c as usize
    }

    pub fn pick<'a, T>(&self, s: &'a [T]) -> &'a T {
        &s[self.choose(s.len())]
    }

    pub fn range(&self, lo: usize, hi_incl: usize) -> usize {
        lo + self.choose(hi_incl - lo + 1)
    }

    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }

    /// A deviation point: 0 is the default answer of the environment, any other
    /// answer uses one unit of the deviation bound of the space.
    pub fn dev(&self, n: usize) -> usize {
        if self.devs.get() >= self.dev_bound {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.devs.set(self.devs.get() + 1);
        }
        c
    }

    pub fn devs_left(&self) -> u32 {
        self.dev_bound - self.devs.get()
    }

    /// One operation of the real code compared with the model.
    pub fn op(&self) {
        self.ops.set(self.ops.get() + 1);
    }
    pub fn ops(&self, n: u64) {
        self.ops.set(self.ops.get() + n);
    }
    /// `n` further cases enumerated inside this execution.
    pub fn visit(&self, n: u64) {
        self.visits.set(self.visits.get() + n);
    }
    /// Mixes an observation into the outcome of this execution.
    pub fn seen(&self, h: u64) {
        let v = (self.outcome.get() ^ h).wrapping_mul(0x9E3779B97F4A7C15);
        self.outcome.set(v ^ (v >> 29));
    }
    pub fn seen_bytes(&self, b: &[u8]) {
        self.seen(hash_bytes(b));
    }
    /// Records the outcome so far as one distinct observation and restarts it.
    pub fn flush_outcome(&self) {
        self.extra.borrow_mut().push(self.outcome.get());
        self.outcome.set(0xcbf29ce484222325);
    }
    pub fn say<F: FnOnce() -> String>(&self, f: F) {
        if self.verbose {
            self.log.borrow_mut().push(f());
        }
    }
    pub fn verbose(&self) -> bool {
        self.verbose
    }
    pub fn sample<F: FnOnce() -> String>(&self, f: F) {
        if self.want_sample.get() && self.sample.borrow().is_none() {
            *self.sample.borrow_mut() = Some(f());
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ (b.len() as u64);
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}

#[derive(Clone)]
pub struct Space {
    pub name: &'static str,
    /// What is enumerated, in words.
    pub bound: String,
    pub body: Body,
    pub devs: u32,
    pub workers: usize,
    pub stack: usize,
    /// Longest time one execution may take before it counts as not terminating.
    pub exec_limit_s: u64,
    /// Run each execution in its own thread (fresh thread-local state).
    pub fresh_thread: bool,
    /// Run each execution in its own process (fresh static state).
    pub forked: bool,
    /// Run the executions of one task one after the other in one process, as long
    /// as they repeat; each in its own process otherwise.
    pub batch: bool,
}

pub fn space<F: Fn(&Ch) -> R + Send + Sync + 'static>(
    name: &'static str,
    bound: impl Into<String>,
    body: F,
) -> Space {
    Space {
        name,
        bound: bound.into(),
        body: Arc::new(body),
        devs: 0,
        workers: 8,
        stack: 16 << 20,
        exec_limit_s: 60,
        fresh_thread: false,
        forked: false,
        batch: false,
    }
}

impl Space {
    pub fn devs(mut self, d: u32) -> Self {
        self.devs = d;
        self
    }
    pub fn workers(mut self, w: usize) -> Self {
        self.workers = w;
        self
    }
    pub fn stack(mut self, s: usize) -> Self {
        self.stack = s;
        self
    }
    pub fn limit(mut self, s: u64) -> Self {
        self.exec_limit_s = s;
        self
    }
    pub fn fresh(mut self) -> Self {
        self.fresh_thread = true;
        self
    }
    pub fn batch(mut self) -> Self {
        self.forked = true;
        self.batch = true;
        self
    }
    pub fn forked(mut self) -> Self {
        self.forked = true;
        self
    }
}

#[derive(Default)]
pub struct Totals {
    pub execs: AtomicU64,
    pub nodes: AtomicU64,
    pub visits: AtomicU64,
    pub ops: AtomicU64,
    pub max_depth: AtomicUsize,
}

pub struct Found {
    pub script: Vec<u32>,
    pub message: String,
}

pub struct SpaceResult {
    pub execs: u64,
    pub nodes: u64,
    pub visits: u64,
    pub ops: u64,
    pub max_depth: usize,
    pub outcomes: u64,
    pub outcomes_capped: bool,
    pub exhaustive: bool,
    pub wall: f64,
    pub samples: Vec<String>,
    pub found: Option<Found>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static CATCHING: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if CATCHING.with(|c| c.get()) {
            crate::alloc::unhooked(|| {
                let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = i.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".to_string()
                };
                let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                PANIC_MSG.with(|p| *p.borrow_mut() = format!("panic: {} at {}", m, l));
            });
        } else {
            old(i)
        }
    }));
}

/// Runs `f`, turning a panic into an error message.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let before = CATCHING.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(before));
    r.map_err(|_| PANIC_MSG.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

fn run_inline(body: &Body, ch: &Ch) -> R {
    match guarded(|| body(ch)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

struct SendPtr<T: ?Sized>(*const T);
unsafe impl<T: ?Sized> Send for SendPtr<T> {}

mod sys {
    extern "C" {
        pub fn pipe(fds: *mut i32) -> i32;
        pub fn fork() -> i32;
        pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
        pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
        pub fn close(fd: i32) -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
        pub fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
        pub fn alarm(s: u32) -> u32;
        pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
}
/// Keeps the calling thread, and the processes it forks, on one processor: the
/// threads of one execution take turns, and this makes handing over cheap.
fn pin(worker: usize) {
    unsafe {
        let mut mask = [0u64; 16];
        if sys::sched_getaffinity(0, 128, mask.as_mut_ptr()) <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| mask[c / 64] >> (c % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[worker % cpus.len()];
        let mut one = [0u64; 16];
        one[c / 64] = 1 << (c % 64);
        sys::sched_setaffinity(0, 128, one.as_ptr());
    }
}
static FORKING: Mutex<()> = Mutex::new(());
/// Runs `f` in a forked process and returns the bytes it produces, or how it died.
pub fn in_process<F: FnOnce() -> Vec<u8>>(limit_s: u64, f: F) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        // No other process may inherit the writing end: the end of the data would
        // not be seen before that process ends.
        let g = FORKING.lock().unwrap_or_else(|e| e.into_inner());
        assert!(sys::pipe(fds.as_mut_ptr()) == 0, "harness: pipe");
        let pid = sys::fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            drop(g);
            sys::close(fds[0]);
            sys::prctl(1, 9, 0, 0, 0);
            sys::alarm(limit_s as u32);
            let b = match guarded(f) {
                Ok(b) => b,
                Err(_) => sys::_exit(4),
            };
            let mut o = 0;
            while o < b.len() {
                let k = sys::write(fds[1], b.as_ptr().add(o), b.len() - o);
                if k <= 0 {
                    sys::_exit(5);
                }
                o += k as usize;
            }
            sys::_exit(0);
        }
        sys::close(fds[1]);
        drop(g);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let k = sys::read(fds[0], buf.as_mut_ptr(), buf.len());
            if k <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..k as usize]);
        }
        sys::close(fds[0]);
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        match (st & 0x7f, (st >> 8) & 0xff) {
            (0, 0) => Ok(out),
            (0, c) => Err(format!("harness: forked execution ended with {}", c)),
            (14, _) => Err(format!("the execution did not end within {} s", limit_s)),
            (s, _) => Err(format!("the process died (signal {}): abort, stack or memory exhaustion", s)),
        }
    }
}
fn run_forked(sp: &Space, ch: &Ch) -> R {
    let out = in_process(sp.exec_limit_s, || {
        let r = run_inline(&sp.body, ch);
        let mut o = Pack::default();
        let t = ch.trail.borrow();
        o.0.push(t.len() as u64);
        o.0.extend(t.iter().map(|x| (x.0 as u64) << 32 | x.1 as u64));
        o.0.extend([ch.devs.get() as u64, ch.ops.get(), ch.visits.get(), ch.outcome.get()]);
        o.text(match &r {
            Ok(()) => "",
            Err(m) if m.is_empty() => "?",
            Err(m) => m,
        });
        o.text(ch.sample.borrow().as_deref().unwrap_or(""));
        ch.log.borrow().iter().for_each(|x| o.text(x));
        o.bytes()
    });
    let out = match out {
        Ok(o) => o,
        Err(m) => {
            // The answers given so far are lost, the prescribed ones are known.
            *ch.trail.borrow_mut() = ch.script.iter().map(|c| (*c, *c + 1)).collect();
            return Err(m);
        }
    };
    let mut u = Unpack::new(&out);
    let n = u.num();
    *ch.trail.borrow_mut() = (0..n).map(|_| u.num()).map(|x| ((x >> 32) as u32, x as u32)).collect();
    ch.devs.set(u.num() as u32);
    ch.ops.set(u.num());
    ch.visits.set(u.num());
    ch.outcome.set(u.num());
    let msg = u.text();
    let sample = u.text();
    if !sample.is_empty() {
        *ch.sample.borrow_mut() = Some(sample);
    }
    while u.more() {
        let l = u.text();
        ch.log.borrow_mut().push(l);
    }
    if msg.is_empty() {
        Ok(())
    } else {
        Err(msg)
    }
}

pub fn run_one(sp: &Space, ch: &Ch) -> R {
    if sp.forked {
        run_forked(sp, ch)
    } else if sp.fresh_thread {
        let p = SendPtr(ch as *const Ch);
        let b = sp.body.clone();
        std::thread::Builder::new()
            .stack_size(sp.stack)
            .spawn(move || {
                let p = p;
                // The caller waits for this thread, so `ch` outlives it and is
                // used by one thread at a time.
                run_inline(&b, unsafe { &*p.0 })
            })
            .expect("harness: thread")
            .join()
            .unwrap_or_else(|_| Err("harness: thread died".into()))
    } else {
        run_inline(&sp.body, ch)
    }
}

const OUTCOME_CAP: usize = 1 << 20;

#[derive(Clone)]
struct Task {
    prefix: Vec<u32>,
    /// Range of the answers to the choice after the prefix (whole subtree if None).
    range: Option<(u32, u32)>,
}

/// What the executions of some tasks amount to.
#[derive(Default)]
struct Agg {
    execs: u64,
    nodes: u64,
    visits: u64,
    ops: u64,
    depth: usize,
    local: HashSet<u64>,
    lcap: bool,
    samples: Vec<String>,
    found: Option<Found>,
    capped: bool,
}

/// All executions of a task, depth first. `strict`: in a process of its own, which
/// ends at once when the executions turn out not to repeat.
#[allow(clippy::too_many_arguments)]
fn dfs(sp: &Space, tier: Tier, deadline: Instant, stop: &AtomicBool, slots: &dyn Slot, w: usize, t: &Task, strict: bool, a: &mut Agg) {
    let base = t.prefix.len();
    let mut script = t.prefix.clone();
    let mut expect: Vec<u32> = Vec::new();
    if let Some((lo, _)) = t.range { script.push(lo); }
    let mut shared = base; // length of the prefix already counted
    loop {
        if stop.load(Ordering::Relaxed) { return; }
        if Instant::now() > deadline {
            a.capped = true;
            return;
        }
        let mut ch = Ch::new(script.clone(), sp.devs, false, tier);
        if strict {
            ch.expect = std::mem::take(&mut expect);
        }
        ch.want_sample.set((a.execs + 1).is_power_of_two());
        slots.begin(w, &script);
        let r = if strict { run_inline(&sp.body, &ch) } else { run_one(sp, &ch) };
        slots.end(w);
        let trail = ch.trail.borrow().clone();
        if strict && trail.len() < script.len() && r.is_ok() {
            unsafe { sys::_exit(3) };
        }
        a.execs += 1;
        a.ops += ch.ops.get();
        a.visits += ch.visits.get();
        a.nodes += (trail.len() - shared.min(trail.len())) as u64 + 1;
        a.depth = a.depth.max(trail.len());
        if a.local.len() < OUTCOME_CAP {
            a.local.insert(ch.outcome.get());
            a.local.extend(ch.extra.borrow().iter().copied());
        } else { a.lcap = true; }
        if let Err(m) = r {
            let sc: Vec<u32> = trail.iter().map(|x| x.0).collect();
            a.found = Some(Found { script: sc, message: m });
            return;
        }
        if let Some(x) = ch.sample.borrow_mut().take() {
            if a.samples.len() < 6 { a.samples.push(x); }
        }
        // Next sequence of answers in this task.
        let mut i = trail.len();
        let next = loop {
            if i <= base { break None; }
            i -= 1;
            let (c, n) = trail[i];
            let lim = if i == base { t.range.map(|r| r.1).unwrap_or(n) } else { n };
            if c + 1 < lim { break Some(i); }
        };
        match next {
            None => return,
            Some(i) => {
                script.clear();
                script.extend(trail[..i].iter().map(|x| x.0));
                script.push(trail[i].0 + 1);
                if strict {
                    expect = trail[..=i].iter().map(|x| x.1).collect();
                }
                shared = i;
            }
        }
    }
}

#[derive(Default)]
struct Pack(Vec<u64>);
impl Pack {
    fn text(&mut self, s: &str) {
        self.0.push(s.len() as u64);
        for c in s.as_bytes().chunks(8) {
            let mut a = [0; 8];
            a[..c.len()].copy_from_slice(c);
            self.0.push(u64::from_le_bytes(a));
        }
    }
    fn bytes(self) -> Vec<u8> {
        self.0.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}
struct Unpack(Vec<u64>, usize);
impl Unpack {
    fn new(b: &[u8]) -> Self {
        Unpack(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(), 0)
    }
    fn num(&mut self) -> u64 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn text(&mut self) -> String {
        let n = self.num() as usize;
        let k = n.div_ceil(8);
        let b: Vec<u8> = self.0[self.1..self.1 + k].iter().flat_map(|x| x.to_le_bytes()).take(n).collect();
        self.1 += k;
        String::from_utf8_lossy(&b).into_owned()
    }
    fn more(&self) -> bool {
        self.1 < self.0.len()
    }
}

/// Runs a task in a process of its own. False if its executions do not repeat or the
/// process died: nothing is then known about the task.
fn run_batch(sp: &Space, tier: Tier, deadline: Instant, slots: &dyn Slot, w: usize, t: &Task, a: &mut Agg) -> bool {
    let left = deadline.saturating_duration_since(Instant::now()).as_secs() + 60;
    let out = in_process(left, || {
        let mut a = Agg::default();
        dfs(sp, tier, deadline, &AtomicBool::new(false), slots, w, t, true, &mut a);
        let mut p = Pack::default();
        p.0.extend([a.execs, a.nodes, a.visits, a.ops, a.depth as u64, a.lcap as u64, a.capped as u64]);
        p.0.push(a.local.len() as u64);
        p.0.extend(a.local.iter());
        p.0.push(a.samples.len() as u64);
        a.samples.iter().for_each(|s| p.text(s));
        if let Some(f) = &a.found {
            p.0.push(f.script.len() as u64);
            p.0.extend(f.script.iter().map(|x| *x as u64));
            p.text(&f.message);
        }
        p.bytes()
    });
    let out = match out {
        Ok(o) => o,
        Err(_) => return false,
    };
    let mut u = Unpack::new(&out);
    a.execs += u.num();
    a.nodes += u.num();
    a.visits += u.num();
    a.ops += u.num();
    a.depth = a.depth.max(u.num() as usize);
    a.lcap |= u.num() != 0;
    a.capped |= u.num() != 0;
    for _ in 0..u.num() {
        let x = u.num();
        if a.local.len() < OUTCOME_CAP { a.local.insert(x); } else { a.lcap = true; }
    }
    for _ in 0..u.num() {
        let s = u.text();
        a.samples.push(s);
    }
    if u.more() {
        let n = u.num();
        let script = (0..n).map(|_| u.num() as u32).collect();
        a.found = Some(Found { script, message: u.text() });
    }
    true
}

pub trait Slot: Sync {
    fn begin(&self, worker: usize, script: &[u32]);
    fn end(&self, worker: usize);
}

/// Explores a space completely (or until the deadline or the first violation).
pub fn explore(sp: &Space, tier: Tier, deadline: Instant, slots: &dyn Slot) -> SpaceResult {
    let t0 = Instant::now();
    let workers = if std::env::var_os("MC_ALONE").is_some() { 1 } else { sp.workers.min(8).max(1) };
    // Split the tree into tasks by expanding it breadth first.
    let mut queue: VecDeque<Task> = VecDeque::new();
    queue.push_back(Task { prefix: vec![], range: None });
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let tot = Totals::default();
    let want = if workers == 1 { 1 } else { 96 * workers };
    // Splitting executes the body; do it in a thread of the right stack size.
    let mut leaves: Vec<Task> = Vec::new();
    if want > 1 {
        std::thread::scope(|s| {
            let q = &mut queue;
            let l = &mut leaves;
            let found = &found;
            let stop = &stop;
            std::thread::Builder::new().stack_size(sp.stack).spawn_scoped(s, move || {
                let mut runs = 0;
                while q.len() + l.len() < want && runs < 4 * want {
                    let t = match q.pop_front() { Some(t) => t, None => break };
                    if Instant::now() > deadline { q.push_front(t); break; }
                    match t.range {
                        Some((lo, hi)) if hi - lo > 1 => {
                            // Expand a range into smaller ranges or single answers.
                            let parts = ((hi - lo) as usize).min(32) as u32;
                            for i in 0..parts {
                                let a = lo + (hi - lo) as u32 * i / parts;
                                let b = lo + (hi - lo) as u32 * (i + 1) / parts;
                                if a < b {
                                    if b - a == 1 {
                                        let mut p = t.prefix.clone();
                                        p.push(a);
                                        q.push_back(Task { prefix: p, range: None });
                                    } else {
                                        q.push_back(Task { prefix: t.prefix.clone(), range: Some((a, b)) });
                                    }
                                }
                            }
                        }
                        Some((lo, _)) => {
                            let mut p = t.prefix.clone();
                            p.push(lo);
                            q.push_back(Task { prefix: p, range: None });
                        }
                        None => {
                            runs += 1;
                            let ch = Ch::new(t.prefix.clone(), sp.devs, false, tier);
                            slots.begin(0, &t.prefix);
                            let r = run_one(sp, &ch);
                            slots.end(0);
                            let trail = ch.trail.borrow();
                            if let Err(m) = r {
                                *found.lock().unwrap() = Some(Found { script: trail.iter().map(|x| x.0).collect(), message: m });
                                stop.store(true, Ordering::SeqCst);
                                return;
                            }
                            if trail.len() > t.prefix.len() {
                                let n = trail[t.prefix.len()].1;
                                q.push_back(Task { prefix: t.prefix.clone(), range: Some((0, n)) });
                            } else {
                                l.push(t.clone());
                            }
                        }
                    }
                }
            }).expect("harness: thread").join().expect("harness: splitter");
        });
    }
    let mut tasks: Vec<Task> = leaves;
    tasks.extend(queue);
    // Shortest prefixes first: the first counterexample tends to be simple.
    tasks.reverse();
    let tasks = Mutex::new(tasks);
    let outcomes: Mutex<(HashSet<u64>, bool)> = Mutex::new((HashSet::new(), false));
    let samples: Mutex<Vec<String>> = Mutex::new(Vec::new());
    // A thread that starts or ends takes locks of std, which a process forked at that
    // moment would find taken for good.
    let together = std::sync::Barrier::new(workers);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (tasks, outcomes, samples, found, stop, capped, tot, together) =
                (&tasks, &outcomes, &samples, &found, &stop, &capped, &tot, &together);
            std::thread::Builder::new()
                .stack_size(sp.stack)
                .spawn_scoped(s, move || {
                    if sp.forked {
                        pin(w);
                        together.wait();
                    }
                    let mut agg = Agg::default();
                    loop {
                        if stop.load(Ordering::Relaxed) { break; }
                        let t = match tasks.lock().unwrap().pop() { Some(t) => t, None => break };
                        if sp.batch && !run_batch(sp, tier, deadline, slots, w, &t, &mut agg) || !sp.batch {
                            dfs(sp, tier, deadline, stop, slots, w, &t, false, &mut agg);
                        }
                        if let Some(n) = agg.found.take() {
                            let mut f = found.lock().unwrap();
                            let better = match &*f { None => true, Some(o) => n.script.len() < o.script.len() };
                            if better { *f = Some(n); }
                            stop.store(true, Ordering::SeqCst);
                        }
                        for x in agg.samples.drain(..) {
                            let mut v = samples.lock().unwrap();
                            if v.len() < 6 && !v.contains(&x) { v.push(x); }
                        }
                        if agg.capped {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    let Agg { execs, nodes, visits, ops, depth, local, lcap, .. } = agg;
                    tot.execs.fetch_add(execs, Ordering::Relaxed);
                    tot.nodes.fetch_add(nodes, Ordering::Relaxed);
                    tot.visits.fetch_add(visits, Ordering::Relaxed);
                    tot.ops.fetch_add(ops, Ordering::Relaxed);
                    tot.max_depth.fetch_max(depth, Ordering::Relaxed);
                    let mut o = outcomes.lock().unwrap();
                    o.1 |= lcap;
                    for x in local {
                        if o.0.len() >= OUTCOME_CAP { o.1 = true; break; }
                        o.0.insert(x);
                    }
                    drop(o);
                    if sp.forked {
                        together.wait();
                    }
                })
                .expect("harness: thread");
        }
    });
    let remaining = tasks.into_inner().unwrap().len();
    let o = outcomes.into_inner().unwrap();
    let f = found.into_inner().unwrap();
    SpaceResult {
        execs: tot.execs.into_inner(),
        nodes: tot.nodes.into_inner(),
        visits: tot.visits.into_inner(),
        ops: tot.ops.into_inner(),
        max_depth: tot.max_depth.into_inner(),
        outcomes: o.0.len() as u64,
        outcomes_capped: o.1,
        exhaustive: f.is_none() && !capped.into_inner() && remaining == 0,
        wall: t0.elapsed().as_secs_f64(),
        samples: samples.into_inner().unwrap(),
        found: f,
    }
}

/// Runs one script verbosely; returns the log and the result.
pub fn replay(sp: &Space, tier: Tier, script: &[u32]) -> (Vec<String>, R) {
    let sp = sp.clone();
    let script = script.to_vec();
    std::thread::Builder::new()
        .stack_size(sp.stack)
        .spawn(move || {
            let ch = Ch::new(script, sp.devs, true, tier);
            let r = run_one(&sp, &ch);
            (ch.log.into_inner(), r)
        })
        .expect("harness: thread")
        .join()
        .unwrap_or((vec![], Err("harness: thread died".into())))
}

pub fn secs(s: u64) -> Duration {
    Duration::from_secs(s)
}
