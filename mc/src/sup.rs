//! Supervision: the exploration runs in a child process so that an abort, stack
//! exhaustion or endless loop of the code under test is attributed to the
//! execution that caused it and becomes a replayable verdict.
use crate::engine::*;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const SLOT: usize = 4096;
const SLOTS: usize = 8;

pub struct Slots {
    base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

fn now_ms() -> u64 {
    let mut ts = [0i64; 2];
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut i64) -> i32;
    }
    unsafe { clock_gettime(1, ts.as_mut_ptr()) };
    (ts[0] * 1000 + ts[1] / 1_000_000) as u64
}

impl Slots {
    pub fn open(p: &Path) -> Slots {
        use std::os::fd::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("harness: slot file");
        f.set_len((SLOT * SLOTS) as u64).expect("harness: slot file");
        let base = unsafe { mmap(std::ptr::null_mut(), SLOT * SLOTS, 3, 1, f.as_raw_fd(), 0) };
        assert!(base as isize != -1, "harness: mmap");
        Slots { base }
    }
    fn at(&self, w: usize, i: usize) -> &AtomicU64 {
        assert!(w < SLOTS && i < SLOT / 8);
        unsafe { &*(self.base.add(w * SLOT + i * 8) as *const AtomicU64) }
    }
    pub fn set_space(&self, s: usize) {
        for w in 0..SLOTS {
            self.at(w, 2).store(s as u64, Ordering::SeqCst);
        }
    }
    /// (space, script, running for ms) of every active worker.
    pub fn active(&self) -> Vec<(usize, Vec<u32>, u64)> {
        let mut v = vec![];
        for w in 0..SLOTS {
            let st = self.at(w, 0).load(Ordering::SeqCst);
            if st != 0 {
                let n = self.at(w, 1).load(Ordering::SeqCst) as usize;
                let script = (0..n.min(SLOT / 8 - 8)).map(|i| self.at(w, 8 + i).load(Ordering::SeqCst) as u32).collect();
                v.push((self.at(w, 2).load(Ordering::SeqCst) as usize, script, now_ms().saturating_sub(st)));
            }
        }
        v
    }
}
impl Slot for Slots {
    fn begin(&self, w: usize, script: &[u32]) {
        self.at(w, 1).store(script.len() as u64, Ordering::Relaxed);
        for (i, c) in script.iter().enumerate().take(SLOT / 8 - 8) {
            self.at(w, 8 + i).store(*c as u64, Ordering::Relaxed);
        }
        self.at(w, 0).store(now_ms().max(1), Ordering::Relaxed);
    }
    fn end(&self, w: usize) {
        self.at(w, 0).store(0, Ordering::Relaxed);
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: i64,
    pub verif: PathBuf,
    pub profile: String,
}

pub struct Prop {
    pub id: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<String>,
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn write_replay(c: &Ctx, space: &str, script: &[u32], message: &str, log: &[String]) -> PathBuf {
    let dir = c.verif.join("replays");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", c.id, space, hash_bytes(format!("{:?}", script).as_bytes()) % 1_000_000));
    let mut f = fs::File::create(&p).expect("harness: replay file");
    let l: Vec<String> = log.iter().map(|x| format!("  \"{}\"", esc(x))).collect();
    let _ = write!(
        f,
        "{{\n\"property\": \"{}\",\n\"tier\": \"{}\",\n\"space\": \"{}\",\n\"script\": {:?},\n\"message\": \"{}\",\n\"steps\": [\n{}\n]\n}}\n",
        c.id, tier_name(c.tier), space, script, esc(message), l.join(",\n")
    );
    p
}

#[derive(Default)]
struct Cov {
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: u64,
    exhaustive: bool,
    spaces: Vec<String>,
    samples: Vec<String>,
}

fn write_evidence(c: &Ctx, cov: &Cov, assumptions: &[String], wall: f64, violations: u64) {
    let dir = c.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let samples: Vec<String> = cov.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let ass: Vec<String> = assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let text = format!(
        "{{\n\"property\": \"{}\",\n\"tier\": \"{}\",\n\"seed\": {},\n\"level\": \"model_checking\",\n\"coverage\": {{\n \"states\": {},\n \"transitions\": {},\n \"traces_validated_against_impl\": {},\n \"distinct_outcomes\": {},\n \"exhaustive\": {},\n \"spaces\": [\n  {}\n ],\n \"samples\": [{}]\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.3},\n\"violations\": {}\n}}\n",
        c.id, tier_name(c.tier), c.seed, cov.states, cov.transitions, cov.traces, cov.outcomes, cov.exhaustive,
        cov.spaces.join(",\n  "), samples.join(", "), ass.join(", "), wall, violations
    );
    fs::write(dir.join(format!("{}.json", c.id)), text).expect("harness: evidence");
}

static KNOWN_HITS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
/// Is this failure listed in the known-findings file? Then it is reported as such.
pub fn known(prop: &str, key: &str, what: &str) -> bool {
    let dir = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let text = fs::read_to_string(Path::new(&dir).join("known_findings.txt")).unwrap_or_default();
    let head = format!("property={} key={} ", prop, key);
    let hit = text.lines().any(|l| l.starts_with(&head));
    if hit {
        let mut v = KNOWN_HITS.lock().unwrap();
        let line = format!("KNOWN-FINDING: property={} [{}] {}", prop, key, what.replace('\n', " "));
        if !v.iter().any(|x| x.contains(&format!("[{}]", key))) {
            v.push(line);
        }
    }
    hit
}

/// The exploring process. Exit code 0: held, 1: violation reported.
pub fn exec(c: &Ctx, prop: &Prop, slot_path: &Path) -> i32 {
    let slots = Slots::open(slot_path);
    let t0 = Instant::now();
    let budget = match std::env::var("MC_BUDGET").ok().and_then(|x| x.parse().ok()) {
        Some(b) => b,
        None => if c.tier == Tier::Quick { 760 } else { 840 },
    };
    let deadline = t0 + secs(budget);
    let only = std::env::var("MC_SPACE").ok();
    let mut cov = Cov { exhaustive: true, ..Default::default() };
    let mut code = 0;
    for (i, sp) in prop.spaces.iter().enumerate() {
        if let Some(o) = &only {
            if o != sp.name { continue; }
        }
        slots.set_space(i);
        let r = explore(sp, c.tier, deadline, &slots);
        println!(
            "{} {:<18} execs={} cases={} nodes={} ops={} depth={} outcomes={}{} exhaustive={} {:.2}s",
            c.id, sp.name, r.execs, r.execs + r.visits, r.nodes, r.ops, r.max_depth, r.outcomes,
            if r.outcomes_capped { "+" } else { "" }, r.exhaustive, r.wall
        );
        cov.states += r.nodes + r.visits;
        cov.transitions += r.ops;
        cov.traces += r.execs + r.visits;
        cov.outcomes += r.outcomes;
        cov.exhaustive &= r.exhaustive;
        cov.samples.extend(r.samples.iter().take(3).map(|s| format!("{}: {}", sp.name, s)));
        cov.spaces.push(format!(
            "{{\"space\": \"{}\", \"enumerates\": \"{}\", \"deviation_bound\": {}, \"executions\": {}, \"inner_cases\": {}, \"choice_nodes\": {}, \"operations\": {}, \"max_choices\": {}, \"distinct_outcomes\": {}, \"outcomes_capped\": {}, \"exhaustive\": {}, \"profile\": \"{}\", \"wall_s\": {:.3}}}",
            sp.name, esc(&sp.bound), sp.devs, r.execs, r.visits, r.nodes, r.ops, r.max_depth, r.outcomes, r.outcomes_capped, r.exhaustive, c.profile, r.wall
        ));
        if let Some(f) = r.found {
            let (log, again) = replay(sp, c.tier, &f.script);
            let mut msg = f.message.clone();
            match again {
                Err(m) => {
                    if m.starts_with("harness:") {
                        println!("harness error: {}", m);
                        return 2;
                    }
                }
                Ok(()) => msg.push_str(" [depends on earlier executions in the same process: this execution alone passes; replay runs the whole space]"),
            }
            if f.message.starts_with("harness:") {
                println!("harness error: {}", f.message);
                return 2;
            }
            let p = write_replay(c, sp.name, &f.script, &msg, &log);
            for l in log.iter().take(60) {
                println!("  | {}", l);
            }
            println!("  {}", msg);
            println!("VIOLATION property={} replay={}", c.id, p.display());
            code = 1;
            break;
        }
    }
    for l in KNOWN_HITS.lock().unwrap().iter() {
        println!("{}", l);
    }
    if !cov.exhaustive && code == 0 {
        println!("note: time cap reached, the space was not covered completely");
    }
    write_evidence(c, &cov, &prop.assumptions, t0.elapsed().as_secs_f64(), code as u64);
    code
}

enum End {
    Code(i32),
    Died(String),
    Hung(usize, Vec<u32>),
}

fn wait(child: &mut std::process::Child, slots: &Slots, limit: &dyn Fn(usize) -> u64) -> End {
    loop {
        if let Some(st) = child.try_wait().expect("harness: wait") {
            use std::os::unix::process::ExitStatusExt;
            return match (st.code(), st.signal()) {
                (Some(c), _) => End::Code(c),
                (_, Some(s)) => End::Died(format!("signal {}", s)),
                _ => End::Died("?".into()),
            };
        }
        for (sp, script, ms) in slots.active() {
            if ms > limit(sp) * 1000 {
                let _ = child.kill();
                let _ = child.wait();
                return End::Hung(sp, script);
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

pub fn check(c: &Ctx, prop: &Prop) -> i32 {
    // A stop that no execution reproduces says something about the machine: try again.
    let t0 = Instant::now();
    let mut at = None;
    for _ in 0..2 {
        match check_once(c, prop, None) {
            Ok(k) => return k,
            Err(s) => at = s,
        }
        println!("the stop was not reproduced by any single execution; exploring again");
    }
    // Executions explored together share the memory of the process: one at a time, an
    // execution that asks for too much is found.
    if let Some(s) = at {
        let left = 840u64.saturating_sub(t0.elapsed().as_secs());
        if let Ok(1) = check_once(c, prop, Some((s, left))) {
            return 1;
        }
    }
    println!("harness error: the stop was not reproduced by any single execution");
    2
}
/// `Err` when the exploring process stopped (in which space, if known) and no single
/// execution does so again.
fn check_once(c: &Ctx, prop: &Prop, alone: Option<(usize, u64)>) -> Result<i32, Option<usize>> {
    let t0 = Instant::now();
    let run = c.verif.join("target/run");
    let _ = fs::create_dir_all(&run);
    let slot_path = run.join(format!("{}-{}.slots", c.id, std::process::id()));
    let slots = Slots::open(&slot_path);
    let exe = std::env::current_exe().expect("harness: exe");
    let base_args = |cmd: &str| {
        let mut k = Command::new(&exe);
        k.arg(cmd).arg(&c.id).arg(&slot_path).env("VERIF_TIER", tier_name(c.tier)).env("MC_VERIF", &c.verif).stdin(Stdio::null());
        k
    };
    let limit = |s: usize| prop.spaces.get(s).map(|x| x.exec_limit_s).unwrap_or(60);
    let mut first = base_args("exec");
    if let Some((s, left)) = alone {
        first.env("MC_SPACE", prop.spaces[s].name).env("MC_BUDGET", left.to_string()).env("MC_ALONE", "1");
    }
    let mut child = first.spawn().expect("harness: spawn");
    let end = wait(&mut child, &slots, &limit);
    let mut suspects: Vec<(usize, Vec<u32>)> = vec![];
    let what = match end {
        End::Code(k) if k == 0 || k == 1 => {
            let _ = fs::remove_file(&slot_path);
            return Ok(k);
        }
        End::Code(k) => {
            let _ = fs::remove_file(&slot_path);
            println!("harness error: exploring process ended with {}", k);
            return Ok(2);
        }
        End::Died(w) => {
            for (s, script, _) in slots.active() {
                suspects.push((s, script));
            }
            w
        }
        End::Hung(s, script) => {
            suspects.push((s, script));
            "no progress".into()
        }
    };
    println!("exploring process stopped ({}); isolating the execution", what);
    let at = suspects.first().map(|x| x.0);
    for (s, script) in suspects {
        let _ = fs::remove_file(&slot_path);
        let slots = Slots::open(&slot_path);
        slots.set_space(s);
        let mut k = base_args("one");
        k.arg(s.to_string()).arg(script.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let mut child = k.spawn().expect("harness: spawn");
        let msg = match wait(&mut child, &slots, &limit) {
            End::Code(_) => continue,
            End::Died(w) => format!("the process died ({}): abort, stack or memory exhaustion", w),
            End::Hung(..) => format!("the execution did not end within {} s", limit(s)),
        };
        let name = prop.spaces[s].name;
        let p = write_replay(c, name, &script, &msg, &[]);
        let mut cov = Cov { states: 1 + script.len() as u64, transitions: 1, traces: 1, outcomes: 1, ..Default::default() };
        cov.samples.push(format!("{} {:?}: {}", name, script, msg));
        cov.spaces.push(format!("{{\"space\": \"{}\", \"enumerates\": \"{}\", \"exhaustive\": false}}", name, esc(&prop.spaces[s].bound)));
        write_evidence(c, &cov, &prop.assumptions, t0.elapsed().as_secs_f64(), 1);
        println!("  space {} script {:?}: {}", name, script, msg);
        println!("VIOLATION property={} replay={}", c.id, p.display());
        let _ = fs::remove_file(&slot_path);
        return Ok(1);
    }
    let _ = fs::remove_file(&slot_path);
    Err(at)
}

pub fn one(c: &Ctx, prop: &Prop, slot_path: &Path, space: usize, script: &[u32]) -> i32 {
    let slots = Slots::open(slot_path);
    slots.set_space(space);
    slots.begin(0, script);
    let (_, r) = replay(&prop.spaces[space], c.tier, script);
    slots.end(0);
    match r {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

/// `mc replay FILE`
pub fn replay_file(c: &Ctx, prop: &Prop, text: &str) -> i32 {
    let field = |k: &str| -> String {
        let pat = format!("\"{}\": ", k);
        let i = text.find(&pat).expect("replay file") + pat.len();
        let rest = &text[i..];
        let e = rest.find('\n').expect("replay file");
        rest[..e].trim_end_matches(',').to_string()
    };
    let space = field("space").trim_matches('"').to_string();
    let script: Vec<u32> = field("script").trim_matches(|c| c == '[' || c == ']').split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let sp = prop.spaces.iter().find(|s| s.name == space).expect("space");
    let (log, r) = replay(sp, c.tier, &script);
    for l in log {
        println!("  | {}", l);
    }
    match r {
        Err(m) => {
            println!("reproduced: {}", m);
            1
        }
        Ok(()) => {
            println!("this execution alone passes; exploring the whole space");
            struct N;
            impl Slot for N {
                fn begin(&self, _: usize, _: &[u32]) {}
                fn end(&self, _: usize) {}
            }
            let r = explore(sp, c.tier, Instant::now() + secs(600), &N);
            match r.found {
                Some(f) => {
                    println!("reproduced in history: {:?}: {}", f.script, f.message);
                    1
                }
                None => 0,
            }
        }
    }
}
