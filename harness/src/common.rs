//! Bookkeeping shared by all checks: counters, violations, evidence, known findings, and a guard
//! that turns a crash or an endless loop of the code under test into a report.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";
pub const SLOTS: usize = 64;
pub const SLOT_SIZE: usize = 1 << 20;

#[derive(Clone, Debug)]
pub struct Violation {
    pub rank: (usize, String),
    pub what: String,
    pub replay: Value,
    pub key: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub stop: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    counters: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<BTreeMap<String, Value>>,
    samples: Mutex<Vec<Value>>,
    states: Mutex<HashSet<u64>>,
    transitions: Mutex<HashSet<u64>>,
    pub traces: AtomicU64,
    next_slot: AtomicUsize,
    slots: *mut u8,
}
unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn map_slots(path: &str) -> *mut u8 {
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    file.set_len((SLOTS * SLOT_SIZE) as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SLOTS * SLOT_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, file.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, slots: Option<String>) -> Ctx {
        let slots = match slots {
            Some(p) => map_slots(&p),
            None => Box::leak(vec![0u8; SLOTS * SLOT_SIZE].into_boxed_slice()).as_mut_ptr(),
        };
        assert!(SLOTS > threads());
        Ctx {
            prop: prop.to_string(), thorough, seed, start: Instant::now(), stop: AtomicBool::new(false),
            violations: Default::default(), counters: Default::default(), notes: Default::default(),
            samples: Default::default(), states: Default::default(), transitions: Default::default(),
            traces: AtomicU64::new(0), next_slot: AtomicUsize::new(0), slots,
        }
    }

    /// Records what this thread is about to hand to the code under test.
    pub fn enter(&self, input: &str) {
        let slot = SLOT.with(|s| {
            if s.get() == usize::MAX { s.set(self.next_slot.fetch_add(1, Ordering::SeqCst) % SLOTS) }
            s.get()
        });
        let n = input.len().min(SLOT_SIZE - 16);
        unsafe {
            let p = self.slots.add(slot * SLOT_SIZE);
            let seq = (p as *mut u64).read_volatile();
            std::ptr::copy_nonoverlapping(input.as_ptr(), p.add(16), n);
            (p.add(8) as *mut u64).write_volatile(n as u64);
            (p as *mut u64).write_volatile(seq + 1);
        }
    }
    /// This thread is idle; the watchdog has nothing to watch.
    pub fn leave(&self) {
        SLOT.with(|s| {
            if s.get() != usize::MAX {
                unsafe { (self.slots.add(s.get() * SLOT_SIZE + 8) as *mut u64).write_volatile(u64::MAX) }
            }
        });
    }

    pub fn violation(&self, rank: usize, order: &str, what: String, replay: Value) {
        self.violation_key(rank, order, what, replay, String::new())
    }
    pub fn violation_key(&self, rank: usize, order: &str, what: String, replay: Value, key: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 2000 { v.push(Violation { rank: (rank, order.to_string()), what, replay, key }); }
        self.stop.store(true, Ordering::SeqCst);
    }
    pub fn stopped(&self) -> bool { self.stop.load(Ordering::Relaxed) }
    pub fn count(&self, key: &str, n: u64) { *self.counters.lock().unwrap().entry(key.to_string()).or_default() += n; }
    pub fn note(&self, key: &str, v: Value) { self.notes.lock().unwrap().insert(key.to_string(), v); }
    pub fn sample(&self, v: Value) { let mut s = self.samples.lock().unwrap(); if s.len() < 12 { s.push(v) } }
    pub fn add_states(&self, s: &HashSet<u64>, t: &HashSet<u64>) {
        self.states.lock().unwrap().extend(s.iter().copied());
        self.transitions.lock().unwrap().extend(t.iter().copied());
    }
    pub fn state(&self, s: &str) { self.states.lock().unwrap().insert(fnv(s.as_bytes())); }
    pub fn transition(&self, s: &str) { self.transitions.lock().unwrap().insert(fnv(s.as_bytes())); }
    pub fn trace(&self) { self.traces.fetch_add(1, Ordering::Relaxed); }

    /// Writes the evidence, prints the verdict, and returns the exit status.
    pub fn finish(&self, level: &str, exhaustive: bool, assumptions: &[&str]) -> i32 {
        let mut violations = self.violations.lock().unwrap().clone();
        violations.sort_by(|a, b| a.rank.cmp(&b.rank));
        let known = known_findings(&self.prop);
        let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
        violations.retain(|v| match known.iter().find(|(k, _)| !v.key.is_empty() && *k == v.key) {
            Some((k, text)) => { seen_known.insert(k.clone(), text.clone()); false }
            None => true,
        });
        let mut coverage = serde_json::Map::new();
        let traces = self.traces.load(Ordering::Relaxed);
        if level == "model_checking" {
            coverage.insert("states".into(), json!(self.states.lock().unwrap().len()));
            coverage.insert("transitions".into(), json!(self.transitions.lock().unwrap().len()));
            coverage.insert("traces_validated_against_impl".into(), json!(traces));
        } else {
            coverage.insert("evaluations".into(), json!(traces));
            coverage.insert("distinct_nontrivial".into(), json!(self.states.lock().unwrap().len()));
        }
        coverage.insert("exhaustive".into(), json!(exhaustive && violations.is_empty()));
        coverage.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        coverage.insert("counts".into(), json!(*self.counters.lock().unwrap()));
        for (k, v) in self.notes.lock().unwrap().iter() { coverage.insert(k.clone(), v.clone()); }
        let evidence = json!({
            "property": self.prop, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": level, "coverage": coverage, "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": violations.len(),
        });
        write_evidence(&self.prop, &evidence);
        for (_, text) in seen_known { println!("KNOWN-FINDING: property={} {}", self.prop, text); }
        if let Some(v) = violations.first() {
            report(&self.prop, &v.what, &v.replay);
            return 1;
        }
        println!("{}: held on {} executions ({:.1} s)", self.prop, traces, self.start.elapsed().as_secs_f64());
        0
    }
}

pub fn write_evidence(prop: &str, evidence: &Value) {
    let dir = PathBuf::from(VERIF).join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(evidence).unwrap()).unwrap();
}

pub fn report(prop: &str, what: &str, replay: &Value) {
    let dir = PathBuf::from(VERIF).join("evidence/replay");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{prop}.json"));
    std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": prop, "what": what, "case": replay})).unwrap()).unwrap();
    // one line of printable text
    let short: String = what.chars().take(2000).flat_map(|c| if c.is_control() || c == '\u{fffd}' { c.escape_default().collect::<Vec<_>>() } else { vec![c] }).collect();
    println!("{short}{}", if what.chars().count() > 2000 { "..." } else { "" });
    println!("VIOLATION property={prop} replay={}", path.display());
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{VERIF}/known_findings.txt")).unwrap_or_default();
    // known: property=<id> key=<key> <what fails>
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={prop} key=")))
        .filter_map(|l| l.split_once(' '))
        .map(|(k, t)| (k.to_string(), t.to_string()))
        .collect()
}

/// (sequence number, length of the input or u64::MAX when idle)
fn slot_head(slots: *mut u8, i: usize) -> (u64, u64) {
    unsafe {
        let p = slots.add(i * SLOT_SIZE) as *mut u64;
        (p.read_volatile(), p.add(1).read_volatile())
    }
}
fn slot_input(slots: *mut u8, i: usize) -> String {
    let n = (slot_head(slots, i).1 as usize).min(SLOT_SIZE - 16);
    let bytes = unsafe { std::slice::from_raw_parts(slots.add(i * SLOT_SIZE + 16), n) };
    String::from_utf8_lossy(bytes).into_owned()
}

/// Runs this program again as a child that does the checking, so that a crash or an endless loop
/// in the code under test is seen from outside.
pub fn guard(prop: &str, args: &[String], hang: Duration, total: Duration) -> i32 {
    let dir = tmp_dir("guard");
    let slots = dir.join("slots").display().to_string();
    let map = map_slots(&slots);
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args).env("BRACKMC_SLOTS", &slots).env("BRACKMC_TMP", &dir).spawn().unwrap();
    let start = Instant::now();
    // how long each slot has had the same input, as far as this process itself was running
    let mut last: Vec<(u64, Duration)> = vec![(0, Duration::ZERO); SLOTS];
    let mut tick = start;
    // whether this input fails again, alone, in a process of its own; only such ones are reported
    let fails = |input: &str| -> bool {
        let file = dir.join("probe");
        std::fs::write(&file, input).unwrap();
        let mut probe = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["probe", prop, file.to_str().unwrap()]).stdout(std::process::Stdio::null()).spawn().unwrap();
        let mut passed = Duration::ZERO;
        loop {
            match probe.try_wait().unwrap() {
                Some(st) => return st.code().is_none(),
                None if passed > hang => { let _ = probe.kill(); let _ = probe.wait(); return true }
                None => { let now = Instant::now(); std::thread::sleep(Duration::from_millis(20)); passed += now.elapsed().min(Duration::from_millis(100)) }
            }
        }
    };
    let alarm = |why: &str, s: &str| -> i32 {
        write_evidence(prop, &json!({"property": prop, "tier": "quick", "seed": 1, "level": "other",
            "coverage": {"explanation": "stopped by a crash of the code under test"}, "wall_s": start.elapsed().as_secs_f64(), "violations": 1}));
        report(prop, &format!("{why} on {s:?}"), &json!({"document": s, "crash": why}));
        1
    };
    let code = 'watch: loop {
        if let Some(status) = child.try_wait().unwrap() {
            match status.code() {
                Some(c) if c == 0 || c == 1 => break c,
                Some(c) => { eprintln!("{prop}: the checker ended with status {c}"); break 2 }
                None => {
                    let why = format!("the process was ended by a signal ({status})");
                    let mut suspects: Vec<String> = (0..SLOTS).filter(|i| matches!(slot_head(map, *i), (s, l) if s > 0 && l != u64::MAX)).map(|i| slot_input(map, i)).collect();
                    suspects.sort_by_key(|s| s.len());
                    if let Some(s) = suspects.iter().find(|s| fails(s)) { break alarm(&why, s) }
                    eprintln!("{prop}: {why}, but no single input reproduces it");
                    break 2
                }
            }
        }
        let passed = tick.elapsed().min(Duration::from_millis(100));
        tick = Instant::now();
        for i in 0..SLOTS {
            let (seq, len) = slot_head(map, i);
            if len == u64::MAX || last[i].0 != seq { last[i] = (seq, Duration::ZERO); continue }
            last[i].1 += passed;
            if seq > 0 && last[i].1 > hang {
                let s = slot_input(map, i);
                if fails(&s) { let _ = child.kill(); let _ = child.wait(); break 'watch alarm(&format!("no end after {} s", hang.as_secs()), &s) }
                last[i].1 = Duration::ZERO;
            }
        }
        if start.elapsed() > total { eprintln!("{prop}: gave up after {} s", total.as_secs()); let _ = child.kill(); let _ = child.wait(); break 2 }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

static TMP_COUNT: AtomicUsize = AtomicUsize::new(0);
pub fn tmp_dir(label: &str) -> PathBuf {
    let base = std::env::var("BRACKMC_TMP").unwrap_or_else(|_| "/tmp".to_string());
    let dir = PathBuf::from(base).join(format!("brackmc-{}-{}-{}", label, std::process::id(), TMP_COUNT.fetch_add(1, Ordering::SeqCst)));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

pub fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) }

/// Runs `f` on every task, on all cores, each worker with state of its own.
pub fn par<T: Sync, S>(ctx: &Ctx, tasks: &[T], init: impl Fn() -> S + Sync, f: impl Fn(&mut S, &T) + Sync, done: impl Fn(S) + Sync) {
    let next = AtomicUsize::new(0);
    ctx.leave();
    std::thread::scope(|scope| {
        for _ in 0..threads().min(tasks.len().max(1)) {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, || {
                let mut state = init();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= tasks.len() || ctx.stopped() { break }
                    f(&mut state, &tasks[i]);
                    ctx.leave();
                }
                done(state);
            }).unwrap();
        }
    });
}

pub enum Ended { Code(i32, String, String), Signal(i32, String), Timeout }
impl Ended {
    pub fn describe(&self) -> String {
        let tail = |s: &str| { let t = s.trim(); t.chars().skip(t.chars().count().saturating_sub(300)).collect::<String>() };
        match self {
            Ended::Code(c, _, e) => format!("exit status {c}: {}", tail(e)),
            Ended::Signal(s, e) => format!("ended by signal {s}: {}", tail(e)),
            Ended::Timeout => "no end".into(),
        }
    }
    pub fn ok(&self) -> bool { matches!(self, Ended::Code(0, ..)) }
    pub fn code(&self) -> i32 { match self { Ended::Code(c, ..) => *c, Ended::Signal(s, _) => 128 + s, Ended::Timeout => -1 } }
    pub fn out(&self) -> &str { match self { Ended::Code(_, o, _) => o, _ => "" } }
    pub fn err(&self) -> &str { match self { Ended::Code(_, _, e) => e, Ended::Signal(_, e) => e, _ => "" } }
}

/// Runs a program to its end, with its output read along, or kills it after the limit.
pub fn run_limited(c: &mut std::process::Command, limit: Duration) -> Ended {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    use std::process::Stdio;
    let mut child = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let pid = child.id() as i32;
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let out = s.spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v });
        let err = s.spawn(move || { let mut v = vec![]; let _ = e.read_to_end(&mut v); v });
        let watch = s.spawn(|| {
            let begin = Instant::now();
            while !done.load(Ordering::SeqCst) {
                if begin.elapsed() > limit { unsafe { libc::kill(pid, libc::SIGKILL); } return true }
                std::thread::park_timeout(Duration::from_millis(200));
            }
            false
        });
        let status = child.wait().expect("wait");
        done.store(true, Ordering::SeqCst);
        watch.thread().unpark();
        let timeout = watch.join().unwrap();
        let text = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned();
        let (out, err) = (text(out.join().unwrap()), text(err.join().unwrap()));
        if timeout { return Ended::Timeout }
        match status.code() { Some(c) => Ended::Code(c, out, err), None => Ended::Signal(status.signal().unwrap_or(0), err) }
    })
}

/// Runs code under test; a panic becomes Err with its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {}", msg.chars().take(300).collect::<String>())
    })
}

pub fn flush() { let _ = std::io::stdout().flush(); }
