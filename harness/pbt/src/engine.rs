//! Generation, execution and shrinking of cases.
//!
//! A case is a function of a sequence of choices.  When searching, the choices
//! are drawn from a generator seeded by (seed, property, check, case number);
//! when replaying or shrinking they are taken from a given sequence, and all
//! choices past its end are 0.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt;
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

pub const MAX_CHOICES: usize = 1 << 16;

/// splitmix64
#[derive(Clone)]
pub struct Mix(pub u64);

impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn hash_bytes(init: u64, bytes: &[u8]) -> u64 {
    let mut m = Mix(init ^ 0x5851_f42d_4c95_7f2d);
    for c in bytes {
        m.0 = m.next() ^ (*c as u64);
    }
    m.next()
}

/// What failed: a short stable signature, and an explanation.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

/// The source of all choices of one case, and what the case tells about itself.
pub struct Src {
    given: Option<Vec<u64>>,
    mix: Mix,
    pub choices: Vec<u64>,
    shared: *mut u64,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub notes: Vec<String>,
    pub traced: u64,
}

impl Src {
    pub fn new(seed: u64, given: Option<Vec<u64>>, shared: *mut u64) -> Src {
        Src {
            given,
            mix: Mix(seed),
            choices: Vec::new(),
            shared,
            labels: BTreeMap::new(),
            nontrivial: false,
            notes: Vec::new(),
            traced: 0,
        }
    }

    /// A number from 0 to `max`, inclusive.
    pub fn draw(&mut self, max: u64) -> u64 {
        let i = self.choices.len();
        let v = match self.given {
            Some(ref g) => {
                let x = g.get(i).cloned().unwrap_or(0);
                if x > max { x % (max.wrapping_add(1).max(1)) } else { x }
            }
            None => {
                let x = self.mix.next();
                if max == u64::max_value() { x } else { x % (max + 1) }
            }
        };
        if !self.shared.is_null() && i < MAX_CHOICES {
            unsafe {
                *self.shared.add(1 + i) = v;
                *self.shared = (i + 1) as u64;
            }
        }
        self.choices.push(v);
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn byte(&mut self) -> u8 {
        self.draw(255) as u8
    }
    /// True with probability `num/den`; the simple value is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let x = self.draw(den - 1);
        x >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn note(&mut self, s: String) {
        self.notes.push(s);
    }
    /// Of all choices, results and remarks.
    pub fn digest(&self) -> u64 {
        let mut h = self.traced;
        for c in self.choices.iter() {
            h = hash_bytes(h, &ToLe::to_le_bytes(c));
        }
        for (l, n) in self.labels.iter() {
            h = hash_bytes(h ^ n, l.as_bytes());
        }
        for n in self.notes.iter() {
            h = hash_bytes(h, n.as_bytes());
        }
        h
    }
    pub fn interesting(&mut self) {
        self.nontrivial = true;
    }
}

/// A named check of a property: a case generator together with its oracle.
pub struct Check {
    pub name: &'static str,
    /// How many cases to run in the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// What makes a case non-trivial.
    pub rule: &'static str,
    pub run: fn(&mut Src) -> Res,
}

// ---------------------------------------------------------------- the system's random generator

thread_local! {
    static OS: RefCell<OsSource> = RefCell::new(OsSource { mix: Mix(1), repeat: None, calls: 0, live: false });
}

struct OsSource {
    mix: Mix,
    /// If given, every request is answered from a generator starting in this state.
    repeat: Option<u64>,
    calls: u64,
    live: bool,
}

/// (Re)seed what the "system" returns as randomness in this thread.
pub fn os_seed(seed: u64) {
    OS.with(|o| {
        let mut o = o.borrow_mut();
        o.mix = Mix(seed);
        o.repeat = None;
        o.calls = 0;
        o.live = true;
    })
}

/// Have the "system" answer every request with the same bytes.
pub fn os_repeat(seed: u64) {
    OS.with(|o| {
        let mut o = o.borrow_mut();
        o.repeat = Some(seed);
        o.live = true;
    })
}

pub fn os_calls() -> u64 {
    OS.with(|o| o.borrow().calls)
}

/// What the `getrandom` system call gives while a case runs.
pub fn os_fill(buf: &mut [u8]) -> bool {
    OS.try_with(|o| {
        let mut o = match o.try_borrow_mut() {
            Ok(o) => o,
            Err(_) => return false,
        };
        if !o.live {
            return false;
        }
        o.calls += 1;
        if let Some(s) = o.repeat {
            let mut m = Mix(s);
            for c in buf.iter_mut() {
                *c = m.next() as u8;
            }
        } else {
            for c in buf.iter_mut() {
                *c = o.mix.next() as u8;
            }
        }
        true
    })
    .unwrap_or(false)
}

// ---------------------------------------------------------------- running one case

pub struct Outcome {
    pub result: Res,
    pub src: Src,
}

struct SendPtr(*mut u64);
unsafe impl Send for SendPtr {}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "?".to_string(),
            },
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn catching<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_string())),
    }
}

/// Run one case in a thread of its own, so that no thread-local state of the
/// libraries is carried from one case to another.
pub fn run_case(run: fn(&mut Src) -> Res, seed: u64, given: Option<Vec<u64>>, shared: *mut u64) -> Outcome {
    let shared = SendPtr(shared);
    let handle = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let shared = shared;
            let mut src = Src::new(seed, given, shared.0);
            let os = src.draw(u32::max_value() as u64);
            os_seed(os.wrapping_add(0x1234_5678));
            let r = catching(|| run(&mut src));
            src.traced = TRACE.with(|t| *t.borrow());
            let result = match r {
                Ok(r) => r,
                Err(m) => Err(Fail { sig: "panic".to_string(), msg: format!("panicked: {}", m) }),
            };
            SendOutcome(Outcome { result, src })
        })
        .expect("could not start a thread");
    match handle.join() {
        Ok(o) => o.0,
        Err(_) => {
            // Only a panic in the harness's own code outside the case gets here.
            eprintln!("internal error: thread of a case panicked");
            unsafe { libc::_exit(2) }
        }
    }
}

struct SendOutcome(Outcome);
unsafe impl Send for SendOutcome {}

// ---------------------------------------------------------------- searching

/// Shared memory of a search.
#[repr(C)]
struct Slot {
    case: AtomicU64,
    started: AtomicU64,
}

fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub case: u64,
    pub sig: String,
    pub msg: String,
    pub choices: Vec<u64>,
    pub notes: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<(u64, Value)>,
    pub known: BTreeMap<String, u64>,
    pub known_choices: BTreeMap<String, Vec<u64>>,
    pub failure: Option<Failure>,
    pub error: Option<String>,
    /// Cases given up since something they take for granted didn't work.
    pub discarded: u64,
}

/// The signature of a case which is given up: something failed that the check
/// takes for granted, and which another property is about.
pub const GIVEN_UP: &str = "honest-step";

pub fn case_seed(seed: u64, prop: &str, check: &str, case: u64) -> u64 {
    let mut h = hash_bytes(seed, prop.as_bytes());
    h = hash_bytes(h, check.as_bytes());
    hash_bytes(h, &case.to_le_bytes())
}

trait ToLe {
    fn to_le_bytes(&self) -> [u8; 8];
}
impl ToLe for u64 {
    fn to_le_bytes(&self) -> [u8; 8] {
        let mut b = [0u8; 8];
        for i in 0..8 {
            b[i] = (*self >> (8 * i)) as u8;
        }
        b
    }
}

fn fork() -> i32 {
    unsafe { libc::fork() }
}

pub fn now() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64
}

/// Seconds after which a case counts as hung (which is an error, never a violation).
const HANG: u64 = 300;

pub fn search(prop: &str, check: &Check, seed: u64, cases: u64, workers: u64, known: &HashSet<String>) -> Report {
    let workers = workers.min(cases.max(1));
    let slot_len = std::mem::size_of::<Slot>() + (MAX_CHOICES + 1) * 8;
    let base = map_shared(4096 + slot_len * workers as usize);
    let lowest = unsafe { &*(base as *const AtomicU64) };
    lowest.store(u64::max_value(), Ordering::SeqCst);
    let slot = |w: u64| unsafe { &*(base.add(4096 + slot_len * w as usize) as *const Slot) };
    let choices_of =
        |w: u64| unsafe { base.add(4096 + slot_len * w as usize + std::mem::size_of::<Slot>()) as *mut u64 };

    let dir = std::env::temp_dir().join(format!("pbt-{}-{}-{}", std::process::id(), prop, check.name));
    std::fs::create_dir_all(&dir).expect("temporary directory");

    let mut pids = Vec::new();
    for w in 0..workers {
        slot(w).started.store(now(), Ordering::SeqCst);
        let pid = fork();
        if pid == 0 {
            let rep = worker(prop, check, seed, cases, w, workers, known, lowest, slot(w), choices_of(w));
            let r = std::fs::write(dir.join(format!("{}", w)), serde_json::to_vec(&rep).unwrap());
            unsafe { libc::_exit(if r.is_ok() { 0 } else { 2 }) }
        }
        pids.push((w, pid));
    }

    let mut report = Report::default();
    let mut failures: Vec<Failure> = Vec::new();
    let mut left = pids.clone();
    while !left.is_empty() {
        let mut progressed = false;
        let mut still = Vec::new();
        for &(w, pid) in left.iter() {
            let mut status = 0;
            let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
            if r == 0 {
                if now().saturating_sub(slot(w).started.load(Ordering::SeqCst)) > HANG {
                    unsafe {
                        libc::kill(pid, libc::SIGKILL);
                        libc::waitpid(pid, &mut status, 0);
                    }
                    report.error = Some(format!("case {} did not end", slot(w).case.load(Ordering::SeqCst)));
                } else {
                    still.push((w, pid));
                }
                continue;
            }
            progressed = true;
            if libc_exited(status) == Some(0) {
                match std::fs::read(dir.join(format!("{}", w))).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
                    Some(v) => merge(&mut report, &mut failures, &v),
                    None => report.error = Some("a worker left no result".to_string()),
                }
            } else if let Some(sig) = libc_signaled(status) {
                if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
                    report.error = Some(format!("a worker was ended by signal {}", sig));
                } else {
                    let n = unsafe { *choices_of(w) } as usize;
                    let choices = (0..n.min(MAX_CHOICES)).map(|i| unsafe { *choices_of(w).add(1 + i) }).collect();
                    let case = slot(w).case.load(Ordering::SeqCst);
                    lowest_min(lowest, case);
                    report.evaluations += 1;
                    failures.push(Failure {
                        case,
                        sig: format!("crash:{}", sig),
                        msg: format!("the process was ended by signal {}", sig),
                        choices,
                        notes: vec![],
                    });
                }
            } else {
                report.error = Some(format!("a worker ended with status {:x}", status));
            }
        }
        left = still;
        if !progressed {
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    unsafe {
        libc::munmap(base as *mut libc::c_void, 4096 + slot_len * workers as usize);
    }
    if report.discarded * 5 > report.evaluations {
        report.error = Some(format!("{} of {} cases were given up", report.discarded, report.evaluations));
    }
    failures.sort_by_key(|f| f.case);
    report.failure = failures.into_iter().next();
    report.samples.sort_by_key(|s| s.0);
    report
}

fn lowest_min(a: &AtomicU64, v: u64) {
    let mut cur = a.load(Ordering::SeqCst);
    while v < cur {
        cur = match a.compare_exchange(cur, v, Ordering::SeqCst, Ordering::SeqCst) {
            Ok(_) => break,
            Err(c) => c,
        };
    }
}

fn libc_exited(status: i32) -> Option<i32> {
    if unsafe { libc::WIFEXITED(status) } { Some(unsafe { libc::WEXITSTATUS(status) }) } else { None }
}
fn libc_signaled(status: i32) -> Option<i32> {
    if unsafe { libc::WIFSIGNALED(status) } { Some(unsafe { libc::WTERMSIG(status) }) } else { None }
}

fn worker(
    prop: &str,
    check: &Check,
    seed: u64,
    cases: u64,
    w: u64,
    workers: u64,
    known: &HashSet<String>,
    lowest: &AtomicU64,
    slot: &Slot,
    choices: *mut u64,
) -> Value {
    let mut evaluations = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_choices: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut failure = Value::Null;
    let mut discarded = 0u64;
    let mut given_up = String::new();
    let mut case = w;
    while case < cases {
        if lowest.load(Ordering::SeqCst) < case {
            break;
        }
        slot.case.store(case, Ordering::SeqCst);
        slot.started.store(now(), Ordering::SeqCst);
        unsafe { *choices = 0 };
        let out = run_case(check.run, case_seed(seed, prop, check.name, case), None, choices);
        evaluations += 1;
        for (l, n) in out.src.labels.iter() {
            *labels.entry(l.clone()).or_insert(0) += n;
        }
        let complete = match out.result {
            Err(ref f) => f.sig != GIVEN_UP,
            Ok(()) => true,
        };
        if out.src.nontrivial && complete {
            let mut h = 7;
            for c in out.src.choices.iter() {
                h = hash_bytes(h, &ToLe::to_le_bytes(c));
            }
            seen.insert(h);
        }
        if samples.len() < 1 && out.src.nontrivial && !out.src.notes.is_empty() {
            samples.push(json!([case, {"check": check.name, "case": case, "what": out.src.notes.clone(), "labels": out.src.labels.keys().collect::<Vec<_>>() }]));
        }
        if let Err(f) = out.result {
            if f.sig == GIVEN_UP {
                discarded += 1;
                given_up = f.msg;
            } else if known.contains(&f.sig) {
                *known_hits.entry(f.sig.clone()).or_insert(0) += 1;
                known_choices.entry(f.sig.clone()).or_insert(out.src.choices.clone());
            } else {
                failure = json!({"case": case, "sig": f.sig, "msg": f.msg, "choices": out.src.choices, "notes": out.src.notes});
                lowest_min(lowest, case);
                break;
            }
        }
        case += workers;
    }
    json!({
        "evaluations": evaluations,
        "nontrivial": seen.into_iter().collect::<Vec<u64>>(),
        "labels": labels,
        "samples": samples,
        "known": known_hits,
        "known_choices": known_choices,
        "failure": failure,
        "discarded": discarded,
        "given_up": given_up,
    })
}

fn merge(report: &mut Report, failures: &mut Vec<Failure>, v: &Value) {
    report.discarded += v["discarded"].as_u64().unwrap_or(0);
    if v["discarded"].as_u64() > Some(0) {
        eprintln!("cases given up, e.g.: {}", v["given_up"]);
    }
    report.evaluations += v["evaluations"].as_u64().unwrap_or(0);
    // Workers run different cases, each with a seed of its own; equal choice
    // sequences in different workers are rare but possible, and are counted
    // once for each worker.
    report.nontrivial += v["nontrivial"].as_array().map(|a| a.len() as u64).unwrap_or(0);
    if let Some(o) = v["labels"].as_object() {
        for (k, n) in o {
            *report.labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
    }
    if let Some(a) = v["samples"].as_array() {
        for s in a {
            report.samples.push((s[0].as_u64().unwrap_or(0), s[1].clone()));
        }
    }
    if let Some(o) = v["known"].as_object() {
        for (k, n) in o {
            *report.known.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
    }
    if let Some(o) = v["known_choices"].as_object() {
        for (k, c) in o {
            report.known_choices.entry(k.clone()).or_insert_with(|| to_choices(c));
        }
    }
    if !v["failure"].is_null() {
        let f = &v["failure"];
        failures.push(Failure {
            case: f["case"].as_u64().unwrap_or(0),
            sig: f["sig"].as_str().unwrap_or("").to_string(),
            msg: f["msg"].as_str().unwrap_or("").to_string(),
            choices: to_choices(&f["choices"]),
            notes: f["notes"]
                .as_array()
                .map(|a| a.iter().filter_map(|s| s.as_str().map(|s| s.to_string())).collect())
                .unwrap_or_default(),
        });
    }
}

pub fn to_choices(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(|c| c.as_u64().unwrap_or(0)).collect()).unwrap_or_default()
}

// ---------------------------------------------------------------- replaying and shrinking

/// Run one case from given choices in a process of its own.
pub fn replay(run: fn(&mut Src) -> Res, choices: &[u64]) -> Result<Option<Failure>, String> {
    apart(run, 0, Some(choices.to_vec())).map(|(f, _)| f)
}

thread_local! {
    static TRACE: RefCell<u64> = RefCell::new(1);
}

/// Have what the libraries gave count for the digest of this case.
pub fn trace(b: &[u8]) {
    let _ = TRACE.try_with(|t| {
        let mut t = t.borrow_mut();
        *t = hash_bytes(*t ^ b.len() as u64, b);
    });
}

/// Run one case in a process of its own: how it fails, and a digest of all that happens.
pub fn apart(run: fn(&mut Src) -> Res, seed: u64, given: Option<Vec<u64>>) -> Result<(Option<Failure>, u64), String> {
    let choices = given.clone().unwrap_or_default();
    let len = 1 << 20;
    let out = map_shared(len);
    let pid = fork();
    if pid == 0 {
        let o = run_case(run, seed, given, std::ptr::null_mut());
        let v = match o.result {
            Ok(()) => json!({"notes": o.src.notes, "choices": o.src.choices, "digest": o.src.digest()}),
            Err(f) => json!({"sig": f.sig, "msg": f.msg, "notes": o.src.notes, "choices": o.src.choices, "digest": o.src.digest()}),
        };
        let b = serde_json::to_vec(&v).unwrap();
        if b.len() + 8 <= len {
            unsafe {
                *(out as *mut u64) = b.len() as u64;
                std::ptr::copy_nonoverlapping(b.as_ptr(), out.add(8), b.len());
            }
        }
        unsafe { libc::_exit(0) }
    }
    let start = Instant::now();
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r != 0 {
            break;
        }
        if start.elapsed() > Duration::from_secs(HANG) {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
                libc::munmap(out as *mut libc::c_void, len);
            }
            return Err("the case did not end".to_string());
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    let res = if libc_exited(status) == Some(0) {
        let n = unsafe { *(out as *const u64) } as usize;
        let b = unsafe { std::slice::from_raw_parts(out.add(8), n) };
        match serde_json::from_slice::<Value>(b) {
            Ok(v) => {
                let digest = v["digest"].as_u64().unwrap_or(0);
                if v["sig"].is_string() {
                    let f = Failure {
                        case: 0,
                        sig: v["sig"].as_str().unwrap().to_string(),
                        msg: v["msg"].as_str().unwrap_or("").to_string(),
                        choices: to_choices(&v["choices"]),
                        notes: v["notes"]
                            .as_array()
                            .map(|a| a.iter().filter_map(|s| s.as_str().map(|s| s.to_string())).collect())
                            .unwrap_or_default(),
                    };
                    Ok((Some(f), digest))
                } else {
                    Ok((None, digest))
                }
            }
            Err(e) => Err(format!("no result: {}", e)),
        }
    } else if let Some(sig) = libc_signaled(status) {
        if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
            Err(format!("ended by signal {}", sig))
        } else {
            let f = Failure {
                case: 0,
                sig: format!("crash:{}", sig),
                msg: format!("the process was ended by signal {}", sig),
                choices,
                notes: vec![],
            };
            Ok((Some(f), 0))
        }
    } else {
        Err(format!("status {:x}", status))
    };
    unsafe {
        libc::munmap(out as *mut libc::c_void, len);
    }
    res
}

/// Make the choices of a failing case fewer and smaller while it keeps failing
/// with a signature which is not a known finding.
pub fn shrink(run: fn(&mut Src) -> Res, f: &Failure, known: &HashSet<String>) -> Failure {
    let deadline = Instant::now() + Duration::from_secs(45);
    let mut best = f.clone();
    let try_it = |c: &[u64]| -> Option<Failure> {
        match replay(run, c) {
            // The same failure, not just any: another might be one which only extreme choices cause.
            Ok(Some(g)) => if known.contains(&g.sig) || g.sig != f.sig { None } else { Some(g) },
            _ => None,
        }
    };
    // The choices given must fail again, otherwise the case is reported as found.
    match try_it(&best.choices) {
        Some(g) => best = Failure { case: f.case, ..g },
        None => return best,
    }
    let strip = |c: &mut Vec<u64>| while c.last() == Some(&0) { c.pop(); };
    let mut changed = true;
    while changed && Instant::now() < deadline {
        changed = false;
        // Delete blocks.
        let mut size = (best.choices.len() / 2).max(1);
        while size >= 1 && Instant::now() < deadline {
            let mut i = 0;
            while i < best.choices.len() && Instant::now() < deadline {
                let mut c = best.choices.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                strip(&mut c);
                if c.len() < best.choices.len() {
                    if let Some(g) = try_it(&c) {
                        if g.choices.len() <= best.choices.len() {
                            best = Failure { case: f.case, choices: c, ..g };
                            changed = true;
                            continue;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // Make single choices smaller.
        let mut i = 0;
        while i < best.choices.len() && Instant::now() < deadline {
            let v = best.choices[i];
            for w in &[0, 1, v / 2, v.saturating_sub(1)] {
                if *w < best.choices[i] {
                    let mut c = best.choices.clone();
                    c[i] = *w;
                    strip(&mut c);
                    if let Some(g) = try_it(&c) {
                        best = Failure { case: f.case, choices: c, ..g };
                        changed = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}

impl fmt::Debug for Src {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Src({:?})", self.choices)
    }
}
