//! Runs facets of properties over generated cases, in parallel, and shrinks
//! failures.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use crate::src::{hash_bytes, mix, Src};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => { if !($c) { return Err(format!($($fmt)*)); } }
}

/// Per-case recorder.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<&'static str, u64>,
    /// Hash of the current case, if it is non-trivial.
    nontrivial: Option<u64>,
    /// Extra evaluations performed within this case.
    extra: u64,
    desc: Option<String>,
    pub want_desc: bool,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) { *self.labels.entry(l).or_insert(0) += 1; }
    /// Marks the case as non-trivial, identified by `key`.
    pub fn nontrivial(&mut self, key: &[u8]) {
        let h = hash_bytes(key);
        self.nontrivial = Some(match self.nontrivial { Some(o) => mix(o, h), None => h });
    }
    pub fn key(&self) -> Option<u64> { self.nontrivial }
    pub fn evals(&mut self, n: u64) { self.extra += n; }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc && self.desc.is_none() { self.desc = Some(f()); }
    }
}

pub struct Facet {
    pub name: &'static str,
    pub f: fn(&mut Src, &mut Cx) -> Res,
    /// Cases in the quick tier, per build.
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub facets: Vec<Facet>,
}

thread_local! {
    static CATCHING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "<non-string panic>".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("FLV_TRACE").is_some() {
            eprintln!("panic {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        if CATCHING.with(|c| c.get()) == 0 { eprintln!("harness panic: {} at {}", msg, loc); }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} ({})", msg, loc)));
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// CPU seconds after which a running case counts as hung (cases take well
/// under one), and the wall-clock limit for one that blocks.
const HANG_CPU_S: u64 = 25;
const HANG_WALL_S: u64 = 240;

mod cpu {
    // glibc; the harness has no dependencies
    #[repr(C)]
    pub struct Timespec { sec: i64, nsec: i64 }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, clock: *mut i32) -> i32;
        fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32;
    }
    /// A clock of the calling thread that any thread can read.
    pub fn clock() -> i32 {
        let mut c = 0;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut c); }
        c
    }
    /// Milliseconds; `None` once the thread is gone.
    pub fn read(clock: i32) -> Option<u64> {
        let mut t = Timespec { sec: 0, nsec: 0 };
        if unsafe { clock_gettime(clock, &mut t) } != 0 { return None; }
        Some(t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000)
    }
}

#[derive(Clone, Copy)]
struct Watched { id: u64, clock: i32, cpu0: u64, wall0: Instant }

static WATCH: Mutex<Vec<Option<Watched>>> = Mutex::new(Vec::new());
static WATCH_ID: AtomicU64 = AtomicU64::new(0);

/// Registers the calling thread as running a case until dropped.
struct Watch(u64);
impl Watch {
    fn start() -> Watch {
        let id = WATCH_ID.fetch_add(1, Ordering::Relaxed);
        let clock = cpu::clock();
        let w = Watched { id, clock, cpu0: cpu::read(clock).unwrap_or(0), wall0: Instant::now() };
        let mut v = WATCH.lock().unwrap();
        match v.iter().position(|x| x.is_none()) { Some(i) => v[i] = Some(w), None => v.push(Some(w)) }
        Watch(id)
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        for x in WATCH.lock().unwrap().iter_mut() {
            if x.map_or(false, |w| w.id == self.0) { *x = None; }
        }
    }
}

/// Ends the process with code 3 when a case does not finish.
pub fn start_monitor() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for w in WATCH.lock().unwrap().iter().flatten() {
            let hung = match cpu::read(w.clock) {
                Some(c) => c.saturating_sub(w.cpu0) > HANG_CPU_S * 1000,
                None => false,
            };
            if hung || w.wall0.elapsed().as_secs() > HANG_WALL_S {
                eprintln!("a case did not finish ({} s of CPU time)", HANG_CPU_S);
                std::process::exit(3);
            }
        }
    });
}

fn run_case(f: fn(&mut Src, &mut Cx) -> Res, src: &mut Src, cx: &mut Cx) -> Res {
    match catch(AssertUnwindSafe(|| { src.begin(); f(src, cx) })) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

/// Runs a case on this thread, watched.
pub fn watched_case(f: fn(&mut Src, &mut Cx) -> Res, src: &mut Src, cx: &mut Cx) -> Res {
    let _watch = Watch::start();
    run_case(f, src, cx)
}

pub struct Failure {
    pub facet: &'static str,
    pub index: u64,
    pub tape: Vec<u64>,
    pub message: String,
}

pub struct Report {
    pub facet: &'static str,
    pub evaluations: u64,
    pub distinct: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub wall: f64,
}

pub fn case_seed(seed: u64, prop: &str, facet: &str, index: u64) -> u64 {
    mix(mix(seed, hash_bytes(prop.as_bytes())), mix(hash_bytes(facet.as_bytes()), index))
}

pub fn run_facet(prop: &Prop, facet: &Facet, n: u64, seed: u64, threads: usize,
                 slots: Option<&std::fs::File>) -> Report {
    let start = Instant::now();
    let min_fail = AtomicU64::new(u64::MAX);
    let next = AtomicU64::new(0);
    let slow = std::env::var_os("FLV_SLOW").is_some();
    let fails: Mutex<Vec<(u64, Vec<u64>, String)>> = Mutex::new(Vec::new());
    struct Part {
        labels: BTreeMap<&'static str, u64>,
        distinct: HashSet<u64>,
        evals: u64,
        samples: Vec<(u64, String)>,
    }
    let parts: Mutex<Vec<Part>> = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for t in 0..threads {
            let min_fail = &min_fail;
            let next = &next;
            let fails = &fails;
            let parts = &parts;
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                let mut p = Part { labels: BTreeMap::new(), distinct: HashSet::new(), evals: 0, samples: Vec::new() };
                let mut i = next.fetch_add(1, Ordering::Relaxed);
                while i < n && i < min_fail.load(Ordering::Relaxed) {
                    if let Some(f) = slots {
                        let _ = f.write_all_at(&(i + 1).to_le_bytes(), 8 * t as u64);
                    }
                    let mut src = Src::random(case_seed(seed, prop.id, facet.name, i));
                    let mut cx = Cx { want_desc: p.samples.len() < 2, ..Cx::default() };
                    let t0 = Instant::now();
                    let watch = Watch::start();
                    let r = run_case(facet.f, &mut src, &mut cx);
                    drop(watch);
                    if slow && t0.elapsed().as_millis() > 400 { eprintln!("slow: {} {} case {} took {:?}, tape of {}", prop.id, facet.name, i, t0.elapsed(), src.used()); }
                    p.evals += 1 + cx.extra;
                    if let Some(h) = cx.nontrivial {
                        if p.distinct.insert(h) && p.samples.len() < 2 {
                            if let Some(d) = cx.desc.take() { p.samples.push((i, d)); }
                        }
                    }
                    for (k, v) in cx.labels { *p.labels.entry(k).or_insert(0) += v; }
                    if let Err(m) = r {
                        min_fail.fetch_min(i, Ordering::Relaxed);
                        fails.lock().unwrap().push((i, src.tape.clone(), m));
                        break;
                    }
                    i = next.fetch_add(1, Ordering::Relaxed);
                }
                if let Some(f) = slots {
                    let _ = f.write_all_at(&0u64.to_le_bytes(), 8 * t as u64);
                }
                parts.lock().unwrap().push(p);
            }).unwrap();
        }
    });
    let mut labels = BTreeMap::new();
    let mut distinct = HashSet::new();
    let mut evals = 0;
    let mut samples = Vec::new();
    for p in parts.into_inner().unwrap() {
        for (k, v) in p.labels { *labels.entry(k).or_insert(0) += v; }
        distinct.extend(p.distinct);
        evals += p.evals;
        samples.extend(p.samples);
    }
    samples.sort();
    samples.truncate(2);
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    let failure = fails.into_iter().next().map(|(index, tape, message)| {
        // if shrinking kills the process, the supervisor finds this case
        if let Some(f) = slots { let _ = f.write_all_at(&(index + 1).to_le_bytes(), 0); }
        let (tape, message) = shrink(facet.f, tape, message);
        if let Some(f) = slots { let _ = f.write_all_at(&0u64.to_le_bytes(), 0); }
        Failure { facet: facet.name, index, tape, message }
    });
    Report {
        facet: facet.name, evaluations: evals, distinct: distinct.len() as u64, labels,
        samples: samples.into_iter().map(|x| x.1).collect(),
        failure, wall: start.elapsed().as_secs_f64(),
    }
}

/// Runs one case, like the search does; watched, so a hang ends the process.
pub fn replay(f: fn(&mut Src, &mut Cx) -> Res, tape: &[u64]) -> (Res, Vec<u64>) {
    attempt(f, tape, None).expect("no time limit")
}

/// Runs one random case; watched.
pub fn one(f: fn(&mut Src, &mut Cx) -> Res, seed: u64) -> Res {
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let _watch = Watch::start();
        run_case(f, &mut Src::random(seed), &mut Cx::default())
    }).unwrap().join().unwrap()
}

/// `None`: not finished within `limit` (the thread is left behind).
fn attempt(f: fn(&mut Src, &mut Cx) -> Res, tape: &[u64], limit: Option<u64>) -> Option<(Res, Vec<u64>)> {
    let (tx, rx) = std::sync::mpsc::channel();
    let tape = tape.to_vec();
    // Same stack as the search.
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let watch = if limit.is_none() { Some(Watch::start()) } else { None };
        let mut src = Src::replay(tape.clone());
        let mut cx = Cx::default();
        let r = run_case(f, &mut src, &mut cx);
        drop(watch);
        let mut t = tape;
        t.truncate(src.used());
        let _ = tx.send((r, t));
    }).unwrap();
    match limit {
        None => rx.recv().ok(),
        Some(s) => rx.recv_timeout(std::time::Duration::from_secs(s)).ok(),
    }
}

pub fn shrink(f: fn(&mut Src, &mut Cx) -> Res, tape: Vec<u64>, message: String) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut best = tape;
    let mut msg = message;
    let mut runs = 0u32;
    let stuck = std::cell::Cell::new(false);
    let mut budget = || { runs += 1; runs < 6000 && start.elapsed().as_secs() < 25 && !stuck.get() };
    let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
        if stuck.get() { return false; }
        let (r, used) = match attempt(f, &cand, Some(10)) {
            Some(x) => x,
            None => { stuck.set(true); return false; }
        };
        match r {
            Err(m) => {
                let better = used.len() < best.len() || (used.len() == best.len() && used < *best);
                if better { *best = used; *msg = m; }
                better
            }
            Ok(()) => false,
        }
    };
    // normalise
    let b = best.clone();
    attempt(b, &mut best, &mut msg);
    loop {
        let before = best.clone();
        // delete chunks
        for k in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= k {
                if !budget() { return (best, msg); }
                i -= 1;
                let at = i + 1 - k;
                if at + k > best.len() { i = i.min(best.len()); continue; }
                let mut c = best.clone();
                c.drain(at..at + k);
                if attempt(c, &mut best, &mut msg) { i = i.min(best.len()); }
                else if k > 4 { i = i.saturating_sub(k / 2); }
            }
        }
        // zero chunks
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                if !budget() { return (best, msg); }
                if best[i..i + k].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + k] { *x = 0; }
                    attempt(c, &mut best, &mut msg);
                }
                i += k;
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            let mut lo = 0u64;
            let mut hi = v;
            if v > 0 {
                if !budget() { return (best, msg); }
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut msg) {
                    let mut steps = 0;
                    while lo + 1 < hi && steps < 12 && i < best.len() {
                        if !budget() { return (best, msg); }
                        steps += 1;
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(c, &mut best, &mut msg) { hi = mid; } else { lo = mid; }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(c, &mut best, &mut msg);
                    }
                }
            }
            i += 1;
        }
        if best == before { return (best, msg); }
    }
}
