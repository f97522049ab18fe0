//! Coverage-guided search: tapes which reach new code, or code a new number
//! of times, are kept and mutated.  Needs a build with inline 8-bit counters
//! (see check.py); one process searches one facet on one thread.

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};

use crate::engine::*;
use crate::src::{mix, Rng, Src};

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

/// Called by the instrumentation at startup.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    // the linker merges the sections of all units, so every call is the same
    START.store(start as usize, Ordering::Relaxed);
    STOP.store(stop as usize, Ordering::Relaxed);
}

fn counters() -> &'static mut [u8] {
    let (a, b) = (START.load(Ordering::Relaxed), STOP.load(Ordering::Relaxed));
    if a == 0 || a >= b { return &mut []; }
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}

fn bucket(n: u8) -> u8 {
    match n { 0 => 0, 1 => 1, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 }
}

pub struct Found { pub execs: u64, pub distinct: u64, pub corpus: usize, pub edges: usize, pub counters: usize,
                   pub labels: BTreeMap<&'static str, u64>, pub failure: Option<(Vec<u64>, String)> }

struct Kept { tape: Vec<u64>, picked: u32, fresh: u32 }

/// A mutant of a kept tape, and whether it goes on at random beyond its end.
fn mutate(r: &mut Rng, corpus: &[Kept], base: usize) -> (Vec<u64>, bool) {
    let mut t = corpus[base].tape.clone();
    let below = |r: &mut Rng, n: usize| (r.next() % n.max(1) as u64) as usize;
    let n = 1 + below(r, 4);
    let mut open = false;
    for _ in 0..n {
        let at = below(r, t.len());
        match below(r, 12) {
            0 | 1 | 2 if !t.is_empty() => t[at] = r.next(),
            3 if !t.is_empty() => t[at] = t[at].wrapping_add(1 + below(r, 4) as u64),
            4 if !t.is_empty() => t[at] = t[at].wrapping_sub(1 + below(r, 4) as u64),
            5 if !t.is_empty() => t[at] = 0,
            6 => { let v = r.next(); t.insert(at.min(t.len()), v); }
            7 if !t.is_empty() => { let k = 1 + below(r, 8); let e = (at + k).min(t.len()); t.drain(at..e); }
            8 if !t.is_empty() => {
                let k = 1 + below(r, 16);
                let e = (at + k).min(t.len());
                let c = t[at..e].to_vec();
                let to = below(r, t.len() + 1);
                t.splice(to..to, c);
            }
            9 => {
                // the rest of another
                let o = &corpus[below(r, corpus.len())].tape;
                if !o.is_empty() { let from = below(r, o.len()); t.truncate(at); t.extend_from_slice(&o[from..]); }
            }
            10 => {
                let o = &corpus[below(r, corpus.len())].tape;
                if !o.is_empty() {
                    let from = below(r, o.len());
                    let k = 1 + below(r, 24);
                    let c = o[from..(from + k).min(o.len())].to_vec();
                    let e = (at + c.len()).min(t.len());
                    t.splice(at.min(t.len())..e, c);
                }
            }
            _ => { t.truncate(at); open = true; }
        }
    }
    t.truncate(1 << 14);
    (t, open)
}

pub fn fuzz(prop: &Prop, facet: &Facet, execs: u64, seed: u64, current: Option<&std::fs::File>) -> Found {
    use std::os::unix::fs::FileExt;
    let cs = counters();
    let mut seen = vec![0u8; cs.len()];
    let mut corpus: Vec<Kept> = vec![];
    let mut r = Rng::new(case_seed(seed, prop.id, facet.name, u64::MAX));
    let mut out = Found { execs: 0, distinct: 0, corpus: 0, edges: 0, counters: cs.len(), labels: BTreeMap::new(), failure: None };
    let mut distinct = HashSet::new();
    while out.execs < execs {
        let n = out.execs;
        let (tape, open) = if corpus.is_empty() || n < 200 || r.next() % 16 == 0 { (vec![], true) } else {
            // prefer what is new, rarely tried, or found much
            let mut best = (r.next() % corpus.len() as u64) as usize;
            for _ in 0..2 {
                let o = (r.next() % corpus.len() as u64) as usize;
                let w = |k: &Kept| k.fresh as u64 * 16 / (1 + k.picked as u64);
                if w(&corpus[o]) > w(&corpus[best]) { best = o; }
            }
            corpus[best].picked += 1;
            mutate(&mut r, &corpus, best)
        };
        let s = mix(seed, n);
        let mut src = if open { Src::extend(tape, s) } else { Src::replay(tape) };
        if let Some(f) = current {
            // enough to run the case again should it end the process
            let mut b = vec![];
            b.extend_from_slice(&(src.tape.len() as u64).to_le_bytes());
            b.extend_from_slice(&(open as u64).to_le_bytes());
            b.extend_from_slice(&s.to_le_bytes());
            for x in &src.tape { b.extend_from_slice(&x.to_le_bytes()); }
            let _ = f.write_all_at(&b, 0);
        }
        let mut cx = Cx::default();
        for c in cs.iter_mut() { *c = 0; }
        let res = watched_case(facet.f, &mut src, &mut cx);
        out.execs += 1;
        if let Some(h) = cx.key() { distinct.insert(h); }
        for (k, v) in cx.labels { *out.labels.entry(k).or_insert(0) += v; }
        let used = src.used();
        let mut t = std::mem::take(&mut src.tape);
        t.truncate(used);
        if let Err(m) = res {
            out.failure = Some(shrink(facet.f, t, m));
            break;
        }
        let mut fresh = 0;
        let mut i = 0;
        while i < cs.len() {
            // most are zero
            if i + 8 <= cs.len() && cs[i..i + 8] == [0; 8] { i += 8; continue; }
            let b = bucket(cs[i]);
            if b & !seen[i] != 0 {
                if seen[i] == 0 { out.edges += 1; fresh += 4; } else { fresh += 1; }
                seen[i] |= b;
            }
            i += 1;
        }
        if fresh > 0 { corpus.push(Kept { tape: t, picked: 0, fresh }); }
    }
    out.corpus = corpus.len();
    out.distinct = distinct.len() as u64;
    out
}
