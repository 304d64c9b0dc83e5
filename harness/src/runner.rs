//! Runs the sections of a property: generation, counting, shrinking, replay, evidence.

use crate::gen::{mix, Failure, Gen, PResult};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type PropFn = fn(&mut Gen) -> PResult;

/// One generated check belonging to a property. `quick`/`thorough` are case counts.
pub struct Section {
    pub name: &'static str,
    pub run: PropFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub sections: Vec<Section>,
}

/// Distinct cases are counted up to this number per section, to bound the memory of long runs.
const MAX_DISTINCT: usize = 40_000_000;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Runs `f`, turning a panic into `Err(description)`.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case(f: PropFn, g: &mut Gen) -> PResult {
    match catching(|| f(g)) {
        Ok(r) => r,
        Err(p) => Err(Failure { msg: format!("unexpected {p}"), sig: String::new() }),
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, u64>,
    sample_idx: Vec<u64>,
    slowest: f64,
}

fn tape_hash(t: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in t {
        h = mix(h ^ *v);
    }
    h
}

fn case_seed(seed: u64, profile: &str, prop: &str, section: &str, idx: u64) -> u64 {
    let mut h = mix(seed ^ 0x5EED);
    for b in profile.bytes().chain(prop.bytes()).chain(section.bytes()) {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx)
}

pub struct RunOpts {
    pub seed: u64,
    pub tier: String,
    pub profile: String,
    pub threads: usize,
    pub slot_file: Option<String>,
    pub only_section: Option<String>,
    pub cases_override: Option<u64>,
    pub known: Vec<(String, String)>, // (sig, description)
    /// where an unshrunk failure is recorded before shrinking starts
    pub prelim: Option<String>,
    /// development: count failures by normalised message instead of stopping
    pub survey: bool,
}

pub struct Found {
    pub section: String,
    pub idx: u64,
    pub tape: Vec<u64>,
    pub original_len: usize,
    pub failure: Failure,
    pub log: Vec<String>,
    pub shrink_steps: u64,
}

pub struct Outcome {
    pub stats: Value,
    pub found: Option<Found>,
    pub known_hits: BTreeMap<String, u64>,
}

fn is_known(opts: &RunOpts, f: &Failure) -> bool {
    !f.sig.is_empty() && opts.known.iter().any(|(s, _)| *s == f.sig)
}

pub fn run_property(p: &Property, opts: &RunOpts) -> Outcome {
    let slots = opts.slot_file.as_ref().map(|f| File::options().read(true).write(true).create(true).open(f).expect("slot file"));
    let mut per_section = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut found = None;
    for (si, s) in p.sections.iter().enumerate() {
        if let Some(o) = &opts.only_section {
            if o != s.name {
                continue;
            }
        }
        let n = opts.cases_override.unwrap_or(if opts.tier == "thorough" { s.thorough } else { s.quick });
        let next = AtomicU64::new(0);
        let min_fail = AtomicU64::new(u64::MAX);
        let best: Mutex<Option<(u64, Vec<u64>, Failure)>> = Mutex::new(None);
        let total: Mutex<Stats> = Mutex::new(Stats::default());
        let t0 = std::time::Instant::now();
        std::thread::scope(|scope| {
            for t in 0..opts.threads {
                let (next, min_fail, best, total, slots) = (&next, &min_fail, &best, &total, &slots);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut st = Stats::default();
                        loop {
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= n || idx > min_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            if let Some(f) = slots {
                                let mut b = [0u8; 24];
                                b[0..8].copy_from_slice(&(si as u64).to_le_bytes());
                                b[8..16].copy_from_slice(&idx.to_le_bytes());
                                b[16] = 1;
                                let _ = f.write_all_at(&b, (t * 24) as u64);
                            }
                            let mut g = Gen::random(case_seed(opts.seed, &opts.profile, p.id, s.name, idx));
                            let t_case = std::time::Instant::now();
                            let r = run_case(s.run, &mut g);
                            st.slowest = st.slowest.max(t_case.elapsed().as_secs_f64());
                            st.evaluations += 1;
                            for (k, v) in &g.classes {
                                *st.classes.entry(k).or_insert(0) += v;
                            }
                            if g.nontrivial {
                                st.nontrivial += 1;
                                if st.distinct.len() < MAX_DISTINCT / opts.threads {
                                    st.distinct.insert(tape_hash(&g.tape));
                                }
                                if st.sample_idx.len() < 2 {
                                    st.sample_idx.push(idx);
                                }
                            }
                            if let Err(f) = r {
                                if opts.survey {
                                    let mut k: String = f.msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(90).collect();
                                    while k.contains("##") {
                                        k = k.replace("##", "#");
                                    }
                                    *st.classes.entry(Box::leak(format!("FAIL {k}").into_boxed_str())).or_insert(0) += 1;
                                    continue;
                                }
                                if is_known(opts, &f) {
                                    *st.known.entry(f.sig.clone()).or_insert(0) += 1;
                                    continue;
                                }
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |(i, _, _)| idx < *i) {
                                    *b = Some((idx, g.tape.clone(), f));
                                }
                                min_fail.fetch_min(idx, Ordering::Relaxed);
                            }
                        }
                        if let Some(f) = slots {
                            let _ = f.write_all_at(&[0u8; 24], (t * 24) as u64);
                        }
                        let mut tot = total.lock().unwrap();
                        tot.evaluations += st.evaluations;
                        tot.slowest = tot.slowest.max(st.slowest);
                        tot.nontrivial += st.nontrivial;
                        tot.distinct.extend(st.distinct);
                        for (k, v) in st.classes {
                            *tot.classes.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in st.known {
                            *tot.known.entry(k).or_insert(0) += v;
                        }
                        tot.sample_idx.extend(st.sample_idx);
                    })
                    .expect("spawn");
            }
        });
        let mut tot = total.into_inner().unwrap();
        for (k, v) in &tot.known {
            *known_hits.entry(k.clone()).or_insert(0) += v;
        }
        tot.sample_idx.sort_unstable();
        tot.sample_idx.truncate(2);
        let mut samples = vec![];
        for idx in &tot.sample_idx {
            let mut g = Gen::random(case_seed(opts.seed, &opts.profile, p.id, s.name, *idx));
            g.logging = true;
            let _ = run_case(s.run, &mut g);
            let mut text = g.log.join("; ");
            if text.len() > 1500 {
                let mut cut = 1500;
                while !text.is_char_boundary(cut) {
                    cut -= 1;
                }
                text.truncate(cut);
                text.push_str(" ...");
            }
            samples.push(json!({"section": s.name, "profile": opts.profile, "index": idx, "case": text}));
        }
        per_section.push(json!({
            "section": s.name, "profile": opts.profile, "evaluations": tot.evaluations, "nontrivial": tot.nontrivial,
            "distinct_nontrivial": tot.distinct.len(), "classes": tot.classes, "known_finding_cases": tot.known,
            "samples": samples, "wall_s": t0.elapsed().as_secs_f64(), "slowest_case_s": tot.slowest,
        }));
        let best_found = best.into_inner().unwrap();
        if let Some((idx, tape, failure)) = best_found {
            let original_len = tape.len();
            if let Some(pre) = &opts.prelim {
                let v = json!({"property": p.id, "profile": opts.profile, "section": s.name, "index": idx, "seed": opts.seed, "tape": tape,
                    "drawn_before_shrinking": original_len, "shrink_steps": 0, "message": failure.msg, "signature": failure.sig, "case": []});
                std::fs::write(format!("{pre}.tmp"), v.to_string()).and_then(|_| std::fs::rename(format!("{pre}.tmp"), pre)).expect("preliminary result");
            }
            let (tape, failure, steps) = shrink(s.run, tape, failure, opts);
            let mut g = Gen::replay(&tape);
            g.logging = true;
            let _ = run_case(s.run, &mut g);
            found = Some(Found { section: s.name.to_string(), idx, tape, original_len, failure, log: g.log, shrink_steps: steps });
            break;
        }
    }
    Outcome { stats: Value::Array(per_section), found, known_hits }
}

fn shrink(f: PropFn, tape: Vec<u64>, failure: Failure, opts: &RunOpts) -> (Vec<u64>, Failure, u64) {
    shrink_with(tape, failure, 4000, |t| {
        let mut g = Gen::replay(t);
        match run_case(f, &mut g) {
            Err(e) if !is_known(opts, &e) => Some((std::mem::take(&mut g.tape), e)),
            _ => None,
        }
    })
}

/// Shrinks a failing tape. `check` returns the normalised tape and failure if the candidate still fails.
pub fn shrink_with(mut best: Vec<u64>, mut failure: Failure, budget: u64, mut check: impl FnMut(&[u64]) -> Option<(Vec<u64>, Failure)>) -> (Vec<u64>, Failure, u64) {
    let mut steps = 0u64;
    // cases with very many points take long: shrinking is also limited in time
    let t0 = std::time::Instant::now();
    let over = move || t0.elapsed().as_secs() >= 90;
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut improved = true;
    while improved && steps < budget && !over() {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 && steps < budget && !over() {
                let lo = i.saturating_sub(size);
                let mut cand = best[..lo].to_vec();
                cand.extend_from_slice(&best[i.min(best.len())..]);
                steps += 1;
                if let Some((t, e)) = check(&cand) {
                    if smaller(&t, &best) {
                        best = t;
                        failure = e;
                        improved = true;
                        i = i.min(best.len());
                        continue;
                    }
                }
                i = lo;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // delete one number and decrement an earlier length-like number
        let mut i = 0;
        while i < best.len() && steps < budget && !over() {
            if best[i] > 0 {
                for del in 1..=4usize {
                    if i + 1 + del > best.len() || steps >= budget || over() {
                        break;
                    }
                    let mut cand = best.clone();
                    cand[i] -= 1;
                    cand.drain(i + 1..i + 1 + del);
                    steps += 1;
                    if let Some((t, e)) = check(&cand) {
                        if smaller(&t, &best) {
                            best = t;
                            failure = e;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        // minimise single numbers
        let mut i = 0;
        while i < best.len() && steps < budget && !over() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64; // smallest value not known to pass
                let mut hi = v; // known to fail
                let mut first = true;
                while lo < hi && steps < budget && !over() {
                    let mid = if first { 0 } else { lo + (hi - lo) / 2 };
                    first = false;
                    if i >= best.len() {
                        break;
                    }
                    let mut cand = best.clone();
                    cand[i] = mid;
                    steps += 1;
                    match check(&cand) {
                        Some((t, e)) if smaller(&t, &best) => {
                            best = t;
                            failure = e;
                            improved = true;
                            hi = mid;
                        }
                        _ => lo = mid + 1,
                    }
                }
            }
            i += 1;
        }
    }
    (best, failure, steps)
}

/// Runs one case by index with the tape spilled to a file (used to isolate crashes).
pub fn run_single(p: &Property, opts: &RunOpts, section: usize, idx: u64, spill: &str) -> PResult {
    let s = &p.sections[section];
    let f = File::create(spill).expect("spill file");
    let mut g = Gen::random(case_seed(opts.seed, &opts.profile, p.id, s.name, idx)).spill_to(f);
    run_case(s.run, &mut g)
}

pub fn run_tape(p: &Property, section: &str, tape: &[u64], spill: Option<&str>) -> (PResult, Vec<String>) {
    let s = p.sections.iter().find(|s| s.name == section).expect("section");
    let mut g = Gen::replay(tape);
    if let Some(sp) = spill {
        g = g.spill_to(File::create(sp).expect("spill file"));
    }
    g.logging = true;
    g.eager = spill.is_some();
    let r = run_case(s.run, &mut g);
    (r, g.log)
}
