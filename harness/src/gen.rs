//! Choice-sequence generation. Every random decision of a case is one number drawn through `Gen`;
//! the list of drawn numbers (the tape) *is* the case. Replaying a tape replays the case, and
//! shrinking a case is shrinking its tape (a number beyond the end of the tape reads as 0, a number
//! above its bound is clamped), so dependent and stateful inputs shrink as one value.

use std::collections::BTreeMap;
use std::fs::File;
use std::os::unix::fs::FileExt;

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

/// How a case failed. `sig` is an exact signature used to match known findings.
#[derive(Clone, Debug)]
pub struct Failure {
    pub msg: String,
    pub sig: String,
}

pub type PResult = Result<(), Failure>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { msg: msg.into(), sig: String::new() })
}

pub fn fail_sig<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { msg: msg.into(), sig: sig.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::gen::fail(format!($($arg)*)); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) {
            return $crate::gen::fail(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

/// One in 50 * (HUGE_RATE + 1) point counts is in the thousands.
const HUGE_RATE: u64 = 59;

pub struct Gen {
    input: Vec<u64>,
    rng: Option<Rng>,
    pub tape: Vec<u64>,
    pub logging: bool,
    pub eager: bool,
    pub log: Vec<String>,
    pub nontrivial: bool,
    pub classes: BTreeMap<&'static str, u64>,
    spill: Option<File>,
    /// bytes per point of the widest layout drawn so far
    pub point_size: usize,
    /// more than a few thousand points were drawn
    pub huge: bool,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Gen { input: vec![], rng: Some(Rng::new(seed)), tape: Vec::with_capacity(64), logging: false, eager: false, log: vec![], nontrivial: false, classes: BTreeMap::new(), spill: None, point_size: 0, huge: false }
    }
    pub fn replay(tape: &[u64]) -> Self {
        Gen { input: tape.to_vec(), rng: None, tape: Vec::with_capacity(tape.len()), logging: false, eager: false, log: vec![], nontrivial: false, classes: BTreeMap::new(), spill: None, point_size: 0, huge: false }
    }
    /// Writes every drawn number to `file` at once, so that the tape survives a crash of the process.
    pub fn spill_to(mut self, file: File) -> Self {
        self.spill = Some(file);
        self
    }

    /// Uniform in 0..=max
    pub fn draw(&mut self, max: u64) -> u64 {
        let pos = self.tape.len();
        let v = if pos < self.input.len() {
            self.input[pos].min(max)
        } else if let Some(r) = &mut self.rng {
            if max == u64::MAX { r.next() } else { ((r.next() as u128 * (max as u128 + 1)) >> 64) as u64 }
        } else {
            0
        };
        self.tape.push(v);
        if let Some(f) = &self.spill {
            let _ = f.write_all_at(&v.to_le_bytes(), (pos * 8) as u64);
        }
        v
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        // zig-zag around the value nearest to zero so that shrinking moves towards zero
        let base = 0i64.clamp(lo, hi);
        let up = (hi - base) as u64;
        let down = (base - lo) as u64;
        let v = self.draw(up + down);
        let common = up.min(down);
        if v <= 2 * common {
            if v % 2 == 0 { base + (v / 2) as i64 } else { base - ((v + 1) / 2) as i64 }
        } else {
            let rest = (v - common) as i64;
            if up > down { base + rest } else { base - rest }
        }
    }
    /// Skewed towards small values, in 0..=hi
    pub fn small(&mut self, hi: usize) -> usize {
        let cap = match self.draw(9) {
            0..=3 => 3,
            4..=7 => 9,
            _ => usize::MAX,
        };
        self.range(0, hi.min(cap))
    }
    /// A number of points: mostly `small(hi)`, now and then around a power of two or some hundreds,
    /// where chunked, bit-packed or size-dependent code changes its path; rarely thousands (as far as the
    /// points drawn so far are small, so that a case stays within a few megabytes).
    pub fn len(&mut self, hi: usize) -> usize {
        if self.chance(1, 50) {
            if self.draw(HUGE_RATE) == HUGE_RATE {
                let n = *self.choose(&[2048usize, 4096, 5000, 8192, 10_000, 16_384, 32_768, 50_000, 65_536, 100_000]);
                let n = (n - 1 + self.range(0, 2)).min((2 << 20) / self.point_size.max(8));
                if n >= 2000 && !self.huge {
                    self.huge = true;
                    self.class("thousands of points");
                    return n;
                }
            }
            let base = *self.choose(&[16usize, 32, 64, 100, 128, 256, 512, 600, 1000, 1024]);
            base - 1 + self.range(0, 2)
        } else {
            self.small(hi)
        }
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn choose<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        let i = self.range(0, xs.len() - 1);
        &xs[i]
    }
    /// `n` payload bytes: zero, a ramp, or pseudo-random expansions of one drawn number.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let s = self.draw(u32::MAX as u64);
        expand_bytes(s, n)
    }
    pub fn mark(&mut self) {
        self.nontrivial = true;
    }
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.eager {
            eprintln!("{}", f());
        } else if self.logging {
            let mut t = f();
            if t.len() > 20_000 {
                let mut cut = 20_000;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                t.truncate(cut);
                t.push_str(" ...");
            }
            self.log.push(t);
        }
    }
}

pub fn expand_bytes(s: u64, n: usize) -> Vec<u8> {
    if s == 0 {
        return vec![0; n];
    }
    if s < 200 {
        return (0..n).map(|i| (s as u8).wrapping_add(i as u8)).collect();
    }
    let mut r = Rng::new(s);
    let mut out = Vec::with_capacity(n + 8);
    while out.len() < n {
        out.extend_from_slice(&r.next().to_le_bytes());
    }
    out.truncate(n);
    out
}
