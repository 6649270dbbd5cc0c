//! A small property-based testing engine.
//!
//! A case is a pure function of a *choice sequence*: generators draw bounded
//! integers from `Src`, which records them. In generation mode the choices
//! come from a PRNG seeded with (VERIF_SEED, property, sub-check, case index);
//! in replay and shrink mode they come from a recorded list (missing choices
//! read as 0, the simplest value). Shrinking edits the list (deletes, zeroes
//! and lowers choices) and keeps an edit when the case still fails.
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Prng(u64);
impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- choices

pub struct Src {
    choices: Vec<u64>,
    pos: usize,
    rng: Option<Prng>,
    tap: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { choices: vec![], pos: 0, rng: Some(Prng::new(seed)), tap: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { choices, pos: 0, rng: None, tap: None }
    }
    /// Write every choice to a file as it is drawn (survives an abort).
    pub fn tap(&mut self, path: &std::path::Path) {
        self.tap = std::fs::File::create(path).ok();
    }
    /// A value in `0..bound` (`bound` = 0: any u64). 0 is the simplest.
    pub fn below(&mut self, bound: u64) -> u64 {
        let raw = match &mut self.rng {
            Some(r) => r.next(),
            None => self.choices.get(self.pos).copied().unwrap_or(0),
        };
        let v = if bound == 0 {
            raw
        } else if self.rng.is_some() {
            raw % bound
        } else {
            raw.min(bound - 1)
        };
        if self.pos < self.choices.len() {
            self.choices[self.pos] = v;
        } else {
            self.choices.push(v);
        }
        self.pos += 1;
        if let Some(f) = &mut self.tap {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn idx(&mut self, len: usize) -> usize {
        self.below(len.max(1) as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability `num/den`; false is the simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    /// Bytes that are drawn as one choice: shape and seed.
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![0; len],
            1 => vec![0xff; len],
            2 => (0..len).map(|i| i as u8).collect(),
            _ => {
                let s = self.below(1 << 32);
                Prng::new(s).fill(len)
            }
        }
    }
    /// A random permutation of 0..n
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.idx(n - i);
            v.swap(i, j);
        }
        v
    }
    pub fn used(&self) -> Vec<u64> {
        self.choices[..self.pos.min(self.choices.len())].to_vec()
    }
}

// ---------------------------------------------------------------- case context

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub msg: String,
    /// signature of a known finding, when the failure is exactly that finding
    pub sig: Option<String>,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, sig: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.to_string(), sig: None }
    }
}
pub type R = Result<(), Fail>;

#[derive(Default)]
pub struct Ctx {
    pub text: String,
    pub labels: BTreeSet<String>,
    pub nontrivial: bool,
    /// number of elementary oracle decisions taken in this case
    pub checks: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &str) {
        if !self.labels.contains(l) {
            self.labels.insert(l.to_string());
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn say(&mut self, s: impl AsRef<str>) {
        if self.text.len() < 6000 {
            if !self.text.is_empty() {
                self.text.push_str("; ");
            }
            self.text.push_str(s.as_ref());
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

#[macro_export]
macro_rules! ensure {
    ($ctx:expr, $c:expr, $($a:tt)*) => {{
        $ctx.checks += 1;
        if !($c) { return Err($crate::pbt::Fail::from(format!($($a)*))); }
    }};
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::pbt::Fail::from(format!($($a)*))) };
}

pub struct Sub {
    pub name: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> R,
}

// ---------------------------------------------------------------- panics, allocations

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{msg} at {loc}");
        }
        if std::env::var_os("PBT_TRACE").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Call `f`; a panic becomes an `Err` with its message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| Fail::from(format!("{what} panicked: {}", last_panic())))
}

/// Largest single allocation request tolerated (0 = unlimited), and the
/// largest one seen.
pub static ALLOC_LIMIT: AtomicUsize = AtomicUsize::new(0);
pub static ALLOC_MAX: AtomicUsize = AtomicUsize::new(0);
pub const ALLOC_EXIT: i32 = 77;

/// Bytes allocated and not freed since counting was switched on.
pub static LIVE_ON: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
#[inline]
fn live(d: isize) {
    if LIVE_ON.load(Ordering::Relaxed) {
        LIVE.fetch_add(d, Ordering::Relaxed);
    }
}

pub struct Meter;
#[inline]
fn meter(size: usize) {
    if size > ALLOC_MAX.load(Ordering::Relaxed) {
        ALLOC_MAX.store(size, Ordering::Relaxed);
    }
    let lim = ALLOC_LIMIT.load(Ordering::Relaxed);
    if lim != 0 && size > lim {
        unsafe { libc::_exit(ALLOC_EXIT) }
    }
}
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 65536 {
            meter(l.size());
        }
        live(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        live(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 65536 {
            meter(l.size());
        }
        live(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > 65536 {
            meter(n);
        }
        live(n as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, n)
    }
}
/// Run `f` with every single allocation bounded by `limit` bytes. Going over
/// ends the worker with a recognisable exit code: the case then fails.
pub fn with_alloc_limit<T>(limit: usize, f: impl FnOnce() -> T) -> T {
    struct G(usize);
    impl Drop for G {
        fn drop(&mut self) {
            ALLOC_LIMIT.store(self.0, Ordering::Relaxed);
        }
    }
    let _g = G(ALLOC_LIMIT.swap(limit, Ordering::Relaxed));
    f()
}

// ---------------------------------------------------------------- running a case

pub struct Outcome {
    pub fail: Option<Fail>,
    pub ctx: Ctx,
    pub choices: Vec<u64>,
}

pub fn run_case(sub: &Sub, mut src: Src) -> Outcome {
    let mut ctx = Ctx::default();
    let r = catch_unwind(AssertUnwindSafe(|| (sub.run)(&mut src, &mut ctx)));
    ALLOC_LIMIT.store(0, Ordering::Relaxed);
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => Some(Fail::from(format!("unexpected panic: {}", last_panic()))),
    };
    Outcome { fail, ctx, choices: src.used() }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut s = String::new();
    let _ = write!(s, "{seed}/{prop}/{sub}/{idx}");
    hash64(s.as_bytes())
}

/// Shrink a failing choice sequence. `fails` runs a candidate and returns the
/// (possibly shortened) choices if it still fails.
pub fn shrink(
    start: Vec<u64>,
    budget: Duration,
    max_evals: usize,
    mut fails: impl FnMut(Vec<u64>) -> Option<Vec<u64>>,
) -> (Vec<u64>, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut evals = 0;
    let mut improved = true;
    macro_rules! attempt {
        ($cand:expr) => {{
            if evals >= max_evals || t0.elapsed() > budget {
                return (best, evals);
            }
            evals += 1;
            match fails($cand) {
                Some(c) if (c.len(), &c) < (best.len(), &best) => {
                    best = c;
                    improved = true;
                    true
                }
                _ => false,
            }
        }};
    }
    while improved {
        improved = false;
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= size {
                i -= 1;
                if i + size > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                if attempt!(c) {
                    i = i.min(best.len());
                } else if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                if size > 1 {
                    i = i.saturating_sub(size - 1);
                }
            }
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
    }
    (best, evals)
}

// ---------------------------------------------------------------- worker results

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct SubStats {
    pub evaluations: u64,
    pub checks: u64,
    pub nontrivial: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<Failure>,
    pub max_alloc: usize,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub sub: String,
    pub idx: u64,
    pub msg: String,
    pub text: String,
    pub choices: Vec<u64>,
    pub shrink_evals: usize,
}
