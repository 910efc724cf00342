//! The generator engine: every random decision of a case is drawn from a `Src`, which records
//! it on a tape. A case is a pure function of its tape, so a failing tape is a replay file, and
//! deleting or lowering entries of the tape shrinks the case whatever its type.

use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(23));
    r.next();
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
    }
    h
}

/// Numbers and words that occur in the sources under test, as for a fuzzer's dictionary: the
/// generators use them now and then, whatever they are.
#[derive(Default)]
pub struct Dict {
    /// ascending
    pub nums: Vec<u128>,
    pub words: Vec<String>,
}

static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();

impl Dict {
    /// "n=1,2,3 w=abc,def" (words are made of letters, digits and underscores).
    pub fn parse(s: &str) -> Dict {
        let mut d = Dict::default();
        for part in s.split_whitespace() {
            if let Some(x) = part.strip_prefix("n=") { d.nums = x.split(',').filter_map(|n| n.parse().ok()).collect(); }
            if let Some(x) = part.strip_prefix("w=") { d.words = x.split(',').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect(); }
        }
        d.nums.sort();
        d.nums.dedup();
        d
    }
    pub fn set(self) { let _ = DICT.set(self); }
    pub fn get() -> &'static Dict { DICT.get_or_init(Dict::default) }
}

enum Mode {
    Rng(Rng),
    Tape(Vec<u64>, usize),
    Bytes(Vec<u8>, usize),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    log: Option<File>,
    limit: usize,
}

impl Src {
    pub fn from_seed(seed: u64) -> Src {
        Src { mode: Mode::Rng(Rng(seed)), rec: Vec::new(), log: None, limit: 200_000 }
    }
    pub fn from_tape(tape: Vec<u64>) -> Src {
        Src { mode: Mode::Tape(tape, 0), rec: Vec::new(), log: None, limit: 200_000 }
    }
    pub fn from_bytes(b: Vec<u8>) -> Src {
        Src { mode: Mode::Bytes(b, 0), rec: Vec::new(), log: None, limit: 200_000 }
    }
    pub fn log_to(&mut self, f: File) {
        self.log = Some(f);
    }

    fn draw(&mut self, n: u64) -> u64 {
        // n == 0 stands for 2^64
        let v = if self.rec.len() >= self.limit {
            0
        } else {
            match &mut self.mode {
                Mode::Rng(r) => {
                    let x = r.next();
                    if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 }
                }
                Mode::Tape(t, pos) => {
                    let x = t.get(*pos).copied().unwrap_or(0);
                    *pos += 1;
                    if n == 0 { x } else if x < n { x } else { x % n }
                }
                Mode::Bytes(b, pos) => {
                    let need = if n == 0 { 8 } else { (((64 - (n - 1).leading_zeros()) + 7) / 8) as usize };
                    let mut x = 0u64;
                    for i in 0..need {
                        x |= (b.get(*pos + i).copied().unwrap_or(0) as u64) << (8 * i);
                    }
                    *pos += need;
                    if n == 0 { x } else { x % n }
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
        v
    }

    /// Uniform in 0..n. Zero is by convention the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        self.draw(n)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn raw(&mut self) -> u64 {
        self.draw(0)
    }
    /// True with probability num/den; false is the simple outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// A number of the dictionary that is at most `max`, or one next to it.
    pub fn dict(&mut self, max: u128) -> Option<u128> {
        let d = &Dict::get().nums;
        let n = d.partition_point(|x| *x <= max);
        if n == 0 { return None; }
        let v = d[self.idx(n)];
        Some(match self.below(5) {
            2 => v.saturating_add(1).min(max),
            3 => v.saturating_sub(1),
            4 => v.saturating_add(2).min(max),
            _ => v,
        })
    }
    /// The same with the probability num/den.
    pub fn maybe_dict(&mut self, num: u64, den: u64, max: u128) -> Option<u128> {
        if self.chance(num, den) { self.dict(max) } else { None }
    }
    pub fn dict_word(&mut self) -> Option<&'static str> {
        let d = &Dict::get().words;
        if d.is_empty() { None } else { Some(&d[self.idx(d.len())]) }
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w { return i; }
            x -= *w;
        }
        unreachable!()
    }
}

#[derive(Debug, Clone)]
pub struct Fail(pub String);

impl Fail {
    pub fn new(s: impl Into<String>) -> Fail { Fail(s.into()) }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail(format!($($t)*))) };
}

#[macro_export]
macro_rules! must {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail(format!($($t)*))); } };
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discarded: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: BTreeMap<u64, String>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.discarded += o.discarded;
        for (k, v) in o.labels { *self.labels.entry(k).or_insert(0) += v; }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        while self.samples.len() > 5 {
            let k = *self.samples.keys().next_back().unwrap();
            self.samples.remove(&k);
        }
    }
}

/// What a case sees.
pub struct Case<'a> {
    pub src: &'a mut Src,
    pub stats: &'a mut Stats,
    pub idx: u64,
    pub tier: Tier,
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Tier { Quick, Thorough }

impl<'a> Case<'a> {
    pub fn label(&mut self, l: &'static str) {
        *self.stats.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_n(&mut self, l: &'static str, n: u64) {
        *self.stats.labels.entry(l).or_insert(0) += n;
    }
    /// The case is non-trivial; `h` identifies it.
    pub fn nontrivial(&mut self, h: u64) {
        self.stats.distinct.insert(h);
    }
    /// Keep a written-out sample (only the first few cases keep theirs).
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let full = self.stats.samples.len() >= 3;
        if full && self.stats.samples.keys().next_back().map_or(false, |k| *k < self.idx) { return; }
        let mut s = f();
        if s.len() > 700 {
            let mut k = 700;
            while !s.is_char_boundary(k) { k -= 1; }
            s.truncate(k);
            s.push_str("…");
        }
        self.stats.samples.insert(self.idx, s);
        while self.stats.samples.len() > 3 {
            let k = *self.stats.samples.keys().next_back().unwrap();
            self.stats.samples.remove(&k);
        }
    }
    pub fn discard(&mut self) {
        self.stats.discarded += 1;
    }
}

pub type CheckFn = fn(&mut Case) -> Res;

pub struct Check {
    pub id: &'static str,
    pub f: CheckFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

thread_local! {
    static PANIC_INFO: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Pass,
    Fail(String),
    /// The harness itself panicked: never reported as a violation.
    HarnessError(String),
}

/// Panics located in the harness's own sources are the harness's fault.
pub fn is_harness_location(loc: &str) -> bool {
    // src/g<number>.rs of a generated program is what the library's macros generate
    let generated = loc.strip_prefix("src/g").map_or(false, |r| r.starts_with(|c: char| c.is_ascii_digit()));
    (loc.starts_with("src/") && !generated) || loc.contains("/verif/harness/")
}

pub fn run_case(f: CheckFn, src: &mut Src, stats: &mut Stats, idx: u64, tier: Tier) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut case = Case { src, stats, idx, tier };
        case.stats.evaluations += 1;
        f(&mut case)
    }));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Fail(m))) => Outcome::Fail(m),
        Err(_) => {
            let (msg, loc) = PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_location(&loc) {
                Outcome::HarnessError(format!("{} at {}", msg, loc))
            } else {
                Outcome::Fail(format!("panic: {} at {}", msg, loc))
            }
        }
    }
}

/// Catch a panic of the code under test inside a case and turn it into a message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (msg, loc) = PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("panic: {} at {}", msg, loc)
    })
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ 0x6273_7600, hash_bytes(id.as_bytes())), idx)
}

pub struct RunResult {
    pub stats: Stats,
    pub failure: Option<(u64, String, Vec<u64>)>,
    pub harness_error: Option<String>,
}

pub const STACK: usize = 1 << 30;

pub fn run_parallel(check: &Check, seed: u64, cases: u64, tier: Tier, slots: Option<File>) -> RunResult {
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let merged = Mutex::new(Stats::default());
    let fails: Mutex<BTreeMap<u64, (String, Vec<u64>)>> = Mutex::new(BTreeMap::new());
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let threads: u64 = std::env::var("BSV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let chunk = (cases / (threads * 16)).clamp(1, 64);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, merged, fails, herr, slots) = (&next, &stop, &merged, &fails, &herr, &slots);
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                let mut stats = Stats::default();
                'outer: loop {
                    let base = next.fetch_add(chunk, SeqCst);
                    if base >= cases { break; }
                    for idx in base..(base + chunk).min(cases) {
                        if idx > stop.load(SeqCst) { break 'outer; }
                        if let Some(f) = slots { let _ = f.write_all_at(&(idx + 1).to_le_bytes(), t * 8); }
                        let mut src = Src::from_seed(case_seed(seed, check.id, idx));
                        match run_case(check.f, &mut src, &mut stats, idx, tier) {
                            Outcome::Pass => {}
                            Outcome::Fail(m) => {
                                stop.fetch_min(idx, SeqCst);
                                fails.lock().unwrap().insert(idx, (m, src.rec));
                                break 'outer;
                            }
                            Outcome::HarnessError(m) => {
                                *herr.lock().unwrap() = Some(format!("case {}: {}", idx, m));
                                stop.store(0, SeqCst);
                                break 'outer;
                            }
                        }
                    }
                }
                if let Some(f) = slots { let _ = f.write_all_at(&0u64.to_le_bytes(), t * 8); }
                merged.lock().unwrap().merge(stats);
            }).unwrap();
        }
    });
    let failure = fails.into_inner().unwrap().into_iter().next().map(|(i, (m, t))| (i, m, t));
    RunResult { stats: merged.into_inner().unwrap(), failure, harness_error: herr.into_inner().unwrap() }
}

/// Shrinks a failing tape: `test` says whether a candidate still fails, and with what message.
pub fn shrink(
    mut tape: Vec<u64>,
    mut msg: String,
    budget: usize,
    mut test: impl FnMut(&[u64]) -> Option<(String, Vec<u64>)>,
) -> (Vec<u64>, String) {
    let start = std::time::Instant::now();
    let mut left = budget;
    let mut try_ = |cand: Vec<u64>, tape: &mut Vec<u64>, msg: &mut String, left: &mut usize| -> bool {
        if *left == 0 || start.elapsed().as_secs() > 90 { *left = 0; return false; }
        *left -= 1;
        if let Some((m, rec)) = test(&cand) {
            // keep whichever is shorter: the candidate or what was really drawn
            let mut best = if rec.len() <= cand.len() { rec } else { cand };
            while best.last() == Some(&0) { best.pop(); }
            if (best.len(), &best) < (tape.len(), &*tape) {
                *tape = best;
                *msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = tape.clone();
        // delete blocks
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < tape.len() {
                let mut c = tape.clone();
                c.drain(i..(i + size).min(c.len()));
                if !try_(c, &mut tape, &mut msg, &mut left) { i += size; }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // zero blocks
        let mut size = 16.min(tape.len().max(1));
        while size >= 1 {
            let mut i = 0;
            while i + size <= tape.len() {
                if tape[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = tape.clone();
                    for x in &mut c[i..i + size] { *x = 0; }
                    try_(c, &mut tape, &mut msg, &mut left);
                }
                i += size;
            }
            size /= 2;
        }
        // lower single entries
        let mut i = 0;
        while i < tape.len() {
            let mut lo = 0;
            while i < tape.len() && lo < tape[i] && left > 0 {
                let mid = lo + (tape[i] - lo) / 2;
                let mut c = tape.clone();
                c[i] = mid;
                if !try_(c, &mut tape, &mut msg, &mut left) { lo = mid + 1; }
            }
            i += 1;
        }
        if tape == before || left == 0 { break; }
    }
    (tape, msg)
}
