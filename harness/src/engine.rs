//! Choice-sequence property-testing engine: generators draw bounded integers from a `Src`; every
//! draw is recorded, so any failing case can be replayed exactly and shrunk by editing the list of
//! draws (0 always means "simplest").  Nothing in here depends on wall-clock time or thread order.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Fail { pub sig: String, pub msg: String }
impl Fail { pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self { Fail { sig: sig.into(), msg: msg.into() } } }
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail { ($sig:expr, $($a:tt)*) => { return Err($crate::engine::Fail::new($sig, format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail::new($sig, format!($($a)*))) } } }
#[macro_export]
macro_rules! ensure_eq { ($a:expr, $b:expr, $sig:expr, $($m:tt)*) => { { let (a, b) = (&$a, &$b); if a != b { return Err($crate::engine::Fail::new($sig, format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b))) } } } }

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(v)).wrapping_mul(0x100000001b3);
    }
    mix(h ^ b.len() as u64)
}

/// Source of choices.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    trace: Option<std::fs::File>,
    pub index: u64,
}
const MAX_DRAWS: usize = 400_000;
impl Src {
    pub fn random(seed: u64) -> Self { Src { state: seed, replay: None, pos: 0, rec: Vec::new(), trace: None, index: 0 } }
    pub fn replay(choices: Vec<u64>) -> Self { Src { state: 0, replay: Some(choices), pos: 0, rec: Vec::new(), trace: None, index: 0 } }
    /// A number in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(self.rec.len() < 3_000_000, "generator draws too many choices");
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => if self.rec.len() >= MAX_DRAWS { 0 } else { self.state = self.state.wrapping_add(0x9E3779B97F4A7C15); mix(self.state) }
        };
        self.pos += 1;
        let v = if n == u64::MAX { v } else { v % n };
        self.rec.push(v);
        if let Some(t) = &mut self.trace { let _ = t.write_all(&v.to_le_bytes()); }
        v
    }
    /// Goes through 0..n with the case number, so that every value gets its turn.
    pub fn cycle(&mut self, n: u64) -> u64 {
        let v = match &self.replay { Some(r) => r.get(self.pos).copied().unwrap_or(0) % n.max(1), None => self.index % n.max(1) };
        self.pos += 1;
        self.rec.push(v);
        if let Some(t) = &mut self.trace { let _ = t.write_all(&v.to_le_bytes()); }
        v
    }
    pub fn u64(&mut self) -> u64 { self.below(u64::MAX) }
    pub fn u32(&mut self) -> u32 { self.below(1 << 32) as u32 }
    pub fn u16(&mut self) -> u16 { self.below(1 << 16) as u16 }
    pub fn u8(&mut self) -> u8 { self.below(256) as u8 }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// true with probability num/den; the simplest choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T { let i = self.below(of.len() as u64) as usize; &of[i] }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut v = self.below(t);
        for (i, x) in w.iter().enumerate() { if v < *x { return i } v -= x; }
        w.len() - 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        while out.len() < n { out.extend_from_slice(&self.u64().to_le_bytes()); }
        out.truncate(n);
        out
    }
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) { let j = i + self.below((n - i) as u64) as usize; v.swap(i, j); }
        v
    }
    /// 32-bit pattern with interesting values over-represented
    pub fn u32_edge(&mut self) -> u32 {
        match self.below(8) {
            0 => self.below(4) as u32,
            1 => *self.pick(&[0u32, 1, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF, 0xFFFF, 0x1_0000, 0xFF, 0x100, 0x8000, 0x7F, 0x80]),
            2 => 1u32 << self.below(32),
            3 => self.below(256) as u32,
            4 => self.below(65536) as u32,
            _ => self.u32()
        }
    }
    /// bits of an f32 which is never a signalling NaN; NaN only when `nan`
    pub fn f32_bits(&mut self, nan: bool) -> u32 {
        let v: f32 = match self.below(10) {
            0 => f32::from_bits(*self.pick(&[0u32, 0x8000_0000, 0x3F80_0000, 0xBF80_0000, 0x3F00_0000, 0x4000_0000])),
            1 => f32::from_bits(*self.pick(&[0x7F80_0000u32, 0xFF80_0000, 0x0000_0001, 0x8000_0001, 0x007F_FFFF, 0x0080_0000, 0x7F7F_FFFF, 0xFF7F_FFFF])),
            2 | 3 => (self.below(2001) as i64 - 1000) as f32,
            4 | 5 => ((self.below(200_001) as i64 - 100_000) as f32 / 1000.0),
            6 => return if nan { 0x7FC0_0000 | (self.u32() & 0x8000_0000) } else { 0 },
            7 => f32::from_bits((self.u32() & 0x8FFF_FFFF) | 0x3000_0000),
            _ => f32::from_bits(self.u32())
        };
        let v = v.to_bits();
        if f32::from_bits(v).is_nan() { if nan { 0x7FC0_0000 } else { v & 0x807F_FFFF | 0x3F80_0000 } } else { v }
    }
    pub fn f32(&mut self) -> f32 { f32::from_bits(self.f32_bits(false)) }
    pub fn ascii_ident(&mut self, lo: usize, hi: usize) -> String {
        let n = self.usize(lo, hi);
        (0..n).map(|_| *self.pick(b"abcdefghijklmnopqrstuvwxyz0123456789_") as char).collect()
    }
}

#[derive(Default)]
pub struct Ctx {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub sub: String,
    pub quiet: bool,
    pub case_index: u64,
    scratch: Option<PathBuf>,
    scratch_n: u64,
}
impl Ctx {
    /// Count one executed comparison/run beyond the case itself.
    pub fn label(&mut self, l: &str) { self.label_n(l, 1) }
    pub fn label_n(&mut self, l: &str, n: u64) {
        if self.quiet { return }
        let key = format!("{}/{}", self.sub, l);
        *self.labels.entry(key).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self, h: u64) { if !self.quiet { let s = hash_bytes(self.sub.as_bytes()); self.nontrivial.insert(mix(h ^ s)); } }
    pub fn nontrivial_b(&mut self, b: &[u8]) { self.nontrivial(hash_bytes(b)) }
    pub fn nontrivial_s(&mut self, b: &str) { self.nontrivial(hash_bytes(b.as_bytes())) }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.quiet { return }
        let mine = format!("[{}] ", self.sub);
        if self.samples.iter().filter(|s| s.starts_with(&mine)).count() < 2 { let mut s = f(); if s.len() > 600 { let mut i = 600; while !s.is_char_boundary(i) { i -= 1 } s.truncate(i); s += "…"; } self.samples.push(mine + &s); }
    }
    /// A fresh, empty directory inside this worker's own scratch directory.
    pub fn fresh_dir(&mut self) -> PathBuf {
        let base = self.scratch.get_or_insert_with(|| {
            let p = scratch_base().join(format!("w{}", std::process::id()));
            std::fs::create_dir_all(&p).expect("scratch");
            p
        }).clone();
        self.scratch_n += 1;
        let d = base.join(format!("{}", self.scratch_n));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        d
    }
    pub fn drop_dir(&mut self, d: &Path) { let _ = std::fs::remove_dir_all(d); }
    pub fn cleanup(&mut self) { if let Some(s) = self.scratch.take() { let _ = std::fs::remove_dir_all(s); } }
}
fn scratch_base() -> PathBuf { match std::env::var_os("RHCHECK_RUNDIR") { Some(d) => PathBuf::from(d), None => std::env::temp_dir().join(format!("rhcheck-{}", std::process::id())) } }

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;
pub struct Sub { pub name: &'static str, pub quick: u64, pub thorough: u64, pub run: CaseFn }
pub struct Check {
    pub id: &'static str,
    pub subs: &'static [Sub],
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Termination within a fixed amount of CPU time is part of the property
    pub terminates: bool,
}

// ---------------------------------------------------------------- panics and allocation guard
static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() { *g = Some((msg, loc)); }
    }));
}
fn take_panic() -> Option<(String, String)> { LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take() }
fn squash_digits(s: &str) -> String {
    let mut o = String::new();
    let mut last = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() { if !last { o.push('#') } last = true } else { last = false; o.push(if c == '\n' { ' ' } else { c }) }
    }
    o
}
fn panic_fail(what: &str) -> Fail {
    let (m, l) = take_panic().unwrap_or_default();
    let file = l.rsplit("/src/").next().unwrap_or("").split(':').next().unwrap_or("").to_string();
    Fail::new(format!("panic{}: {}: {}", what, file, squash_digits(&m)), format!("panicked at {l}: {m}"))
}
/// Run `f`; a panic becomes a `Fail`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    take_panic();
    match catch_unwind(AssertUnwindSafe(f)) { Ok(v) => Ok(v), Err(_) => Err(panic_fail("")) }
}

pub struct Guard;
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
#[inline]
fn more(n: usize) { let v = LIVE.fetch_add(n, Ordering::Relaxed).wrapping_add(n); if v > PEAK.load(Ordering::Relaxed) { PEAK.store(v, Ordering::Relaxed) } }
#[inline]
fn less(n: usize) { LIVE.fetch_sub(n, Ordering::Relaxed); }
/// The most memory that `f` held at one time, beyond what was held before.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) { let before = LIVE.load(Ordering::Relaxed); PEAK.store(before, Ordering::Relaxed); let v = f(); (v, PEAK.load(Ordering::Relaxed).saturating_sub(before)) }
unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size()); more(l.size()); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size()); more(l.size()); std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { note(n); more(n); less(l.size()); std::alloc::System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { less(l.size()); std::alloc::System.dealloc(p, l) }
}
#[inline]
fn note(n: usize) { if n > (1 << 20) { BIGGEST.fetch_max(n, Ordering::Relaxed); } }
/// Run `f` and fail if it made any single allocation larger than `limit` bytes (limit >= 1 MiB).
pub fn alloc_bounded<T>(limit: usize, f: impl FnOnce() -> T) -> Result<T, Fail> {
    BIGGEST.store(0, Ordering::Relaxed);
    let v = f();
    let b = BIGGEST.load(Ordering::Relaxed);
    if b > limit { return Err(Fail::new("oversized allocation", format!("a single allocation of {b} bytes was requested (limit for this input: {limit})"))) }
    Ok(v)
}

// ---------------------------------------------------------------- running one case
fn run_case(sub: &Sub, src: &mut Src, ctx: &mut Ctx) -> R {
    take_panic();
    match catch_unwind(AssertUnwindSafe(|| (sub.run)(src, ctx))) {
        Ok(r) => r,
        Err(_) => Err(panic_fail(""))
    }
}
fn case_seed(seed: u64, id: &str, sub: &str, idx: u64) -> u64 {
    mix(mix(seed ^ 0x5EED) ^ hash_bytes(format!("{id}/{sub}").as_bytes()) ^ mix(idx.wrapping_mul(0xD1B54A32D192ED03)))
}

fn shrink(sub: &Sub, choices: Vec<u64>, sig: &str, budget: usize) -> (Vec<u64>, Fail, usize) {
    let mut ctx = Ctx { quiet: true, ..Default::default() };
    let start = std::time::Instant::now();
    let mut runs = 0usize;
    let mut best = choices;
    let mut best_fail = Fail::new(sig, "");
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bf: &mut Fail, runs: &mut usize| -> bool {
        if *runs >= budget || start.elapsed().as_secs() > 60 { return false }
        *runs += 1;
        let mut s = Src::replay(cand.clone());
        match run_case(sub, &mut s, &mut ctx) {
            Err(f) if f.sig == sig => {
                // normalise to what was really drawn, dropping trailing zeros
                let mut used = s.rec;
                while used.last() == Some(&0) { used.pop(); }
                let mut cand = cand; while cand.last() == Some(&0) { cand.pop(); }
                let new = if used.len() <= cand.len() { used } else { cand };
                *bf = f;
                if (new.len(), &new) < (best.len(), best) { *best = new; true } else { false }
            }
            _ => false
        }
    };
    let b0 = best.clone();
    attempt(b0, &mut best, &mut best_fail, &mut runs);
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && runs < budget {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !attempt(c, &mut best, &mut best_fail, &mut runs) { i += size; }
            }
            if size == 1 { break }
            size /= 2;
        }
        // zero blocks, then minimise values
        let mut size = (best.len() / 4).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && runs < budget {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] { *x = 0 }
                    attempt(c, &mut best, &mut best_fail, &mut runs);
                }
                i += size;
            }
            if size == 1 { break }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && runs < budget {
            let v = best[i];
            if v > 1 {
                let mut lo = 0u64; let mut hi = v;
                while lo + 1 < hi && runs < budget {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() { break }
                    c[i] = mid;
                    if attempt(c, &mut best, &mut best_fail, &mut runs) { hi = mid } else { lo = mid }
                }
                if i < best.len() && best[i] > 0 { let mut c = best.clone(); c[i] -= 1; attempt(c, &mut best, &mut best_fail, &mut runs); }
            }
            i += 1;
        }
        if best == before || runs >= budget { break }
    }
    (best, best_fail, runs)
}

// ---------------------------------------------------------------- known findings
pub struct Known { pub sig: String, pub what: String }
pub fn known_findings(id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            // known: property=<id> sig=<<signature>> <what fails>
            if let Some((pid, rest)) = rest.split_once(" sig=<<") {
                if pid == id { if let Some((sig, what)) = rest.split_once(">> ") { v.push(Known { sig: sig.to_string(), what: what.to_string() }) } }
            }
        }
    }
    v
}
pub fn verif_dir() -> PathBuf { std::env::var_os("RHCHECK_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif")) }

// ---------------------------------------------------------------- worker
static CASE_START_CPU_MS: AtomicU64 = AtomicU64::new(0);
static CUR_SUB: AtomicU64 = AtomicU64::new(0);
static CUR_IDX: AtomicU64 = AtomicU64::new(u64::MAX);
fn cpu_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts); }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
fn start_watchdog(out: PathBuf) {
    let limit = case_cpu_limit();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(300));
        if CUR_IDX.load(Ordering::Relaxed) != u64::MAX && cpu_ms().saturating_sub(CASE_START_CPU_MS.load(Ordering::Relaxed)) > limit {
            let _ = std::fs::write(out.with_extension("hang"), format!("{} {}", CUR_SUB.load(Ordering::Relaxed), CUR_IDX.load(Ordering::Relaxed)));
            unsafe { libc::_exit(77) }
        }
    });
}
fn case_cpu_limit() -> u64 { std::env::var("RHCHECK_CASE_CPU_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000) }
pub fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim); let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &c); }
}

fn cases_for(sub: &Sub, tier: &str) -> u64 {
    let n = if tier == "thorough" { sub.thorough } else { sub.quick };
    match std::env::var("RHCHECK_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) { Some(f) => ((n as f64 * f) as u64).max(1), None => n }
}

pub fn worker(check: &'static Check, tier: &str, seed: u64, k: u64, n: u64, skip: &HashSet<(u64, u64)>, out: &Path) {
    limit_memory();
    install_hook();
    start_watchdog(out.to_owned());
    let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(out.with_extension("cur")).unwrap();
    let mut ctx = Ctx::default();
    let known = known_findings(check.id);
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut failures: Vec<Value> = Vec::new();
    let mut max_ms = 0u64; let mut max_case = String::new();
    let mut per_sub: BTreeMap<String, u64> = BTreeMap::new();
    for (si, sub) in check.subs.iter().enumerate() {
        if let Ok(only) = std::env::var("RHCHECK_SUB") { if only != sub.name { continue } }
        ctx.sub = sub.name.to_string();
        let total = cases_for(sub, tier);
        let mut idx = k;
        let mut sub_failures = 0;
        while idx < total {
            if skip.contains(&(si as u64, idx)) { idx += n; continue }
            use std::os::unix::fs::FileExt;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(si as u64).to_le_bytes()); b[8..].copy_from_slice(&idx.to_le_bytes());
            let _ = progress.write_all_at(&b, 0);
            let start = cpu_ms();
            CASE_START_CPU_MS.store(start, Ordering::Relaxed);
            CUR_SUB.store(si as u64, Ordering::Relaxed);
            CUR_IDX.store(idx, Ordering::Relaxed);
            ctx.case_index = idx;
            ctx.evaluations += 1;
            *per_sub.entry(sub.name.to_string()).or_insert(0) += 1;
            let mut src = Src::random(case_seed(seed, check.id, sub.name, idx));
            src.index = idx;
            let r = run_case(sub, &mut src, &mut ctx);
            CUR_IDX.store(u64::MAX, Ordering::Relaxed);
            let t = cpu_ms() - start;
            if t > max_ms { max_ms = t; max_case = format!("{}#{}", sub.name, idx); }
            if let Err(f) = r {
                if known.iter().any(|k| k.sig == f.sig) { *known_hit.entry(f.sig).or_insert(0) += 1; }
                else {
                    let (choices, mut sf, runs) = shrink(sub, src.rec, &f.sig, 3000);
                    if sf.msg.is_empty() { sf.msg = f.msg.clone(); }
                    failures.push(json!({"sub": sub.name, "index": idx, "sig": f.sig, "message": sf.msg, "original_message": f.msg, "choices": choices, "shrink_runs": runs}));
                    sub_failures += 1;
                    if sub_failures >= 2 { break }
                }
            }
            idx += n;
        }
    }
    ctx.cleanup();
    let res = json!({"evaluations": ctx.evaluations, "nontrivial": ctx.nontrivial.iter().map(|h| *h).collect::<Vec<u64>>(), "labels": ctx.labels, "samples": ctx.samples,
        "failures": failures, "known": known_hit, "max_case_cpu_ms": max_ms, "max_case": max_case, "per_sub": per_sub});
    let tmp = out.with_extension("tmp");
    std::fs::write(&tmp, serde_json::to_vec(&res).unwrap()).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

/// Run one case by index or one list of choices in this process.  Exit code 0/3.
pub fn single(check: &'static Check, sub: &str, seed: u64, idx: Option<u64>, choices: Option<Vec<u64>>, trace: Option<PathBuf>, verbose: bool) -> i32 {
    limit_memory();
    install_hook();
    if let Some(t) = &trace { start_watchdog(t.clone()); }
    let sub = match check.subs.iter().find(|s| s.name == sub) { Some(s) => s, None => { eprintln!("no sub-check {sub}"); return 2 } };
    let mut src = match choices { Some(c) => Src::replay(c), None => { let mut s = Src::random(case_seed(seed, check.id, sub.name, idx.unwrap())); s.index = idx.unwrap(); s } };
    if let Some(t) = trace { src.trace = std::fs::File::create(t).ok(); }
    let mut ctx = Ctx { sub: sub.name.to_string(), ..Default::default() };
    CASE_START_CPU_MS.store(cpu_ms(), Ordering::Relaxed);
    CUR_IDX.store(idx.unwrap_or(0), Ordering::Relaxed);
    let r = run_case(sub, &mut src, &mut ctx);
    CUR_IDX.store(u64::MAX, Ordering::Relaxed);
    ctx.cleanup();
    if verbose { for s in &ctx.samples { println!("case: {s}"); } for (l, n) in &ctx.labels { println!("label: {l} {n}"); } }
    match r { Ok(()) => 0, Err(f) => { println!("FAILS [{}] {}", f.sig, f.msg); 3 } }
}

// ---------------------------------------------------------------- supervisor
struct Violation { sub: String, sig: String, message: String, choices: Vec<u64>, extra: Value }

fn exe() -> PathBuf { std::env::current_exe().unwrap() }

fn regress_files(id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(verif_dir().join("regress").join(id)).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect()).unwrap_or_default();
    v.sort();
    v
}

pub fn supervise(check: &'static Check, tier: &str, seed: u64) -> i32 {
    let start = std::time::Instant::now();
    let rundir = std::env::temp_dir().join(format!("rhcheck-{}-{}", check.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&rundir);
    std::fs::create_dir_all(&rundir).unwrap();
    let code = supervise_in(check, tier, seed, &rundir, start);
    let _ = std::fs::remove_dir_all(&rundir);
    code
}

fn spawn_single(check: &Check, rundir: &Path, args: &[String]) -> std::process::ExitStatus {
    std::process::Command::new(exe()).arg("single").arg(check.id).args(args)
        .env("RHCHECK_RUNDIR", rundir).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap()
}
fn death_name(st: &std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(libc::SIGSEGV) => Some("SIGSEGV".into()), Some(libc::SIGABRT) => Some("SIGABRT".into()), Some(libc::SIGBUS) => Some("SIGBUS".into()),
        Some(libc::SIGFPE) => Some("SIGFPE".into()), Some(libc::SIGILL) => Some("SIGILL".into()), Some(libc::SIGTRAP) => Some("SIGTRAP".into()), _ => None
    }
}

fn supervise_in(check: &'static Check, tier: &str, seed: u64, rundir: &Path, start: std::time::Instant) -> i32 {
    let workers: u64 = std::env::var("RHCHECK_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let wall_limit = if tier == "thorough" { 6 * 3600 } else { 780 };
    let known = known_findings(check.id);
    let mut violations: Vec<Violation> = Vec::new();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors: Vec<String> = Vec::new();
    let mut regress_run = 0u64;

    // 1. regression corpus (shrunk failures of the past), each in its own process
    for f in regress_files(check.id) {
        let v: Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) { Some(v) => v, None => { errors.push(format!("unreadable {}", f.display())); continue } };
        let sub = v["sub"].as_str().unwrap_or("").to_string();
        if !check.subs.iter().any(|s| s.name == sub) { continue }
        regress_run += 1;
        let out = std::process::Command::new(exe()).arg("single").arg(check.id).arg("--file").arg(&f).env("RHCHECK_RUNDIR", rundir).stderr(std::process::Stdio::null()).output().unwrap();
        let choices: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
        if out.status.code() == Some(0) { continue }
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let line = text.lines().find(|l| l.starts_with("FAILS [")).unwrap_or("").to_string();
        let (sig, msg) = match line.strip_prefix("FAILS [").and_then(|l| l.split_once("] ")) { Some((s, m)) => (s.to_string(), m.to_string()), None => match death_name(&out.status) {
            Some(d) => (format!("crash {d} in {sub}"), format!("the process died with {d}")), None => { errors.push(format!("regression {} ended with {:?}", f.display(), out.status)); continue } } };
        if known.iter().any(|k| k.sig == sig) { *known_hit.entry(sig).or_insert(0) += 1; continue }
        violations.push(Violation { sub, sig, message: msg, choices, extra: json!({"regression": f.display().to_string()}) });
    }

    // 2. generated cases
    let mut merged: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_sub: BTreeMap<String, u64> = BTreeMap::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut evaluations = regress_run;
    let mut max_ms = 0u64; let mut max_case = String::new();

    struct W { k: u64, child: std::process::Child, out: PathBuf, skip: Vec<(u64, u64)>, restarts: u32 }
    let launch = |k: u64, skip: &[(u64, u64)], out: &Path| {
        let sk = skip.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(",");
        std::process::Command::new(exe()).arg("worker").arg(check.id).arg(tier).arg(seed.to_string()).arg(k.to_string()).arg(workers.to_string()).arg(out).arg(sk)
            .env("RHCHECK_RUNDIR", rundir).stdout(std::process::Stdio::null()).stderr(std::fs::File::create(rundir.join(format!("stderr{k}"))).unwrap()).spawn().unwrap()
    };
    let mut ws: Vec<W> = (0..workers).map(|k| { let out = rundir.join(format!("out{k}.json")); W { k, child: launch(k, &[], &out), out, skip: vec![], restarts: 0 } }).collect();
    let mut active: Vec<bool> = vec![true; ws.len()];
    while active.iter().any(|a| *a) {
        std::thread::sleep(std::time::Duration::from_millis(20));
        if start.elapsed().as_secs() > wall_limit {
            for (i, w) in ws.iter_mut().enumerate() { if active[i] { let _ = w.child.kill(); let _ = w.child.wait(); active[i] = false; errors.push(format!("worker {} stopped at the wall-clock limit", w.k)); } }
            break
        }
        for i in 0..ws.len() {
            if !active[i] { continue }
            let st = match ws[i].child.try_wait().unwrap() { Some(s) => s, None => continue };
            let w = &mut ws[i];
            if st.code() == Some(0) && w.out.exists() { active[i] = false; continue }
            // died: find the case it was in
            let cur = std::fs::read(w.out.with_extension("cur")).ok().filter(|b| b.len() == 16).map(|b| (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap())));
            let Some((si, idx)) = cur else { errors.push(format!("worker {} died before its first case: {:?}: {}", w.k, st, std::fs::read_to_string(rundir.join(format!("stderr{}", w.k))).unwrap_or_default())); active[i] = false; continue };
            let sub = check.subs[si as usize].name.to_string();
            let hang = st.code() == Some(77);
            let death = death_name(&st);
            if !hang && death.is_none() { errors.push(format!("worker {} ended with {:?} in {}#{}", w.k, st, sub, idx)); active[i] = false; continue }
            // confirm alone
            let trace = rundir.join(format!("trace{}", w.k));
            let st2 = spawn_single(check, rundir, &["--sub".into(), sub.clone(), "--seed".into(), seed.to_string(), "--index".into(), idx.to_string(), "--trace".into(), trace.display().to_string()]);
            let confirmed = if hang { st2.code() == Some(77) } else { death_name(&st2).is_some() };
            let mut choices: Vec<u64> = std::fs::read(&trace).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            if confirmed && hang {
                if check.terminates {
                    violations.push(Violation { sub: sub.clone(), sig: format!("does not terminate in {sub}"), message: format!("case used more than {} ms of CPU time, twice", case_cpu_limit()), choices, extra: json!({"index": idx}) });
                } else { errors.push(format!("{}#{} exceeded the CPU limit", sub, idx)); }
                active[i] = false;
                continue
            } else if confirmed {
                let d = death_name(&st2).unwrap();
                let sig = format!("crash {d} in {sub}");
                if known.iter().any(|k| k.sig == sig) { *known_hit.entry(sig).or_insert(0) += 1; }
                else {
                    choices = shrink_crash(check, rundir, &sub, choices, &d);
                    let err = std::fs::read_to_string(rundir.join(format!("stderr{}", w.k))).unwrap_or_default();
                    violations.push(Violation { sub: sub.clone(), sig, message: format!("the process died with {d}: {}", err.lines().take(4).collect::<Vec<_>>().join(" / ")), choices, extra: json!({"index": idx}) });
                    active[i] = false;
                    continue
                }
            } else { errors.push(format!("{}#{} ended a worker with {:?} but not when run alone ({:?})", sub, idx, st, st2)); active[i] = false; continue }
            w.skip.push((si, idx));
            w.restarts += 1;
            if w.restarts > 50 { errors.push(format!("worker {} restarted too often", w.k)); active[i] = false; continue }
            w.child = launch(w.k, &w.skip, &w.out);
        }
    }
    for w in &ws {
        let Some(v) = std::fs::read(&w.out).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) else { continue };
        evaluations += v["evaluations"].as_u64().unwrap_or(0);
        for h in v["nontrivial"].as_array().unwrap() { nontrivial.insert(h.as_u64().unwrap()); }
        for (k, n) in v["labels"].as_object().unwrap() { *merged.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
        for (k, n) in v["per_sub"].as_object().unwrap() { *per_sub.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
        for (k, n) in v["known"].as_object().unwrap() { *known_hit.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
        if w.k == 0 { for s in v["samples"].as_array().unwrap() { samples.push(s.as_str().unwrap().to_string()); } }
        if let Some(m) = v["max_case_cpu_ms"].as_u64() { if m > max_ms { max_ms = m; max_case = v["max_case"].as_str().unwrap_or("").to_string(); } }
        for f in v["failures"].as_array().unwrap() {
            violations.push(Violation { sub: f["sub"].as_str().unwrap().into(), sig: f["sig"].as_str().unwrap().into(), message: f["message"].as_str().unwrap().into(),
                choices: f["choices"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect(), extra: json!({"index": f["index"], "shrink_runs": f["shrink_runs"], "original_message": f["original_message"]}) });
        }
    }
    for k in &known { if known_hit.contains_key(&k.sig) { println!("KNOWN-FINDING: property={} {}", check.id, k.what); } }

    // one violation per (sub, signature): the shortest
    let mut by_sig: BTreeMap<(String, String), Violation> = BTreeMap::new();
    for v in violations {
        let key = (v.sub.clone(), v.sig.clone());
        match by_sig.get(&key) { Some(o) if (o.choices.len(), &o.choices) <= (v.choices.len(), &v.choices) => (), _ => { by_sig.insert(key, v); } }
    }
    let n_viol = by_sig.len();
    for v in by_sig.values() {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{:08x}.json", check.id, v.sub, hash_bytes(v.sig.as_bytes()) as u32));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": check.id, "sub": v.sub, "sig": v.sig, "message": v.message, "choices": v.choices, "seed": seed, "extra": v.extra})).unwrap());
        println!("{}: [{}] {}", v.sub, v.sig, v.message.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", check.id, path.display());
    }
    for e in &errors { println!("ERROR {e}"); }

    let wall = start.elapsed().as_secs_f64();
    let ev = json!({
        "property": check.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": nontrivial.len(), "rule": check.rule, "samples": samples,
            "cases_per_sub_check": per_sub, "class_counts": merged, "regression_cases": regress_run, "max_case_cpu_ms": max_ms, "max_case": max_case,
            "known_finding_hits": known_hit, "errors": errors
        },
        "assumptions": check.assumptions, "wall_s": (wall * 100.0).round() / 100.0, "violations": n_viol
    });
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let _ = std::fs::write(evd.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap());
    println!("{} {}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s, slowest case {} ms ({})", check.id, tier, evaluations, nontrivial.len(), n_viol, wall, max_ms, max_case);
    if n_viol > 0 { 1 } else if !errors.is_empty() { 2 } else { 0 }
}

fn shrink_crash(check: &Check, rundir: &Path, sub: &str, choices: Vec<u64>, death: &str) -> Vec<u64> {
    let file = rundir.join("crash.json");
    let dies = |c: &[u64]| {
        let _ = std::fs::write(&file, serde_json::to_vec(&json!({"sub": sub, "choices": c})).unwrap());
        death_name(&spawn_single(check, rundir, &["--file".into(), file.display().to_string()])).as_deref() == Some(death)
    };
    let start = std::time::Instant::now();
    let mut best = choices;
    if !dies(&best) { return best }
    let mut size = (best.len() / 2).max(1);
    let mut runs = 0;
    while size >= 1 && runs < 200 && start.elapsed().as_secs() < 40 {
        let mut i = 0;
        while i < best.len() && runs < 200 && start.elapsed().as_secs() < 40 {
            let mut c = best.clone();
            let e = (i + size).min(c.len());
            c.drain(i..e);
            runs += 1;
            if dies(&c) { best = c } else { i += size }
        }
        if size == 1 { break }
        size /= 2;
    }
    best
}
