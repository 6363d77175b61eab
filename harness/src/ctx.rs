//! Monitor plumbing: cases, verdicts, counters, PRNG, panic capture.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Miri,
    Quick,
    Thorough,
}

/// SplitMix64: platform independent, tiny.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
}

/// FNV-1a hasher (also used as a second hasher when checking `Hash`). Integers are hashed through their
/// little-endian bytes so that digests agree between platforms.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.write(&v.to_le_bytes())
    }
    fn write_usize(&mut self, v: usize) {
        self.write(&(v as u64).to_le_bytes())
    }
}
pub fn fnv<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}
pub fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = (h ^ (h >> 31)).wrapping_mul(0x7fb5_d329_728e_a185);
    h ^ (h >> 27)
}
pub fn key(tag: u64, cells: &[u8]) -> u64 {
    let mut h = mix(tag, cells.len() as u64);
    for ch in cells.chunks(8) {
        let mut v = 0u64;
        for (i, c) in ch.iter().enumerate() {
            v |= (*c as u64) << (8 * i);
        }
        h = mix(h, v);
    }
    h
}

#[derive(Default)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
type KeySet = HashSet<u64, BuildHasherDefault<IdH>>;

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // may be gone already when a thread ends
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = Some(format!("panicked: {} ({})", msg, loc)));
    }));
}
pub fn take_panic() -> String {
    PANIC_MSG.try_with(|m| m.borrow_mut().take()).ok().flatten().unwrap_or_else(|| "panicked".into())
}
/// Runs `f`; `Err(message)` if it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

pub struct Violation {
    pub task: String,
    pub case: String,
    pub what: String,
    pub index: u64,
}

pub struct Ctx {
    pub task: String,
    pub rng: Rng,
    pub tier: Tier,
    /// multiplies the random part of a workload
    pub scale: u64,
    pub evals: u64,
    pub nontrivial_evals: u64,
    pub events: BTreeMap<&'static str, u64>,
    distinct: KeySet,
    pub distinct_capped: bool,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub digest: u64,
    pub verbose: bool,
    pub trace: Option<Arc<Mutex<std::fs::File>>>,
    pub beat: Option<Arc<AtomicUsize>>,
    pub harness_error: Option<String>,
    pub cases: bool,
    next_sample: u64,
}

const DISTINCT_CAP: usize = 1_000_000;
const MAX_VIOL: usize = 4;
pub static STOP: AtomicBool = AtomicBool::new(false);

impl Ctx {
    pub fn new(task: &str, seed: u64, tier: Tier, scale: u64) -> Ctx {
        Ctx {
            task: task.to_string(),
            rng: Rng(mix(seed, fnv(&task.as_bytes()))),
            tier,
            scale,
            evals: 0,
            nontrivial_evals: 0,
            events: BTreeMap::new(),
            distinct: Default::default(),
            distinct_capped: false,
            samples: vec![],
            violations: vec![],
            digest: 0,
            verbose: false,
            trace: None,
            beat: None,
            harness_error: None,
            cases: std::env::var_os("MON_CASES").is_some(),
            next_sample: 3,
        }
    }
    pub fn distinct(&self) -> u64 {
        self.distinct.len() as u64
    }
    pub fn ev(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_insert(0) += n;
    }
    pub fn done(&self) -> bool {
        self.violations.len() >= MAX_VIOL
    }
    pub fn miri(&self) -> bool {
        self.tier == Tier::Miri
    }
    /// number of random iterations: quick n, thorough n*scale, miri n/div at least 1
    pub fn iters(&self, n: u64, miri: u64) -> u64 {
        if self.miri() {
            miri
        } else if cfg!(feature = "c27") {
            // many properties in one run
            (n * self.scale).div_ceil(6)
        } else {
            n * self.scale
        }
    }
    pub fn observe(&mut self, v: u64) {
        if self.cases {
            println!("OBS {} {v:016x}", self.evals);
        }
        self.digest = mix(self.digest, v);
    }
    pub fn violation(&mut self, case: String, what: String) {
        if self.violations.len() < MAX_VIOL {
            self.violations.push(Violation { task: self.task.clone(), case, what, index: self.evals });
        }
    }
    /// One monitored case: `body` drives the real code and returns Err with what contradicts the property.
    /// A panic inside `body` contradicts the property too (bodies guard the panics they expect).
    #[inline]
    pub fn run(
        &mut self,
        key: u64,
        nontrivial: bool,
        desc: impl Fn() -> String,
        body: impl FnOnce() -> Result<(), String>,
    ) {
        self.evals += 1;
        if let Some(b) = &self.beat {
            b.fetch_add(1, Ordering::Relaxed);
        }
        if self.cases {
            println!("CASE {} {} {}", self.evals, jstr(&self.task), jstr(&desc()));
        }
        if nontrivial {
            self.nontrivial_evals += 1;
            if self.distinct.len() < DISTINCT_CAP {
                self.distinct.insert(key);
            } else {
                self.distinct_capped = true;
            }
            if self.evals >= self.next_sample && self.samples.len() < 4 {
                self.samples.push(format!("{}: {}", self.task, desc()));
                self.next_sample = self.next_sample * 37 + 11;
            }
        }
        if let Some(t) = &self.trace {
            use std::io::{Seek, SeekFrom, Write};
            let mut f = t.lock().unwrap();
            let s = format!("{}\t{}\t{}\n\0", self.task, self.evals, desc());
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(s.as_bytes());
        }
        match catch_unwind(AssertUnwindSafe(body)) {
            Ok(Ok(())) => {}
            Ok(Err(w)) => self.violation(desc(), w),
            Err(_) => {
                let m = take_panic();
                self.violation(desc(), m)
            }
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type TaskFn = Box<dyn Fn(&mut Ctx) + Send + Sync>;
pub struct Task {
    pub name: String,
    pub f: TaskFn,
}
pub fn task(v: &mut Vec<Task>, name: impl Into<String>, f: impl Fn(&mut Ctx) + Send + Sync + 'static) {
    v.push(Task { name: name.into(), f: Box::new(f) });
}

pub fn stop() -> bool {
    STOP.load(Ordering::Relaxed)
}

#[macro_export]
macro_rules! ens {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
