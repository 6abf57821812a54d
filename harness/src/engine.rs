//! Choice-stream based property engine.
//!
//! Every generated value is a function of a list of recorded choices. Shrinking edits the list,
//! so the minimal reproduction of any property is a list of numbers plus the property's id, and
//! the same list always regenerates the same case.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// FNV-1a, used for seeds and fingerprints (stable across builds).
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

pub const MAX_CHOICES: usize = 400_000;

pub struct Src {
    replay: Option<Vec<u64>>,
    rng: u64,
    first: Option<u64>,
    pub log: Vec<u64>,
    pub tee: Option<std::fs::File>,
    /// the generators of values make one dimension large
    pub large: bool,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: None, rng: seed, first: None, log: Vec::new(), tee: None, large: false }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { replay: Some(choices), rng: 0, first: None, log: Vec::new(), tee: None, large: false }
    }
    /// Fix the first choice of a random source (systematic enumeration of one dimension).
    pub fn force_first(&mut self, v: u64) {
        self.first = Some(v);
    }
    fn push(&mut self, v: u64) {
        self.log.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    /// A number in 0..n. Smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        if self.log.len() >= MAX_CHOICES {
            return 0;
        }
        let v = match &self.replay {
            None => match self.first.take() {
                Some(v) => v.min(n - 1),
                None => {
                    let r = splitmix(&mut self.rng);
                    ((r as u128 * n as u128) >> 64) as u64
                }
            },
            Some(c) => c.get(self.log.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        if self.log.len() >= MAX_CHOICES {
            return 0;
        }
        let v = match &self.replay {
            None => splitmix(&mut self.rng),
            Some(c) => c.get(self.log.len()).copied().unwrap_or(0),
        };
        self.push(v);
        v
    }
    /// true with probability num/den; false is simpler.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // the high values mean true so that 0 shrinks to false
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.usize(items.len());
        &items[i]
    }
    /// Index chosen by weight. Put the simplest first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    /// A list length: geometric-ish, at most max, occasionally long.
    pub fn len(&mut self, typical: u64, max: u64) -> usize {
        let w = self.weighted(&[3, 10, 3, 1]);
        (match w {
            0 => self.below(2),
            1 => self.below(typical + 1),
            2 => self.below(2 * typical + 1),
            _ => self.below(max + 1),
        })
        .min(max) as usize
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 = leave in place
            let j = i - self.usize(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail(pub String);

pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail(format!($($t)*))) } };
}

pub struct Ctx {
    pub src: Src,
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub fingerprint: Option<u64>,
    pub desc: Vec<String>,
    pub want_desc: bool,
    pub evals: u64,
}

impl Ctx {
    pub fn new(src: Src, want_desc: bool) -> Self {
        Ctx { src, labels: vec![], nontrivial: false, fingerprint: None, desc: vec![], want_desc, evals: 1 }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            self.desc.push(s);
        }
    }
    /// Mark the case as non-trivial with the data that identifies it.
    pub fn interesting<T: Hash + ?Sized>(&mut self, t: &T) {
        self.nontrivial = true;
        self.fingerprint = Some(hash_of(t));
    }
}

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<(String, String, bool)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let in_lib = IN_LIB.with(|c| c.get() > 0);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc, in_lib)));
    }));
}

pub struct LibPanic(pub String);

/// Call library code: a panic inside is reported as Err.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    IN_LIB.with(|c| c.set(c.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(c.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc, _) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Fail(format!("library code panicked at {loc}: {msg}")))
        }
    }
}

pub enum Outcome {
    Pass,
    Fail(String),
    Harness(String),
}

pub type CaseFn = fn(&mut Ctx) -> R;

pub fn run_case(f: CaseFn, ctx: &mut Ctx) -> Outcome {
    IN_LIB.with(|c| c.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx)));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Fail(m))) => Outcome::Fail(m),
        Err(_) => {
            let (msg, loc, in_lib) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if in_lib || loc.starts_with("/repo/") {
                Outcome::Fail(format!("library code panicked at {loc}: {msg}"))
            } else {
                Outcome::Harness(format!("{loc}: {msg}"))
            }
        }
    }
}

/// Shrink a failing choice list. `test` returns the normalised log when the case still fails.
pub fn shrink(
    start: Vec<u64>,
    budget: usize,
    test: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let t0 = std::time::Instant::now();
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || t0.elapsed().as_secs() > 45 {
            *left = 0;
            return false;
        }
        *left -= 1;
        if let Some(log) = test(cand) {
            let smaller = (log.len(), &log) < (best.len(), &*best);
            if smaller {
                *best = log;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(&c, &mut best, &mut left) {
                    i += size;
                }
                if left == 0 {
                    return best;
                }
            }
            size /= 2;
        }
        // zero chunks
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    attempt(&c, &mut best, &mut left);
                    if left == 0 {
                        return best;
                    }
                }
                i += size;
            }
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut tries = 0;
            while i < best.len() && best[i] > lo && tries < 40 {
                tries += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&c, &mut best, &mut left) {
                    lo = mid + 1;
                }
                if left == 0 {
                    return best;
                }
            }
            // delete the value together with decrementing the previous one (lengths)
            if i + 1 < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt(&c, &mut best, &mut left);
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub fingerprints: Vec<u64>,
    pub samples: Vec<String>,
}
