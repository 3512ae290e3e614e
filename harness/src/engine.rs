//! Choice-tape property engine: every random decision of a case is one entry of a tape.
//! Generic shrinking and replay work on the tape alone.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// Source of choices. In random mode it records, in tape mode it replays (zeros past the end).
pub struct Src {
    rng: Option<Rng>,
    input: Vec<u64>,
    pos: usize,
    pub tape: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), input: vec![], pos: 0, tape: vec![] }
    }
    /// random, but the first choices are fixed
    pub fn random_with_prefix(seed: u64, prefix: &[u64]) -> Self {
        Src { rng: Some(Rng::new(seed)), input: prefix.to_vec(), pos: 0, tape: vec![] }
    }
    pub fn tape(t: &[u64]) -> Self {
        Src { rng: None, input: t.to_vec(), pos: 0, tape: vec![] }
    }
    /// uniform in 0..n (n >= 1); 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = if self.pos < self.input.len() {
            let x = self.input[self.pos];
            if x < n { x } else { x % n }
        } else if let Some(r) = &mut self.rng {
            let x = r.next();
            if n.is_power_of_two() { x >> 1 & (n - 1) } else { ((x as u128 * n as u128) >> 64) as u64 }
        } else {
            0
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn word(&mut self) -> u64 {
        let lo = self.below(1 << 32);
        let hi = self.below(1 << 32);
        hi << 32 | lo
    }
    /// index by weight; shrinks to index 0
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    pub fn bits(&mut self, n: usize) -> Vec<bool> {
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            let k = (n - out.len()).min(32);
            let v = self.below(1u64 << k);
            for i in 0..k {
                out.push(v >> i & 1 == 1);
            }
        }
        out
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// exact signature of a failure that may be listed as a known finding
    pub sig: Option<&'static str>,
}
pub type R<T = ()> = Result<T, Fail>;
pub fn fail<T>(msg: impl Into<String>) -> R<T> {
    Err(Fail { msg: msg.into(), sig: None })
}
/// a fallible call that must succeed on this (valid) case
pub fn ok<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> R<T> {
    r.map_err(|e| Fail { msg: format!("{what}: unexpected error: {e}"), sig: None })
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { return $crate::engine::fail(format!($($a)*)); } };
}

pub struct Cx {
    pub verbose: bool,
    pub thorough: bool,
    pub log: Vec<String>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// number of individual oracle comparisons made
    pub comparisons: u64,
    pub known: Vec<Fail>,
}
impl Cx {
    pub fn new(verbose: bool, thorough: bool) -> Self {
        Cx { verbose, thorough, log: vec![], labels: vec![], nontrivial: false, comparisons: 0, known: vec![] }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.log.push(f());
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn has(&self, l: &str) -> bool {
        self.labels.iter().any(|x| *x == l)
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Cx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// tape prefixes that are always run (then continued randomly), before the random cases
    pub fixed: fn(bool) -> Vec<Vec<u64>>,
}
pub fn no_fixed(_: bool) -> Vec<Vec<u64>> {
    vec![]
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {m}"));
    }));
}
/// run code that must not panic; a panic becomes Err(description)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn run_case(p: &Prop, src: &mut Src, cx: &mut Cx) -> R {
    let r = match guarded(|| (p.run)(src, cx)) {
        Ok(r) => r,
        Err(m) => fail(m),
    };
    crate::model::cleanup();
    r
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD1342543DE82EF95).rotate_left(17));
    r.next();
    r.next() ^ b
}
fn case_seed(p: &Prop, seed: u64, index: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in p.id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(seed, h), index)
}
pub fn case_src(p: &Prop, seed: u64, index: u64, fixed: &[Vec<u64>]) -> Src {
    let s = case_seed(p, seed, index);
    if (index as usize) < fixed.len() {
        Src::random_with_prefix(s, &fixed[index as usize])
    } else {
        Src::random(s)
    }
}
fn tape_hash(t: &[u64]) -> u64 {
    let mut h = t.len() as u64;
    for &x in t {
        h = (h.rotate_left(5) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    }
    h
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub nontrivial: u64,
    pub comparisons: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub samples: Vec<(u64, Vec<u64>)>,
}

pub struct Outcome {
    pub stats: Stats,
    /// index, tape, failure
    pub failure: Option<(u64, Vec<u64>, Fail)>,
}

/// that of a main thread: long chains of gates must not need more
pub const STACK: usize = 8 << 20;

/// a campaign stops early after this time (only on very slow machines)
pub fn time_cap(thorough: bool) -> u64 {
    if thorough { 3 * 3600 } else { 420 }
}

pub fn campaign(p: &Prop, seed: u64, thorough: bool, n: u64, known: &[String], slots: Option<&std::fs::File>) -> Outcome {
    let fixed = (p.fixed)(thorough);
    let total = n.max(fixed.len() as u64);
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let start = Instant::now();
    let cap = time_cap(thorough);
    let out = Mutex::new(Outcome { stats: Stats::default(), failure: None });
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, min_fail, out, fixed) = (&next, &min_fail, &out, &fixed);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    let mut fails = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || i > min_fail.load(Ordering::SeqCst) || start.elapsed().as_secs() > cap {
                            break;
                        }
                        if let Some(f) = slots {
                            let _ = f.write_at(&(i + 1).to_le_bytes(), 8 * t as u64);
                        }
                        let mut src = case_src(p, seed, i, fixed);
                        let mut cx = Cx::new(false, thorough);
                        let r = run_case(p, &mut src, &mut cx);
                        st.cases += 1;
                        st.comparisons += cx.comparisons;
                        for l in &cx.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        if cx.nontrivial && st.distinct.insert(tape_hash(&src.tape)) {
                            st.nontrivial += 1;
                            if st.samples.len() < 2 || (st.samples.len() < 4 && i % 97 == 5) {
                                st.samples.push((i, src.tape.clone()));
                            }
                        }
                        let mut first_bad = None;
                        for f in cx.known.drain(..).chain(r.err()) {
                            match f.sig {
                                Some(sig) if known.iter().any(|k| k == sig) => {
                                    let e = st.known.entry(sig).or_insert((0, f.msg.clone()));
                                    e.0 += 1;
                                }
                                _ => {
                                    if first_bad.is_none() {
                                        first_bad = Some(f)
                                    }
                                }
                            }
                        }
                        if let Some(f) = first_bad {
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            fails.push((i, src.tape.clone(), f));
                        }
                        if let Some(f) = slots {
                            let _ = f.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.stats.cases += st.cases;
                    o.stats.comparisons += st.comparisons;
                    for (k, v) in st.labels {
                        *o.stats.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in st.known {
                        o.stats.known.entry(k).or_insert((0, v.1)).0 += v.0;
                    }
                    o.stats.distinct.extend(st.distinct);
                    o.stats.samples.extend(st.samples);
                    for f in fails {
                        if o.failure.as_ref().map_or(true, |g| f.0 < g.0) {
                            o.failure = Some(f);
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut o = out.into_inner().unwrap();
    o.stats.nontrivial = o.stats.distinct.len() as u64;
    o.stats.samples.sort();
    o
}

/// does this tape fail with something that is not a listed finding?
pub fn bad(p: &Prop, tape: &[u64], thorough: bool, known: &[String]) -> Option<(Vec<u64>, Fail)> {
    let mut src = Src::tape(tape);
    let mut cx = Cx::new(false, thorough);
    let r = run_case(p, &mut src, &mut cx);
    for f in cx.known.drain(..).chain(r.err()) {
        match f.sig {
            Some(sig) if known.iter().any(|k| k == sig) => {}
            _ => return Some((src.tape, f)),
        }
    }
    None
}

pub fn shrink(p: &Prop, tape: Vec<u64>, f: Fail, thorough: bool, known: &[String], secs: u64) -> (Vec<u64>, Fail) {
    let start = Instant::now();
    let mut best = tape;
    let mut bf = f;
    let mut runs = 0u32;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut improved = true;
    while improved && start.elapsed().as_secs() < secs && runs < 20000 {
        improved = false;
        let mut tryit = |cand: &[u64], best: &mut Vec<u64>, bf: &mut Fail| -> bool {
            runs += 1;
            if start.elapsed().as_secs() >= secs {
                return false;
            }
            if let Some((t, f)) = bad(p, cand, thorough, known) {
                if better(&t, best) {
                    *best = t;
                    *bf = f;
                    return true;
                }
            }
            false
        };
        // delete chunks
        let mut k = best.len() / 2;
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if tryit(&c, &mut best, &mut bf) {
                    improved = true;
                } else {
                    i += k.max(1);
                }
            }
            k /= 2;
        }
        // zero / reduce entries
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [0, v / 2, v.saturating_sub(1)] {
                if nv < v && i < best.len() && best[i] == v {
                    let mut c = best.clone();
                    c[i] = nv;
                    if tryit(&c, &mut best, &mut bf) {
                        improved = true;
                        break;
                    }
                }
            }
            // decrement a count and delete a following entry
            if i < best.len() && best[i] > 0 && best[i] < 64 {
                for d in 1..6 {
                    if i + d < best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..(i + 1 + d).min(c.len()));
                        if tryit(&c, &mut best, &mut bf) {
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, bf)
}
