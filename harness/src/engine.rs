//! Episode runner, monitors, verdicts and evidence.
//!
//! A property is a list of scenarios; a scenario is a function that drives the
//! real library through one episode (a history of calls) and reports what it
//! saw to the monitor `M`.  Episodes are pure functions of
//! (scenario, seed, tier, small), so every violation replays.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

/// Allocator that fills fresh and freed memory with two NaNs of its own, so
/// that a number read before it was written, or after it was freed, is known
/// for what it is (or, as an index, is far out of range).
#[cfg(not(miri))]
pub struct Poison;

const FRESH: u64 = 0x7FF4_5EED_5EED_5EED;
const FREED: u64 = 0x7FF4_DEAD_DEAD_DEAD;

#[cfg(not(miri))]
unsafe fn fill(p: *mut u8, from: usize, to: usize, what: u64) {
    let to = to.min(from + (1 << 20));
    for i in from..to {
        if i % 8 == 0 && (p as usize) % 8 == 0 && i + 8 <= to {
            let words = (to - i) / 8;
            let q = p.add(i) as *mut u64;
            for k in 0..words {
                q.add(k).write_volatile(what);
            }
            for j in i + words * 8..to {
                p.add(j).write_volatile(what.to_ne_bytes()[j % 8]);
            }
            return;
        }
        p.add(i).write_volatile(what.to_ne_bytes()[i % 8]);
    }
}

#[cfg(not(miri))]
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            fill(p, 0, l.size(), FRESH);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        fill(p, 0, l.size(), FREED);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n < l.size() {
            fill(p, n, l.size(), FREED);
        }
        let q = std::alloc::System.realloc(p, l, n);
        if !q.is_null() && n > l.size() {
            fill(q, l.size(), n, FRESH);
        }
        q
    }
}

/// Whether a number came from memory nobody had written, or from freed memory
/// (arithmetic keeps the payload of a NaN).
pub fn poisoned(x: f64) -> bool {
    const PAYLOAD: u64 = 0x0003_FFFF_FFFF_FFFF;
    let p = x.to_bits() & PAYLOAD;
    x.is_nan() && (p == FRESH & PAYLOAD || p == FREED & PAYLOAD)
}

/// Below this, rounding is absolute (subnormal range), not relative.
pub const UNDERFLOW: f64 = 1e-290;

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Fp(pub u64);
impl Hasher for Fp {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        self.0 = mix(self.0 ^ bytes.len() as u64);
    }
}

/// The episode is over: a violation was recorded.
#[derive(Debug)]
pub struct Stop;
pub type R<T = ()> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub seed: u64,
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Acc {
    pub events: BTreeMap<String, u64>,
    pub checks: u64,
    pub episodes: BTreeMap<String, u64>,
    pub skipped: u64,
    pub distinct: HashSet<u64>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, (u64, String)>,
    pub harness_errors: Vec<String>,
    pub maxdev: BTreeMap<String, f64>,
}

impl Acc {
    fn merge(&mut self, o: Acc) {
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for (k, v) in o.episodes {
            *self.episodes.entry(k).or_default() += v;
        }
        for (k, v) in o.maxdev {
            let e = self.maxdev.entry(k).or_default();
            *e = e.max(v);
        }
        for (k, v) in o.samples {
            let e = self.samples.entry(k).or_default();
            e.extend(v);
            e.truncate(2);
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        self.checks += o.checks;
        self.skipped += o.skipped;
        self.distinct.extend(o.distinct);
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
    }
}

pub struct M<'a> {
    pub rng: Rng,
    pub thorough: bool,
    /// tiny workloads (Miri)
    pub small: bool,
    scenario: &'static str,
    seed: u64,
    fp: Fp,
    nontrivial: bool,
    sample: Option<String>,
    want_sample: bool,
    acc: &'a mut Acc,
    known: &'a HashSet<String>,
    verbose: bool,
}

impl<'a> M<'a> {
    pub fn ev(&mut self, k: &str) {
        self.evn(k, 1)
    }
    pub fn evn(&mut self, k: &str, n: u64) {
        if let Some(e) = self.acc.events.get_mut(k) {
            *e += n;
        } else {
            self.acc.events.insert(k.to_string(), n);
        }
    }
    /// Fold something into the case fingerprint (distinctness of cases).
    pub fn fp<T: Hash>(&mut self, x: T) {
        x.hash(&mut self.fp);
    }
    pub fn fpf(&mut self, xs: &[f64]) {
        for x in xs {
            x.to_bits().hash(&mut self.fp);
        }
    }
    pub fn seed(&self) -> u64 {
        self.seed
    }
    /// An observation whose oracle is the instrumentation.
    pub fn checked(&mut self) {
        self.acc.checks += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
    /// The case left the property's domain; nothing was decided.
    pub fn skip(&mut self) {
        self.acc.skipped += 1;
    }
    pub fn dev(&mut self, k: &str, rel: f64) {
        if rel.is_finite() {
            match self.acc.maxdev.get_mut(k) {
                Some(e) => *e = e.max(rel),
                None => {
                    self.acc.maxdev.insert(k.to_string(), rel);
                }
            }
        }
    }
    pub fn fail<T>(&mut self, sig: &str, msg: String) -> R<T> {
        self.acc.violations.push(Violation {
            scenario: self.scenario.into(),
            seed: self.seed,
            sig: sig.into(),
            msg,
        });
        Err(Stop)
    }
    pub fn ok(&mut self, cond: bool, sig: &str, msg: impl FnOnce() -> String) -> R {
        self.acc.checks += 1;
        if cond {
            if self.verbose {
                eprintln!("ok   {sig}");
            }
            return Ok(());
        }
        let msg = msg();
        if self.known.contains(sig) {
            let e = self.acc.known.entry(sig.into()).or_insert((0, msg));
            e.0 += 1;
            return Ok(());
        }
        self.fail(sig, msg)
    }
    /// |got - want| <= tol, NaN never passes.
    pub fn close(&mut self, got: f64, want: f64, tol: f64, sig: &str, ctx: impl FnOnce() -> String) -> R {
        let good = got == want || (got - want).abs() <= tol + UNDERFLOW;
        if good && tol > 0.0 {
            self.dev(sig, (got - want).abs() / tol);
        }
        self.ok(good, sig, || {
            format!("got {got:e}, expected {want:e} (tolerance {tol:e}): {}", ctx())
        })
    }
    pub fn close_vec(&mut self, got: &[f64], want: &[f64], tol: impl Fn(usize) -> f64, sig: &str, ctx: impl Fn() -> String) -> R {
        self.ok(got.len() == want.len(), sig, || {
            format!("length {} instead of {}: {}", got.len(), want.len(), ctx())
        })?;
        for i in 0..got.len() {
            self.close(got[i], want[i], tol(i), sig, || format!("entry {i}: {}", ctx()))?;
        }
        Ok(())
    }
    /// Run library code that may legitimately panic; the panic is returned.
    pub fn caught<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
        IN_CATCH.with(|c| *c.borrow_mut() += 1);
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CATCH.with(|c| *c.borrow_mut() -= 1);
        r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take().unwrap_or_default()))
    }
}

#[derive(Clone, Debug, Default)]
pub struct PanicInfo {
    pub file: String,
    pub line: u32,
    pub msg: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = RefCell::new(None);
    static IN_CATCH: RefCell<usize> = RefCell::new(0);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { file, line, msg }));
    }));
}

pub struct Scenario {
    pub name: &'static str,
    /// episodes in the quick tier
    pub quick: usize,
    /// episodes in the thorough tier
    pub thorough: usize,
    /// episodes in small (Miri) mode
    pub small: usize,
    pub f: fn(&mut M) -> R,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    /// event kinds that must have been observed for a verdict
    pub required: &'static [&'static str],
    pub scenarios: Vec<Scenario>,
}

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub small: bool,
    pub threads: usize,
    pub time_cap_s: f64,
    pub scale: f64,
    pub only: Option<String>,
    pub trace_dir: Option<String>,
    pub trace_stderr: bool,
    pub verbose: bool,
    pub known: HashSet<String>,
}

pub fn episode_seed(seed: u64, prop: &str, scenario: &str, i: usize) -> u64 {
    let mut h = Fp(mix(seed));
    prop.hash(&mut h);
    scenario.hash(&mut h);
    (i as u64).hash(&mut h);
    h.finish()
}

pub fn run_episode(sc: &Scenario, seed: u64, cfg: &Config, want_sample: bool, acc: &mut Acc) {
    let mut m = M {
        rng: Rng::new(seed),
        thorough: cfg.thorough,
        small: cfg.small,
        scenario: sc.name,
        seed,
        fp: Fp(0xcbf2_9ce4_8422_2325),
        nontrivial: false,
        sample: None,
        want_sample,
        acc,
        known: &cfg.known,
        verbose: cfg.verbose,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (sc.f)(&mut m)));
    let (nontrivial, fp, sample) = (m.nontrivial, m.fp.finish(), m.sample.take());
    *acc.episodes.entry(sc.name.into()).or_default() += 1;
    if nontrivial {
        acc.distinct.insert(fp);
    }
    if let Some(s) = sample {
        let e = acc.samples.entry(sc.name.into()).or_default();
        if e.len() < 2 {
            e.push(s);
        }
    }
    if r.is_err() {
        let p = LAST_PANIC.with(|p| p.borrow_mut().take().unwrap_or_default());
        let at = format!("{}:{}", p.file, p.line);
        // The harness's own files are compiled with paths relative to its root.
        let unwrapped = p.msg.starts_with("called `Result::unwrap()` on an `Err`") || p.msg.starts_with("called `Option::unwrap()` on a `None`");
        if unwrapped && p.file.starts_with("src/") {
            // the harness only unwraps what the library returned
            acc.violations.push(Violation {
                scenario: sc.name.into(),
                seed,
                sig: format!("refused/{}", sc.name),
                msg: format!("library refused an in-domain call at {at}: {}", p.msg),
            });
        } else if p.file.starts_with("src/") || p.file.is_empty() {
            acc.harness_errors
                .push(format!("scenario {} seed {seed:#x}: panic at {at}: {}", sc.name, p.msg));
        } else {
            acc.violations.push(Violation {
                scenario: sc.name.into(),
                seed,
                sig: format!("panic/{}", sc.name),
                msg: format!("library panicked on an in-domain call at {at}: {}", p.msg),
            });
        }
    }
}

pub struct Outcome {
    pub acc: Acc,
    pub wall_s: f64,
    pub capped: bool,
    pub planned: usize,
}

pub fn run(p: &Property, cfg: &Config) -> Outcome {
    let t0 = std::time::Instant::now();
    let mut plan: Vec<(usize, usize)> = Vec::new();
    for (si, s) in p.scenarios.iter().enumerate() {
        if let Some(o) = &cfg.only {
            if o != s.name {
                continue;
            }
        }
        let n = if cfg.small {
            s.small
        } else if cfg.thorough {
            s.thorough
        } else {
            s.quick
        };
        let n = if n == 0 { 0 } else { ((n as f64 * cfg.scale).ceil() as usize).max(1) };
        plan.extend((0..n).map(|i| (si, i)));
    }
    // interleave the scenarios deterministically so that a time cap trims all of them
    let mut r = Rng::new(cfg.seed);
    r.shuffle(&mut plan);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let total = Mutex::new(Acc::default());
    let worker = |w: usize| {
        let mut acc = Acc::default();
        let mut trace = cfg.trace_dir.as_ref().map(|d| {
            std::fs::File::create(format!("{d}/cur.{w}")).expect("trace file")
        });
        loop {
            let k = next.fetch_add(1, Ordering::Relaxed);
            if k >= plan.len() || stop.load(Ordering::Relaxed) {
                break;
            }
            if cfg.time_cap_s > 0.0 && t0.elapsed().as_secs_f64() > cfg.time_cap_s {
                capped.store(true, Ordering::Relaxed);
                break;
            }
            let (si, i) = plan[k];
            let sc = &p.scenarios[si];
            let seed = episode_seed(cfg.seed, p.id, sc.name, i);
            if let Some(f) = trace.as_mut() {
                use std::os::unix::fs::FileExt;
                let line = format!("{:<60} {:>20}\n", sc.name, seed);
                let _ = f.write_at(line.as_bytes(), 0);
            }
            if cfg.trace_stderr {
                eprintln!("EPISODE {} {} {}", p.id, sc.name, seed);
            }
            run_episode(sc, seed, cfg, i < 2, &mut acc);
            if acc.violations.len() >= 8 || !acc.harness_errors.is_empty() {
                stop.store(true, Ordering::Relaxed);
            }
        }
        if let Some(f) = trace.as_mut() {
            let _ = f.set_len(0);
        }
        total.lock().unwrap().merge(acc);
    };
    if cfg.threads <= 1 {
        worker(0);
    } else {
        let worker = &worker;
        std::thread::scope(|s| {
            for w in 0..cfg.threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || worker(w))
                    .expect("spawn");
            }
        });
    }
    let mut acc = total.into_inner().unwrap();
    acc.violations.sort_by(|a, b| (&a.sig, a.seed).cmp(&(&b.sig, b.seed)));
    Outcome {
        acc,
        wall_s: t0.elapsed().as_secs_f64(),
        capped: capped.into_inner(),
        planned: plan.len(),
    }
}
