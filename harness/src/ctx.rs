//! Deterministic case contexts, verdicts, observation counters and the parallel runner.
use crate::cnt;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[0]
            .wrapping_add(self.s[3])
            .rotate_left(23)
            .wrapping_add(self.s[0]);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn sf(&mut self) -> f64 {
        2.0 * self.f() - 1.0
    }
    pub fn normal(&mut self) -> f64 {
        (-2.0 * (1.0 - self.f()).ln()).sqrt() * (std::f64::consts::TAU * self.f()).cos()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 {
            1.0
        } else {
            -1.0
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub calls: u64,
    pub nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub events: BTreeMap<String, u64>,
    pub ratios: BTreeMap<String, (f64, u64, u64)>, // worst err/tol, case of it, count
    pub hashes: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    pub skipped: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.calls += o.calls;
        self.nontrivial += o.nontrivial;
        self.skipped += o.skipped;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for (k, v) in o.ratios {
            let e = self.ratios.entry(k).or_insert((0.0, 0, 0));
            if v.0 > e.0 {
                e.0 = v.0;
                e.1 = v.1;
            }
            e.2 += v.2;
        }
        self.hashes.extend(o.hashes);
        self.samples.extend(o.samples);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sk {
    F64,
    F32,
    Dd,
    C64,
    C32,
}

pub struct Slot {
    pub start: AtomicU64,
    pub idx: AtomicU64,
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub prop: &'static str,
    pub idx: u64,
    pub force_cnt: bool,
    pub thorough: bool,
    pub st: &'a mut Stats,
    pub desc: String,
    pub hash: u64,
    pub nontrivial: bool,
    pub tag: String,
    pub verbose: bool,
    pub debug_assert: bool,
}

thread_local! {
    /// a panic raised by the checked variant of the unchecked indexing, since the last reset
    pub static INDEX_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
thread_local! { pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = payload_msg(info.payload());
        if loc.starts_with('/') && loc.contains("/src/index.rs:") {
            INDEX_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} [{loc}]")));
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} [{loc}]"));
    }));
}
fn payload_msg(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if p.downcast_ref::<cnt::Budget>().is_some() {
        "work budget exceeded".into()
    } else {
        "panic".into()
    }
}

/// Logical work budget for one call on operands with largest dimension n.
pub fn budget(n: usize) -> u64 {
    let n = n as u64 + 1;
    2_000_000 + 4000 * n * n * n
}

impl<'a> Ctx<'a> {
    pub fn viol<T>(&self, what: &str, msg: impl Into<String>) -> R<T> {
        Err(Viol {
            sig: format!("{}/{}", self.prop, what),
            msg: format!("{} [{}]", msg.into(), self.desc),
        })
    }
    pub fn ev(&mut self, e: &str) {
        *self.st.events.entry(e.to_string()).or_default() += 1;
    }
    pub fn ev_n(&mut self, e: &str, n: u64) {
        *self.st.events.entry(e.to_string()).or_default() += n;
    }
    pub fn class(&mut self, c: &str) {
        *self.st.classes.entry(c.to_string()).or_default() += 1;
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push(' ');
        }
        self.desc.push_str(s.as_ref());
    }
    pub fn mix(&mut self, h: u64) {
        self.hash = (self.hash.rotate_left(17) ^ h).wrapping_mul(0x9E3779B97F4A7C15);
    }
    /// Runs a call into the crate; a panic becomes a violation.
    pub fn call<T>(&mut self, what: &str, n: usize, f: impl FnOnce() -> T) -> R<T> {
        self.st.calls += 1;
        match self.try_call(n, f) {
            Ok(x) => Ok(x),
            Err(m) => self.viol(&format!("{what}/panic"), format!("{what}: {m}")),
        }
    }
    /// Runs a call into the crate; a panic is returned as its message.
    pub fn try_call<T>(&mut self, n: usize, f: impl FnOnce() -> T) -> Result<T, String> {
        cnt::reset(budget(n));
        let r = catch_unwind(AssertUnwindSafe(f));
        cnt::reset(u64::MAX);
        match r {
            Ok(x) => Ok(x),
            Err(p) => {
                if let Some(b) = p.downcast_ref::<cnt::Budget>() {
                    Err(format!(
                        "work budget exceeded ({} scalar operations, n={})",
                        b.0, n
                    ))
                } else {
                    Err(format!(
                        "panicked: {}",
                        PANIC_MSG.with(|m| m.borrow().clone())
                    ))
                }
            }
        }
    }
    /// call + "must be Ok"
    pub fn ok<T>(
        &mut self,
        what: &str,
        n: usize,
        f: impl FnOnce() -> linfa_linalg::Result<T>,
    ) -> R<T> {
        match self.call(what, n, f)? {
            Ok(x) => Ok(x),
            Err(e) => self.viol(
                &format!("{what}/unexpected-error"),
                format!("{what} returned error: {e}"),
            ),
        }
    }
    /// Oracle comparison err <= tol, recording how close it came.
    pub fn le(&mut self, what: &str, err: f64, tol: f64) -> R {
        let ratio = if err == 0.0 { 0.0 } else { err / tol };
        let idx = self.idx;
        let e = self
            .st
            .ratios
            .entry(what.to_string())
            .or_insert((0.0, 0, 0));
        e.2 += 1;
        if ratio > e.0 || ratio.is_nan() {
            e.0 = if ratio.is_nan() { f64::INFINITY } else { ratio };
            e.1 = idx;
        }
        if err <= tol {
            Ok(())
        } else {
            self.viol(what, format!("{what}: error {err:e} > tolerance {tol:e}"))
        }
    }
    pub fn check(&mut self, what: &str, cond: bool, msg: impl FnOnce() -> String) -> R {
        if cond {
            Ok(())
        } else {
            self.viol(what, format!("{what}: {}", msg()))
        }
    }
    pub fn sk(&mut self, weights: &[(Sk, u32)]) -> Sk {
        let tot: u32 = weights.iter().map(|w| w.1).sum();
        let mut k = self.rng.below(tot as usize) as u32;
        let mut sk = weights[0].0;
        for w in weights {
            if k < w.1 {
                sk = w.0;
                break;
            }
            k -= w.1;
        }
        if self.force_cnt {
            sk = match sk {
                Sk::F32 | Sk::C32 => Sk::C32,
                _ => Sk::C64,
            };
        }
        sk
    }
    pub fn std_sk(&mut self) -> Sk {
        self.sk(&[(Sk::F64, 60), (Sk::F32, 40)])
    }
    /// A matrix dimension: mostly small, sometimes large.
    pub fn dim(&mut self) -> usize {
        let t = self.rng.below(1000);
        let big = if self.thorough { 12 } else { 5 };
        if t < 600 {
            1 + self.rng.below(8)
        } else if t < 850 {
            9 + self.rng.below(12)
        } else if t < 970 {
            21 + self.rng.below(20)
        } else if t < 1000 - big {
            41 + self.rng.below(30)
        } else {
            100 + self.rng.below(60)
        }
    }
}

#[macro_export]
macro_rules! by_scalar {
    ($c:expr, $f:ident, $sk:expr) => {{
        use $crate::ctx::Sk;
        match $sk {
            Sk::F64 => {
                $c.class("scalar:f64");
                $f::<f64>($c)
            }
            Sk::F32 => {
                $c.class("scalar:f32");
                $f::<f32>($c)
            }
            Sk::Dd => {
                $c.class("scalar:dd");
                $f::<$crate::dd::DD>($c)
            }
            Sk::C64 => {
                $c.class("scalar:cnt64");
                $f::<$crate::cnt::C64>($c)
            }
            Sk::C32 => {
                $c.class("scalar:cnt32");
                $f::<$crate::cnt::C32>($c)
            }
        }
    }};
}

pub type CaseFn = fn(&mut Ctx) -> R;

pub struct RunCfg {
    pub prop: &'static str,
    pub seed: u64,
    pub first: u64,
    pub cases: u64,
    pub cap_s: f64,
    pub threads: usize,
    pub thorough: bool,
    pub verbose: bool,
    pub force_cnt: bool,
    pub wall_case_s: f64,
    pub max_viol: usize,
}
pub struct RunOut {
    pub st: Stats,
    pub viols: Vec<(u64, Viol)>,
    pub harness_error: Option<String>,
    pub inconclusive: Option<String>,
    pub cap_hit: bool,
    pub wall_s: f64,
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut x = seed ^ hash_str(prop).rotate_left(21) ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut x)
}

pub fn run_one(
    f: CaseFn,
    cfg: &RunCfg,
    idx: u64,
    st: &mut Stats,
    force_cnt: bool,
) -> Result<R, String> {
    let mut c = Ctx {
        rng: Rng::new(case_seed(cfg.seed, cfg.prop, idx)),
        prop: cfg.prop,
        idx,
        force_cnt,
        thorough: cfg.thorough,
        st,
        desc: String::new(),
        hash: 0,
        nontrivial: false,
        tag: String::new(),
        verbose: cfg.verbose,
        debug_assert: cfg!(debug_assertions),
    };
    // what a routine reads before writing it is not zero by accident in most cases
    crate::alloc::set_fill(match idx % 5 {
        0 => 0,
        i => crate::alloc::FILLS[i as usize - 1],
    });
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    crate::alloc::set_fill(0);
    match r {
        Ok(v) => {
            c.st.evals += 1;
            if c.nontrivial && c.st.hashes.insert(c.hash) {
                c.st.nontrivial += 1;
            }
            if c.st.samples.len() < 2 || (idx % 997 == 0 && c.st.samples.len() < 6) {
                let d = c.desc.clone();
                c.st.samples.push((idx, d));
            }
            if cfg.verbose {
                eprintln!("case {idx}: {} -> {:?}", c.desc, v);
            }
            Ok(v)
        }
        // a panic raised outside the harness sources comes from the code under observation
        Err(_) if !PANIC_MSG.with(|m| m.borrow().contains(" [src/")) => {
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            let v = Viol {
                sig: format!("{}/panic", cfg.prop),
                msg: format!("panicked: {m} [{}]", c.desc),
            };
            c.st.evals += 1;
            Ok(Err(v))
        }
        Err(_) => Err(format!(
            "harness panic in case {idx}: {} [{}]",
            PANIC_MSG.with(|m| m.borrow().clone()),
            c.desc
        )),
    }
}

pub fn run(f: CaseFn, cfg: RunCfg) -> RunOut {
    let cfg = Arc::new(cfg);
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(cfg.first));
    let stop = Arc::new(AtomicBool::new(false));
    let cap_hit = Arc::new(AtomicBool::new(false));
    let viols: Arc<Mutex<Vec<(u64, Viol)>>> = Default::default();
    let herr: Arc<Mutex<Option<String>>> = Default::default();
    let stats: Arc<Mutex<Stats>> = Default::default();
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..cfg.threads)
            .map(|_| Slot {
                start: AtomicU64::new(0),
                idx: AtomicU64::new(0),
            })
            .collect(),
    );
    let done = Arc::new(AtomicU64::new(0));
    let end = cfg.first + cfg.cases;
    for t in 0..cfg.threads {
        let (cfg, next, stop, cap_hit, viols, herr, stats, slots, done) = (
            cfg.clone(),
            next.clone(),
            stop.clone(),
            cap_hit.clone(),
            viols.clone(),
            herr.clone(),
            stats.clone(),
            slots.clone(),
            done.clone(),
        );
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let mut st = Stats::default();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let idx = next.fetch_add(1, Ordering::Relaxed);
                    if idx >= end {
                        break;
                    }
                    if t0.elapsed().as_secs_f64() > cfg.cap_s {
                        cap_hit.store(true, Ordering::Relaxed);
                        break;
                    }
                    slots[t].idx.store(idx, Ordering::Relaxed);
                    slots[t]
                        .start
                        .store(t0.elapsed().as_millis() as u64 + 1, Ordering::Release);
                    let r = run_one(f, &cfg, idx, &mut st, cfg.force_cnt);
                    slots[t].start.store(0, Ordering::Release);
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(v)) => {
                            let mut l = viols.lock().unwrap();
                            let same = l.iter().filter(|x| x.1.sig == v.sig).count();
                            if same < 3 {
                                l.push((idx, v));
                            }
                            if l.len() >= cfg.max_viol {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Err(e) => {
                            *herr.lock().unwrap() = Some(e);
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                stats.lock().unwrap().merge(st);
                done.fetch_add(1, Ordering::Release);
            })
            .unwrap();
    }
    let mut inconclusive = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if done.load(Ordering::Acquire) == cfg.threads as u64 {
            break;
        }
        let now = t0.elapsed().as_millis() as u64;
        let mut hung = None;
        for s in slots.iter() {
            let st = s.start.load(Ordering::Acquire);
            if st > 0 && now.saturating_sub(st) as f64 > cfg.wall_case_s * 1000.0 {
                hung = Some(s.idx.load(Ordering::Relaxed));
            }
        }
        if let Some(idx) = hung {
            // Decide on logical steps: replay the case with counting scalars.
            stop.store(true, Ordering::Relaxed);
            let (tx, rx) = std::sync::mpsc::channel();
            let c2 = cfg.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut st = Stats::default();
                    let _ = tx.send(run_one(f, &c2, idx, &mut st, true));
                })
                .unwrap();
            match rx.recv_timeout(Duration::from_secs_f64(cfg.wall_case_s.max(120.0))) {
                Ok(Ok(Err(mut v))) => {
                    v.msg = format!(
                        "case does not return; replay with counting scalars: {}",
                        v.msg
                    );
                    viols.lock().unwrap().push((idx, v));
                }
                Ok(Ok(Ok(()))) => {
                    inconclusive = Some(format!(
                        "case {idx} exceeded {}s but terminates under counting scalars",
                        cfg.wall_case_s
                    ))
                }
                Ok(Err(e)) => inconclusive = Some(e),
                Err(_) => {
                    inconclusive = Some(format!(
                        "case {idx} exceeded {}s and its counted replay too",
                        cfg.wall_case_s
                    ))
                }
            }
            // let the other workers finish
            let w0 = Instant::now();
            while done.load(Ordering::Acquire) + 1 < cfg.threads as u64
                && w0.elapsed().as_secs() < 5
            {
                std::thread::sleep(Duration::from_millis(20));
            }
            break;
        }
    }
    let st = std::mem::take(&mut *stats.lock().unwrap());
    let mut v = std::mem::take(&mut *viols.lock().unwrap());
    v.sort_by_key(|x| x.0);
    let he = herr.lock().unwrap().clone();
    RunOut {
        st,
        viols: v,
        harness_error: he,
        inconclusive,
        cap_hit: cap_hit.load(Ordering::Relaxed),
        wall_s: t0.elapsed().as_secs_f64(),
    }
}
