//! Exploration engine shared by all checks: enumerates cases, executes them on the real code, supervises
//! crashes and hangs, counts what was covered and writes evidence.
pub mod guard;
mod sup;
pub use sup::main;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Result of one execution: a class for statistics and a hash of what was observed.
pub struct Outcome {
    pub class: &'static str,
    pub hash: u64,
}

pub enum Bad {
    /// the property is violated by this case
    Violation(String),
    /// the machinery failed; no verdict
    Harness(String),
}

pub type Verdict = Result<Outcome, Bad>;

pub fn ok(class: &'static str, hash: u64) -> Verdict {
    Ok(Outcome { class, hash })
}
pub fn bad<T>(msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Violation(msg.into()))
}
pub fn harness<T>(msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Harness(msg.into()))
}

/// Extra output of one execution, for explorers that extend executions.
#[derive(Default)]
pub struct Io {
    pub trace: Vec<(u64, u64)>,
    /// what the execution produced, for searches that visit each result once
    pub key: u64,
    pub steps: u64,
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// What is enumerated and what bounds apply, one line.
    fn bounds(&self, tier: Tier) -> String;
    /// Enumerates the cases of this tier.
    fn explore(&self, x: &Explorer);
    /// Executes one case on the real code and compares with the reference model.
    fn check(&self, case: &[u8], io: &mut Io) -> Verdict;
    /// The case in words.
    fn describe(&self, case: &[u8]) -> String;
    /// Assumptions to state in the evidence.
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// CPU seconds after which one call counts as not returning.
    fn hang_s(&self) -> u64 {
        15
    }
}

// ---------------------------------------------------------------- calls into the code under test

pub const SLOT_SIZE: usize = 1 << 19;
pub const SLOT_DATA: usize = SLOT_SIZE - 32;

#[repr(C)]
pub struct Slot {
    pub seq: AtomicU64,
    pub in_call: AtomicU32,
    pub len: AtomicU32,
    pub pad: [u64; 2],
    pub data: [u8; SLOT_DATA],
}

thread_local! {
    static SLOT: Cell<*mut Slot> = const { Cell::new(std::ptr::null_mut()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SUT.with(|c| c.get()) {
            guard::uncap();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{msg} ({at})"));
        } else {
            old(info);
        }
    }));
}

const MEM_CAP: i64 = 1 << 30;

/// Runs a call into the code under test; a panic is returned as Err(message).
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = SLOT.with(|s| s.get());
    if !slot.is_null() {
        unsafe { (*slot).in_call.store(1, SeqCst) };
    }
    IN_SUT.with(|c| c.set(true));
    guard::cap(MEM_CAP);
    let r = catch_unwind(AssertUnwindSafe(f));
    guard::uncap();
    IN_SUT.with(|c| c.set(false));
    if !slot.is_null() {
        unsafe { (*slot).in_call.store(0, SeqCst) };
    }
    r.map_err(|_| PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

/// As `sut`, a panic being a violation.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Bad> {
    sut(f).map_err(|m| Bad::Violation(format!("{what} panicked: {m}")))
}

/// As `call`, under the guard allocator: memory errors are violations too.
pub fn call_mem<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Bad> {
    guard::track(true);
    let r = sut(f);
    guard::track(false);
    guard::flush();
    if let Some(e) = guard::take_error() {
        return bad(format!("{what}: {e}"));
    }
    r.map_err(|m| Bad::Violation(format!("{what} panicked: {m}")))
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

// ---------------------------------------------------------------- exploration

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub steps: u64,
    pub outcomes: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.execs += o.execs;
        self.steps += o.steps;
        for h in o.outcomes {
            if self.outcomes.len() < OUTCOME_CAP {
                self.outcomes.insert(h);
            }
        }
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
    }
}

const OUTCOME_CAP: usize = 1 << 20;

pub struct Found {
    pub family: String,
    pub index: u64,
    pub case: Vec<u8>,
    pub msg: String,
}

pub struct FamilyReport {
    pub name: String,
    pub planned: u64,
    pub execs: u64,
    pub states: u64,
    pub transitions: u64,
    pub complete: bool,
    pub wall_ms: u64,
}

#[derive(Default)]
pub struct Global {
    pub stats: Stats,
    pub families: Vec<FamilyReport>,
    pub samples: Vec<String>,
    pub found: Option<Found>,
    pub known: BTreeMap<String, String>,
    pub harness: Option<String>,
    pub notes: Vec<String>,
    pub capped: bool,
}

pub struct Explorer<'a> {
    pub prop: &'a dyn Prop,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub started: Instant,
    pub budget: Duration,
    pub known_cases: HashSet<Vec<u8>>,
    slots: *mut Slot,
    pub global: Mutex<Global>,
    stop_at: AtomicU64,
    abort: AtomicBool,
    capped: AtomicBool,
    pub(crate) pthreads: Mutex<BTreeMap<usize, libc::pthread_t>>,
}

unsafe impl Sync for Explorer<'_> {}

pub struct Worker<'e> {
    pub x: &'e Explorer<'e>,
    pub stats: Stats,
    pub io: Io,
    pub index: u64,
    slot: *mut Slot,
    samples: Vec<(u64, Vec<u8>)>,
    found: Option<Found>,
}

impl Worker<'_> {
    /// Executes one case. Returns true if the property held (or the case is a known finding).
    pub fn exec(&mut self, case: &[u8]) -> bool {
        if self.x.halted(self.index) {
            return false;
        }
        if case.len() > SLOT_DATA {
            self.x.harness_error(format!("case too long: {}", case.len()));
            return false;
        }
        self.post(case);
        self.stats.execs += 1;
        self.io.steps = 0;
        let v = self.x.prop.check(case, &mut self.io);
        self.stats.steps += self.io.steps;
        match v {
            Ok(o) => {
                *self.stats.classes.entry(o.class).or_default() += 1;
                if self.stats.outcomes.len() < OUTCOME_CAP / 8 {
                    self.stats.outcomes.insert(o.hash);
                }
                if self.samples.is_empty() {
                    self.samples.push((self.index, case.to_vec()));
                }
                true
            }
            Err(Bad::Violation(msg)) => {
                if self.x.known_cases.contains(case) {
                    self.x.global.lock().unwrap().known.insert(sup::hex(case), msg);
                    return true;
                }
                if self.found.as_ref().is_none_or(|f| f.index > self.index) {
                    self.found = Some(Found { family: String::new(), index: self.index, case: case.to_vec(), msg });
                }
                self.x.stop_at.fetch_min(self.index, SeqCst);
                false
            }
            Err(Bad::Harness(msg)) => {
                self.x.harness_error(format!("{}: {msg}", self.x.prop.describe(case)));
                false
            }
        }
    }

    fn post(&mut self, case: &[u8]) {
        unsafe {
            let s = self.slot;
            (*s).seq.fetch_add(1, SeqCst);
            (*s).len.store(case.len() as u32, SeqCst);
            std::ptr::copy_nonoverlapping(case.as_ptr(), (*s).data.as_mut_ptr(), case.len());
        }
    }

    pub fn state(&mut self) {
        self.stats.states += 1;
    }
    pub fn transition(&mut self) {
        self.stats.transitions += 1;
    }
    pub fn stopped(&self) -> bool {
        self.x.halted(self.index)
    }
}

impl<'a> Explorer<'a> {
    pub(crate) fn new(prop: &'a dyn Prop, tier: Tier, seed: u64, slots: *mut Slot, threads: usize, budget: Duration, known: HashSet<Vec<u8>>) -> Self {
        Explorer {
            prop,
            tier,
            seed,
            threads,
            started: Instant::now(),
            budget,
            known_cases: known,
            slots,
            global: Mutex::new(Global::default()),
            stop_at: AtomicU64::new(u64::MAX),
            abort: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            pthreads: Mutex::new(BTreeMap::new()),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Chooses a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    fn halted(&self, index: u64) -> bool {
        self.abort.load(Relaxed) || self.capped.load(Relaxed) || self.stop_at.load(Relaxed) < index
    }

    pub fn done(&self) -> bool {
        self.abort.load(SeqCst) || self.capped.load(SeqCst) || self.stop_at.load(SeqCst) != u64::MAX
    }

    pub fn harness_error(&self, msg: String) {
        self.abort.store(true, SeqCst);
        let mut g = self.global.lock().unwrap();
        if g.harness.is_none() {
            g.harness = Some(msg);
        }
    }

    pub fn note(&self, msg: String) {
        self.global.lock().unwrap().notes.push(msg);
    }

    /// Reports a violation found outside a single execution (e.g. about the set of outcomes).
    pub fn report(&self, family: &str, case: Vec<u8>, msg: String) {
        self.stop_at.store(0, SeqCst);
        let mut g = self.global.lock().unwrap();
        if g.found.is_none() {
            g.found = Some(Found { family: family.into(), index: 0, case, msg });
        }
    }

    /// Runs `f(worker, i)` for all i in 0..n on all workers; returns false if a violation, an error or
    /// the time limit ended it early.
    pub fn par(&self, name: &str, n: u64, f: impl Fn(&mut Worker, u64) + Sync) -> bool {
        self.par_chunk(name, n, if n > 100_000 { 256 } else if n > 2000 { 16 } else { 1 }, f)
    }

    pub fn par_chunk(&self, name: &str, n: u64, chunk: u64, f: impl Fn(&mut Worker, u64) + Sync) -> bool {
        if self.done() {
            return false;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let out: Mutex<Vec<(Stats, Vec<(u64, Vec<u8>)>, Option<Found>)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (next, out, f) = (&next, &out, &f);
                s.spawn(move || {
                    let slot = unsafe { (self.slots as *mut u8).add(t * SLOT_SIZE) as *mut Slot };
                    SLOT.with(|c| c.set(slot));
                    self.pthreads.lock().unwrap().insert(t, unsafe { libc::pthread_self() });
                    let mut w = Worker { x: self, stats: Stats::default(), io: Io::default(), index: 0, slot, samples: vec![], found: None };
                    'all: loop {
                        let lo = next.fetch_add(chunk, SeqCst);
                        if lo >= n {
                            break;
                        }
                        if self.started.elapsed() > self.budget {
                            self.capped.store(true, SeqCst);
                            break;
                        }
                        for i in lo..(lo + chunk).min(n) {
                            w.index = i;
                            if self.halted(i) {
                                break 'all;
                            }
                            f(&mut w, i);
                        }
                    }
                    self.pthreads.lock().unwrap().remove(&t);
                    out.lock().unwrap().push((w.stats, w.samples, w.found));
                });
            }
        });
        let mut g = self.global.lock().unwrap();
        let (e0, s0, t0_) = (g.stats.execs, g.stats.states, g.stats.transitions);
        let mut samples: Vec<(u64, Vec<u8>)> = vec![];
        let mut best: Option<Found> = None;
        for (st, sm, fo) in out.into_inner().unwrap() {
            g.stats.merge(st);
            samples.extend(sm);
            if let Some(mut fo) = fo {
                fo.family = name.into();
                if best.as_ref().is_none_or(|b| (b.index, b.case.len()) > (fo.index, fo.case.len())) {
                    best = Some(fo);
                }
            }
        }
        samples.sort();
        if let Some((_, c)) = samples.first() {
            if g.samples.len() < 24 {
                let mut d = self.prop.describe(c);
                if d.len() > 400 {
                    d = d.chars().take(400).collect::<String>() + "...";
                }
                g.samples.push(format!("[{name}] {d}"));
            }
        }
        if g.found.is_none() {
            g.found = best;
        }
        let complete = g.found.is_none() && !self.abort.load(SeqCst) && !self.capped.load(SeqCst);
        if self.capped.load(SeqCst) {
            g.capped = true;
        }
        let rep = FamilyReport {
            name: name.into(),
            planned: n,
            execs: g.stats.execs - e0,
            states: g.stats.states - s0,
            transitions: g.stats.transitions - t0_,
            complete,
            wall_ms: t0.elapsed().as_millis() as u64,
        };
        if std::env::var_os("VP_VERBOSE").is_some() {
            eprintln!("  family {:<60} n={} execs={} {} ms", rep.name, rep.planned, rep.execs, rep.wall_ms);
        }
        g.families.push(rep);
        complete
    }
}

pub(crate) fn set_slot(s: *mut Slot) {
    SLOT.with(|c| c.set(s));
}
