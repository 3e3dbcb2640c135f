//! The exploration engine: a property is a list of families, a family is a finite space of cases
//! addressed by an index. Every case is executed on the real code; nothing is sampled.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

/// A cheap deterministic hasher (FNV-like with a final mix).
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0.rotate_left(5) ^ *b as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;

pub fn h(parts: &[u64]) -> u64 {
    let mut f = Fx::default();
    for p in parts {
        f.write_u64(*p);
    }
    f.finish()
}

pub fn hs(s: &str) -> u64 {
    let mut f = Fx::default();
    f.write(s.as_bytes());
    f.finish()
}

/// Per-worker exploration context.
#[derive(Default)]
pub struct Ctx {
    pub states: FxSet,
    pub transitions: u64,
    pub traces: u64,
    /// Set by a case that counts its executions itself.
    pub uncounted: bool,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub tracing: bool,
    pub text: String,
}

impl Ctx {
    /// A transition of the model was taken to the state with this hash, and the real code was
    /// driven through the same step.
    #[inline]
    pub fn visit(&mut self, state: u64) {
        self.transitions += 1;
        self.states.insert(state);
    }
    #[inline]
    pub fn count(&mut self, what: &'static str) {
        *self.outcomes.entry(what).or_insert(0) += 1;
    }
    #[inline]
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            let s = f();
            self.text.push_str(&s);
            self.text.push_str("; ");
        }
    }
}

pub type Run = Box<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>;

pub struct Family {
    pub name: String,
    pub size: u64,
    pub bounds: String,
    pub hang_s: u64,
    pub threads: usize,
    pub run: Run,
}

impl Family {
    pub fn new<F>(name: impl Into<String>, size: u64, bounds: impl Into<String>, run: F) -> Family
    where
        F: Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static,
    {
        Family {
            name: name.into(),
            size,
            bounds: bounds.into(),
            hang_s: 60,
            threads: usize::MAX,
            run: Box::new(run),
        }
    }
    pub fn serial(mut self) -> Family {
        self.threads = 1;
        self
    }
    pub fn hang(mut self, s: u64) -> Family {
        self.hang_s = s;
        self
    }
}

pub struct Property {
    pub families: Vec<Family>,
    pub assumptions: Vec<String>,
}

// ---------------------------------------------------------------- panics

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|l| *l.borrow_mut() = format!("{}", info));
        } else {
            old(info)
        }
    }));
}

/// Runs one case, turning a panic into a violation.
pub fn run_case(f: &Family, idx: u64, ctx: &mut Ctx) -> Res {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| (f.run)(idx, ctx)));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panicked: {}",
            LAST_PANIC.with(|l| l.borrow().replace('\n', " "))
        )),
    }
}

/// Runs a closure of the code under test, turning a panic into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| {
        format!(
            "panicked: {}",
            LAST_PANIC.with(|l| l.borrow().replace('\n', " "))
        )
    })
}

// ---------------------------------------------------------------- journal

pub const SLOTS: usize = 64;
const SLOT_WORDS: usize = 8;

/// A shared memory area in which every worker thread notes the case it is executing, so that the
/// supervisor can name (and re-run) the culprit after a crash or a hang.
#[derive(Clone, Copy)]
pub struct Journal {
    base: *mut u64,
}
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}

impl Journal {
    pub fn open(path: &str) -> std::io::Result<Journal> {
        use std::os::unix::io::AsRawFd;
        let file = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)?;
        let bytes = SLOTS * SLOT_WORDS * 8;
        file.set_len(bytes as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                bytes,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Journal { base: p as *mut u64 })
    }
    fn cell(&self, slot: usize, word: usize) -> &AtomicU64 {
        assert!(slot < SLOTS && word < SLOT_WORDS);
        unsafe { &*(self.base.add(slot * SLOT_WORDS + word) as *const AtomicU64) }
    }
    #[inline]
    pub fn enter(&self, slot: usize, family: u64, idx: u64, seq: u64) {
        self.cell(slot, 1).store(family, Ordering::Relaxed);
        self.cell(slot, 2).store(idx, Ordering::Relaxed);
        self.cell(slot, 3).store(seq, Ordering::Relaxed);
        self.cell(slot, 0).store(1, Ordering::Release);
    }
    pub fn leave(&self, slot: usize) {
        self.cell(slot, 0).store(0, Ordering::Release);
    }
    /// (family, idx, seq) of every active slot.
    pub fn active(&self) -> Vec<(usize, u64, u64, u64)> {
        (0..SLOTS)
            .filter(|s| self.cell(*s, 0).load(Ordering::Acquire) == 1)
            .map(|s| {
                (
                    s,
                    self.cell(s, 1).load(Ordering::Relaxed),
                    self.cell(s, 2).load(Ordering::Relaxed),
                    self.cell(s, 3).load(Ordering::Relaxed),
                )
            })
            .collect()
    }
}

// ---------------------------------------------------------------- exploration

pub struct FamilyReport {
    pub name: String,
    pub bounds: String,
    pub size: u64,
    pub executed: u64,
    pub wall_s: f64,
    pub samples: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub families: Vec<FamilyReport>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub violation: Option<(String, u64, String, String)>, // family, idx, why, trace
}

fn trace_of(f: &Family, idx: u64) -> String {
    let mut c = Ctx {
        tracing: true,
        ..Ctx::default()
    };
    let r = run_case(f, idx, &mut c);
    let mut t = c.text;
    if let Err(e) = r {
        t.push_str("=> ");
        t.push_str(&e);
    }
    t
}

pub fn explore(p: &Property, journal: Option<Journal>, threads: usize) -> Report {
    let mut rep = Report::default();
    let all: Mutex<FxSet> = Mutex::new(FxSet::default());
    for (fi, f) in p.families.iter().enumerate() {
        let t0 = Instant::now();
        let n = threads.min(f.threads).min(f.size.max(1) as usize).max(1);
        let chunk = (f.size / (n as u64 * 64)).clamp(1, 1 << 16);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let merged: Mutex<(u64, u64, u64, BTreeMap<&'static str, u64>)> =
            Mutex::new((0, 0, 0, BTreeMap::new()));
        let worker = |slot: usize| {
            let mut ctx = Ctx::default();
            let mut executed = 0u64;
            let mut seq = 0u64;
            'outer: loop {
                let a = next.fetch_add(chunk, Ordering::Relaxed);
                if a >= f.size {
                    break;
                }
                for idx in a..(a + chunk).min(f.size) {
                    if stop.load(Ordering::Relaxed) {
                        break 'outer;
                    }
                    seq += 1;
                    if let Some(j) = &journal {
                        j.enter(slot, fi as u64, idx, seq);
                    }
                    if let Err(e) = run_case(f, idx, &mut ctx) {
                        let mut g = fail.lock().unwrap();
                        if g.as_ref().map_or(true, |(i, _)| idx < *i) {
                            *g = Some((idx, e));
                        }
                        stop.store(true, Ordering::Relaxed);
                        break 'outer;
                    }
                    if !std::mem::take(&mut ctx.uncounted) {
                        ctx.traces += 1;
                    }
                    executed += 1;
                }
            }
            if let Some(j) = &journal {
                j.leave(slot);
            }
            let mut m = merged.lock().unwrap();
            m.0 += executed;
            m.1 += ctx.transitions;
            m.2 += ctx.traces;
            for (k, v) in &ctx.outcomes {
                *m.3.entry(k).or_insert(0) += v;
            }
            drop(m);
            let mut s = all.lock().unwrap();
            s.extend(ctx.states.iter());
        };
        if n == 1 {
            // A thread of its own: its stack is the same as in the parallel case.
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || worker(0))
                    .unwrap();
            });
        } else {
            let worker = &worker;
            std::thread::scope(|s| {
                for slot in 0..n {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || worker(slot))
                        .unwrap();
                }
            });
        }
        let m = merged.into_inner().unwrap();
        rep.transitions += m.1;
        rep.traces += m.2;
        for (k, v) in m.3 {
            *rep.outcomes.entry(k.to_string()).or_insert(0) += v;
        }
        let mut samples = vec![];
        if f.size > 0 && fail.lock().unwrap().is_none() {
            let mut picks = vec![f.size / 2];
            if f.size > 3 {
                picks.push(f.size - 1);
            }
            for i in picks {
                let mut t = trace_of(f, i);
                if t.len() > 600 {
                    let mut cut = 600;
                    while !t.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    t.truncate(cut);
                    t.push_str("...");
                }
                samples.push(format!("#{}: {}", i, t));
            }
        }
        rep.families.push(FamilyReport {
            name: f.name.clone(),
            bounds: f.bounds.clone(),
            size: f.size,
            executed: m.0,
            wall_s: t0.elapsed().as_secs_f64(),
            samples,
        });
        if let Some((idx, why)) = fail.into_inner().unwrap() {
            let tr = trace_of(f, idx);
            rep.violation = Some((f.name.clone(), idx, why, tr));
            break;
        }
    }
    rep.states = all.into_inner().unwrap().len() as u64;
    rep
}

/// Mixed radix decoding of an index.
pub struct Radix(pub u64);
impl Radix {
    #[inline]
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
}
