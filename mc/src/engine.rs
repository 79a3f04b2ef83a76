//! Exhaustive exploration engine.
//!
//! A `Space` is a finite, indexed set of executions: index -> one complete execution of the real
//! code, compared step by step with a reference model.  The engine runs every index of every space,
//! in order, on all cores; a supervisor process turns aborts and hangs of the code under test into
//! replayable violations.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What one execution found.
pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    /// distinct configurations / model states visited
    pub states: u64,
    /// calls of the implementation whose result was compared with the model
    pub transitions: u64,
    /// complete executions (operation sequences) replayed on the implementation and validated
    pub traces: u64,
    pub skipped: u64,
    pub outcomes: HashSet<u64>,
    pub cats: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub sample_now: bool,
}

const OUTCOME_CAP: usize = 250_000;

impl Ctx {
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    #[inline]
    pub fn outcome<H: Hash + ?Sized>(&mut self, h: &H) {
        if self.outcomes.len() < OUTCOME_CAP {
            let mut s = Fnv::default();
            h.hash(&mut s);
            self.outcomes.insert(s.finish());
        }
    }
    #[inline]
    pub fn cat(&mut self, c: &'static str) {
        *self.cats.entry(c).or_insert(0) += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_now {
            self.sample_now = false;
            self.samples.push(f());
        }
    }
    fn merge(&mut self, o: Ctx) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.skipped += o.skipped;
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.cats {
            *self.cats.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
}

#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub trait Space: Sync + Send {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// Executes index `i`.  May count itself as skipped (symmetric duplicate, invalid encoding).
    fn run(&self, i: u64, c: &mut Ctx) -> Res;
    /// The concrete case in words, for reports.
    fn describe(&self, i: u64) -> String;
}

pub struct FnSpace<F, D> {
    pub name: String,
    pub len: u64,
    pub f: F,
    pub d: D,
}
impl<F, D> Space for FnSpace<F, D>
where
    F: Fn(u64, &mut Ctx) -> Res + Sync + Send,
    D: Fn(u64) -> String + Sync + Send,
{
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.len
    }
    fn run(&self, i: u64, c: &mut Ctx) -> Res {
        (self.f)(i, c)
    }
    fn describe(&self, i: u64) -> String {
        (self.d)(i)
    }
}

pub fn space<F, D>(name: impl Into<String>, len: u64, f: F, d: D) -> Box<dyn Space>
where
    F: Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static,
    D: Fn(u64) -> String + Sync + Send + 'static,
{
    Box::new(FnSpace { name: name.into(), len, f, d })
}

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Box<dyn Space>>,
    /// some spaces need a process-wide order (history independence): run them on one thread
    pub threads: Option<usize>,
}

// ------------------------------------------------------------------------------------------------
// shared progress slots, so that the supervisor knows what a dead worker was doing

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub const SLOTS: usize = 64;
pub const SLOT_BYTES: usize = 64;

/// slot layout: [active, space, index, cases done] as u64
pub struct Slots(*mut AtomicU64);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn open(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots");
        f.set_len((SLOTS * SLOT_BYTES) as u64).expect("slots");
        let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT_BYTES, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slots(p as *mut AtomicU64)
    }
    fn at(&self, slot: usize, k: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(slot * SLOT_BYTES / 8 + k) }
    }
    #[inline]
    pub fn begin(&self, slot: usize, space: u64, index: u64) {
        self.at(slot, 1).store(space, Ordering::Relaxed);
        self.at(slot, 2).store(index, Ordering::Relaxed);
        self.at(slot, 0).store(1, Ordering::Release);
    }
    #[inline]
    pub fn end(&self, slot: usize) {
        self.at(slot, 3).fetch_add(1, Ordering::Relaxed);
        self.at(slot, 0).store(0, Ordering::Release);
    }
    pub fn read(&self, slot: usize) -> (bool, u64, u64, u64) {
        (
            self.at(slot, 0).load(Ordering::Acquire) == 1,
            self.at(slot, 1).load(Ordering::Relaxed),
            self.at(slot, 2).load(Ordering::Relaxed),
            self.at(slot, 3).load(Ordering::Relaxed),
        )
    }
}

// ------------------------------------------------------------------------------------------------
// panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Runs one index; a panic of the code under test is a violation.
pub fn run_case(s: &dyn Space, i: u64, c: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| s.run(i, c))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

// ------------------------------------------------------------------------------------------------
// exploration

pub struct Found {
    pub space: usize,
    pub index: u64,
    pub message: String,
}

pub struct SpaceReport {
    pub name: String,
    pub indices: u64,
    pub executed: u64,
    pub wall_s: f64,
    pub complete: bool,
}

pub struct Report {
    /// indices into the known findings that were met
    pub known_hit: std::collections::BTreeSet<usize>,
    pub ctx: Ctx,
    pub spaces: Vec<SpaceReport>,
    pub found: Vec<Found>,
    pub complete: bool,
}

pub fn explore(
    spaces: &[Box<dyn Space>],
    threads: usize,
    slots: &Slots,
    deadline_s: f64,
    t0: Instant,
    is_known: &(dyn Fn(&dyn Space, u64) -> Option<usize> + Sync),
) -> Report {
    let known_hit: Mutex<std::collections::BTreeSet<usize>> = Mutex::new(Default::default());
    let mut total = Ctx::default();
    let mut reports = Vec::new();
    let mut found: Vec<Found> = Vec::new();
    let mut complete = true;
    let timing = std::env::var_os("MC_TIMING").is_some();
    for (si, s) in spaces.iter().enumerate() {
        let ts = Instant::now();
        let n = s.len();
        let next = AtomicU64::new(0);
        let executed = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let hits: Mutex<Vec<Found>> = Mutex::new(Vec::new());
        let ctxs: Mutex<Vec<Ctx>> = Mutex::new(Vec::new());
        // contiguous chunks, simplest first
        let chunk = (n / (threads as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, executed, stop, hits, ctxs, known_hit) = (&next, &executed, &stop, &hits, &ctxs, &known_hit);
                let body = move || {
                    let mut c = Ctx::default();
                    let mut done = 0u64;
                    'outer: loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > deadline_s {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            // samples: a few spread over the space
                            c.sample_now = i % (n / 3 + 1) == n / 7 && c.samples.len() < 2;
                            slots.begin(t, si as u64, i);
                            let tc = timing.then(Instant::now);
                            let r = run_case(&**s, i, &mut c);
                            slots.end(t);
                            if let Some(x) = tc.map(|x| x.elapsed().as_secs_f64()).filter(|x| *x > 0.5) {
                                eprintln!("slow case {x:.2} s: space {si} index {i}: {}", s.name());
                            }
                            done += 1;
                            if let Err(m) = r {
                                if let Some(k) = is_known(&**s, i) {
                                    known_hit.lock().unwrap().insert(k);
                                    continue;
                                }
                                hits.lock().unwrap().push(Found { space: si, index: i, message: m });
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    executed.fetch_add(done, Ordering::Relaxed);
                    ctxs.lock().unwrap().push(c);
                };
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, body)
                    .expect("spawn");
            }
        });
        for c in ctxs.into_inner().unwrap() {
            total.merge(c);
        }
        let ex = executed.into_inner();
        let whole = ex == n;
        complete &= whole;
        reports.push(SpaceReport {
            name: s.name(),
            indices: n,
            executed: ex,
            wall_s: ts.elapsed().as_secs_f64(),
            complete: whole,
        });
        let mut h = hits.into_inner().unwrap();
        if !h.is_empty() {
            h.sort_by_key(|f| f.index);
            found.extend(h);
            break;
        }
    }
    Report { known_hit: known_hit.into_inner().unwrap(), ctx: total, spaces: reports, found, complete }
}

// ------------------------------------------------------------------------------------------------
// small helpers

pub fn esc(b: &[u8]) -> String {
    if b.len() > 600 {
        return format!("{}...({} bytes)...{}", esc(&b[..200]), b.len(), esc(&b[b.len() - 100..]));
    }
    let mut s = String::from("\"");
    for x in b {
        match x {
            b'\n' => s.push_str("\\n"),
            b'\t' => s.push_str("\\t"),
            b'\r' => s.push_str("\\r"),
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*x as char),
            _ => s.push_str(&format!("\\x{:02x}", x)),
        }
    }
    s.push('"');
    s
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
