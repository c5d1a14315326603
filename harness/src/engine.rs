//! A small property-based testing engine: every random choice of a case is drawn from a
//! `Src`, which records the choices made.  A case is therefore a sequence of bounded
//! integers; replaying the sequence replays the case, and shrinking works on the sequence
//! (delete spans, delete chunks, lower values), re-running the real property each time.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next() ^ r.next().rotate_left(17)
}

/// FNV-1a, for digests that must not depend on the process.
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

enum Mode {
    Rand(Rng),
    Replay(Vec<u32>),
}

/// Source of choices.
pub struct Src {
    mode: Mode,
    pub rec: Vec<u32>,
    spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    budget: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            mode: Mode::Rand(Rng::new(seed)),
            rec: Vec::with_capacity(256),
            spans: Vec::new(),
            open: Vec::new(),
            budget: 1 << 20,
        }
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        Src {
            mode: Mode::Replay(tape),
            rec: Vec::new(),
            spans: Vec::new(),
            open: Vec::new(),
            budget: 1 << 20,
        }
    }
    /// Uniform in 0..n (n >= 1).  A replayed tape that ran out answers 0.
    pub fn draw(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Rand(r) => {
                if self.budget == 0 {
                    0
                } else {
                    self.budget -= 1;
                    ((r.next() >> 32) * n as u64 >> 32) as u32
                }
            }
            Mode::Replay(t) => t.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.rec.push(v);
        v
    }
    pub fn u32(&mut self) -> u32 {
        let v = match &mut self.mode {
            Mode::Rand(r) => (r.next() >> 32) as u32,
            Mode::Replay(t) => t.get(self.rec.len()).copied().unwrap_or(0),
        };
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    /// true with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u32) as usize;
        &xs[i]
    }
    /// Index by weight; shrinks towards index 0.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut v = self.draw(tot.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// Marks a unit (an operation, a field) that the shrinker may delete as a whole.
    pub fn begin(&mut self) {
        self.open.push(self.rec.len());
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            self.spans.push((s, self.rec.len()));
        }
    }
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Replay(t) => self.rec.len() >= t.len(),
            Mode::Rand(_) => self.budget == 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable identification of what is broken (used for known findings).
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail {
            sig: sig.into(),
            msg: msg.into(),
        }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::engine::Fail::new($sig, format!($($arg)*))); } };
}

/// What a case reports about itself.
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub log: Option<Vec<String>>,
    pub cls: u64,
    /// of numbered cases: how many of the following numbers mean nothing
    pub skip: u64,
}
impl Ctx {
    fn new(verbose: bool) -> Self {
        Ctx {
            nontrivial: false,
            labels: Vec::new(),
            log: if verbose { Some(Vec::new()) } else { None },
            cls: 0,
            skip: 0,
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn log_len(&self) -> usize {
        self.log.as_ref().map_or(0, |v| v.len())
    }
    pub fn log_cut(&mut self, n: usize) {
        if let Some(v) = &mut self.log {
            v.truncate(n);
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(v) = &mut self.log {
            if v.len() < 4000 {
                v.push(f());
            }
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Runs library code; a panic becomes an Err with the message and location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub type CaseFn<'a> = &'a (dyn Fn(&mut Src, &mut Ctx) -> Res + Sync);

pub type KnownFn<'a> = &'a (dyn Fn(&Fail) -> Option<String> + Sync);

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            if m.contains("src/checks") || m.contains("/harness/src/") || m.starts_with("HARNESS") {
                // a defect of the harness itself: never reported as a violation
                eprintln!("HARNESS ERROR: {m}");
                if let Some(v) = &ctx.log {
                    for l in v {
                        eprintln!("  {l}");
                    }
                }
                std::process::exit(3);
            }
            Err(Fail::new("panic", format!("panic: {m}")))
        }
    }
}

#[derive(Default)]
pub struct Totals {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub excluded_known: u64,
}

pub struct Failure {
    pub stage: String,
    pub tape: Vec<u32>,
    pub fail: Fail,
    pub log: Vec<String>,
    pub case_no: u64,
    pub known: Option<String>,
}

pub struct Stage<'a> {
    pub name: &'a str,
    pub cases: u64,
    /// Case i is the i-th element of a finite space instead of a random draw.
    pub exhaustive: bool,
    pub f: CaseFn<'a>,
}

pub fn source(stage: &Stage, base: u64, i: u64) -> Src {
    if stage.exhaustive {
        Src::replay(vec![i as u32, (i >> 32) as u32])
    } else {
        Src::random(mix(base, i))
    }
}

pub struct Outcome {
    pub totals: Totals,
    pub failures: Vec<Failure>,
}

pub const WATCHDOG_SECS: u64 = 120;
/// No case needs more than a few MiB at a time.
const MEMORY_LIMIT: i64 = 2 << 30;

/// What is being explored, for reports about a case that never comes back.
pub static WHERE: Mutex<(String, String, u64)> = Mutex::new((String::new(), String::new(), 0));
thread_local! {
    static CASE: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(i64::MIN) };
}
/// Counts the live bytes of the running case: an event list that never ends must not take the
/// machine down with it.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn count(n: i64) {
    let over = LIVE.try_with(|c| {
        let v = c.get();
        if v == i64::MIN {
            return false;
        }
        c.set(v + n);
        v + n > MEMORY_LIMIT
    });
    if over == Ok(true) {
        let _ = LIVE.try_with(|c| c.set(i64::MIN));
        runaway(CASE.with(|c| c.get()), "allocates without end");
    }
}
/// The running case legitimately holds some GiB.
pub fn big_case() {
    LIVE.with(|c| c.set(c.get().saturating_sub(6 << 30)));
}
fn cpu_ticks(task: &str) -> u64 {
    let t = std::fs::read_to_string(format!("/proc/{task}/stat")).unwrap_or_default();
    let r = t.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = r.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
/// A case does not end: like a panic, that breaks whatever the check promises about the call.
pub fn runaway(case: u64, why: &str) -> ! {
    let (id, stage, seed) = WHERE.lock().map(|g| g.clone()).unwrap_or_default();
    eprintln!("RUNAWAY: property {id} stage {stage} case {case} seed {seed} {why}");
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into());
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let path = format!("{root}/replays/{id}-runaway.replay");
    let _ = std::fs::write(&path, format!("property {id}\nstage {stage}\nseed {seed}\ncase {case}\nsignature runaway\n\na call {why}\n"));
    println!("VIOLATION property={id} replay={path}");
    println!("  stage={stage} signature=runaway: case {case} of seed {seed} {why}");
    std::process::exit(1);
}

/// Runs `stage.cases` cases on 8 threads.  Deterministic in (seed, stage): case i is a pure
/// function of the seed and i; the failure with the lowest index is the one shrunk.
pub fn base_of(seed: u64, name: &str) -> u64 {
    mix(seed, fnv(name.as_bytes()))
}
pub fn run_stage(seed: u64, stage: &Stage, known: KnownFn) -> Outcome {
    let base = base_of(seed, stage.name);
    let next = AtomicU64::new(0);
    let best_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<BTreeMap<u64, (Vec<u32>, Fail)>> = Mutex::new(BTreeMap::new());
    let known_hits: Mutex<BTreeMap<String, (u64, Vec<u32>, Fail)>> = Mutex::new(BTreeMap::new());
    let merged: Mutex<(Totals, HashSet<u64>)> = Mutex::new((Totals::default(), HashSet::new()));
    let nthreads = 8;
    // numbered cases lie in blocks of which parts are skipped
    let block: u64 = if stage.exhaustive { if stage.cases < 128 { 1 } else { (stage.cases / 4096).clamp(16, 1 << 20) } } else { (stage.cases / 64).clamp(1, 16) };
    let started: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let tasks: Vec<Mutex<String>> = (0..nthreads).map(|_| Mutex::new(String::new())).collect();
    let ticks: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for t in 0..nthreads {
            let (next, best_fail, fails, known_hits, merged, started, current, tasks) = (
                &next, &best_fail, &fails, &known_hits, &merged, &started, &current, &tasks,
            );
            hs.push(
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let mut tot = Totals::default();
                        let mut seen: HashSet<u64> = HashSet::new();
                        *tasks[t].lock().unwrap() = std::fs::read_link("/proc/thread-self").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
                        'outer: loop {
                            let b = next.fetch_add(block, Ordering::Relaxed);
                            if b >= stage.cases {
                                break;
                            }
                            let mut to_come = b;
                            while to_come < (b + block).min(stage.cases) {
                                let i = to_come;
                                to_come += 1;
                                if i > best_fail.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                started[t].store(
                                    t0.elapsed().as_millis() as u64 + 1,
                                    Ordering::Relaxed,
                                );
                                current[t].store(i, Ordering::Relaxed);
                                CASE.with(|c| c.set(i));
                                LIVE.with(|c| c.set(0));
                                let mut src = source(stage, base, i);
                                let mut ctx = Ctx::new(false);
                                let r = run_case(stage.f, &mut src, &mut ctx);
                                tot.evaluations += 1;
                                for l in &ctx.labels {
                                    *tot.labels.entry(l.to_string()).or_default() += 1;
                                }
                                to_come += ctx.skip;
                                if ctx.nontrivial && stage.exhaustive {
                                    // every number is another case
                                    tot.nontrivial += 1;
                                    tot.distinct += 1;
                                } else if ctx.nontrivial {
                                    tot.nontrivial += 1;
                                    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ ctx.cls;
                                    for v in &src.rec {
                                        h = (h ^ *v as u64).wrapping_mul(0x1000_0000_01b3);
                                    }
                                    seen.insert(h);
                                }
                                if let Err(f) = r {
                                    let k = known(&f);
                                    if let Some(k) = k {
                                        tot.excluded_known += 1;
                                        let mut g = known_hits.lock().unwrap();
                                        let e = g.entry(k);
                                        match e {
                                            std::collections::btree_map::Entry::Vacant(v) => {
                                                v.insert((i, src.rec, f));
                                            }
                                            std::collections::btree_map::Entry::Occupied(mut o) => {
                                                if o.get().0 > i {
                                                    o.insert((i, src.rec, f));
                                                }
                                            }
                                        }
                                    } else {
                                        best_fail.fetch_min(i, Ordering::Relaxed);
                                        fails.lock().unwrap().insert(i, (src.rec, f));
                                    }
                                }
                            }
                        }
                        started[t].store(0, Ordering::Relaxed);
                        let mut m = merged.lock().unwrap();
                        m.0.evaluations += tot.evaluations;
                        m.0.nontrivial += tot.nontrivial;
                        m.0.excluded_known += tot.excluded_known;
                        m.0.distinct += tot.distinct;
                        for (k, v) in tot.labels {
                            *m.0.labels.entry(k).or_default() += v;
                        }
                        m.1.extend(seen);
                    })
                    .unwrap(),
            );
        }
        let (done_r, started_r, current_r, tasks_r, ticks_r) = (&done, &started, &current, &tasks, &ticks);
        let wd = sc.spawn(move || {
            let mut last = vec![0u64; nthreads];
            while !done_r.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for t in 0..nthreads {
                    let s = started_r[t].load(Ordering::Relaxed);
                    if s == 0 || now < s + 1000 {
                        last[t] = 0;
                        continue;
                    }
                    // a long case: how much processor time does it get?
                    if last[t] != s {
                        last[t] = s;
                        ticks_r[t].store(cpu_ticks(&tasks_r[t].lock().unwrap()), Ordering::Relaxed);
                    }
                    if now > s + WATCHDOG_SECS * 1000 {
                        let used = cpu_ticks(&tasks_r[t].lock().unwrap()) - ticks_r[t].load(Ordering::Relaxed);
                        let case = current_r[t].load(Ordering::Relaxed);
                        if used > 60 * 100 {
                            runaway(case, "does not return");
                        }
                        if now > s + 4 * WATCHDOG_SECS * 1000 {
                            eprintln!("WATCHDOG: stage {} case {case} (seed {seed}) gets no processor time", stage.name);
                            std::process::exit(4);
                        }
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::Relaxed);
        wd.join().unwrap();
    });
    let (mut totals, seen) = merged.into_inner().unwrap();
    totals.distinct += seen.len() as u64;
    // samples: the first non-trivial cases, rendered
    for i in 0..2000u64.min(stage.cases) {
        if totals.samples.len() >= 2 || i >= 200 && !stage.exhaustive {
            break;
        }
        // of numbered cases, some from anywhere
        let i = if stage.exhaustive { mix(1, i) % stage.cases } else { i };
        let mut src = source(stage, base, i);
        let mut ctx = Ctx::new(true);
        let _ = run_case(stage.f, &mut src, &mut ctx);
        if ctx.nontrivial {
            let mut lines = ctx.log.unwrap_or_default();
            let n = lines.len();
            if n > 40 {
                lines.truncate(40);
                lines.push(format!("... ({} more lines)", n - 40));
            }
            totals
                .samples
                .push(format!("[{} case {i}] {}", stage.name, lines.join(" | ")));
        }
    }
    let mut failures = Vec::new();
    let fails = fails.into_inner().unwrap();
    if let Some((i, (tape, f))) = fails.into_iter().next() {
        let (tape, fail, log) = shrink(stage, tape, f, known);
        failures.push(Failure {
            stage: stage.name.to_string(),
            tape,
            fail,
            log,
            case_no: i,
            known: None,
        });
    }
    for (k, (i, tape, fail)) in known_hits.into_inner().unwrap() {
        failures.push(Failure {
            stage: stage.name.to_string(),
            tape,
            fail,
            log: vec![],
            case_no: i,
            known: Some(k),
        });
    }
    Outcome { totals, failures }
}

/// Runs one case of a campaign again, under the same limits.
pub fn one_case(seed: u64, case: u64, stage: &Stage) -> i32 {
    std::thread::scope(|sc| {
        let h = sc.spawn(move || {
            CASE.with(|c| c.set(case));
            LIVE.with(|c| c.set(0));
            let mut src = source(stage, base_of(seed, stage.name), case);
            run_case(stage.f, &mut src, &mut Ctx::new(false))
        });
        let t0 = Instant::now();
        while !h.is_finished() {
            std::thread::sleep(Duration::from_millis(20));
            if t0.elapsed().as_secs() > WATCHDOG_SECS {
                runaway(case, "does not return");
            }
        }
        match h.join() {
            Ok(Ok(())) => {
                println!("the case ends, the property holds");
                0
            }
            Ok(Err(f)) => {
                println!("signature={} {}", f.sig, f.msg);
                1
            }
            Err(_) => 3,
        }
    })
}
pub fn replay(stage: &Stage, tape: &[u32]) -> (Res, Vec<String>) {
    let mut src = Src::replay(tape.to_vec());
    let mut ctx = Ctx::new(true);
    let r = run_case(stage.f, &mut src, &mut ctx);
    (r, ctx.log.unwrap_or_default())
}

fn attempt(
    stage: &Stage,
    tape: Vec<u32>,
    known: KnownFn,
) -> Option<(Vec<u32>, Vec<(usize, usize)>, Fail)> {
    let mut src = Src::replay(tape);
    let mut ctx = Ctx::new(false);
    match run_case(stage.f, &mut src, &mut ctx) {
        Err(f) if known(&f).is_none() => {
            // not trimmed: a history may end where the tape does
            Some((src.rec, src.spans, f))
        }
        _ => None,
    }
}

/// Internal test-case reduction.
fn shrink(
    stage: &Stage,
    tape: Vec<u32>,
    fail: Fail,
    known: KnownFn,
) -> (Vec<u32>, Fail, Vec<String>) {
    let deadline = Instant::now() + Duration::from_secs(20);
    let mut evals = 0u32;
    let better = |a: &[u32], b: &[u32]| -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    };
    let (mut cur, mut spans, mut cf) = match attempt(stage, tape.clone(), known) {
        Some(x) => x,
        None => (tape, vec![], fail),
    };
    loop {
        let mut improved = false;
        let mut try_tape = |cand: Vec<u32>,
                            cur: &mut Vec<u32>,
                            spans: &mut Vec<(usize, usize)>,
                            cf: &mut Fail|
         -> bool {
            evals += 1;
            if evals > 20000 || Instant::now() > deadline {
                return false;
            }
            if let Some((rec, sp, f)) = attempt(stage, cand, known) {
                if better(&rec, cur) {
                    *cur = rec;
                    *spans = sp;
                    *cf = f;
                    return true;
                }
            }
            false
        };
        // 1. delete whole spans, largest first, from the end
        let mut i = 0;
        loop {
            let mut order: Vec<(usize, usize)> = spans
                .iter()
                .copied()
                .filter(|s| s.1 > s.0 && s.1 <= cur.len())
                .collect();
            order.sort_by_key(|s| (std::cmp::Reverse(s.0), std::cmp::Reverse(s.1)));
            if i >= order.len() {
                break;
            }
            let (a, b) = order[i];
            let mut cand = cur.clone();
            cand.drain(a..b);
            if try_tape(cand, &mut cur, &mut spans, &mut cf) {
                improved = true;
            } else {
                i += 1;
            }
        }
        // 2. delete chunks
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 {
            let mut pos = cur.len();
            while pos >= size && pos > 0 {
                let a = pos - size;
                if a + size <= cur.len() {
                    let mut cand = cur.clone();
                    cand.drain(a..a + size);
                    if try_tape(cand, &mut cur, &mut spans, &mut cf) {
                        improved = true;
                    }
                }
                if pos <= size {
                    break;
                }
                pos = (pos - size).min(cur.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 3. lower values
        let mut p = 0;
        while p < cur.len() {
            if cur[p] > 0 {
                let orig = cur[p];
                let mut cand = cur.clone();
                cand[p] = 0;
                if try_tape(cand, &mut cur, &mut spans, &mut cf) {
                    improved = true;
                } else {
                    let (mut lo, mut hi) = (0u32, orig);
                    let mut steps = 0;
                    while lo + 1 < hi && steps < 12 && p < cur.len() {
                        steps += 1;
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = cur.clone();
                        cand[p] = mid;
                        if try_tape(cand, &mut cur, &mut spans, &mut cf) {
                            improved = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if p < cur.len() && cur[p] > 0 && cur[p] <= 8 {
                        let mut cand = cur.clone();
                        cand[p] -= 1;
                        if try_tape(cand, &mut cur, &mut spans, &mut cf) {
                            improved = true;
                        }
                    }
                }
            }
            p += 1;
        }
        if !improved || evals > 20000 || Instant::now() > deadline {
            break;
        }
    }
    let (r, log) = replay(stage, &cur);
    if let Err(f) = r {
        cf = f;
    }
    (cur, cf, log)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i >= 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}
