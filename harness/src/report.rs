//! Running cases on all cores, collecting what the monitors observed, reporting violations.
use crate::rng::{Rng, hash_str, mix};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// More than any check needs by far.
const MAX_RSS: u64 = 12 << 30;

fn rss_bytes() -> u64 {
    let pages = std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|n| n.parse::<u64>().ok()))
        .unwrap_or(0);
    pages * 4096
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation of the property, with what was observed.
#[derive(Debug)]
pub struct Fail(pub String);
pub type R<T = ()> = Result<T, Fail>;

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail(s)
    }
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::report::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::report::Fail(format!($($t)*))) } };
}

/// What one worker observed.
#[derive(Default)]
pub struct Obs {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<(String, u64, String)>,
}

impl Obs {
    fn merge(&mut self, o: Obs) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let m = self.maxima.entry(k).or_default();
            *m = (*m).max(v);
        }
        self.samples.extend(o.samples);
    }
}

/// Everything a case may use.
pub struct Ctx<'a> {
    pub prop: &'static str,
    pub stage: &'static str,
    pub idx: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub obs: &'a mut Obs,
    /// Set when replaying: the operations are written down.
    pub trace: Option<Vec<String>>,
}

impl Ctx<'_> {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.obs.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let m = self.obs.maxima.entry(k).or_default();
        *m = (*m).max(v);
    }
    /// Declares the case non-trivial, with a fingerprint of what was special about it.
    pub fn nontrivial(&mut self, fp: u64) {
        self.obs.distinct.insert(mix(fp, hash_str(self.stage)));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.obs.samples.push((self.stage.to_string(), self.idx, s));
        }
    }
    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 20000 {
                t.push(f());
            }
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

pub struct Violation {
    pub stage: String,
    pub idx: u64,
    pub msg: String,
    pub trace: Vec<String>,
}

pub struct Runner {
    pub prop: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub obs: Obs,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    pub stages: Vec<(String, u64, u64, f64)>,
    pub only: Option<(String, u64)>,
    pub start: Instant,
    pub budget: Duration,
    pub rule: String,
    pub extra: Vec<(String, String)>,
    pub assumptions: Vec<String>,
    pub findings: Vec<String>,
    /// Multiplies the number of cases (thorough runs of a long sweep).
    pub scale: f64,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info
            .location()
            .map_or_else(String::new, |l| format!("{}:{}", l.file(), l.line()));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        if !QUIET.with(std::cell::Cell::get) {
            default(info);
        }
    }));
}

pub enum Caught<T> {
    Ok(T),
    /// (location, message)
    Panic(String, String),
}

/// Runs `f`, turning a panic into its location and message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    match r {
        Ok(v) => Caught::Ok(v),
        Err(_) => {
            let (l, m) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or((String::new(), "?".into()));
            Caught::Panic(l, m)
        }
    }
}

/// A panic raised by the harness' own code, as opposed to the code under test (or a library
/// called by it).
fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

struct Slot {
    idx: AtomicU64,
    busy: AtomicBool,
    clock: AtomicU64,
    cpu_at_start: AtomicU64,
    /// When the case started, in milliseconds since the start of the run
    wall_at_start: AtomicU64,
}

#[cfg(not(miri))]
fn own_clock() -> u64 {
    let mut clk: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
    }
    clk as u32 as u64
}
#[cfg(not(miri))]
fn cpu_ms(clk: u64) -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    let r = unsafe { libc::clock_gettime(clk as u32 as libc::clockid_t, &mut ts) };
    if r != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
#[cfg(miri)]
fn own_clock() -> u64 {
    0
}
#[cfg(miri)]
fn cpu_ms(_: u64) -> u64 {
    0
}

/// CPU time one case may use before it is reported as a hang of the code under test.
/// Cases normally take milliseconds; the largest a few seconds.
const HANG_CPU_MS: u64 = 90_000;
/// The same for time in which nothing is computed: waiting for something that never comes.
const HANG_WALL_MS: u64 = 400_000;

impl Runner {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Picks the number of cases by tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough() { thorough * 20 } else { quick * 10 };
        ((n as f64) * self.scale).ceil() as u64
    }

    /// The same for stages with few large cases, or with tables of cases.
    pub fn nf(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough() { thorough } else { quick };
        ((n as f64) * self.scale).ceil() as u64
    }

    pub fn stage<F>(&mut self, stage: &'static str, n: u64, f: F)
    where
        F: Fn(&mut Ctx) -> R + Sync,
    {
        self.stage_threads(stage, n, 8, f);
    }

    /// Runs the cases 0..n of a stage.
    pub fn stage_threads<F>(&mut self, stage: &'static str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Ctx) -> R + Sync,
    {
        let (lo, hi, replaying) = match &self.only {
            Some((s, i)) if s == stage => (*i, *i + 1, true),
            Some(_) => return,
            None => (0, n, false),
        };
        let t0 = Instant::now();
        let next = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let merged: Mutex<Obs> = Mutex::new(Obs::default());
        let viol: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
        let herr: Mutex<Vec<String>> = Mutex::new(Vec::new());
        let threads = if replaying || cfg!(miri) { 1 } else { threads };
        let alive = AtomicUsize::new(threads);
        let slots: Vec<Slot> = (0..threads)
            .map(|_| Slot {
                idx: AtomicU64::new(0),
                busy: AtomicBool::new(false),
                clock: AtomicU64::new(0),
                cpu_at_start: AtomicU64::new(0),
                wall_at_start: AtomicU64::new(0),
            })
            .collect();
        let (prop, seed, tier) = (self.prop, self.seed, self.tier);
        // Each stage gets some time, however slow those before it were
        let deadline = (self.start + self.budget).max(t0 + self.budget / 40);

        let t_start = self.start;
        let wall = move || t_start.elapsed().as_millis() as u64;

        let run_one = |idx: u64, obs: &mut Obs, tracing: bool| -> (Caught<R>, Vec<String>) {
            let mut ctx = Ctx {
                prop,
                stage,
                idx,
                tier,
                rng: Rng::new(mix(
                    mix(seed, hash_str(prop)),
                    mix(hash_str(stage), idx.wrapping_mul(0x2545_F491_4F6C_DD1D)),
                )),
                obs,
                trace: if tracing { Some(Vec::new()) } else { None },
            };
            let r = catch(|| f(&mut ctx));
            (r, ctx.trace.unwrap_or_default())
        };

        let worker = |slot: &Slot| {
            let mut obs = Obs::default();
            slot.clock.store(own_clock(), Ordering::SeqCst);
            loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                if !replaying && Instant::now() > deadline {
                    break;
                }
                let idx = next.fetch_add(1, Ordering::Relaxed);
                if idx >= hi {
                    break;
                }
                slot.idx.store(idx, Ordering::SeqCst);
                slot.cpu_at_start
                    .store(cpu_ms(slot.clock.load(Ordering::SeqCst)), Ordering::SeqCst);
                slot.wall_at_start.store(wall(), Ordering::SeqCst);
                slot.busy.store(true, Ordering::SeqCst);
                let (r, trace) = run_one(idx, &mut obs, replaying);
                slot.busy.store(false, Ordering::SeqCst);
                obs.evaluations += 1;
                done.fetch_add(1, Ordering::Relaxed);
                let msg = match r {
                    Caught::Ok(Ok(())) => {
                        if replaying {
                            for l in &trace {
                                println!("  {l}");
                            }
                        }
                        continue;
                    }
                    Caught::Ok(Err(Fail(m))) if m.starts_with("HARNESS") => {
                        herr.lock().unwrap().push(format!("{stage}#{idx}: {m}"));
                        stop.store(true, Ordering::Relaxed);
                        continue;
                    }
                    Caught::Ok(Err(Fail(m))) => m,
                    Caught::Panic(loc, m) => {
                        if is_harness_location(&loc) {
                            herr.lock()
                                .unwrap()
                                .push(format!("{stage}#{idx}: harness panic at {loc}: {m}"));
                            stop.store(true, Ordering::Relaxed);
                            continue;
                        }
                        format!("panic at {loc}: {m}")
                    }
                };
                stop.store(true, Ordering::Relaxed);
                let trace = if replaying {
                    trace
                } else {
                    // Cases are deterministic, a second run writes down what happens.
                    run_one(idx, &mut Obs::default(), true).1
                };
                viol.lock().unwrap().push(Violation {
                    stage: stage.to_string(),
                    idx,
                    msg,
                    trace,
                });
            }
            merged.lock().unwrap().merge(obs);
            alive.fetch_sub(1, Ordering::SeqCst);
        };

        if cfg!(miri) {
            worker(&slots[0]);
        } else {
            let mut hang: Option<(u64, String)> = None;
            std::thread::scope(|s| {
                let w = &worker;
                for slot in &slots {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || w(slot))
                        .expect("spawn");
                }
                let mut round = 0u32;
                while alive.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(2));
                    round += 1;
                    if round % 32 == 0 && rss_bytes() > MAX_RSS {
                        let idx = slots.iter().map(|s| s.idx.load(Ordering::SeqCst)).min().unwrap_or(0);
                        self.violations.push(Violation {
                            stage: stage.to_string(),
                            idx,
                            msg: format!(
                                "memory use ran away (more than {} GiB), in this case or one of those running at the same time",
                                MAX_RSS >> 30
                            ),
                            trace: Vec::new(),
                        });
                        self.finish_and_exit();
                    }
                    for slot in &slots {
                        if slot.busy.load(Ordering::SeqCst) && alive.load(Ordering::SeqCst) > 0 {
                            let start = slot.cpu_at_start.load(Ordering::SeqCst);
                            let idx = slot.idx.load(Ordering::SeqCst);
                            let used = cpu_ms(slot.clock.load(Ordering::SeqCst)).saturating_sub(start);
                            let waited = wall().saturating_sub(slot.wall_at_start.load(Ordering::SeqCst));
                            if (used > HANG_CPU_MS || waited > HANG_WALL_MS)
                                && slot.busy.load(Ordering::SeqCst)
                                && slot.idx.load(Ordering::SeqCst) == idx
                            {
                                hang = Some((idx, if used > HANG_CPU_MS {
                                    format!("no progress: the case used more than {} s of CPU time (hang or unbounded work)", HANG_CPU_MS / 1000)
                                } else {
                                    format!("no progress: the case did not end within {} s", HANG_WALL_MS / 1000)
                                }));
                            }
                        }
                    }
                    if let Some((idx, msg)) = hang.take() {
                        // The stuck thread can not be stopped: report and leave.
                        let v = Violation {
                            stage: stage.to_string(),
                            idx,
                            msg,
                            trace: Vec::new(),
                        };
                        self.violations.push(v);
                        self.finish_and_exit();
                    }
                }
            });
        }
        let mut violations = viol.into_inner().unwrap();
        violations.sort_by_key(|v| v.idx);
        self.violations.extend(violations);
        self.harness_errors.extend(herr.into_inner().unwrap());
        self.obs.merge(merged.into_inner().unwrap());
        self.stages.push((
            stage.to_string(),
            n,
            done.load(Ordering::SeqCst),
            t0.elapsed().as_secs_f64(),
        ));
    }

    /// Writes the evidence and replay files, prints the verdict and returns the exit code.
    pub fn finish(&mut self) -> i32 {
        let replaying = self.only.is_some();
        let dir = std::env::var("ZV_EVIDENCE_DIR").unwrap_or_else(|_| "/verif/evidence".into());
        let _ = std::fs::create_dir_all(&dir);
        let mut lines = Vec::new();
        for v in &self.violations {
            let path = if replaying {
                String::from("-")
            } else {
                format!("{dir}/replay-{}-{}-{}.txt", self.prop, v.stage, v.idx)
            };
            if !replaying {
                let mut s = format!(
                    "property={}\nseed={}\ntier={}\nstage={}\nidx={}\nmessage={}\n\nReplay: bash /verif/check.sh --replay {path}\n\n",
                    self.prop,
                    self.seed,
                    if self.thorough() { "thorough" } else { "quick" },
                    v.stage,
                    v.idx,
                    v.msg
                );
                let skip = v.trace.len().saturating_sub(400);
                if skip > 0 {
                    s.push_str(&format!("... {skip} earlier operations\n"));
                }
                for l in &v.trace[skip..] {
                    s.push_str(l);
                    s.push('\n');
                }
                let _ = std::fs::write(&path, s);
            } else {
                for l in &v.trace {
                    println!("  {l}");
                }
            }
            println!("  {}#{}: {}", v.stage, v.idx, v.msg);
            lines.push(format!("VIOLATION property={} replay={path}", self.prop));
        }
        lines.truncate(5);
        for l in &lines {
            println!("{l}");
        }
        for e in &self.harness_errors {
            println!("HARNESS-ERROR {e}");
        }
        for e in &self.findings {
            println!("KNOWN-FINDING: property={} {e}", self.prop);
        }
        if !replaying {
            self.write_evidence(&dir);
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
            self.prop,
            self.obs.evaluations,
            self.obs.distinct.len(),
            self.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        if !self.violations.is_empty() {
            1
        } else if !self.harness_errors.is_empty() {
            2
        } else if !replaying
            && (self.obs.distinct.len() as u64).min(self.obs.evaluations) == 0
        {
            println!("HARNESS-ERROR nothing was observed");
            2
        } else {
            0
        }
    }

    fn finish_and_exit(&mut self) -> ! {
        // Leaves even when the output can not be written (the reader of the pipe is gone)
        let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.finish())).unwrap_or(1);
        std::process::exit(c)
    }

    fn write_evidence(&self, dir: &str) {
        let mut s = String::new();
        s.push_str("{\n");
        s.push_str(&format!(" \"property\": {},\n", js(self.prop)));
        s.push_str(&format!(
            " \"tier\": {},\n",
            js(if self.thorough() { "thorough" } else { "quick" })
        ));
        s.push_str(&format!(" \"seed\": {},\n", self.seed));
        s.push_str(&format!(" \"level\": {},\n", js(crate::level(self.prop))));
        s.push_str(" \"coverage\": {\n");
        s.push_str(&format!("  \"evaluations\": {},\n", self.obs.evaluations));
        s.push_str(&format!(
            "  \"distinct_nontrivial\": {},\n",
            self.obs.distinct.len()
        ));
        s.push_str(&format!("  \"rule\": {},\n", js(&self.rule)));
        s.push_str("  \"observed\": {");
        let mut first = true;
        for (k, v) in self.obs.counters.iter().chain(self.obs.maxima.iter()) {
            if !first {
                s.push_str(", ");
            }
            first = false;
            s.push_str(&format!("{}: {v}", js(k)));
        }
        s.push_str("},\n");
        s.push_str("  \"stages\": [");
        for (i, (name, planned, done, secs)) in self.stages.iter().enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            s.push_str(&format!(
                "{{\"stage\": {}, \"planned\": {planned}, \"done\": {done}, \"seconds\": {secs:.2}}}",
                js(name)
            ));
        }
        s.push_str("],\n");
        for (k, v) in &self.extra {
            s.push_str(&format!("  {}: {v},\n", js(k)));
        }
        s.push_str("  \"samples\": [");
        let mut samples = self.obs.samples.clone();
        samples.sort();
        for (i, (st, idx, v)) in samples.iter().take(16).enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            s.push_str(&js(&format!("{st}#{idx}: {v}")));
        }
        s.push_str("]\n },\n");
        if !self.assumptions.is_empty() {
            s.push_str(" \"assumptions\": [");
            for (i, a) in self.assumptions.iter().enumerate() {
                if i > 0 {
                    s.push_str(", ");
                }
                s.push_str(&js(a));
            }
            s.push_str("],\n");
        }
        s.push_str(&format!(
            " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.start.elapsed().as_secs_f64(),
            self.violations.len()
        ));
        let _ = std::fs::write(format!("{dir}/{}.json", self.prop), s);
    }
}

/// JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
