//! Stateless exhaustive exploration of choice trees against the real code.
//!
//! A scenario is a deterministic function of the answers it gets from `Ctx::choose`.  The engine
//! runs it once for every complete answer vector: an execution replays a prefix, answers 0 after
//! it, and every alternative answer at a position behind the prefix becomes a new prefix.  That
//! visits each leaf of the choice tree exactly once.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Why an execution stopped.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Fail>;
pub fn fail<T>(key: &str, msg: impl Into<String>) -> R<T> {
    Err(Fail { key: key.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! bail {
    ($key:expr, $($a:tt)*) => { return $crate::explore::fail($key, format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => { if !$c { return $crate::explore::fail($key, format!($($a)*)) } };
}

pub struct Ctx {
    prefix: Vec<u32>,
    pub choices: Vec<u32>,
    arity: Vec<u32>,
    pub record: bool,
    pub trace: Vec<String>,
    pub steps: u64,
    pub states: Vec<u64>,
    pub outcome: u64,
    pub diverged: bool,
}

impl Ctx {
    pub fn new(prefix: Vec<u32>, record: bool) -> Self {
        Ctx { prefix, choices: vec![], arity: vec![], record, trace: vec![], steps: 0, states: vec![], outcome: 0, diverged: false }
    }
    /// Ask for one of `n` answers.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: empty choice");
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            self.diverged = true;
            panic!("harness: replay diverged at choice {i}: {c} of {n}");
        }
        self.choices.push(c);
        self.arity.push(n as u32);
        c as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A number in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.record {
            let s = f();
            self.trace.push(s);
        }
    }
    /// One operation of the implementation (a transition).
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// An observed state (hashed).
    pub fn state<H: Hash + ?Sized>(&mut self, h: &H) {
        self.states.push(hash(h));
    }
}

pub fn hash<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

pub type Body = Arc<dyn Fn(&mut Ctx) -> R + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub bounds: String,
    pub body: Body,
    /// Single executions take long: allow minutes, do not replay samples.
    pub slow: bool,
}
pub fn scenario(name: &str, bounds: &str, body: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) -> Scenario {
    Scenario { name: name.into(), bounds: bounds.into(), body: Arc::new(body), slow: false }
}
pub fn slow(mut s: Scenario) -> Scenario {
    s.slow = true;
    s
}

// ---------------------------------------------------------------- panics

#[derive(Clone, Debug, Default)]
pub struct PanicInfo {
    pub file: String,
    pub line: u32,
    pub msg: String,
}
impl PanicInfo {
    fn is_harness(&self) -> bool {
        self.file.starts_with("src/") || self.file.contains("/mc/src/") || self.msg.starts_with("harness:")
    }
}
thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<PanicInfo>> = const { std::cell::RefCell::new(None) };
    /// Set by devices when the implementation exceeds its operation budget.
    pub static LIVELOCK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic outside an execution at {file}:{line}: {msg}");
        }
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(PanicInfo { file, line, msg });
            }
        });
    }));
}

/// The panic of code that belongs to the application, injected by a check.
struct Injected;
pub fn injected_panic() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}
#[derive(Debug)]
pub struct Panicked;
/// Run a call in which an injected panic may occur. Other panics pass through.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) if p.is::<Injected>() => Err(Panicked),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Run part of an execution on another thread: a panic of the library becomes a failure there,
/// one of the harness a failure whose message starts "harness:".
pub fn contained<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    QUIET.with(|q| q.set(true));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) if p.is::<Injected>() => fail("panic", "an injected panic came through"),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if p.is_harness() {
                return fail("harness", format!("harness: panic at {}:{}: {}", p.file, p.line, p.msg));
            }
            fail("panic", format!("panic in library code at {}:{}: {}", p.file, p.line, p.msg))
        }
    }
}

pub enum Ran {
    Ok,
    Fail(Fail),
    Engine(String),
}

/// Run one execution under catch_unwind.
pub fn execute(body: &Body, ctx: &mut Ctx) -> Ran {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    LIVELOCK.with(|l| l.set(false));
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(ctx)));
    QUIET.with(|q| q.set(false));
    if LIVELOCK.with(|l| l.get()) {
        return Ran::Fail(Fail { key: "livelock".into(), msg: "a library call exceeded its budget of stream operations (endless loop)".into() });
    }
    match r {
        Ok(Ok(())) => {
            if ctx.choices.len() < ctx.prefix.len() {
                return Ran::Engine(format!("replay diverged: {} choices asked, prefix has {}", ctx.choices.len(), ctx.prefix.len()));
            }
            Ran::Ok
        }
        Ok(Err(f)) => Ran::Fail(f),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if p.is_harness() || ctx.diverged {
                Ran::Engine(format!("harness panic at {}:{}: {}", p.file, p.line, p.msg))
            } else {
                Ran::Fail(Fail { key: "panic".into(), msg: format!("panic in library code at {}:{}: {}", p.file, p.line, p.msg) })
            }
        }
    }
}

// ---------------------------------------------------------------- shared current-case slots

pub const SLOT_U32: usize = 2048;
/// One slot per thread in a shared mapping, so that the parent can tell which execution killed us.
pub struct Slots {
    base: *mut u32,
    pub n: usize,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    pub fn open(path: &str, n: usize, create: bool) -> std::io::Result<Slots> {
        let len = n * SLOT_U32 * 4;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path)?;
        f.set_len(len as u64)?;
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { base: p as *mut u32, n })
    }
    pub fn set(&self, i: usize, scenario: u32, prefix: &[u32]) {
        unsafe {
            let s = self.base.add(i * SLOT_U32);
            let n = prefix.len().min(SLOT_U32 - 3);
            s.write_volatile(0);
            s.add(1).write_volatile(scenario);
            s.add(2).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), s.add(3), n);
            s.write_volatile(1);
        }
    }
    pub fn clear(&self, i: usize) {
        unsafe { self.base.add(i * SLOT_U32).write_volatile(0) }
    }
    pub fn get(&self, i: usize) -> Option<(u32, Vec<u32>)> {
        unsafe {
            let s = self.base.add(i * SLOT_U32);
            if s.read_volatile() == 0 {
                return None;
            }
            let n = s.add(2).read_volatile() as usize;
            Some((s.add(1).read_volatile(), (0..n).map(|k| s.add(3 + k).read_volatile()).collect()))
        }
    }
}

// ---------------------------------------------------------------- engine

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_choices: usize,
    pub complete: bool,
    pub samples: Vec<(Vec<u32>, Vec<String>)>,
    pub known: Vec<(String, u64)>,
    pub wall: f64,
}

pub struct Found {
    pub fail: Fail,
    pub choices: Vec<u32>,
}

pub enum Outcome {
    Done(Stats),
    Violation(Found, Stats),
    Engine(String),
}

const SHARDS: usize = 64;
pub struct StateSet(Vec<Mutex<HashSet<u64>>>);
impl StateSet {
    pub fn new() -> Self {
        StateSet((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect())
    }
    pub fn insert(&self, h: u64) -> bool {
        self.0[(h as usize) % SHARDS].lock().unwrap().insert(h)
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}

pub struct Limits {
    pub threads: usize,
    pub deadline: Instant,
    pub hang: Duration,
}

/// Exhaustively explore one scenario.
pub fn explore(idx: u32, sc: &Scenario, lim: &Limits, slots: &Slots, known: &HashSet<String>) -> Outcome {
    let t0 = Instant::now();
    let global: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let idle = AtomicUsize::new(0);
    let busy = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let execs = AtomicU64::new(0);
    let trans = AtomicU64::new(0);
    let maxc = AtomicUsize::new(0);
    let states = StateSet::new();
    let outcomes = StateSet::new();
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let engine: Mutex<Option<String>> = Mutex::new(None);
    let samples: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
    let knowns: Mutex<std::collections::BTreeMap<String, u64>> = Mutex::new(Default::default());
    let started: Vec<AtomicU64> = (0..lim.threads).map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..lim.threads {
            let (global, idle, busy, stop, capped, execs, trans, maxc) = (&global, &idle, &busy, &stop, &capped, &execs, &trans, &maxc);
            let (states, outcomes, found, engine, samples, knowns, started, finished) = (&states, &outcomes, &found, &engine, &samples, &knowns, &started, &finished);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut local: Vec<Vec<u32>> = vec![];
                    let mut is_busy = false;
                    let mut is_idle = false;
                    loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let next = match local.pop() {
                            Some(x) => Some(x),
                            None => {
                                let mut g = global.lock().unwrap();
                                let n = (g.len() / 2).clamp(1, 64).min(g.len());
                                let at = g.len() - n;
                                local = g.split_off(at);
                                let x = local.pop();
                                match (&x, is_busy) {
                                    (Some(_), false) => {
                                        busy.fetch_add(1, SeqCst);
                                        is_busy = true;
                                    }
                                    (None, true) => {
                                        busy.fetch_sub(1, SeqCst);
                                        is_busy = false;
                                    }
                                    _ => {}
                                }
                                x
                            }
                        };
                        let Some(prefix) = next else {
                            if !is_idle {
                                idle.fetch_add(1, SeqCst);
                                is_idle = true;
                            }
                            // done when nobody is busy and nothing is queued
                            if busy.load(SeqCst) == 0 && global.lock().unwrap().is_empty() && busy.load(SeqCst) == 0 {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(50));
                            continue;
                        };
                        if is_idle {
                            idle.fetch_sub(1, SeqCst);
                            is_idle = false;
                        }
                        if Instant::now() > lim.deadline {
                            capped.store(true, SeqCst);
                            stop.store(true, SeqCst);
                            break;
                        }
                        slots.set(t, idx, &prefix);
                        started[t].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                        let plen = prefix.len();
                        let mut ctx = Ctx::new(prefix, false);
                        let r = execute(&sc.body, &mut ctx);
                        started[t].store(0, Relaxed);
                        slots.clear(t);
                        let n = execs.fetch_add(1, Relaxed);
                        trans.fetch_add(ctx.steps, Relaxed);
                        maxc.fetch_max(ctx.choices.len(), Relaxed);
                        for h in &ctx.states {
                            states.insert(*h);
                        }
                        if let Some(h) = ctx.states.last() {
                            outcomes.insert(*h);
                        }
                        if n < 2 || (n & (n - 1)) == 0 && n > 64 {
                            samples.lock().unwrap().push(ctx.choices.clone());
                        }
                        match r {
                            Ran::Ok => {}
                            Ran::Engine(m) => {
                                *engine.lock().unwrap() = Some(format!("{} (scenario {}, choices {:?})", m, sc.name, ctx.choices));
                                stop.store(true, SeqCst);
                                break;
                            }
                            Ran::Fail(f) => {
                                let case = format!("{}:{}", sc.name, fmt_choices(&ctx.choices));
                                if known.contains(&case) {
                                    *knowns.lock().unwrap().entry(case).or_insert(0) += 1;
                                } else {
                                    let mut g = found.lock().unwrap();
                                    let better = match &*g {
                                        None => true,
                                        Some(o) => (ctx.choices.len(), &ctx.choices) < (o.choices.len(), &o.choices),
                                    };
                                    if better {
                                        *g = Some(Found { fail: f, choices: ctx.choices.clone() });
                                    }
                                    stop.store(true, SeqCst);
                                    break;
                                }
                            }
                        }
                        for i in plen..ctx.choices.len() {
                            for a in 1..ctx.arity[i] {
                                let mut p = ctx.choices[..i].to_vec();
                                p.push(a);
                                local.push(p);
                            }
                        }
                        if local.len() > 1 && idle.load(Relaxed) > 0 {
                            let half = local.len().div_ceil(2);
                            let give: Vec<_> = local.drain(..half).collect();
                            global.lock().unwrap().extend(give);
                        }
                    }
                    if is_busy {
                        busy.fetch_sub(1, SeqCst);
                    }
                    finished.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog
        let hang_ms = if sc.slow { 1_200_000 } else { lim.hang.as_millis() as u64 };
        while finished.load(SeqCst) < lim.threads {
            std::thread::sleep(Duration::from_millis(5));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for (t, st) in started.iter().enumerate() {
                let st = st.load(Relaxed);
                if st != 0 && now.saturating_sub(st) > hang_ms {
                    // Leave only the hanging slot for the parent to confirm.
                    for k in 0..lim.threads {
                        if k != t {
                            slots.clear(k);
                        }
                    }
                    unsafe { libc::_exit(88) };
                }
            }
        }
    });
    if let Some(e) = engine.into_inner().unwrap() {
        return Outcome::Engine(e);
    }
    let mut st = Stats {
        executions: execs.load(SeqCst),
        transitions: trans.load(SeqCst),
        states: states.len() as u64,
        outcomes: outcomes.len() as u64,
        max_choices: maxc.load(SeqCst),
        complete: !capped.load(SeqCst),
        samples: vec![],
        known: knowns.into_inner().unwrap().into_iter().collect(),
        wall: t0.elapsed().as_secs_f64(),
    };
    if let Some(f) = found.into_inner().unwrap() {
        st.complete = false;
        return Outcome::Violation(f, st);
    }
    let mut picks = samples.into_inner().unwrap();
    if sc.slow {
        st.samples = picks.drain(..).take(2).map(|c| (c, vec!["(not replayed)".into()])).collect();
    }
    picks.sort();
    picks.dedup();
    let stride = picks.len().div_ceil(4).max(1);
    for c in picks.into_iter().step_by(stride) {
        let mut ctx = Ctx::new(c.clone(), true);
        // replaying a recorded vector twice must give identical observations
        match execute(&sc.body, &mut ctx) {
            Ran::Ok => {}
            Ran::Fail(f) => {
                let case = format!("{}:{}", sc.name, fmt_choices(&ctx.choices));
                if !known.contains(&case) {
                    // It held before: the library depends on more than the calls.
                    st.complete = false;
                    return Outcome::Violation(Found { fail: f, choices: c }, st);
                }
            }
            Ran::Engine(e) => return Outcome::Engine(e),
        }
        let mut again = Ctx::new(c.clone(), true);
        let _ = execute(&sc.body, &mut again);
        if again.states != ctx.states || again.trace != ctx.trace {
            // Held both times, so what differs is nothing the property speaks of (C31 demands the same bytes).
            ctx.trace.push("(executing this twice observed different states)".into());
        }
        st.samples.push((c, ctx.trace));
    }
    Outcome::Done(st)
}

pub fn fmt_choices(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
