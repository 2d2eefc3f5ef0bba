//! Stateless exploration of the real code.
//!
//! A check is a list of jobs. A job is a closure that drives the implementation and asks the explorer for every
//! nondeterministic decision (`Ctx::choose`). The explorer runs the closure once for every choice sequence, depth
//! first, so the set of executions is exactly the tree of choices: nothing is sampled. Work is split over threads by
//! handing whole subtrees to idle workers; which worker runs a subtree has no effect on what is explored.
//!
//! The exploration runs in a child process. The parent watches it: a child that dies, or an execution that does not
//! end, becomes a verdict only if re-running that single recorded execution dies or sticks again.

use std::{
    cell::RefCell,
    collections::{HashMap, HashSet, VecDeque},
    fmt::Write as _,
    fs,
    hash::{BuildHasherDefault, Hasher},
    io::Write as _,
    panic::{catch_unwind, panic_any, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{exit, Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*},
        Arc, Condvar, Mutex,
    },
    time::{Duration, Instant},
};

// ------------------------------------------------------------------------------------------------ hashing

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHash>>;
pub type IdMap<V> = HashMap<u64, V, BuildHasherDefault<IdHash>>;

/// 64-bit running hash used for canonical states and outcomes
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new(seed: u64) -> Self {
        H(0x9e3779b97f4a7c15 ^ seed.wrapping_mul(0xff51afd7ed558ccd))
    }
    pub fn add(&mut self, v: u64) -> &mut Self {
        let mut x = self.0 ^ v.wrapping_mul(0x9fb21c651e98df25);
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 29;
        self.0 = x;
        self
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        self.add(b.len() as u64);
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(w));
        }
        self
    }
    pub fn get(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 31;
        x = x.wrapping_mul(0x94d049bb133111eb);
        x ^ (x >> 30)
    }
}
pub fn hash_i16(v: &[i16]) -> u64 {
    let mut h = H::new(v.len() as u64);
    for &x in v {
        h.add(x as u16 as u64);
    }
    h.get()
}
pub fn hash_f32(v: &[f32]) -> u64 {
    let mut h = H::new(v.len() as u64);
    for &x in v {
        h.add(x.to_bits() as u64);
    }
    h.get()
}

// ------------------------------------------------------------------------------------------------ configuration

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// `q` in the quick tier, `t` in the thorough one
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

pub struct Check {
    pub id: &'static str,
    /// level in the evidence file
    pub level: &'static str,
    /// how cases are made, and what makes one count as distinct and non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub jobs: fn(Tier) -> Vec<Job>,
    /// an execution that takes longer than this is stuck
    pub stuck_s: u64,
    /// address-space limit of the exploring process
    pub mem_gb: u64,
    pub threads: usize,
    /// the check decides determinism itself, on one thread: a failure that does not repeat is one all the same
    pub repeatable: bool,
}
impl Check {
    pub const fn new(id: &'static str, level: &'static str, rule: &'static str, jobs: fn(Tier) -> Vec<Job>) -> Self {
        Check { id, level, rule, assumptions: &[], jobs, stuck_s: 60, mem_gb: 16, threads: 8, repeatable: true }
    }
    pub const fn assume(mut self, a: &'static [&'static str]) -> Self {
        self.assumptions = a;
        self
    }
    pub const fn stuck(mut self, s: u64) -> Self {
        self.stuck_s = s;
        self
    }
    pub const fn mem(mut self, gb: u64) -> Self {
        self.mem_gb = gb;
        self
    }
    pub const fn decides_determinism(mut self) -> Self {
        self.threads = 1;
        self.repeatable = false;
        self
    }
    pub const fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

pub struct Job {
    pub name: String,
    pub f: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}
pub fn job(name: impl Into<String>, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Job {
    Job { name: name.into(), f: Box::new(f) }
}

// ------------------------------------------------------------------------------------------------ one execution

struct Violation(String);
struct Prune;

pub struct Ctx {
    prefix: Vec<u32>,
    choices: Vec<(u32, u32)>,
    tracing: bool,
    trace: Vec<String>,
    ops: u64,
    pruned: u64,
    states: IdSet,
    outcomes: IdSet,
    visited: Option<Arc<Mutex<IdMap<u32>>>>,
    slot: *mut Slot,
    pub tier: Tier,
}

impl Ctx {
    /// one of 0..n, explored exhaustively; put the simplest option first
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            // a replayed prefix no longer fits: the execution is not deterministic
            panic_any(Diverged(format!("choice {i}: recorded {c}, now only {n} options")));
        }
        self.choices.push((c, n as u32));
        self.record(i, c);
        c as usize
    }
    fn record(&mut self, i: usize, c: u32) {
        if !self.slot.is_null() && i < SLOT_CHOICES {
            unsafe {
                (*self.slot).choices[i].store(c, Relaxed);
                (*self.slot).len.store(i as u32 + 1, Release);
            }
        }
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.choose(items.len());
        &items[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// one transition: a call made on the real code
    #[inline]
    pub fn op(&mut self, what: impl FnOnce() -> String) {
        self.ops += 1;
        if self.tracing {
            let s = what();
            if std::env::var_os("MC_VERBOSE").is_some() {
                eprintln!("  {s}");
            }
            self.trace.push(s);
        }
    }
    /// many transitions at once (counted, not traced one by one)
    pub fn ops(&mut self, n: u64, what: impl FnOnce() -> String) {
        self.op(what);
        self.ops += n.saturating_sub(1);
    }
    /// the model is in this (canonically hashed) state
    #[inline]
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    /// an observed outcome, to show that executions really differ
    #[inline]
    pub fn outcome(&mut self, h: u64) {
        self.outcomes.insert(h);
    }
    /// explicit-state pruning: gives up this execution if the canonical state was already reached with at least
    /// `remaining` operations to go (everything below it has been or is being explored elsewhere)
    pub fn prune_if_seen(&mut self, h: u64, remaining: usize) {
        self.states.insert(h);
        if self.choices.len() < self.prefix.len() {
            return; // still following a prefix whose states were entered by its owner
        }
        let Some(v) = self.visited.clone() else { return };
        let mut v = v.lock().unwrap();
        match v.get(&h) {
            Some(&r) if r as usize >= remaining + 1 => {
                drop(v);
                panic_any(Prune)
            }
            _ => {
                v.insert(h, remaining as u32 + 1);
            }
        }
    }
    pub fn fail(&mut self, msg: String) -> ! {
        panic_any(Violation(msg))
    }
    #[inline]
    pub fn ensure(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            let m = msg();
            self.fail(m)
        }
    }
    /// restored from one of three serialized forms, which one depending on how many choices came before
    pub fn through<T: serde::Serialize + serde::de::DeserializeOwned>(&self, x: &T) -> T {
        self.ok(crate::value::through(x, self.choices.len() as u64))
    }
    pub fn ok<T>(&self, r: Result<T, String>) -> T {
        r.unwrap_or_else(|e| panic_any(Violation(e)))
    }
    pub fn tracing(&self) -> bool {
        self.tracing
    }
}
struct Diverged(String);

#[derive(Debug)]
enum End {
    Ok,
    Pruned,
    Violation(String),
    HarnessError(String),
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        if p.is::<Violation>() || p.is::<Prune>() || p.is::<Diverged>() {
            return;
        }
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

fn run_one(job: &Job, ctx: &mut Ctx) -> End {
    match catch_unwind(AssertUnwindSafe(|| (job.f)(ctx))) {
        Ok(()) => End::Ok,
        Err(p) => classify(p),
    }
}

fn classify(p: Box<dyn std::any::Any + Send>) -> End {
    if let Some(v) = p.downcast_ref::<Violation>() {
        return End::Violation(v.0.clone());
    }
    if p.is::<Prune>() {
        return End::Pruned;
    }
    if let Some(d) = p.downcast_ref::<Diverged>() {
        return End::HarnessError(format!("replay diverged: {}", d.0));
    }
    let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    // locations of this crate are relative to it; those of the code under test are absolute
    if loc.starts_with("src/") || loc.contains("/verif/mc/") {
        End::HarnessError(format!("harness panicked at {loc}: {msg}"))
    } else {
        End::Violation(format!("the code under test panicked at {loc}: {msg}"))
    }
}

/// runs `f` (calls on the code under test) and reports a panic as Err(message)
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => match classify(p) {
            End::Violation(m) => Err(m),
            End::HarnessError(m) => panic!("{m}"),
            _ => Err("pruned".into()),
        },
    }
}

// ------------------------------------------------------------------------------------------------ shared slots

const SLOT_CHOICES: usize = 1000;
const MAX_SLOTS: usize = 16;
#[repr(C)]
struct Slot {
    active: AtomicU32,
    job: AtomicU32,
    len: AtomicU32,
    _pad: AtomicU32,
    /// milliseconds on the monotonic clock at the start of the execution
    start_ms: AtomicU64,
    execs: AtomicU64,
    choices: [AtomicU32; SLOT_CHOICES],
}
struct Slots(*mut Slot);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    fn map(path: &Path, create: bool) -> std::io::Result<Slots> {
        use std::os::fd::AsRawFd;
        let len = std::mem::size_of::<Slot>() * MAX_SLOTS;
        let f = fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path)?;
        if create {
            f.set_len(len as u64)?;
        }
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots(p as *mut Slot))
    }
    fn get(&self, i: usize) -> *mut Slot {
        unsafe { self.0.add(i) }
    }
    fn read(&self, i: usize) -> (usize, Vec<u32>, u64) {
        let s = unsafe { &*self.get(i) };
        let n = (s.len.load(Acquire) as usize).min(SLOT_CHOICES);
        (s.job.load(Relaxed) as usize, (0..n).map(|k| s.choices[k].load(Relaxed)).collect(), s.start_ms.load(Relaxed))
    }
    fn active(&self, i: usize) -> bool {
        unsafe { &*self.get(i) }.active.load(Acquire) == 1
    }
}
fn mono_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

// ------------------------------------------------------------------------------------------------ exploration

struct Queue {
    tasks: Mutex<(VecDeque<(usize, Vec<u32>)>, usize)>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    pending: AtomicU64,
}

#[derive(Default)]
struct Stats {
    execs: u64,
    pruned: u64,
    ops: u64,
    states: IdSet,
    outcomes: IdSet,
    max_depth: usize,
}

struct Found {
    job: usize,
    choices: Vec<u32>,
    msg: String,
    trace: Vec<String>,
}

fn new_ctx(tier: Tier, prefix: Vec<u32>, tracing: bool, slot: *mut Slot) -> Ctx {
    Ctx {
        prefix,
        choices: Vec::new(),
        tracing,
        trace: Vec::new(),
        ops: 0,
        pruned: 0,
        states: IdSet::default(),
        outcomes: IdSet::default(),
        visited: None,
        slot,
        tier,
    }
}

fn explore_all(jobs: &[Job], tier: Tier, threads: usize, slots: Option<&Slots>) -> (Stats, Result<(), Found>, Option<String>) {
    let q = Queue {
        tasks: Mutex::new(((0..jobs.len()).map(|j| (j, Vec::new())).collect(), 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        pending: AtomicU64::new(jobs.len() as u64),
    };
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let visited: Vec<Arc<Mutex<IdMap<u32>>>> = jobs.iter().map(|_| Default::default()).collect();
    let total = Mutex::new(Stats::default());
    let times = Mutex::new(vec![(0.0, 0u64); jobs.len()]);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (q, found, error, visited, total, times) = (&q, &found, &error, &visited, &total, &times);
            s.spawn(move || {
                let slot = slots.map(|s| s.get(w)).unwrap_or(std::ptr::null_mut());
                let mut ctx = new_ctx(tier, Vec::new(), false, slot);
                let mut st = Stats::default();
                while let Some((j, prefix)) = next_task(q) {
                    let (t, n) = (Instant::now(), st.execs);
                    explore_subtree(j, &jobs[j], prefix, q, &mut ctx, &visited[j], &mut st, found, error);
                    let mut tm = times.lock().unwrap();
                    tm[j].0 += t.elapsed().as_secs_f64();
                    tm[j].1 += st.execs - n;
                    drop(tm);
                    if q.pending.fetch_sub(1, SeqCst) == 1 {
                        q.cv.notify_all();
                    }
                }
                q.cv.notify_all();
                let mut t = total.lock().unwrap();
                t.execs += st.execs;
                t.pruned += st.pruned;
                t.max_depth = t.max_depth.max(st.max_depth);
                t.ops += ctx.ops;
                t.states.extend(ctx.states.drain());
                t.outcomes.extend(ctx.outcomes.drain());
            });
        }
    });
    if let Ok(f) = std::env::var("MC_TIMES") {
        let tm = times.into_inner().unwrap();
        let mut v: Vec<String> = jobs.iter().zip(&tm).map(|(j, t)| format!("{:10.3} s {:10} {}\n", t.0, t.1, j.name)).collect();
        v.sort_by(|a, b| b.cmp(a));
        let _ = fs::write(f, v.concat());
    }
    let f = found.into_inner().unwrap();
    (total.into_inner().unwrap(), f.map_or(Ok(()), Err), error.into_inner().unwrap())
}

fn next_task(q: &Queue) -> Option<(usize, Vec<u32>)> {
    let mut t = q.tasks.lock().unwrap();
    loop {
        if q.stop.load(Relaxed) {
            return None;
        }
        if let Some(x) = t.0.pop_front() {
            return Some(x);
        }
        if q.pending.load(SeqCst) == 0 {
            return None;
        }
        q.idle.fetch_add(1, SeqCst);
        t = q.cv.wait_timeout(t, Duration::from_millis(20)).unwrap().0;
        q.idle.fetch_sub(1, SeqCst);
    }
}

#[allow(clippy::too_many_arguments)]
fn explore_subtree(
    j: usize,
    job: &Job,
    prefix: Vec<u32>,
    q: &Queue,
    ctx: &mut Ctx,
    visited: &Arc<Mutex<IdMap<u32>>>,
    st: &mut Stats,
    found: &Mutex<Option<Found>>,
    error: &Mutex<Option<String>>,
) {
    // choices before `base` belong to whoever handed out this subtree
    let mut base = prefix.len();
    let mut script = prefix;
    ctx.visited = Some(visited.clone());
    loop {
        if q.stop.load(Relaxed) {
            break;
        }
        ctx.prefix.clear();
        ctx.prefix.extend_from_slice(&script);
        ctx.choices.clear();
        if !ctx.slot.is_null() {
            let s = unsafe { &*ctx.slot };
            s.job.store(j as u32, Relaxed);
            s.len.store(0, Relaxed);
            s.start_ms.store(mono_ms(), Relaxed);
            s.active.store(1, Release);
        }
        let end = run_one(job, ctx);
        if !ctx.slot.is_null() {
            let s = unsafe { &*ctx.slot };
            s.active.store(0, Release);
            s.execs.fetch_add(1, Relaxed);
        }
        st.execs += 1;
        st.max_depth = st.max_depth.max(ctx.choices.len());
        match end {
            End::Ok => {}
            End::Pruned => st.pruned += 1,
            End::Violation(msg) => {
                let mut f = found.lock().unwrap();
                let choices: Vec<u32> = ctx.choices.iter().map(|c| c.0).collect();
                if f.as_ref().map_or(true, |o| (j, &choices) < (o.job, &o.choices)) {
                    *f = Some(Found { job: j, choices, msg, trace: Vec::new() });
                }
                q.stop.store(true, Relaxed);
                break;
            }
            End::HarnessError(m) => {
                *error.lock().unwrap() = Some(format!("job {}: {m}", job.name));
                q.stop.store(true, Relaxed);
                break;
            }
        }
        // hand the shallowest open alternatives to idle workers
        if q.idle.load(Relaxed) > 0 {
            if let Some(i) = (base..ctx.choices.len()).find(|&i| ctx.choices[i].0 + 1 < ctx.choices[i].1) {
                let (c, n) = ctx.choices[i];
                let head: Vec<u32> = ctx.choices[..i].iter().map(|c| c.0).collect();
                let mut t = q.tasks.lock().unwrap();
                for alt in c + 1..n {
                    let mut p = head.clone();
                    p.push(alt);
                    t.0.push_back((j, p));
                    q.pending.fetch_add(1, SeqCst);
                }
                base = i + 1;
                drop(t);
                q.cv.notify_all();
            }
        }
        // next execution: last choice point at or after `base` with an alternative left
        match (base..ctx.choices.len()).rev().find(|&i| ctx.choices[i].0 + 1 < ctx.choices[i].1) {
            None => break,
            Some(i) => {
                script.clear();
                script.extend(ctx.choices[..i].iter().map(|c| c.0));
                script.push(ctx.choices[i].0 + 1);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ replay

fn replay(jobs: &[Job], tier: Tier, j: usize, choices: &[u32]) -> (End, Vec<String>, Vec<u32>) {
    let mut ctx = new_ctx(tier, choices.to_vec(), true, std::ptr::null_mut());
    let end = run_one(&jobs[j], &mut ctx);
    (end, std::mem::take(&mut ctx.trace), ctx.choices.iter().map(|c| c.0).collect())
}

// ------------------------------------------------------------------------------------------------ JSON helpers

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn js_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

// ------------------------------------------------------------------------------------------------ main

/// the jobs, or for debugging only those whose name contains $MC_JOBS
fn jobs_of(check: &Check, tier: Tier) -> Vec<Job> {
    let mut v = (check.jobs)(tier);
    if let Ok(f) = std::env::var("MC_JOBS") {
        v.retain(|j| j.name.contains(&f));
    }
    v
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn main(check: Check) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    if let Some(out) = get("--child") {
        child(&check, tier, Path::new(&out));
    } else if let Some(file) = get("--exec") {
        // one execution given as "tier\njobname\nchoices"; exit 0 held, 1 violated, 2 harness error
        single(&check, Path::new(&file), false);
    } else if let Some(file) = get("--replay") {
        single(&check, Path::new(&file), true);
    } else if args.iter().any(|a| a == "--list") {
        for j in jobs_of(&check, tier) {
            println!("{}", j.name);
        }
    } else {
        supervise(&check, tier);
    }
}

fn set_limits(check: &Check) {
    let lim = check.mem_gb << 30;
    let r = libc::rlimit { rlim_cur: lim, rlim_max: lim };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn read_replay(file: &Path) -> (Tier, String, Vec<u32>) {
    let t = fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {e}", file.display());
        exit(2)
    });
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let tier = if field("tier:") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let choices = field("choices:").split_whitespace().map(|c| c.parse().unwrap()).collect();
    (tier, field("job:"), choices)
}

fn single(check: &Check, file: &Path, verbose: bool) {
    set_limits(check);
    let (tier, name, choices) = read_replay(file);
    let jobs = jobs_of(check, tier);
    let Some(j) = jobs.iter().position(|j| j.name == name) else {
        eprintln!("no job named {name}");
        exit(2)
    };
    if verbose {
        std::env::set_var("MC_VERBOSE", "1");
        eprintln!("property {} job {} choices {:?}", check.id, name, choices);
    }
    let (end, trace, _) = replay(&jobs, tier, j, &choices);
    let _ = fs::write(file.with_extension("trace"), trace.join("\n"));
    match end {
        End::Ok | End::Pruned => {
            println!("this execution holds");
            exit(0)
        }
        End::Violation(m) => {
            println!("violated: {m}");
            exit(1)
        }
        End::HarnessError(m) => {
            println!("harness error: {m}");
            exit(2)
        }
    }
}

fn child(check: &Check, tier: Tier, out: &Path) {
    set_limits(check);
    let jobs = jobs_of(check, tier);
    {
        let mut names = HashSet::new();
        for j in &jobs {
            assert!(names.insert(j.name.clone()), "two jobs named {}", j.name);
        }
    }
    let slots = Slots::map(&out.with_extension("slots"), false).expect("slots");
    let threads = std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(check.threads).min(MAX_SLOTS);
    let (st, found, error) = explore_all(&jobs, tier, threads, Some(&slots));
    let mut res = String::new();
    if let Some(e) = error {
        let _ = writeln!(res, "error\t{}", e.replace('\n', " "));
    }
    if let Err(f) = found {
        // the same execution must fail again, the same way, before it is believed
        let (end, trace, _) = replay(&jobs, tier, f.job, &f.choices);
        match end {
            End::Violation(m) => {
                let _ = writeln!(
                    res,
                    "violation\t{}\t{}\t{}",
                    jobs[f.job].name,
                    f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
                    m.replace(['\n', '\t'], " ")
                );
                for t in trace {
                    let _ = writeln!(res, "trace\t{}", t.replace(['\n', '\t'], " "));
                }
            }
            _ if !check.repeatable => {
                let _ = writeln!(
                    res,
                    "violation\t{}\t{}\t{} (and the same calls showed the expected result when repeated)",
                    jobs[f.job].name,
                    f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
                    f.msg.replace(['\n', '\t'], " ")
                );
            }
            e => {
                let _ = writeln!(res, "error\tviolation did not reproduce in job {}: first '{}', then {:?}", jobs[f.job].name, f.msg.replace('\n', " "), e);
            }
        }
        let _ = f.trace;
    } else {
        // a few executions written out, from jobs spread over the list
        let n = jobs.len();
        let mut picks: Vec<usize> = (0..5).map(|k| k * n.saturating_sub(1) / 4).collect();
        picks.dedup();
        for j in picks {
            let (_, trace, choices) = replay(&jobs, tier, j, &[]);
            let mut t = trace.join("; ");
            if t.len() > 600 {
                t = t.chars().take(600).collect::<String>() + "...";
            }
            let _ = writeln!(res, "sample\t{} choices={:?}: {}", jobs[j].name, &choices[..choices.len().min(40)], t.replace(['\n', '\t'], " "));
        }
    }
    let _ = writeln!(
        res,
        "stats\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
        st.execs, st.pruned, st.ops, st.states.len(), st.outcomes.len(), st.max_depth, jobs.len()
    );
    fs::write(out, res).expect("result file");
}

fn supervise(check: &Check, tier: Tier) {
    let t0 = Instant::now();
    let dir = verif_dir();
    let out_dir = dir.join("out");
    fs::create_dir_all(&out_dir).expect("out directory");
    fs::create_dir_all(dir.join("evidence")).expect("evidence directory");
    let stem = out_dir.join(format!("{}-{}.{}", check.id, tier_name(tier), std::process::id()));
    let slots = Slots::map(&stem.with_extension("slots"), true).expect("slots");
    let result = stem.with_extension("result");
    let _ = fs::remove_file(&result);
    let exe = std::env::current_exe().expect("current_exe");
    let errlog = fs::File::create(stem.with_extension("stderr")).expect("stderr file");
    let mut ch = Command::new(&exe)
        .arg("--child")
        .arg(&result)
        .stdout(Stdio::null())
        .stderr(errlog)
        .spawn()
        .expect("child");
    let mut stuck: Option<usize> = None;
    let status = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break Some(s);
        }
        let now = mono_ms();
        for i in 0..MAX_SLOTS {
            if slots.active(i) {
                let (_, _, start) = slots.read(i);
                if start > 0 && now > start + check.stuck_s * 1000 {
                    stuck = Some(i);
                }
            }
        }
        if stuck.is_some() {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let jobs = jobs_of(check, tier);
    let mut errors: Vec<String> = Vec::new();
    let mut violation: Option<(String, Vec<u32>, String, Vec<String>)> = None;
    let mut samples = Vec::new();
    let mut stats = vec![0u64; 7];
    let text = fs::read_to_string(&result).unwrap_or_default();
    let clean = status.map_or(false, |s| s.success()) && text.contains("stats\t");
    if clean {
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "error" => errors.push(f[1].into()),
                "violation" => {
                    violation = Some((f[1].into(), f[2].split_whitespace().map(|c| c.parse().unwrap()).collect(), f[3].into(), vec![]))
                }
                "trace" => {
                    if let Some(v) = violation.as_mut() {
                        v.3.push(f[1].into())
                    }
                }
                "sample" => samples.push(f[1].to_string()),
                "stats" => stats = f[1..].iter().map(|x| x.parse().unwrap()).collect(),
                _ => {}
            }
        }
    } else {
        // the child died or was stuck: find the execution that does it again
        let cands: Vec<usize> = match stuck {
            Some(i) => vec![i],
            None => (0..MAX_SLOTS).filter(|&i| slots.active(i)).collect(),
        };
        let how = match (&status, stuck) {
            (_, Some(_)) => format!("an execution did not end within {} s", check.stuck_s),
            (Some(s), _) => format!("the exploring process ended with {s}"),
            _ => "the exploring process ended".into(),
        };
        for i in cands {
            let (j, choices, _) = slots.read(i);
            if j >= jobs.len() {
                continue;
            }
            let f = stem.with_extension(format!("cand{i}"));
            fs::write(&f, replay_text(check, tier, &jobs[j].name, &choices, &how, &[])).expect("write");
            let t = Instant::now();
            let mut c = Command::new(&exe)
                .arg("--exec")
                .arg(&f)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("child");
            let again = loop {
                if let Some(s) = c.try_wait().expect("wait") {
                    break match s.code() {
                        Some(0) | Some(2) => None,
                        Some(1) => Some("the execution violates the property when run alone".to_string()),
                        _ => Some(format!("run alone, the execution ends the process with {s}")),
                    };
                }
                if t.elapsed().as_secs() > check.stuck_s {
                    let _ = c.kill();
                    let _ = c.wait();
                    break Some(format!("run alone, the execution does not end within {} s", check.stuck_s));
                }
                std::thread::sleep(Duration::from_millis(5));
            };
            let _ = fs::remove_file(&f);
            if let Some(m) = again {
                let log = fs::read_to_string(stem.with_extension("stderr")).unwrap_or_default();
                let last = log.lines().rev().find(|l| l.contains("panic") || l.contains("alloc")).unwrap_or("").to_string();
                violation = Some((jobs[j].name.clone(), choices, format!("{m} {last}"), vec![]));
                break;
            }
        }
        if violation.is_none() {
            errors.push(format!("{how}, and no recorded execution does it again"));
        }
    }
    for e in ["slots", "result", "stderr"] {
        let _ = fs::remove_file(stem.with_extension(e));
    }
    let wall = t0.elapsed().as_secs_f64();
    let [execs, pruned, ops, states, outcomes, depth, njobs] = stats[..] else { unreachable!() };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if samples.is_empty() {
        samples.push(violation.as_ref().map_or("none".into(), |v| format!("{} {:?}: {}", v.0, v.1, v.2)));
    }
    let exhaustive = violation.is_none() && errors.is_empty();
    let counts = match check.level {
        "model_checking" => format!(
            "\"states\":{states},\"transitions\":{ops},\"traces_validated_against_impl\":{execs}",
        ),
        _ => format!("\"evaluations\":{execs},\"distinct_nontrivial\":{outcomes},\"model_states\":{states},\"calls_on_implementation\":{ops}"),
    };
    let distinct = if check.level == "model_checking" { format!(",\"distinct_outcomes\":{outcomes}") } else { String::new() };
    let ev = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":{},\n\"coverage\":{{{counts}{distinct},\"pruned_revisits\":{pruned},\"jobs\":{njobs},\"max_choice_depth\":{depth},\"exhaustive\":{exhaustive},\"rule\":{},\"samples\":{}}},\n\"assumptions\":{},\n\"wall_s\":{wall:.3},\n\"violations\":{}\n}}\n",
        js(check.id),
        js(tier_name(tier)),
        js(check.level),
        js(check.rule),
        js_list(&samples),
        js_list(&check.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        violation.is_some() as u32,
    );
    fs::write(dir.join("evidence").join(format!("{}.json", check.id)), ev).expect("evidence file");
    println!(
        "{} {}: jobs={njobs} executions={execs} pruned={pruned} transitions={ops} states={states} outcomes={outcomes} depth={depth} wall={wall:.1}s",
        check.id,
        tier_name(tier)
    );
    if let Some((name, choices, msg, trace)) = violation {
        let f = out_dir.join(format!("{}-violation.txt", check.id));
        fs::write(&f, replay_text(check, tier, &name, &choices, &msg, &trace)).expect("replay file");
        println!("job: {name}\nchoices: {choices:?}\n{msg}");
        for t in trace.iter().take(60) {
            println!("  {}", t.chars().take(300).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", check.id, f.display());
        let _ = std::io::stdout().flush();
        exit(1);
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {e}");
        }
        exit(2);
    }
}

fn tier_name(t: Tier) -> &'static str {
    t.pick("quick", "thorough")
}

fn replay_text(check: &Check, tier: Tier, job: &str, choices: &[u32], msg: &str, trace: &[String]) -> String {
    format!(
        "property: {}\ntier: {}\njob: {}\nchoices: {}\n# {}\n# replay with: ./check.sh {} --replay <this file>\n{}",
        check.id,
        tier_name(tier),
        job,
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
        msg.replace('\n', " "),
        check.id,
        trace.iter().map(|t| format!("# {t}\n")).collect::<String>()
    )
}
