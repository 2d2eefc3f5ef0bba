//! Preemption inside a call, at every access it makes to static memory.
//!
//! Two calls on different instances can only affect each other through memory both can reach, and safe code reaches
//! such memory only by way of a static. So the writable static memory of the program is made inaccessible while a call
//! runs: every access faults, and is counted and single-stepped. Two calls that make no such access commute, whatever
//! the schedule; for calls that do, `run` preempts call A before its k-th access, lets call B of another thread run
//! (to its end, or to before its own j-th access), then lets A finish and then B, in a forked process per schedule.
//! A thread that blocks on a lock the other holds gives way, as under any scheduler.

use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst},
};

/// where the handlers keep their state: it must not lie in static memory
const BASE: usize = 0x2000_0000_0000;
const MAX: usize = 64;
const A: u32 = 0;
const B: u32 = 1;
const A_AGAIN: u32 = 2;
const B_AGAIN: u32 = 3;

#[repr(C)]
struct Shared {
    k: u32,
    j: u32,
    phase: AtomicU32,
    seen: [AtomicU32; 2],
    tid: [AtomicU32; 2],
    ready: AtomicU32,
    done: [AtomicU32; 2],
    over: [AtomicU32; 2],
    switched: [AtomicU32; 2],
    panicked: AtomicU32,
    len: [AtomicU32; 2],
    out: [[AtomicU64; MAX]; 2],
}

fn sh() -> &'static Shared {
    unsafe { &*(BASE as *const Shared) }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline(always)]
fn region() -> (usize, usize) {
    unsafe { ((&__data_start as *const u8 as usize) & !4095, ((&_end as *const u8 as usize) + 4095) & !4095) }
}
fn protect(on: bool) {
    let (lo, hi) = region();
    unsafe {
        libc::mprotect(lo as *mut _, hi - lo, if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE });
    }
}

/// whether the thread sleeps (blocked on a lock)
fn asleep(tid: u32) -> bool {
    let mut path = [0u8; 64];
    let mut n = 0;
    let mut put = |b: &[u8], n: &mut usize| {
        path[*n..*n + b.len()].copy_from_slice(b);
        *n += b.len();
    };
    put(b"/proc/self/task/", &mut n);
    let mut d = [0u8; 10];
    let (mut i, mut t) = (10, tid);
    while t > 0 {
        i -= 1;
        d[i] = b'0' + (t % 10) as u8;
        t /= 10;
    }
    put(&d[i..], &mut n);
    put(b"/stat\0", &mut n);
    let mut buf = [0u8; 128];
    unsafe {
        let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY);
        if fd < 0 {
            return false;
        }
        let r = libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len());
        libc::close(fd);
        let r = if r < 0 { 0 } else { r as usize };
        let mut p = r;
        while p > 0 && buf[p - 1] != b')' {
            p -= 1;
        }
        p > 0 && p + 1 < r && buf[p + 1] == b'S'
    }
}
fn ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

/// hands control to the other thread until it has finished its call, handed back, or cannot go on
fn hand_over(to: u32, next: u32) {
    let s = sh();
    s.switched[1 - to as usize].store(1, SeqCst);
    s.phase.store(next, SeqCst);
    let (mut sleeping, start) = (0, ms());
    let other = to as usize;
    loop {
        unsafe { libc::sched_yield() };
        if s.done[other].load(SeqCst) != 0 || s.phase.load(SeqCst) != next {
            break;
        }
        sleeping = if asleep(s.tid[other].load(SeqCst)) { sleeping + 1 } else { 0 };
        // waiting for a lock, asleep or spinning: only this thread can release it
        if sleeping > 20 || ms() - start > 100 {
            break;
        }
    }
    protect(false);
    s.phase.store(if to == B { A_AGAIN } else { B_AGAIN }, SeqCst);
}

unsafe extern "C" fn on_segv(_: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let addr = (*info).si_addr() as usize;
    let (lo, hi) = region();
    if addr < lo || addr >= hi {
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        return;
    }
    let s = sh();
    let p = s.phase.load(SeqCst);
    protect(false);
    if p > B {
        return;
    }
    let n = s.seen[p as usize].fetch_add(1, SeqCst) + 1;
    if p == A && n == s.k {
        if s.j != 0 {
            protect(true);
        }
        hand_over(B, B);
        return;
    }
    if p == B && n == s.j {
        hand_over(A, A_AGAIN);
        return;
    }
    let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    g[libc::REG_EFL as usize] |= 0x100;
}
unsafe extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    g[libc::REG_EFL as usize] &= !0x100;
    let s = sh();
    let p = s.phase.load(SeqCst);
    if p == A || p == B && s.j != 0 {
        protect(true);
    }
}

fn yield_until(f: impl Fn() -> bool) {
    while !f() {
        unsafe { libc::sched_yield() };
    }
}

/// told before (true) and after (false) the call under study
pub type Gate<'a> = &'a dyn Fn(bool);
/// runs a script: its setup, the gated call and what follows; gives what they showed
pub type Script<'a> = &'a (dyn Fn(Gate) -> Vec<u64> + Sync);

#[derive(Debug, Clone, PartialEq)]
pub struct Out {
    /// accesses to static memory made by each call until it was preempted, or ended
    pub seen: [u32; 2],
    pub switched: [bool; 2],
    pub shows: [Vec<u64>; 2],
    /// how the process ended, when not well
    pub bad: Option<String>,
}

fn child(a: Script, b: Option<Script>) {
    let s = sh();
    let store = |who: usize, v: Vec<u64>| {
        for (i, &x) in v.iter().take(MAX).enumerate() {
            s.out[who][i].store(x, SeqCst);
        }
        s.len[who].store(v.len().min(MAX) as u32, SeqCst);
    };
    let gettid = || unsafe { libc::syscall(libc::SYS_gettid) as u32 };
    let gate_a = |on: bool| {
        if on {
            s.tid[0].store(gettid(), SeqCst);
            if b.is_some() {
                yield_until(|| s.ready.load(SeqCst) != 0);
            }
            protect(true);
        } else {
            if s.phase.load(SeqCst) == A {
                protect(false);
                s.phase.store(A_AGAIN, SeqCst);
            }
            s.done[0].store(1, SeqCst);
            if b.is_some() {
                yield_until(|| s.done[1].load(SeqCst) != 0);
            }
            protect(false);
        }
    };
    let gate_b = |on: bool| {
        if on {
            s.tid[1].store(gettid(), SeqCst);
            s.ready.store(1, SeqCst);
            yield_until(|| s.phase.load(SeqCst) != A);
        } else {
            protect(false);
            s.done[1].store(1, SeqCst);
            yield_until(|| s.over[0].load(SeqCst) != 0);
        }
    };
    let guard = |who: usize, f: Script, gate: Gate| {
        match catch_unwind(AssertUnwindSafe(|| f(gate))) {
            Ok(v) => store(who, v),
            Err(_) => {
                protect(false);
                s.panicked.fetch_or(1 << who, SeqCst);
                s.ready.store(1, SeqCst);
                if who == 0 && s.phase.load(SeqCst) == A {
                    s.phase.store(A_AGAIN, SeqCst);
                }
                s.done[who].store(1, SeqCst);
            }
        }
        s.over[who].store(1, SeqCst);
    };
    std::thread::scope(|sc| {
        if let Some(b) = b {
            sc.spawn(move || guard(1, b, &gate_b));
        }
        guard(0, a, &gate_a);
    });
}

/// one schedule: A is preempted before its k-th access to static memory (0: not at all), then B runs to its end, or to
/// before its own j-th access if j is not 0
pub fn run(k: u32, j: u32, a: Script, b: Option<Script>) -> Out {
    unsafe {
        let size = std::mem::size_of::<Shared>();
        let m = libc::mmap(
            BASE as *mut _,
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(m as usize == BASE, "no room for the scheduler's state");
        {
            let s = &mut *(BASE as *mut Shared);
            s.k = k;
            s.j = j;
        }
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(20);
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            sa.sa_sigaction = on_segv as *const () as usize;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
            sa.sa_sigaction = on_trap as *const () as usize;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
            std::panic::set_hook(Box::new(|_| {}));
            child(a, b);
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = sh();
        let bad = if libc::WIFSIGNALED(st) {
            Some(match libc::WTERMSIG(st) {
                libc::SIGALRM => "the calls do not end".to_string(),
                n => format!("ended by signal {n}"),
            })
        } else if s.panicked.load(SeqCst) != 0 {
            Some(format!("a panic in {}", ["", "the first", "the second", "both"][s.panicked.load(SeqCst) as usize & 3]))
        } else {
            None
        };
        let get = |w: usize| (0..s.len[w].load(SeqCst) as usize).map(|i| s.out[w][i].load(SeqCst)).collect();
        let o = Out {
            seen: [s.seen[0].load(SeqCst), s.seen[1].load(SeqCst)],
            switched: [s.switched[0].load(SeqCst) != 0, s.switched[1].load(SeqCst) != 0],
            shows: [get(0), get(1)],
            bad,
        };
        libc::munmap(BASE as *mut _, size);
        o
    }
}
