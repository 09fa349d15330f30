//! A deterministic scheduler of real threads.
//!
//! Exactly one simulated thread runs at a time. Control can move to another one at every basic
//! block of the instrumented crates (`__sanitizer_cov_trace_pc`, inserted by the compiler), at
//! every allocation, at the calls made to the caller's components, and whenever a thread would
//! wait for a futex (locks, once cells, condition variables of the standard library), sleep or
//! give way. Time, randomness and futexes of simulated threads are simulated too. A run is a pure
//! function of the closures and of the schedule.
//!
//! This crate is not instrumented and uses no lock of the standard library itself.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::*};

pub const MAX: usize = 8;

thread_local! {
    /// 0: not a simulated thread.
    static TID: Cell<u32> = const { Cell::new(0) };
    /// Simulated, but not to be interrupted (inside the harness).
    static CALM: Cell<u32> = const { Cell::new(0) };
}

static STEP: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(1);
static GO: [AtomicU32; MAX + 1] = [const { AtomicU32::new(0) }; MAX + 1];
static DONE: [AtomicBool; MAX + 1] = [const { AtomicBool::new(true) }; MAX + 1];
/// Address of the futex each thread waits for.
static WAITS: [AtomicU64; MAX + 1] = [const { AtomicU64::new(0) }; MAX + 1];
static N: AtomicU32 = AtomicU32::new(0);
static STUCK: AtomicU32 = AtomicU32::new(0);
static STUCK_AT: AtomicU64 = AtomicU64::new(0);

pub const FIXED: u32 = 0;
pub const RANDOM: u32 = 1;

/// How threads are interleaved.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    /// `Some`: the exact steps at which control moves, and to whom.
    pub fixed: Option<Vec<(u64, u32)>>,
    pub seed: u64,
    /// Mean number of steps between two switches.
    pub mean: u64,
    /// Percentage of the calls to the caller's components at which control moves.
    pub seams: u64,
    pub first: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps: u64,
    pub switches: Vec<(u64, u32)>,
    pub waits: u64,
    pub hash: u64,
}

struct State {
    plan: Plan,
    rng: u64,
    cursor: usize,
    switches: Vec<(u64, u32)>,
    waits: u64,
    hash: u64,
}
static mut STATE: Option<State> = None;

#[allow(static_mut_refs)]
fn state() -> &'static mut State {
    // Only the thread that holds the baton comes here.
    unsafe { STATE.as_mut().unwrap() }
}

fn rnd(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

fn sleep_until(w: &AtomicU32) {
    while w.load(Acquire) == 0 {
        unsafe { sys(libc::SYS_futex, w.as_ptr() as i64, libc::FUTEX_WAIT as i64 | 128, 0, 0, 0, 0) };
    }
    w.store(0, Release);
}
fn release(w: &AtomicU32) {
    w.store(1, Release);
    unsafe { sys(libc::SYS_futex, w.as_ptr() as i64, libc::FUTEX_WAKE as i64 | 128, 1, 0, 0, 0) };
}

/// Called once the case cannot go on: the handler reports and ends the process.
static HANDLER: AtomicU64 = AtomicU64::new(0);
pub fn on_stop(f: fn(&str, &Report)) {
    HANDLER.store(f as usize as u64, SeqCst);
}
fn stop(why: &str) -> ! {
    TID.with(|t| t.set(0));
    let h = HANDLER.load(SeqCst);
    if h != 0 {
        let f: fn(&str, &Report) = unsafe { std::mem::transmute(h as usize) };
        f(why, &report());
    }
    unsafe { libc::_exit(3) }
}

fn report() -> Report {
    let s = state();
    Report { steps: STEP.load(Relaxed), switches: s.switches.clone(), waits: s.waits, hash: s.hash }
}

fn schedule_next(now: u64) {
    let s = state();
    let n = match &s.plan.fixed {
        Some(f) => f.get(s.cursor).map(|x| x.0).unwrap_or(u64::MAX),
        None => {
            let u = (rnd(&mut s.rng) >> 11) as f64 / (1u64 << 53) as f64;
            now + 1 + (-(1.0 - u).ln() * s.plan.mean as f64) as u64
        }
    };
    NEXT.store(n.min(LIMIT.load(Relaxed)), Relaxed);
}

fn ready(me: u32) -> Vec<u32> {
    (1..=N.load(Relaxed)).filter(|t| *t != me && !DONE[*t as usize].load(Relaxed) && WAITS[*t as usize].load(Relaxed) == 0).collect()
}

fn choose(me: u32, now: u64, must: bool) -> Option<u32> {
    let mut to = ready(me);
    if to.is_empty() && must {
        // Everybody waits: wake all, as a futex may do at any time.
        for t in 1..=N.load(Relaxed) as usize {
            if t as u32 != me && !DONE[t].load(Relaxed) {
                WAITS[t].store(0, Relaxed);
                to.push(t as u32);
            }
        }
    }
    let s = state();
    if to.is_empty() {
        return None;
    }
    let pick = match &s.plan.fixed {
        Some(f) => {
            let mut wanted = None;
            while let Some(x) = f.get(s.cursor) {
                if x.0 > now {
                    break;
                }
                wanted = Some(x.1);
                s.cursor += 1;
            }
            match wanted {
                Some(w) if to.contains(&w) => w,
                _ if must => to[0],
                _ => return None,
            }
        }
        None => to[(rnd(&mut s.rng) % to.len() as u64) as usize],
    };
    s.switches.push((now, pick));
    s.hash = (s.hash ^ now.wrapping_mul(31).wrapping_add(pick as u64)).wrapping_mul(0x100000001b3);
    Some(pick)
}

fn slow(me: u32, seam: bool) {
    calm(|| {
        let now = STEP.load(Relaxed);
        if now >= LIMIT.load(Relaxed) {
            stop("no-end");
        }
        let due = now >= NEXT.load(Relaxed);
        let to = if due || seam { choose(me, now, false) } else { None };
        if due {
            schedule_next(now);
        }
        if let Some(to) = to {
            release(&GO[to as usize]);
            sleep_until(&GO[me as usize]);
        }
    })
}

/// A possible switch.
#[inline]
pub fn point() {
    let me = TID.with(|t| t.get());
    if me == 0 || CALM.with(|c| c.get()) != 0 {
        return;
    }
    let n = STEP.load(Relaxed) + 1;
    STEP.store(n, Relaxed);
    if n >= NEXT.load(Relaxed) {
        slow(me, false);
    }
}

/// A call to one of the caller's components.
pub fn seam() {
    let me = TID.with(|t| t.get());
    if me == 0 || CALM.with(|c| c.get()) != 0 {
        return;
    }
    let n = STEP.load(Relaxed) + 1;
    STEP.store(n, Relaxed);
    let s = state();
    let go = s.plan.fixed.is_none() && rnd(&mut s.rng) % 100 < s.plan.seams;
    if go || n >= NEXT.load(Relaxed) {
        slow(me, go);
    }
}

pub fn calm<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            CALM.with(|c| c.set(c.get() - 1));
        }
    }
    CALM.with(|c| c.set(c.get() + 1));
    let _b = Back;
    f()
}

/// Steps made so far.
pub fn steps() -> u64 {
    STEP.load(Relaxed)
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    point();
}

/// Runs the closures as simulated threads.
pub fn run(plan: &Plan, limit: u64, fs: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = fs.len();
    assert!(n <= MAX && n > 0);
    STEP.store(0, SeqCst);
    LIMIT.store(limit, SeqCst);
    CLOCK.store(0, SeqCst);
    STUCK.store(0, SeqCst);
    N.store(n as u32, SeqCst);
    #[allow(static_mut_refs)]
    unsafe {
        STATE = Some(State { plan: plan.clone(), rng: plan.seed, cursor: 0, switches: Vec::with_capacity(1024), waits: 0, hash: 0xcbf29ce484222325 });
    }
    GO[0].store(0, SeqCst);
    let mut hs = Vec::new();
    for (i, f) in fs.into_iter().enumerate() {
        let t = i as u32 + 1;
        GO[t as usize].store(0, SeqCst);
        DONE[t as usize].store(false, SeqCst);
        WAITS[t as usize].store(0, SeqCst);
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                sleep_until(&GO[t as usize]);
                TID.with(|x| x.set(t));
                point();
                f();
                TID.with(|x| x.set(0));
                DONE[t as usize].store(true, SeqCst);
                release(&GO[0]);
            })
            .expect("thread");
        hs.push(Some(h));
    }
    schedule_next(0);
    let mut me = (plan.first % n as u32) + 1;
    let mut left = n;
    loop {
        release(&GO[me as usize]);
        sleep_until(&GO[0]);
        // Some thread ended, holding the baton.
        for t in 1..=n {
            if DONE[t].load(SeqCst) {
                if let Some(h) = hs[t - 1].take() {
                    let _ = h.join();
                    left -= 1;
                }
            }
        }
        if left == 0 {
            break;
        }
        let now = STEP.load(SeqCst) + 1;
        STEP.store(now, SeqCst);
        me = choose(0, now, true).expect("a thread");
    }
    report()
}

/// The running thread waits for the futex at `addr`.
fn wait(me: u32, addr: u64) {
    calm(|| {
        let n = STEP.load(Relaxed) + 1;
        STEP.store(n, Relaxed);
        let s = state();
        s.waits += 1;
        if n >= LIMIT.load(Relaxed) {
            stop("no-end");
        }
        // Waits without any other step in between are no progress.
        let k = if n - STUCK_AT.swap(n, Relaxed) <= 400 { STUCK.fetch_add(1, Relaxed) } else { STUCK.swap(0, Relaxed) };
        if k > 3000 {
            stop("deadlock");
        }
        WAITS[me as usize].store(addr, Relaxed);
        if let Some(to) = choose(me, n, true) {
            release(&GO[to as usize]);
            sleep_until(&GO[me as usize]);
        }
        WAITS[me as usize].store(0, Relaxed);
    })
}

static ERRNO_SINK: AtomicI32 = AtomicI32::new(0);

fn fail(e: i32) -> i64 {
    ERRNO_SINK.store(e, Relaxed);
    unsafe { *libc::__errno_location() = e };
    -1
}

/// Takes the place of libc's `syscall`, which the standard library uses for futexes.
///
/// # Safety
/// As the system call.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let me = TID.try_with(|t| t.get()).unwrap_or(0);
    if me != 0 {
        if n == libc::SYS_futex {
            let op = b as i32 & 0x7f;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let w = &*(a as *const AtomicU32);
                    if w.load(SeqCst) != c as u32 {
                        return fail(libc::EAGAIN);
                    }
                    if d != 0 {
                        // With a time limit: it passes.
                        CLOCK.fetch_add(1_000_000_000, Relaxed);
                        wait(me, 0);
                        if w.load(SeqCst) == c as u32 {
                            return fail(libc::ETIMEDOUT);
                        }
                        return 0;
                    }
                    wait(me, a as u64);
                    return 0;
                }
                libc::FUTEX_WAKE => {
                    let mut woken = 0;
                    for t in 1..=N.load(Relaxed) as usize {
                        if woken < c && WAITS[t].load(Relaxed) == a as u64 {
                            WAITS[t].store(0, Relaxed);
                            woken += 1;
                        }
                    }
                    return woken;
                }
                _ => (),
            }
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut u8, b as usize, 0) as i64;
        }
    }
    let r = sys(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        return fail(-r as i32);
    }
    r
}

/// # Safety
/// `p` is valid for `n` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    let mut s = SEED.load(Relaxed);
    for i in 0..n {
        *p.add(i) = rnd(&mut s) as u8;
    }
    SEED.store(s, Relaxed);
    n as isize
}

pub fn seed_randomness(s: u64) {
    SEED.store(s, SeqCst);
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    seam();
    0
}

/// # Safety
/// As the system call.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    let me = TID.with(|t| t.get());
    if me == 0 {
        let x = sys(libc::SYS_nanosleep, r as i64, m as i64, 0, 0, 0, 0);
        return if x < 0 { fail(-x as i32) as i32 } else { 0 };
    }
    CLOCK.fetch_add((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64, Relaxed);
    wait(me, 0);
    0
}

/// # Safety
/// As the system call.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    nanosleep(r, m)
}

/// # Safety
/// As the system call.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    let me = TID.try_with(|t| t.get()).unwrap_or(0);
    if me == 0 {
        let x = sys(libc::SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0);
        return if x < 0 { fail(-x as i32) as i32 } else { 0 };
    }
    let n = CLOCK.load(Relaxed) + STEP.load(Relaxed) * 1000;
    (*t).tv_sec = 1_700_000_000 + (n / 1_000_000_000) as i64;
    (*t).tv_nsec = (n % 1_000_000_000) as i64;
    0
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TID.try_with(|t| t.get()).unwrap_or(0) != 0 {
            point();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
