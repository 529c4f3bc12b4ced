//! The simulator core: a cooperative scheduler for real OS threads.
//!
//! Every thread created while a world is active becomes a simulated task.
//! Exactly one task runs at any time; the others are parked on a private futex
//! word. A task can lose the processor at any instrumented basic-block edge of
//! the library (and of zip/tempfile), at any simulated system call and whenever
//! it blocks. Which task continues is decided by a seeded policy, so that one
//! configuration is exactly one execution.
#![allow(static_mut_refs)]

use std::arch::asm;
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------------------
// Raw system calls, so that the simulator never goes through its own seams.
// ---------------------------------------------------------------------------
#[inline(always)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
pub unsafe fn raw3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    raw6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// Convert a raw kernel result into the libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
pub fn raw_write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw3(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64) };
        if r == -(libc::EINTR as i64) || r == -(libc::EAGAIN as i64) {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        raw3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}

// ---------------------------------------------------------------------------
// Deterministic random numbers.
// ---------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi.saturating_sub(lo) + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn f01(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}
pub fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ (v >> 7)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

// ---------------------------------------------------------------------------
// Configuration of one run.
// ---------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    /// No preemption; the lowest runnable task continues when one blocks.
    Plain,
    /// No preemption; a random runnable task continues when one blocks.
    Serial,
    /// Random walk with the given mean number of steps between switches.
    Walk(u64),
    /// Random priorities with this many priority change points over this many
    /// steps (probabilistic concurrency testing).
    Pct(u32, u64),
    /// Exactly these switches: (step, task). Anything else is as in `Plain`.
    Explicit(Vec<(u64, u32)>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    pub mode: Mode,
    /// Probability in 1/1000 of a spurious futex wakeup at a wait.
    #[serde(default)]
    pub spurious: u32,
}
impl Default for Sched {
    fn default() -> Sched {
        Sched::plain()
    }
}
impl Sched {
    pub fn plain() -> Sched {
        Sched { seed: 0, mode: Mode::Plain, spurious: 0 }
    }
}

// ---------------------------------------------------------------------------
// World state. Touched only by the task that holds the baton, or by the driver
// while no world is active.
// ---------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Join(u32),
    Done,
}

struct Task {
    st: St,
    park: Box<AtomicU32>,
    prio: u64,
    timed_out: bool,
    pthread: usize,
}

#[derive(Default, Clone, Debug)]
pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub tasks: u32,
    pub blocks: u64,
    pub spurious: u64,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub decisions: Vec<(u64, u32)>,
    pub decisions_full: bool,
}

struct World {
    tasks: Vec<Task>,
    cur: u32,
    rng: Rng,
    /// For choices that are the same in recorded and explicit schedules.
    rng2: Rng,
    reprioritise: bool,
    sched: Sched,
    explicit_pos: usize,
    change_points: Vec<u64>,
    low_prio: u64,
    stats: RunStats,
    mono_ns: u64,
    max_steps: u64,
}

static mut WORLD: Option<World> = None;
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static DONE: AtomicU32 = AtomicU32::new(0);
/// Called with a reason when the world cannot continue (deadlock, no progress).
pub static mut ON_ABORT: Option<fn(&str)> = None;

/// Edge coverage: one byte per instrumented edge, and the edge last executed.
pub static mut EDGES: Vec<u8> = Vec::new();
static mut LAST_EDGE: u32 = 0;
static mut N_GUARDS: u32 = 0;

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static BUSY: Cell<u32> = const { Cell::new(0) };
}

/// True when the calling thread is a simulated task outside the simulator.
#[inline(always)]
pub fn in_task() -> bool {
    ACTIVE.load(Relaxed) && TID.with(|t| t.get()) >= 0 && BUSY.with(|b| b.get()) == 0
}
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}
/// Run `f` as the simulator: no preemption and no interposition inside.
pub fn busy<R>(f: impl FnOnce() -> R) -> R {
    BUSY.with(|b| b.set(b.get() + 1));
    let r = f();
    BUSY.with(|b| b.set(b.get() - 1));
    r
}

unsafe fn w() -> &'static mut World {
    WORLD.as_mut().unwrap()
}

pub fn trace(v: u64) {
    unsafe {
        let w = w();
        w.stats.trace_hash = mix(w.stats.trace_hash, v);
    }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
pub fn mono_ns() -> u64 {
    unsafe { WORLD.as_ref().map_or(0, |w| w.mono_ns) }
}
pub fn advance_ns(d: u64) {
    unsafe {
        if let Some(w) = WORLD.as_mut() {
            w.mono_ns += d;
        }
    }
}

fn park(word: &AtomicU32) {
    loop {
        if word.swap(0, SeqCst) == 1 {
            return;
        }
        unsafe {
            raw6(libc::SYS_futex, word as *const _ as i64, libc::FUTEX_WAIT as i64 | 128, 0, 0, 0, 0);
        }
    }
}
fn unpark(word: &AtomicU32) {
    word.store(1, SeqCst);
    unsafe {
        raw6(libc::SYS_futex, word as *const _ as i64, libc::FUTEX_WAKE as i64 | 128, 1, 0, 0, 0);
    }
}

fn abort_world(why: &str) -> ! {
    unsafe {
        if let Some(f) = ON_ABORT {
            f(why);
        }
    }
    exit_group(3)
}

// ---------------------------------------------------------------------------
// Scheduling decisions.
// ---------------------------------------------------------------------------
unsafe fn draw_quantum(w: &mut World, mean: u64) -> u64 {
    // Exponential with an occasional long slice, and a slowdown once very many
    // switches were made, so that a fine-grained run still terminates quickly.
    let mut m = mean as f64;
    if w.stats.switches > 4_000 {
        m *= (w.stats.switches / 1_000) as f64;
    }
    if w.rng.chance(1, 12) {
        m *= 40.0;
    }
    let u = w.rng.f01();
    1 + (-(1.0 - u).ln() * m) as u64
}

unsafe fn arm(w: &mut World) {
    let steps = STEPS;
    NEXT = match &w.sched.mode {
        Mode::Plain | Mode::Serial => w.max_steps,
        Mode::Walk(mean) => {
            let m = *mean;
            steps + draw_quantum(w, m)
        }
        Mode::Pct(..) => w.change_points.last().copied().unwrap_or(w.max_steps),
        Mode::Explicit(list) => {
            while w.explicit_pos < list.len() && list[w.explicit_pos].0 <= steps {
                w.explicit_pos += 1;
            }
            list.get(w.explicit_pos).map_or(w.max_steps, |d| d.0)
        }
    };
    if NEXT > w.max_steps {
        NEXT = w.max_steps;
    }
}

fn record(w: &mut World, task: u32) {
    let step = unsafe { STEPS };
    let s = &mut w.stats;
    s.sched_hash = mix(s.sched_hash, (unsafe { LAST_EDGE } as u64) << 20 | (w.cur as u64) << 10 | task as u64);
    s.trace_hash = mix(s.trace_hash, step << 8 ^ task as u64);
    if s.decisions.len() < 60_000 {
        s.decisions.push((step, task));
    } else {
        s.decisions_full = true;
    }
}

/// Choose the task to run next among the runnable ones. `forced` means that the
/// current task cannot continue.
unsafe fn choose(w: &mut World, forced: bool) -> Option<u32> {
    let runnable: Vec<u32> =
        (0..w.tasks.len() as u32).filter(|i| w.tasks[*i as usize].st == St::Runnable).collect();
    if runnable.is_empty() {
        return None;
    }
    let cur = w.cur;
    Some(match &w.sched.mode {
        Mode::Plain => {
            if forced {
                runnable[0]
            } else {
                cur
            }
        }
        Mode::Serial => {
            if forced {
                *w.rng.pick(&runnable)
            } else {
                cur
            }
        }
        Mode::Walk(_) => *w.rng.pick(&runnable),
        Mode::Pct(..) => {
            *runnable.iter().max_by_key(|i| w.tasks[**i as usize].prio).unwrap()
        }
        Mode::Explicit(list) => {
            let pos = list.partition_point(|d| d.0 < STEPS);
            match list.get(pos) {
                Some(d) if d.0 == STEPS && runnable.contains(&d.1) => d.1,
                _ => {
                    if forced {
                        runnable[0]
                    } else {
                        cur
                    }
                }
            }
        }
    })
}

unsafe fn switch_to(next: u32) {
    let w = w();
    let me = w.cur;
    if next == me {
        return;
    }
    w.stats.switches += 1;
    w.cur = next;
    let my_done = w.tasks[me as usize].st == St::Done;
    let my_park: *const AtomicU32 = &*w.tasks[me as usize].park;
    unpark(&w.tasks[next as usize].park);
    if !my_done {
        park(&*my_park);
    }
}

/// Possibly preempt the current task.
#[cold]
#[inline(never)]
fn preempt() {
    busy(|| unsafe {
        let w = w();
        if STEPS >= w.max_steps {
            abort_world("no-progress");
        }
        if let Mode::Pct(..) = w.sched.mode {
            if w.reprioritise {
                w.reprioritise = false;
            } else {
                w.change_points.pop();
                w.low_prio -= 1;
                let c = w.cur as usize;
                w.tasks[c].prio = w.low_prio;
            }
        }
        if let Some(n) = choose(w, false) {
            if n != w.cur {
                record(w, n);
                arm(w);
                switch_to(n);
                return;
            }
        }
        arm(w);
    })
}

/// A possible preemption point.
#[inline(always)]
pub fn point() {
    if in_task() {
        unsafe {
            STEPS += 1;
            if STEPS >= NEXT {
                preempt();
            }
        }
    }
}

/// The current task cannot run: hand over to another one.
unsafe fn block() {
    let w = w();
    w.stats.blocks += 1;
    loop {
        STEPS += 1;
        if let Some(n) = choose(w, true) {
            record(w, n);
            arm(w);
            switch_to(n);
            return;
        }
        // Nobody can run: let simulated time pass until a timeout expires.
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in w.tasks.iter().enumerate() {
            if let St::Futex { deadline, .. } = t.st {
                if deadline != u64::MAX && best.map_or(true, |b| deadline < b.0) {
                    best = Some((deadline, i));
                }
            }
        }
        match best {
            Some((d, i)) => {
                w.mono_ns = w.mono_ns.max(d);
                w.tasks[i].timed_out = true;
                w.tasks[i].st = St::Runnable;
            }
            None => abort_world("deadlock"),
        }
    }
}

// ---------------------------------------------------------------------------
// Instrumentation callbacks.
// ---------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g;
    if ACTIVE.load(Relaxed) {
        let e = EDGES.as_mut_ptr().add(id as usize);
        *e = 1;
        LAST_EDGE = id;
    }
    point();
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    if a == b || *a != 0 {
        return;
    }
    while p < b {
        N_GUARDS += 1;
        *p = N_GUARDS;
        p = p.add(1);
    }
}
pub fn n_guards() -> u32 {
    unsafe { N_GUARDS }
}
pub fn init_process() {
    unsafe {
        EDGES = vec![0; N_GUARDS as usize + 2];
    }
}

// ---------------------------------------------------------------------------
// Threads.
// ---------------------------------------------------------------------------
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    tid: u32,
    park: *const AtomicU32,
    start: Start,
    arg: *mut c_void,
}

fn next_sym(name: &[u8]) -> *mut c_void {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) }
}
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> i32;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
unsafe fn real_create() -> CreateFn {
    if REAL_CREATE.is_none() {
        REAL_CREATE = Some(std::mem::transmute(next_sym(b"pthread_create\0")));
    }
    REAL_CREATE.unwrap()
}
unsafe fn real_join() -> JoinFn {
    if REAL_JOIN.is_none() {
        REAL_JOIN = Some(std::mem::transmute(next_sym(b"pthread_join\0")));
    }
    REAL_JOIN.unwrap()
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let boot = unsafe { Box::from_raw(p as *mut Boot) };
    park(unsafe { &*boot.park });
    TID.with(|t| t.set(boot.tid as i32));
    let r = (boot.start)(boot.arg);
    // The task is over. Its thread-local destructors run outside the world.
    busy(|| unsafe {
        let w = w();
        STEPS += 1;
        let me = boot.tid;
        w.tasks[me as usize].st = St::Done;
        for t in w.tasks.iter_mut() {
            if t.st == St::Join(me) {
                t.st = St::Runnable;
            }
        }
        if w.tasks.iter().all(|t| t.st == St::Done) {
            ACTIVE.store(false, SeqCst);
            unpark(&DONE);
        } else {
            TID.with(|t| t.set(-1));
            block();
        }
    });
    TID.with(|t| t.set(-1));
    r
}

unsafe fn add_task(w: &mut World) -> u32 {
    let id = w.tasks.len() as u32;
    let prio = match w.sched.mode {
        Mode::Pct(..) => 1_000_000 + w.rng.below(1_000_000),
        _ => 0,
    };
    w.tasks.push(Task {
        st: St::Runnable,
        park: Box::new(AtomicU32::new(0)),
        prio,
        timed_out: false,
        pthread: 0,
    });
    w.stats.tasks += 1;
    id
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const c_void,
    start: Start,
    arg: *mut c_void,
) -> i32 {
    if !in_task() {
        return real_create()(out, attr, start, arg);
    }
    let mut r = 0;
    busy(|| {
        let w = w();
        let id = add_task(w);
        let boot = Box::into_raw(Box::new(Boot {
            tid: id,
            park: &*w.tasks[id as usize].park,
            start,
            arg,
        }));
        r = real_create()(out, attr, trampoline, boot as *mut c_void);
        if r != 0 {
            w.tasks[id as usize].st = St::Done;
            return;
        }
        w.tasks[id as usize].pthread = *out as usize;
        w.stats.trace_hash = mix(w.stats.trace_hash, 0xC0DE + id as u64);
        if let Mode::Pct(..) = w.sched.mode {
            // Reconsider who runs at the preemption point below.
            w.reprioritise = true;
            NEXT = 0;
        }
    });
    point();
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, val: *mut *mut c_void) -> i32 {
    if in_task() {
        busy(|| {
            let w = w();
            let target = w.tasks.iter().rposition(|x| x.pthread == t as usize);
            if let Some(i) = target {
                let me = w.cur as usize;
                if w.tasks[i].st != St::Done {
                    w.tasks[me].st = St::Join(i as u32);
                    block();
                }
            }
        });
    }
    real_join()(t, val)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_task() {
        busy(|| {
            let w = w();
            STEPS += 1;
            if let Some(n) = choose(w, true) {
                record(w, n);
                switch_to(n);
            }
        });
    }
    0
}

unsafe fn futex_wait(addr: usize, val: u32, bits: u32, rel_or_abs: *const libc::timespec, abs: bool) -> i64 {
    let mut res = 0i64;
    busy(|| {
        let w = w();
        if (*(addr as *const AtomicU32)).load(SeqCst) != val {
            res = -(libc::EAGAIN as i64);
            return;
        }
        if w.sched.spurious > 0 && w.rng2.below(1000) < w.sched.spurious as u64 {
            w.stats.spurious += 1;
            w.stats.trace_hash = mix(w.stats.trace_hash, 0x5F05);
            // A spurious return still lets somebody else run first.
            STEPS += 1;
            if let Some(n) = choose(w, true) {
                record(w, n);
                switch_to(n);
            }
            return;
        }
        let deadline = if rel_or_abs.is_null() {
            u64::MAX
        } else {
            let ns = (*rel_or_abs).tv_sec as u64 * 1_000_000_000 + (*rel_or_abs).tv_nsec as u64;
            if abs {
                ns
            } else {
                w.mono_ns.saturating_add(ns)
            }
        };
        let me = w.cur as usize;
        w.tasks[me].timed_out = false;
        w.tasks[me].st = St::Futex { addr, bits, deadline };
        block();
        if w.tasks[me].timed_out {
            res = -(libc::ETIMEDOUT as i64);
        }
    });
    res
}

unsafe fn futex_wake(addr: usize, n: u32, bits: u32) -> i64 {
    let mut woken = 0;
    busy(|| {
        let w = w();
        let mut waiting: Vec<usize> = (0..w.tasks.len())
            .filter(|i| match w.tasks[*i].st {
                St::Futex { addr: a, bits: b, .. } => a == addr && (b & bits) != 0,
                _ => false,
            })
            .collect();
        while woken < n as i64 && !waiting.is_empty() {
            let k = match w.sched.mode {
                Mode::Plain => 0,
                _ => w.rng2.below(waiting.len() as u64) as usize,
            };
            let i = waiting.remove(k);
            w.tasks[i].st = St::Runnable;
            woken += 1;
        }
    });
    point();
    woken
}

/// The variadic libc `syscall`. On x86-64 the integer arguments arrive in the
/// same places as for a fixed signature.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if in_task() {
        if n == libc::SYS_futex {
            let op = (b as i32) & 127;
            match op {
                libc::FUTEX_WAIT => {
                    return ret(futex_wait(a as usize, c as u32, !0, d as *const _, false))
                }
                libc::FUTEX_WAIT_BITSET => {
                    return ret(futex_wait(a as usize, c as u32, f as u32, d as *const _, true))
                }
                libc::FUTEX_WAKE => return ret(futex_wake(a as usize, c as u32, !0)),
                libc::FUTEX_WAKE_BITSET => return ret(futex_wake(a as usize, c as u32, f as u32)),
                _ => {}
            }
        }
        if n == libc::SYS_getrandom {
            return crate::fs::getrandom(a as *mut c_void, b as usize, c as u32) as i64;
        }
        if n == libc::SYS_statx || n == libc::SYS_copy_file_range {
            return ret(-(libc::ENOSYS as i64));
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    _c: i32,
    flags: i32,
    req: *const libc::timespec,
    _rem: *mut libc::timespec,
) -> i32 {
    if in_task() {
        let word = AtomicU32::new(0);
        futex_wait(&word as *const _ as usize, 0, !0, req, flags & libc::TIMER_ABSTIME != 0);
        return 0;
    }
    let r = raw6(libc::SYS_clock_nanosleep, _c as i64, flags as i64, req as i64, _rem as i64, 0, 0);
    -r as i32
}

// ---------------------------------------------------------------------------
// Running a closure as the root task of a fresh world.
// ---------------------------------------------------------------------------
struct Job<'a> {
    f: Option<Box<dyn FnOnce() + 'a>>,
}
extern "C" fn root_start(p: *mut c_void) -> *mut c_void {
    let job = unsafe { &mut *(p as *mut Job) };
    let f = job.f.take().unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    std::ptr::null_mut()
}

/// Run `f` under the simulator and return the statistics of the run.
pub fn run(sched: &Sched, max_steps: u64, f: impl FnOnce()) -> RunStats {
    unsafe {
        assert!(!ACTIVE.load(SeqCst));
        let mut world = World {
            tasks: Vec::with_capacity(1024),
            cur: 0,
            rng: Rng::new(sched.seed ^ 0x5C4ED),
            rng2: Rng::new(sched.seed ^ 0x5EED2),
            reprioritise: false,
            sched: sched.clone(),
            explicit_pos: 0,
            change_points: vec![],
            low_prio: 900_000,
            stats: RunStats::default(),
            mono_ns: 1_000_000_000,
            max_steps,
        };
        if let Mode::Pct(d, total) = sched.mode {
            let mut v: Vec<u64> = (0..d).map(|_| 1 + world.rng.below(total.max(1))).collect();
            v.sort_unstable();
            v.dedup();
            v.reverse();
            world.change_points = v;
        }
        STEPS = 0;
        add_task(&mut world);
        arm(&mut world);
        WORLD = Some(world);
        DONE.store(0, SeqCst);
        let mut job = Job { f: Some(Box::new(f)) };
        let boot = Box::into_raw(Box::new(Boot {
            tid: 0,
            park: &*w().tasks[0].park,
            start: root_start,
            arg: &mut job as *mut Job as *mut c_void,
        }));
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 16 << 20);
        let mut th: libc::pthread_t = 0;
        let r = real_create()(&mut th, &attr as *const _ as *const c_void, trampoline, boot as *mut c_void);
        assert_eq!(r, 0, "cannot create the root thread");
        w().tasks[0].pthread = th as usize;
        ACTIVE.store(true, SeqCst);
        unpark(&w().tasks[0].park);
        park(&DONE);
        real_join()(th, std::ptr::null_mut());
        let mut world = WORLD.take().unwrap();
        world.stats.steps = STEPS;
        world.stats.trace_hash = mix(world.stats.trace_hash, STEPS);
        world.stats
    }
}
