//! The thread scheduler. Simulated tasks are real threads of which exactly one holds the baton; it is handed
//! over only here, at points the tape chooses: instrumented edges, loads and stores of the library,
//! callbacks into harness code, and waits on the library's own locks.
use crate::{Shared, draw_nz, draw_tape as draw, ev, shared, sys};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const MAX_TASKS: usize = 8;

thread_local! {
    static CUR: Cell<i32> = const { Cell::new(-1) };
    static PREEMPT: Cell<bool> = const { Cell::new(false) };
}

struct Slot {
    baton: AtomicU32,
    state: AtomicU32, // 0 unused, 1 runnable, 2 finished, 3 waiting for a lock, 4 stalled until nobody else can run
}
static SLOTS: [Slot; MAX_TASKS] = [const { Slot { baton: AtomicU32::new(0), state: AtomicU32::new(0) } }; MAX_TASKS];
static READY: AtomicU32 = AtomicU32::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);
static NTASKS: AtomicUsize = AtomicUsize::new(0);
static BUDGET: AtomicI64 = AtomicI64::new(i64::MAX);
static MEAN: AtomicU64 = AtomicU64::new(0);
static SEAM_DEN: AtomicU64 = AtomicU64::new(0);
static STATIC_DEN: AtomicU64 = AtomicU64::new(0);
static LONE: AtomicU32 = AtomicU32::new(0);
static YIELDS: AtomicU32 = AtomicU32::new(0);
static STALL_DEN: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static IDLE: AtomicU64 = AtomicU64::new(0);
static DATA_LO: AtomicUsize = AtomicUsize::new(0);
static DATA_HI: AtomicUsize = AtomicUsize::new(0);

pub fn current() -> i32 {
    CUR.with(|c| c.get())
}

pub struct PreemptOn(bool);
impl PreemptOn {
    pub fn enter() -> Self {
        PreemptOn(PREEMPT.with(|p| p.replace(CUR.with(|c| c.get()) >= 0)))
    }
}
impl Drop for PreemptOn {
    fn drop(&mut self) {
        PREEMPT.with(|p| p.set(self.0))
    }
}
pub struct PreemptOff(bool);
impl PreemptOff {
    pub fn enter() -> Self {
        PreemptOff(PREEMPT.with(|p| p.replace(false)))
    }
}
impl Drop for PreemptOff {
    fn drop(&mut self) {
        PREEMPT.with(|p| p.set(self.0))
    }
}

fn pass_to(i: usize) {
    SLOTS[i].baton.store(1, Release);
    sys::futex_wake(SLOTS[i].baton.as_ptr(), 1);
}
fn wait_turn(me: usize) {
    while SLOTS[me].baton.swap(0, Acquire) != 1 {
        sys::futex_wait(SLOTS[me].baton.as_ptr(), 0);
    }
}

fn others(me: i32, out: &mut [usize; MAX_TASKS]) -> usize {
    others_or_stalled(me, out, false)
}
fn others_or_stalled(me: i32, out: &mut [usize; MAX_TASKS], wake: bool) -> usize {
    let mut n = 0;
    let mut runnable = me >= 0 && SLOTS[me as usize].state.load(Relaxed) == 1;
    for i in 0..NTASKS.load(Relaxed) {
        if i as i32 != me && matches!(SLOTS[i].state.load(Relaxed), 1 | 3) {
            out[n] = i;
            n += 1;
            runnable |= SLOTS[i].state.load(Relaxed) == 1;
        }
    }
    // stalled tasks wake up only when everybody else is done or waits (maybe for them)
    if !runnable || wake {
        for i in 0..NTASKS.load(Relaxed) {
            if i as i32 != me && SLOTS[i].state.load(Relaxed) == 4 {
                out[n] = i;
                n += 1;
            }
        }
    }
    n
}

fn refill() {
    let mean = MEAN.load(Relaxed);
    if mean == 0 {
        BUDGET.store(FOREVER, Relaxed);
        return;
    }
    let r = draw_nz(2 * mean + 1);
    BUDGET.store(if r == 0 { FOREVER } else { r as i64 }, Relaxed);
}

fn switch_to(me: usize, to: usize) {
    let s = shared();
    s.switches += 1;
    s.sched_hash = s.sched_hash.rotate_left(9) ^ (STEPS.load(Relaxed) << 4 | to as u64).wrapping_mul(0x9e3779b97f4a7c15);
    ev("switch-to", &[to as u64, STEPS.load(Relaxed)]);
    pass_to(to);
    wait_turn(me);
    if SLOTS[me].state.load(Relaxed) == 4 {
        SLOTS[me].state.store(1, Relaxed);
    }
}

/// Even a run that "never" pre-empts does so eventually: a task may be spinning on another one.
const FOREVER: i64 = 1 << 26;
const LONE_STEPS: i64 = 1 << 18;

#[cold]
fn preempt() {
    let _off = PreemptOff::enter();
    let me = current();
    if me < 0 {
        BUDGET.store(FOREVER, Relaxed);
        return;
    }
    let mut o = [0; MAX_TASKS];
    // a lone task that goes on for long may be spinning on a stalled one
    let n = others_or_stalled(me, &mut o, LONE.load(Relaxed) > 0);
    if n == 0 {
        LONE.store(1, Relaxed);
        BUDGET.store(LONE_STEPS, Relaxed);
        return;
    }
    LONE.store(0, Relaxed);
    let to = o[draw(n as u64) as usize];
    refill();
    let den = STALL_DEN.load(Relaxed);
    if den > 0 && draw(den) == den - 1 {
        crate::fault("fault.task_stalled");
        SLOTS[me as usize].state.store(4, Relaxed);
    }
    switch_to(me as usize, to);
}

/// Harness callback seams: an explicit place where the caller may lose the processor.
pub fn yield_seam() {
    let me = current();
    if me < 0 {
        return;
    }
    STEPS.fetch_add(1, Relaxed);
    let den = SEAM_DEN.load(Relaxed);
    if den == 0 || draw(den) != den - 1 {
        return;
    }
    let _off = PreemptOff::enter();
    let mut o = [0; MAX_TASKS];
    let n = others(me, &mut o);
    if n > 0 {
        let to = o[draw(n as u64) as usize];
        switch_to(me as usize, to);
    }
}

/// The running task offers the processor (thread::yield_now, sleep).
pub(crate) fn give_way() {
    let _off = PreemptOff::enter();
    let me = current();
    let mut o = [0; MAX_TASKS];
    let n = others_or_stalled(me, &mut o, YIELDS.fetch_add(1, Relaxed) % 64 == 63);
    if n > 0 {
        let to = o[draw(n as u64) as usize];
        switch_to(me as usize, to);
    }
}

fn foreign_threads() -> bool {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0) > NTASKS.load(Relaxed) + 1
}

/// A task waits on a lock of the library: run someone else; a lock that nobody can release is a deadlock.
pub(crate) fn blocked() {
    let _off = PreemptOff::enter();
    let me = current() as usize;
    SLOTS[me].state.store(3, Relaxed);
    let mut o = [0; MAX_TASKS];
    let n = others(me as i32, &mut o);
    crate::count("sched.lock_wait");
    if (n == 0 || IDLE.load(Relaxed) > 20_000) && foreign_threads() {
        // the library started threads of its own: let them run
        sys::pause_us(50);
        SLOTS[me].state.store(1, Relaxed);
        return;
    }
    if n == 0 || IDLE.fetch_add(1, Relaxed) > 20_000 {
        crate::violation("no-progress", "deadlock: an operation waits on a lock of the library that no running task will release");
    }
    let to = o[draw(n as u64) as usize];
    switch_to(me, to);
    SLOTS[me].state.store(1, Relaxed);
}

#[inline(always)]
fn step(addr: usize) {
    if !PREEMPT.with(|p| p.get()) {
        return;
    }
    STEPS.store(STEPS.load(Relaxed) + 1, Relaxed);
    let b = BUDGET.load(Relaxed) - 1;
    BUDGET.store(b, Relaxed);
    if b <= 0 {
        IDLE.store(0, Relaxed);
        return preempt();
    }
    if addr >= DATA_LO.load(Relaxed) && addr < DATA_HI.load(Relaxed) {
        touch_static();
    }
}

#[cold]
fn touch_static() {
    IDLE.store(0, Relaxed);
    let den = STATIC_DEN.load(Relaxed);
    let _off = PreemptOff::enter();
    crate::count("probe.writable_static_access");
    if den > 0 && draw(den) == den - 1 {
        preempt()
    }
}

/// How this run schedules; every knob is drawn (0 = never pre-empt).
pub fn configure() {
    let mean = match draw(10) {
        0 => 0,
        1 => 1u64 << draw(4),
        2 | 3 => 1 << (3 + draw(4)),
        4 | 5 | 6 => 1 << (5 + draw(5)),
        _ => 1 << (7 + draw(8)),
    };
    MEAN.store(mean, Relaxed);
    SEAM_DEN.store([0, 2, 4, 16, 64][draw(5) as usize], Relaxed);
    STATIC_DEN.store([0, 2, 3, 8][draw(4) as usize], Relaxed);
    STALL_DEN.store([0, 0, 4, 30][draw(4) as usize], Relaxed);
    ev("sched", &[mean, SEAM_DEN.load(Relaxed), STATIC_DEN.load(Relaxed)]);
}

/// Few switches, and those mostly where memory is touched that outlives a call.
pub fn configure_static() {
    let mean = [0, 1 << 12, 1 << 15][draw(3) as usize];
    MEAN.store(mean, Relaxed);
    SEAM_DEN.store([0, 4, 16][draw(3) as usize], Relaxed);
    STATIC_DEN.store([2, 3, 8, 16][draw(4) as usize], Relaxed);
    STALL_DEN.store([0, 2, 4, 30][draw(4) as usize], Relaxed);
    ev("sched", &[mean, SEAM_DEN.load(Relaxed), STATIC_DEN.load(Relaxed)]);
}

unsafe extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Runs the tasks to completion under the scheduler. At most once per run.
pub fn run_tasks(tasks: Vec<Box<dyn FnOnce() + Send>>) {
    let n = tasks.len();
    assert!(n <= MAX_TASKS && NTASKS.load(Relaxed) == 0);
    DATA_LO.store(unsafe { &__data_start } as *const u8 as usize, Relaxed);
    DATA_HI.store(unsafe { &_end } as *const u8 as usize, Relaxed);
    for (i, f) in tasks.into_iter().enumerate() {
        let ready = READY.load(Relaxed);
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                CUR.with(|c| c.set(i as i32));
                READY.fetch_add(1, Release);
                sys::futex_wake(READY.as_ptr(), 1);
                wait_turn(i);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                if let Err(p) = r {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                    crate::harness_error(&format!("task {i} panicked: {m:?}"));
                }
                SLOTS[i].state.store(2, Relaxed);
                IDLE.store(0, Relaxed);
                let mut o = [0; MAX_TASKS];
                let k = others(i as i32, &mut o);
                if k == 0 {
                    DONE.store(1, Release);
                    sys::futex_wake(DONE.as_ptr(), 1);
                } else {
                    pass_to(o[draw(k as u64) as usize]);
                }
                // threads never exit during a run: their clean-up would run outside the schedule
                loop {
                    sys::futex_wait(SLOTS[i].baton.as_ptr(), 0);
                    std::thread::yield_now();
                }
            })
            .expect("thread");
        while READY.load(Acquire) == ready {
            sys::futex_wait(READY.as_ptr(), ready);
        }
        SLOTS[i].state.store(1, Relaxed);
    }
    NTASKS.store(n, Relaxed);
    refill();
    pass_to(draw(n as u64) as usize);
    while DONE.load(Acquire) == 0 {
        sys::futex_wait(DONE.as_ptr(), 0);
    }
}

// ---------------------------------------------------------------------------------------------------------
// instrumentation callbacks

static GUARDS: AtomicUsize = AtomicUsize::new(0);
static COV: [std::sync::atomic::AtomicU8; crate::COV_MAX] = [const { std::sync::atomic::AtomicU8::new(0) }; crate::COV_MAX];

pub fn guard_count() -> usize {
    GUARDS.load(Relaxed)
}
pub(crate) fn export_cov(s: &mut Shared) {
    s.steps = STEPS.load(Relaxed);
    for i in 0..GUARDS.load(Relaxed).min(crate::COV_MAX) {
        s.cov[i] |= COV[i].load(Relaxed);
    }
}

/// # Safety
/// called by instrumentation
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        unsafe {
            if *p == 0 {
                *p = 1 + GUARDS.fetch_add(1, Relaxed) as u32;
            }
            p = p.add(1);
        }
    }
}
/// # Safety
/// called by instrumentation
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if PREEMPT.with(|p| p.get()) {
        let g = unsafe { *guard } as usize;
        COV[(g.wrapping_sub(1)) & (crate::COV_MAX - 1)].store(1, Relaxed);
        step(0);
    }
}
macro_rules! mem {
    ($($n:ident)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n(addr: usize) { step(addr) }
    )* }
}
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
     __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
