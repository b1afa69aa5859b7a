//! Simulation runtime: one choice tape decides everything in a run (workload, faults, schedule), every run
//! is a process of its own, and every source of nondeterminism the library could touch (scheduling, lock
//! waits, addresses, entropy, clock) is behind a seam owned here.
//!
//! This crate is never compiled with the pre-emption instrumentation.
pub mod alloc;
pub mod run;
pub mod sched;
pub mod sys;

use std::cell::{Cell, UnsafeCell};
use std::fmt::Write as _;

// ---------------------------------------------------------------------------------------------------------
// shared memory: what survives a run's process

pub const TAPE_MAX: usize = 1 << 19;
pub const COUNTERS: usize = 200;
pub const COV_MAX: usize = 1 << 16;
pub const TRACE_MAX: usize = 1 << 20;

#[repr(C)]
pub struct Text<const N: usize> {
    pub len: u32,
    pub buf: [u8; N],
}
impl<const N: usize> Text<N> {
    pub fn set(&mut self, s: &str) {
        self.len = 0;
        self.push(s);
    }
    pub fn push(&mut self, s: &str) {
        let room = N - self.len as usize;
        let n = s.len().min(room);
        self.buf[self.len as usize..][..n].copy_from_slice(&s.as_bytes()[..n]);
        self.len += n as u32;
    }
    pub fn get(&self) -> String {
        String::from_utf8_lossy(&self.buf[..self.len as usize]).into_owned()
    }
}
impl<const N: usize> std::fmt::Write for Text<N> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.push(s);
        Ok(())
    }
}

#[repr(C)]
pub struct Counter {
    pub name: Text<44>,
    pub val: u64,
}

pub const ST_NONE: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;
/// a run that is long by design and was cut off: no verdict
pub const ST_UNFINISHED: u32 = 4;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    /// the run said that it takes long by design: its time limit is no verdict
    pub heavy: u32,
    /// the run's memory is used up
    pub oom: u32,
    pub class: Text<200>,
    pub detail: Text<8000>,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub faults: u64,
    pub ops: u64,
    pub sim_us: u64,
    pub tape_len: u64,
    pub ncounters: u32,
    pub counters: [Counter; COUNTERS],
    pub cov: [u8; COV_MAX],
    pub trace: Text<TRACE_MAX>,
    pub tape: [u64; TAPE_MAX],
}

// ---------------------------------------------------------------------------------------------------------
// run context

struct Ctx {
    in_run: bool,
    verbose: bool,
    replay: Option<Vec<u64>>,
    pos: usize,
    rng: [u64; 4],
    hash: u64,
    shared: *mut Shared,
    cptr: [(usize, u32); COUNTERS],
    entropy: u64,
    clock_us: u64,
    wall_us: i64,
    steady: bool,
    idx: u64,
}

struct Global(UnsafeCell<Ctx>);
unsafe impl Sync for Global {}

static CTX: Global = Global(UnsafeCell::new(Ctx {
    in_run: false,
    verbose: false,
    replay: None,
    pos: 0,
    rng: [0; 4],
    hash: 0,
    shared: core::ptr::null_mut(),
    cptr: [(0, 0); COUNTERS],
    entropy: 0,
    clock_us: 0,
    wall_us: 0,
    steady: false,
    idx: u64::MAX,
}));

/// Exactly one simulated thread runs at a time, so there is never a concurrent access.
#[allow(clippy::mut_from_ref)]
fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX.0.get() }
}
pub(crate) fn shared() -> &'static mut Shared {
    unsafe { &mut *ctx().shared }
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn rng_next(s: &mut [u64; 4]) -> u64 {
    // xoshiro256**
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
}

pub enum Source {
    Seed { seed: u64, idx: u64 },
    Tape(Vec<u64>),
}

pub(crate) fn begin_run(shared: *mut Shared, src: Source, verbose: bool) {
    let c = ctx();
    c.shared = shared;
    c.verbose = verbose;
    c.pos = 0;
    c.hash = 0xcbf29ce484222325;
    c.clock_us = 1_700_000_000_000_000;
    c.wall_us = 0;
    c.steady = false;
    c.cptr = [(0, 0); COUNTERS];
    match src {
        Source::Seed { seed, idx } => {
            let mut x = seed;
            c.rng = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
            c.replay = None;
            c.idx = idx;
        }
        Source::Tape(t) => {
            c.replay = Some(t);
            c.idx = u64::MAX;
        }
    }
    let s = unsafe { &mut *shared };
    s.status = ST_NONE;
    s.class.len = 0;
    s.detail.len = 0;
    s.hash = 0;
    s.steps = 0;
    s.switches = 0;
    s.sched_hash = 0;
    s.faults = 0;
    s.ops = 0;
    s.sim_us = 0;
    s.tape_len = 0;
    s.ncounters = 0;
    s.trace.len = 0;
    c.in_run = true;
    c.entropy = 0x1234_5678;
}

pub fn in_run() -> bool {
    ctx().in_run
}
/// Number of the run within its batch; only for `forced` (never read on replay).
pub fn run_index() -> u64 {
    ctx().idx
}

fn record(v: u64) {
    let s = shared();
    let n = s.tape_len as usize;
    if n < TAPE_MAX {
        s.tape[n] = v;
        s.tape_len += 1;
    }
}

thread_local! {
    static SCRIPT: std::cell::Cell<Option<[u64; 4]>> = const { std::cell::Cell::new(None) };
}
/// Runs `f` with all its choices except those of the scheduler taken from a script that `seed` stands for: doing
/// so again with the same seed does the same thing again, with the same arguments.
pub fn scripted<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    let mut z = seed;
    let old = SCRIPT.replace(Some(std::array::from_fn(|_| splitmix(&mut z))));
    let r = f();
    SCRIPT.set(old);
    r
}

fn draw_with(bound: u64, gen_: impl FnOnce(&mut [u64; 4]) -> u64) -> u64 {
    if bound > 1 {
        if let Some(mut s) = SCRIPT.get() {
            let v = gen_(&mut s);
            SCRIPT.set(Some(s));
            return v;
        }
    }
    tape_with(bound, gen_)
}

fn tape_with(bound: u64, gen_: impl FnOnce(&mut [u64; 4]) -> u64) -> u64 {
    debug_assert!(bound > 0);
    if bound <= 1 {
        return 0;
    }
    let c = ctx();
    let v = match &c.replay {
        Some(t) => {
            let v = t.get(c.pos).copied().unwrap_or(0).min(bound - 1);
            c.pos += 1;
            v
        }
        None => gen_(&mut c.rng),
    };
    record(v);
    v
}

/// A choice in 0..bound. By convention 0 is the simplest choice (shrinking aims for it).
pub fn draw(bound: u64) -> u64 {
    draw_with(bound, |r| rng_next(r) % bound)
}
/// The scheduler's choices.
pub(crate) fn draw_tape(bound: u64) -> u64 {
    tape_with(bound, |r| rng_next(r) % bound)
}
/// A choice in 1..bound when generating; 0 only on (shrunk) replay. The scheduler's.
pub fn draw_nz(bound: u64) -> u64 {
    if bound <= 2 {
        return tape_with(2, |_| 1);
    }
    tape_with(bound, |r| 1 + rng_next(r) % (bound - 1))
}
/// A choice that the batch (not the PRNG) makes when generating.
pub fn forced(bound: u64, val: u64) -> u64 {
    draw_with(bound, |_| val.min(bound - 1))
}
pub fn chance(num: u64, den: u64) -> bool {
    draw_with(den, |r| rng_next(r) % den) >= den - num
}
pub fn range(lo: usize, hi: usize) -> usize {
    lo + draw((hi - lo + 1) as u64) as usize
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[draw(xs.len() as u64) as usize]
}
pub fn draw_u64() -> u64 {
    draw_with(u64::MAX, rng_next)
}

/// Lengths biased towards small values, block boundaries and powers of two.
pub fn gen_len(max: usize) -> usize {
    let n = match draw(8) {
        0 => range(0, 4),
        1 | 2 => range(0, 40),
        3 => {
            let unit = pick(&[8usize, 16, 64, 128, 48, 56, 112, 255, 256]);
            let m = range(0, 6) * unit;
            (m + range(0, 2)).saturating_sub(1)
        }
        4 => (1usize << range(0, 16)).saturating_add(range(0, 4)).saturating_sub(2),
        5 => range(0, 300),
        6 => range(0, 1200),
        _ => range(0, 5000),
    };
    n.min(max)
}

/// Bytes described by few choices, so that large data stays shrinkable.
pub fn gen_bytes(len: usize) -> Vec<u8> {
    if len == 0 {
        return Vec::new();
    }
    match draw(9) {
        0 => vec![0; len],
        1 => vec![pick(&[0xffu8, 0x80, 1, 0x7f, 0x2a, 0x10]); len],
        2 => (0..len).map(|i| i as u8).collect(),
        3 => {
            let unit = range(1, 24);
            let b = prng_bytes(unit, draw(1 << 32));
            (0..len).map(|i| b[i % unit]).collect()
        }
        4 => {
            // mostly zero with a few special bytes
            let mut v = vec![0; len];
            for _ in 0..range(1, 4) {
                let i = range(0, len - 1);
                v[i] = pick(&[1u8, 0x80, 0xff, 0x0a, 0x0d, 0x20, 0x2d]);
            }
            v
        }
        5 if len <= 64 => (0..len).map(|_| draw(256) as u8).collect(),
        6 => {
            let lo = draw(250) as u8;
            let mut s = draw(1 << 32);
            (0..len).map(|_| lo + (splitmix(&mut s) % 6) as u8).collect()
        }
        _ => prng_bytes(len, draw(1 << 32)),
    }
}
pub fn prng_bytes(len: usize, seed: u64) -> Vec<u8> {
    let mut s = seed ^ 0x5eed;
    let mut v = Vec::with_capacity(len);
    while v.len() < len {
        let w = splitmix(&mut s).to_le_bytes();
        let n = (len - v.len()).min(8);
        v.extend_from_slice(&w[..n]);
    }
    v
}

// ---------------------------------------------------------------------------------------------------------
// event log, counters, verdicts

pub(crate) fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_mul(0x9fb21c651e98df25);
    z ^= z >> 29;
    z.wrapping_mul(0x2545f4914f6cdd1d) ^ (z >> 32)
}

/// Logs an event: folded into the run's hash, written out only on verbose replay. Never draws.
pub fn ev(kind: &'static str, nums: &[u64]) {
    let c = ctx();
    let mut h = c.hash;
    for b in kind.as_bytes().chunks(8) {
        let mut w = [0; 8];
        w[..b.len()].copy_from_slice(b);
        h = mix(h, u64::from_le_bytes(w));
    }
    for &n in nums {
        h = mix(h, n);
    }
    c.hash = h;
    c.clock_us += 1;
    if c.verbose {
        let t = &mut shared().trace;
        if (t.len as usize) < TRACE_MAX - 4096 {
            let id = sched::current();
            if id >= 0 {
                let _ = write!(t, "[task {id}] ");
            }
            let _ = write!(t, "{kind}");
            for n in nums {
                let _ = write!(t, " {n}");
            }
            let _ = writeln!(t);
        }
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64 ^ 0x1234567;
    for c in b.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w));
    }
    h
}
/// Logs an event with data (its length and a hash; short data in full on verbose replay).
pub fn ev_bytes(kind: &'static str, b: &[u8]) {
    let verbose = ctx().verbose;
    if verbose {
        let t = &mut shared().trace;
        if (t.len as usize) < TRACE_MAX - 4096 {
            let id = sched::current();
            if id >= 0 {
                let _ = write!(t, "[task {id}] ");
            }
            let _ = writeln!(t, "{kind} len={} {}", b.len(), show(b));
        }
        ctx().verbose = false;
    }
    ev(kind, &[b.len() as u64, hash_bytes(b)]);
    ctx().verbose = verbose;
}
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(48) {
        let _ = write!(s, "{x:02x}");
    }
    if b.len() > 48 {
        let _ = write!(s, "..({} bytes)", b.len());
    }
    s
}

pub fn count(name: &'static str) {
    count_n(name, 1)
}
pub fn count_n(name: &'static str, n: u64) {
    let c = ctx();
    let s = shared();
    let key = name.as_ptr() as usize;
    for i in 0..s.ncounters as usize {
        if c.cptr[i] == (key, name.len() as u32) {
            s.counters[i].val += n;
            return;
        }
    }
    let i = s.ncounters as usize;
    if i < COUNTERS {
        c.cptr[i] = (key, name.len() as u32);
        s.counters[i].name.set(name);
        s.counters[i].val = n;
        s.ncounters += 1;
    }
}
/// An injected fault fired.
pub fn fault(name: &'static str) {
    count(name);
    shared().faults += 1;
    ev(name, &[]);
}
/// One workload operation was carried out.
pub fn op() {
    shared().ops += 1;
}
/// Adds simulated time (used by simulated channels and disks).
pub fn advance_us(n: u64) {
    ctx().clock_us += n;
}

pub(crate) fn end_run(status: u32) -> ! {
    let s = shared();
    let c = ctx();
    s.hash = mix(c.hash, s.steps);
    s.sim_us = c.clock_us - 1_700_000_000_000_000 + s.steps;
    sched::export_cov(s);
    s.status = status;
    unsafe { sys::_exit(0) }
}

/// The property is violated: the run ends here.
pub fn violation(class: &str, detail: &str) -> ! {
    let s = shared();
    s.class.set(class);
    s.detail.set(detail);
    end_run(ST_VIOLATION)
}
/// The harness itself is wrong: the run ends here (never reported as a violation).
pub fn harness_error(detail: &str) -> ! {
    let s = shared();
    s.class.set("harness");
    s.detail.set(detail);
    end_run(ST_HARNESS)
}

/// Says that this run takes long by design (it works through more than 2^32 bits or bytes): it is cut off
/// after seven minutes and then says nothing, instead of counting as hanging; nor does it say anything when the
/// library wants to hold all of it in memory at once.
pub fn heavy() {
    unsafe {
        (*(*CTX.0.get()).shared).heavy = 1;
        sys::setitimer(2, &[0, 0, 100_000, 0], core::ptr::null_mut());
        sys::setitimer(0, &[0, 0, 420, 0], core::ptr::null_mut());
    }
}
pub(crate) fn note_oom() {
    unsafe {
        let s = (*CTX.0.get()).shared;
        if !s.is_null() {
            (*s).oom = 1;
        }
    }
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::violation($class, &format!($($arg)*)) }
    };
}

// ---------------------------------------------------------------------------------------------------------
// failures

/// Payload of an injected failure (sink full, source gone, cipher device lost, caller cancelled).
pub struct SimCrash;
pub fn crash_now(name: &'static str) -> ! {
    fault(name);
    std::panic::resume_unwind(Box::new(SimCrash))
}

pub enum Outcome<T> {
    Done(T),
    /// the library refused by panicking
    Refused(String),
    /// an injected failure came through
    Crashed,
}
impl<T> Outcome<T> {
    pub fn name(&self) -> &'static str {
        match self {
            Outcome::Done(_) => "done",
            Outcome::Refused(_) => "refused",
            Outcome::Crashed => "crashed",
        }
    }
}

thread_local! {
    pub(crate) static LAST_PANIC: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let l = info.location().map(|l| (l.line(), l.column())).unwrap_or((0, 0));
        LAST_PANIC.with(|p| p.set(l));
    }));
}

pub(crate) fn last_panic_site() -> String {
    let (l, c) = LAST_PANIC.with(|p| p.get());
    format!("line {l}:{c}")
}

/// Runs a library call; inside it (and only there) the task may be pre-empted.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    op();
    let r = {
        let _g = sched::PreemptOn::enter();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    match r {
        Ok(v) => Outcome::Done(v),
        Err(p) => {
            if p.is::<SimCrash>() {
                return Outcome::Crashed;
            }
            let m = p
                .downcast_ref::<&'static str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let (l, _) = LAST_PANIC.with(|p| p.get());
            Outcome::Refused(format!("{m} (line {l})"))
        }
    }
}

/// Harness code called back from inside a library call (a sink, source, cipher, mode ...).
pub fn seam<T>(f: impl FnOnce() -> T) -> T {
    let _g = sched::PreemptOff::enter();
    f()
}

// ---------------------------------------------------------------------------------------------------------
// entropy and clock seams

/// From here on the clock makes no choices of its own.
pub fn steady_clock() {
    ctx().steady = true;
}
pub fn set_entropy(seed: u64) {
    ctx().entropy = seed;
}
fn sim_random(buf: *mut u8, n: usize) {
    let c = ctx();
    for i in 0..n {
        let b = splitmix(&mut c.entropy) as u8;
        unsafe { *buf.add(i) = b };
    }
}

/// # Safety
/// as the libc function it stands in for
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if ctx().in_run {
        count("entropy.getrandom");
        sim_random(buf, n);
        return n as isize;
    }
    unsafe { sys::raw_syscall(sys::SYS_GETRANDOM, buf as usize, n, flags as usize, 0, 0, 0) as isize }
}

/// # Safety
/// as the libc function it stands in for
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if ctx().in_run {
        // time passes as the seed says: a moment, a while, or long enough for anything to have expired
        let steady = ctx().steady;
        let step = if steady { 1 } else { seam(|| match draw(12) {
            0..=7 => 1,
            8 => draw(1000),
            9 => draw(1_000_000),
            10 => draw(100_000_000),
            _ => draw(100_000_000_000),
        }) };
        let c = ctx();
        c.clock_us += step;
        let mut us = c.clock_us as i64;
        if !steady && (id == 0 || id == 5) {
            // the time of day may be set, also back
            if seam(|| chance(1, 12)) {
                fault("fault.clock_jump");
                let by = seam(|| draw(100_000_000_000)) as i64;
                let back = seam(|| chance(1, 2));
                ctx().wall_us += if back { -by } else { by };
            }
            us += ctx().wall_us;
        }
        unsafe { *ts = [us.div_euclid(1_000_000), us.rem_euclid(1_000_000) * 1000] };
        return 0;
    }
    unsafe { sys::raw_syscall(228, id as usize, ts as usize, 0, 0, 0, 0) as i32 }
}

/// std's locks, condition variables, once-cells and parking all reach the kernel through this symbol.
///
/// # Safety
/// as the libc function it stands in for
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == sys::SYS_FUTEX && ctx().in_run && sched::current() >= 0 {
        let cmd = b & 0x7f;
        if cmd == 0 || cmd == 9 {
            let cur = unsafe { core::ptr::read_volatile(a as *const u32) };
            if cur != c as u32 {
                sys::set_errno(11);
                return -1;
            }
            sched::blocked();
            if d != 0 {
                sys::set_errno(110);
                return -1;
            }
            return 0;
        }
    }
    if n == sys::SYS_GETRANDOM && ctx().in_run {
        sim_random(a as *mut u8, b);
        return b as i64;
    }
    let r = unsafe { sys::raw_syscall(n, a, b, c, d, e, f) };
    if r < 0 && r > -4096 {
        sys::set_errno(-r as i32);
        return -1;
    }
    r
}

/// # Safety
/// as the libc function it stands in for
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ctx().in_run && sched::current() >= 0 {
        sched::give_way();
        return 0;
    }
    unsafe { sys::raw_syscall(24, 0, 0, 0, 0, 0, 0) as i32 }
}

fn sim_sleep(req: *const [i64; 2]) {
    let r = unsafe { *req };
    ctx().clock_us += (r[0].max(0) as u64) * 1_000_000 + (r[1].max(0) as u64) / 1000;
    if sched::current() >= 0 {
        sched::give_way();
    }
}
/// # Safety
/// as the libc function it stands in for
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if ctx().in_run {
        sim_sleep(req);
        return 0;
    }
    unsafe { sys::raw_syscall(35, req as usize, rem as usize, 0, 0, 0, 0) as i32 }
}
/// # Safety
/// as the libc function it stands in for
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if ctx().in_run {
        if flags & 1 == 0 {
            sim_sleep(req);
        } else if sched::current() >= 0 {
            sched::give_way();
        }
        return 0;
    }
    -unsafe { sys::raw_syscall(230, id as usize, flags as usize, req as usize, rem as usize, 0, 0) } as i32
}

/// Logs a text event.
pub fn ev_text(kind: &'static str, s: &str) {
    let verbose = ctx().verbose;
    if verbose {
        let t = &mut shared().trace;
        if (t.len as usize) < TRACE_MAX - 4096 {
            let cut: String = s.chars().take(400).collect();
            let _ = writeln!(t, "{kind}: {cut}");
        }
        ctx().verbose = false;
    }
    ev(kind, &[hash_bytes(s.as_bytes())]);
    ctx().verbose = verbose;
}
