//! Small helpers shared by the scenarios.
use simrt::*;

/// A library call that must succeed on these arguments.
pub fn must<T>(what: &'static str, f: impl FnOnce() -> T) -> T {
    expect_done(what, attempt(f))
}
pub fn expect_done<T>(what: &'static str, o: Outcome<T>) -> T {
    match o {
        Outcome::Done(v) => v,
        Outcome::Refused(m) => violation("refused", &format!("{what} panicked on legal input: {m}")),
        Outcome::Crashed => harness_error(&format!("{what}: stray injected failure")),
    }
}

pub fn ev_str(kind: &'static str, s: &str) {
    simrt::ev_text(kind, s)
}

/// A key that is equal to, a small change of, a prefix or extension of, or unrelated to `base`.
pub fn related_key(base: &[u8], max: usize) -> Vec<u8> {
    let mut k = base.to_vec();
    match draw(7) {
        0 => {}
        5 => cancel(&mut k),
        1 => {
            let i = range(0, k.len() - 1);
            k[i] ^= 1 << draw(8);
        }
        2 => k.truncate(range(1, k.len())),
        3 => {
            let more = gen_bytes(range(1, 8));
            k.extend(more);
        }
        4 => k.rotate_left(1),
        _ => {
            let n = range(1, max.min(64));
            k = gen_bytes(n);
        }
    }
    k.truncate(max);
    if k.is_empty() {
        k.push(0);
    }
    k
}

/// Two changes that cancel out in a sum, or a xor, of all bytes; near each other or at the same place of a word.
pub fn cancel(b: &mut [u8]) {
    if b.len() < 2 {
        return;
    }
    let i = range(0, b.len() - 1);
    let d = pick(&[1usize, 2, 3, 4, 8, 16, 64]);
    let j = if i + d < b.len() { i + d } else if i > 0 { i - 1 } else { 1 };
    match draw(3) {
        0 => b.swap(i, j),
        1 => {
            let x = 1u8 << draw(8);
            b[i] = b[i].wrapping_add(x);
            b[j] = b[j].wrapping_sub(x);
        }
        _ => {
            let x = 1u8 << draw(8);
            b[i] ^= x;
            b[j] ^= x;
        }
    }
}

/// How many operations a party carries out: a few as a rule, now and then a long history of them.
pub fn session(usual: usize) -> usize {
    if chance(1, 250) {
        count("probe.long_session");
        range(usual, 300)
    } else {
        range(1, usual)
    }
}
/// How many times one call is repeated with the same arguments: once as a rule, now and then a long series.
pub fn burst() -> usize {
    if chance(1, 200) {
        count("probe.burst");
        range(2, 300)
    } else {
        1
    }
}

/// Runs `f`, now and then from a destructor while the task is unwinding after a failure of its own, as cleanup
/// code does.
pub fn perhaps_in_cleanup(f: impl FnOnce()) {
    if !chance(1, 40) {
        return f();
    }
    fault("fault.caller_unwinding");
    struct Guard<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for Guard<F> {
        fn drop(&mut self) {
            (self.0.take().unwrap())()
        }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _g = Guard(Some(f));
        std::panic::panic_any(SimCrash);
    }));
    assert!(r.is_err());
}

/// Shared by the tasks of a run; only ever touched by the task that holds the baton.
pub struct Shared<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Shared(std::cell::UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

/// First choice of the few very long runs; too large to be met by chance while shrinking.
pub const HUGE_RUN: u64 = 0x7a_0000_0000;

// ---------------------------------------------------------------------------------------------------------
// The tasks of a run are handed whatever the library gives, without asking the compiler (`Shared`). So what the
// compiler would say to a user who hands a value to another thread, or shares it, is asked here.

pub struct Ask<T>(std::marker::PhantomData<T>);
pub trait AskFallback {
    const MOVES: bool = false;
    const SHARES: bool = false;
}
impl<T> AskFallback for Ask<T> {}
impl<T: Send> Ask<T> {
    pub const MOVES: bool = true;
}
impl<T: Sync> Ask<T> {
    pub const SHARES: bool = true;
}
/// `moved T` may be handed to another thread; `shared T` may also be used by several at once.
macro_rules! threads {
    ($(moved $m:ty),* ; $(shared $s:ty),*) => {{
        #[allow(unused_imports)]
        use crate::util::{Ask, AskFallback};
        $(if !Ask::<$m>::MOVES { violation("threads", concat!("a ", stringify!($m), " cannot be handed to another thread")); })*
        $(if !(Ask::<$s>::MOVES && Ask::<$s>::SHARES) { violation("threads", concat!("a ", stringify!($s), " cannot be shared by threads")); })*
    }};
}
pub(crate) use threads;
