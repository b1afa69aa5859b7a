//! The allocator seam. Outside a simulated run it is the system allocator. Inside a run every allocation
//! comes from an arena at a fixed address with LIFO free lists, so addresses (and their reuse) are a pure
//! function of the run and replay exactly.
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct SimAlloc;

const BASE: usize = 0x6100_0000_0000;
const SIZE: usize = 3 << 30;
const CLASSES: usize = 36;

static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(0);
static FREE: [AtomicUsize; CLASSES] = [const { AtomicUsize::new(0) }; CLASSES];
static ALLOCS: AtomicUsize = AtomicUsize::new(0);

/// Called once in a run's own process.
pub fn enter() {
    let p = unsafe { sys::mmap(BASE as *mut _, SIZE, sys::PROT_RW, sys::MAP_PRIVATE_ANON_NORESERVE_FIXED, -1, 0) };
    if p as usize == BASE {
        NEXT.store(BASE, Relaxed);
        LIMIT.store(BASE + SIZE, Relaxed);
        ON.store(true, Relaxed);
    }
}
pub fn active() -> bool {
    ON.load(Relaxed)
}
pub fn alloc_count() -> usize {
    ALLOCS.load(Relaxed)
}

fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(16);
    n.next_power_of_two().trailing_zeros() as usize
}
fn lock() {
    while LOCK.swap(true, Acquire) {
        core::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Release);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return unsafe { System.alloc(l) };
        }
        let c = class(&l);
        if c >= CLASSES {
            crate::note_oom();
            return core::ptr::null_mut();
        }
        lock();
        ALLOCS.fetch_add(1, Relaxed);
        let head = FREE[c].load(Relaxed);
        let p = if head != 0 {
            FREE[c].store(unsafe { *(head as *const usize) }, Relaxed);
            head
        } else {
            let sz = 1usize << c;
            let al = sz.min(1 << 12);
            let p = (NEXT.load(Relaxed) + al - 1) & !(al - 1);
            if p + sz > LIMIT.load(Relaxed) {
                unlock();
                crate::note_oom();
                return core::ptr::null_mut();
            }
            NEXT.store(p + sz, Relaxed);
            p
        };
        unlock();
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !(BASE..BASE + SIZE).contains(&a) {
            // allocated before the run began: keep it (the process is about to end anyway)
            if !ON.load(Relaxed) {
                unsafe { System.dealloc(p, l) };
            }
            return;
        }
        let c = class(&l);
        lock();
        unsafe { *(p as *mut usize) = FREE[c].load(Relaxed) };
        FREE[c].store(a, Relaxed);
        unlock();
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return unsafe { System.alloc_zeroed(l) };
        }
        let p = unsafe { self.alloc(l) };
        if !p.is_null() {
            unsafe { core::ptr::write_bytes(p, 0, l.size()) };
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ON.load(Relaxed) {
            return unsafe { System.realloc(p, l, n) };
        }
        let nl = unsafe { Layout::from_size_align_unchecked(n, l.align()) };
        let a = p as usize;
        if (BASE..BASE + SIZE).contains(&a) && class(&nl) == class(&l) {
            return p;
        }
        let q = unsafe { self.alloc(nl) };
        if !q.is_null() {
            unsafe {
                core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
        }
        q
    }
}
