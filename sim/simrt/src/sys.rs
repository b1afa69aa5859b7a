//! Raw system calls and the few libc entry points the simulator needs. Nothing here allocates.
use core::ffi::{c_int, c_long, c_void};

pub const SYS_FUTEX: i64 = 202;
pub const SYS_GETRANDOM: i64 = 318;

unsafe extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn setitimer(which: c_int, new: *const [i64; 4], old: *mut [i64; 4]) -> c_int;
    pub fn personality(p: u64) -> c_int;
    pub fn setrlimit(resource: c_int, lim: *const [u64; 2]) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    fn __errno_location() -> *mut c_int;
}

pub const PROT_RW: c_int = 3;
pub const MAP_SHARED_ANON: c_int = 0x21;
pub const MAP_PRIVATE_ANON_NORESERVE_FIXED: c_int = 0x02 | 0x20 | 0x4000 | 0x100000; // FIXED_NOREPLACE

/// # Safety
/// as the system call
#[inline]
pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    unsafe {
        core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    }
    r
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe { raw_syscall(SYS_FUTEX, addr as usize, 128, val as usize, 0, 0, 0) };
}

pub fn futex_wake(addr: *const u32, n: usize) {
    unsafe { raw_syscall(SYS_FUTEX, addr as usize, 129, n, 0, 0, 0) };
}

pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(core::ptr::null_mut(), len, PROT_RW, MAP_SHARED_ANON, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

pub fn pause_us(us: i64) {
    let ts = [0i64, us * 1000];
    unsafe { raw_syscall(35, &ts as *const _ as usize, 0, 0, 0, 0, 0) };
}

/// The library (or the runtime, on a stack overflow) may write to stderr; a run's process keeps it quiet.
pub fn silence_stderr() {
    let path = c"/dev/null";
    let fd = unsafe { raw_syscall(2, path.as_ptr() as usize, 1, 0, 0, 0, 0) };
    if fd >= 0 {
        unsafe { dup2(fd as c_int, 2) };
    }
}

/// `n` zero bytes, never written: costs address space only.
pub fn map_zero(n: usize) -> *const u8 {
    let p = unsafe { mmap(core::ptr::null_mut(), n, 1, 0x02 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *const u8
}
