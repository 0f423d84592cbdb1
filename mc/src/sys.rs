//! The few libc calls we need, the futex interposer, and panic capture.
use crate::alloc::st;
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const EXIT_BLOCKED: i32 = 77; // the only thread of the process is about to sleep on a futex
pub const EXIT_MEMORY: i32 = 78; // runaway allocation by the code under test
pub const EXIT_HARNESS: i32 = 70; // a panic in harness code

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, len: usize) -> i32;
    pub fn usleep(us: u32) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn getppid() -> i32;
}
pub const WNOHANG: i32 = 1;

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

pub fn shared(len: usize) -> *mut u8 {
    // PROT_READ|WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}

/// When set, sleeping on a futex means "blocked for ever": every explorer process has one thread.
pub static mut TRAP_FUTEX: bool = false;

/// Takes precedence over libc's `syscall`, through which std's locks sleep.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && TRAP_FUTEX {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            return second::sleeping(a, b, c, d, e, f);
        }
    }
    raw_syscall(n, a, b, c, d, e, f)
}
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let mut r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        r = -1;
    }
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
}

pub struct PanicMsg {
    pub msg: String,
}
struct Cellx(UnsafeCell<(bool, Option<String>)>);
unsafe impl Sync for Cellx {}
static LAST: Cellx = Cellx(UnsafeCell::new((false, None)));

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = st().sut;
        st().sut = false;
        let l = unsafe { &mut *LAST.0.get() };
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if l.0 {
            l.1 = Some(format!("{} at {}", msg, loc));
        } else {
            eprintln!("HARNESS PANIC: {} at {}", msg, loc);
        }
        st().sut = was;
    }));
    // warm up lazily created runtime state outside any accounting
    let _ = sut(|| -> () { panic!("warm-up") });
    crate::alloc::reset();
}

/// Run code under test: allocations accounted, panics captured.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, PanicMsg> {
    let l = unsafe { &mut *LAST.0.get() };
    let was = (l.0, st().sut);
    l.0 = true;
    st().sut = true;
    let r = catch_unwind(AssertUnwindSafe(f));
    let r = match r {
        Ok(r) => Ok(r),
        Err(p) => {
            drop(p);
            st().sut = false;
            Err(PanicMsg { msg: l.1.take().unwrap_or_default() })
        }
    };
    st().sut = was.1;
    l.0 = was.0;
    r
}

extern "C" {
    fn alarm(s: u32) -> u32;
}
pub enum Attempt {
    /// the closure returned this
    Returned(i32),
    /// it blocks for ever (or does not return)
    Blocked,
    Signal(i32),
}
/// Run `f` in a child process; it returns a small number.
pub fn attempt(f: impl FnOnce() -> i32) -> Attempt {
    let pid = unsafe { fork() };
    if pid < 0 {
        exit_now(EXIT_HARNESS);
    }
    if pid == 0 {
        unsafe {
            prctl(1, 9, 0, 0, 0);
            alarm(5);
            TRAP_FUTEX = true;
        }
        exit_now(f());
    }
    let mut s = 0;
    unsafe {
        while waitpid(pid, &mut s, 0) != pid {}
    }
    if s == EXIT_BLOCKED << 8 || s & 0x7f == 14 {
        Attempt::Blocked
    } else if s & 0x7f != 0 {
        Attempt::Signal(s & 0x7f)
    } else if s >> 8 == EXIT_HARNESS {
        exit_now(EXIT_HARNESS)
    } else {
        Attempt::Returned(s >> 8)
    }
}

/// What is to happen in the middle of an operation: at the n-th point of it where other code gets a
/// chance to run.
pub struct Middle {
    pub countdown: u32,
    /// calls of the allocator are such points, too
    pub alloc: bool,
    pub f: *mut dyn FnMut(),
}
pub static mut MIDDLE: Option<Middle> = None;

/// Called in destructors, between the steps of a builder, and by the allocator.
#[inline]
pub fn point(alloc: bool) {
    unsafe {
        let m = &mut *std::ptr::addr_of_mut!(MIDDLE);
        if m.is_some() {
            point_slow(m, alloc)
        }
    }
}
#[cold]
unsafe fn point_slow(m: &mut Option<Middle>, alloc: bool) {
    let x = m.as_mut().unwrap();
    if alloc && !x.alloc || !st().sut {
        return;
    }
    x.countdown -= 1;
    if x.countdown == 0 {
        let f = m.take().unwrap().f;
        let l = &mut *LAST.0.get();
        let was = (l.0, st().sut);
        l.0 = false;
        st().sut = false;
        (*f)();
        st().sut = was.1;
        l.0 = was.0;
    }
}

/// A second thread that runs only while the first one waits for it: every switch between them is
/// decided by the exploration.  The exception is a thread that has to sleep on a lock the other one holds.
pub mod second {
    use super::*;
    use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::SeqCst};
    use std::time::{Duration, Instant};

    const FIRST: u32 = 0; // the first thread runs, the second has nothing to do
    const SECOND: u32 = 1; // the second thread runs
    const ASLEEP: u32 = 2; // the first thread runs, the second sleeps on a lock
    const READY: u32 = 3; // the first thread runs, the second would no longer sleep
    const RESUME: u32 = 4; // the second is to go on
    static STATE: AtomicU32 = AtomicU32::new(FIRST);
    static OWNER: AtomicI32 = AtomicI32::new(0);
    static mut JOB: Option<*mut dyn FnMut()> = None;

    extern "C" {
        fn getpid() -> i32;
    }

    fn set(v: u32) {
        STATE.store(v, SeqCst);
        unsafe { raw_syscall(202, STATE.as_ptr() as i64, 1, i32::MAX as i64, 0, 0, 0) };
    }
    /// until the state is one of these; None after `limit`
    fn until(want: &[u32], limit: Option<Duration>) -> Option<u32> {
        let t0 = Instant::now();
        loop {
            let v = STATE.load(SeqCst);
            if want.contains(&v) {
                return Some(v);
            }
            if limit.map_or(false, |l| t0.elapsed() > l) {
                return None;
            }
            let ts = [0i64, 20_000_000];
            unsafe { raw_syscall(202, STATE.as_ptr() as i64, 0, v as i64, ts.as_ptr() as i64, 0, 0) };
        }
    }
    fn body() {
        loop {
            until(&[SECOND], None);
            let f = unsafe { (*std::ptr::addr_of_mut!(JOB)).take().unwrap() };
            if catch_unwind(AssertUnwindSafe(|| unsafe { (*f)() })).is_err() {
                exit_now(EXIT_HARNESS);
            }
            set(FIRST);
        }
    }
    /// Let the second thread do `f`; returns when it is done or sleeps on a lock.
    pub fn start(f: &mut dyn FnMut()) {
        unsafe {
            if OWNER.load(SeqCst) != getpid() {
                OWNER.store(getpid(), SeqCst);
                STATE.store(FIRST, SeqCst);
                std::thread::Builder::new().stack_size(1 << 20).spawn(body).unwrap();
            }
            JOB = Some(std::mem::transmute::<*mut dyn FnMut(), *mut dyn FnMut()>(f));
        }
        set(SECOND);
        until(&[FIRST, ASLEEP, READY], None);
    }
    /// Wait for it to be done.
    pub fn finish() {
        loop {
            match until(&[FIRST, READY], Some(Duration::from_secs(3))) {
                Some(FIRST) => return,
                Some(_) => set(RESUME),
                None => exit_now(EXIT_BLOCKED),
            }
            until(&[FIRST, ASLEEP, READY], None);
        }
    }
    /// The running thread is about to sleep on a futex.
    pub unsafe fn sleeping(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if OWNER.load(SeqCst) != getpid() {
            exit_now(EXIT_BLOCKED);
        }
        match STATE.load(SeqCst) {
            SECOND => {
                set(ASLEEP);
                let r = raw_syscall(202, a, b, c, d, e, f);
                set(READY);
                until(&[RESUME], None);
                STATE.store(SECOND, SeqCst);
                r
            }
            FIRST => exit_now(EXIT_BLOCKED),
            _ => {
                // only the second thread can help
                if until(&[READY], Some(Duration::from_secs(3))).is_none() {
                    exit_now(EXIT_BLOCKED);
                }
                set(RESUME);
                let r = raw_syscall(202, a, b, c, d, e, f);
                until(&[FIRST, ASLEEP, READY], None);
                r
            }
        }
    }
}
