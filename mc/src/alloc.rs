//! Checking global allocator: canaries, poison, quarantine, layout check, balance.
//! Only memory allocated while the `sut` flag is on (i.e. by the code under test) is accounted.
//! Every explorer process is single threaded, so plain statics suffice.
use std::alloc::{GlobalAlloc, Layout, System};

const LIVE: u64 = 0x11FE_B10C_11FE_B10C;
const FREED: u64 = 0xDEAD_B10C_DEAD_B10C;
const RZ: usize = 32;
const HDR: usize = 64;
const CANARY: u8 = 0xFB;
const FRESH: u8 = 0xCD;
const POISON: u8 = 0xDD;
const QUARANTINE: usize = 64;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    off: usize,
    total: usize,
    sut: usize,
    prev: *mut Header,
    next: *mut Header,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Err {
    DoubleFree,
    InvalidFree,
    LayoutMismatch,
    Underrun,
    Overrun,
    WriteAfterFree,
    TooMuch,
}

pub struct St {
    pub sut: bool,
    pub live_bytes: isize,
    pub live_count: isize,
    pub allocs: u64,
    pub errs: [Option<(Err, usize, usize)>; 8],
    pub nerr: usize,
    head: *mut Header,
    q: [*mut Header; QUARANTINE],
    qn: usize,
    pub perturb: usize,
}

pub static mut ST: St = St {
    sut: false,
    live_bytes: 0,
    live_count: 0,
    allocs: 0,
    errs: [None; 8],
    nerr: 0,
    head: std::ptr::null_mut(),
    q: [std::ptr::null_mut(); QUARANTINE],
    qn: 0,
    perturb: 0,
};

#[inline]
pub fn st() -> &'static mut St {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

fn err(e: Err, a: usize, b: usize) {
    let s = st();
    if s.nerr < 8 {
        s.errs[s.nerr] = Some((e, a, b));
        s.nerr += 1;
    }
}

pub struct A;

#[global_allocator]
static G: A = A;

unsafe fn fill(p: *mut u8, v: u8, n: usize) {
    std::ptr::write_bytes(p, v, n)
}
unsafe fn all(p: *const u8, v: u8, n: usize) -> bool {
    let w = u64::from_ne_bytes([v; 8]);
    let mut acc = 0u64;
    let m = n / 8;
    for i in 0..m {
        acc |= std::ptr::read_unaligned((p as *const u64).add(i)) ^ w;
    }
    for i in m * 8..n {
        acc |= (*p.add(i) ^ v) as u64;
    }
    acc == 0
}

unsafe fn release(h: *mut Header) {
    let off = (*h).off;
    let user = (h as *mut u8).add(HDR + RZ);
    let size = (*h).size;
    if !all(user, POISON, size) || (*h).magic != FREED {
        err(Err::WriteAfterFree, user as usize, size);
    }
    let total = (*h).total;
    let align = (*h).align.max(16);
    System.dealloc(user.sub(off), Layout::from_size_align_unchecked(total, align));
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = st();
        if s.sut {
            crate::sys::point(true);
        }
        let align = l.align().max(16);
        let off = (HDR + RZ + align - 1) & !(align - 1);
        let pert = if s.sut { s.perturb } else { 0 };
        let total = off + l.size() + RZ + pert;
        let base = System.alloc(Layout::from_size_align_unchecked(total, align));
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        let h = user.sub(HDR + RZ) as *mut Header;
        (*h).magic = LIVE;
        (*h).size = l.size();
        (*h).align = l.align();
        (*h).off = off;
        (*h).total = total;
        (*h).sut = s.sut as usize;
        if s.sut {
            fill(user.sub(RZ), CANARY, RZ);
            fill(user.add(l.size()), CANARY, RZ);
            fill(user, if s.perturb != 0 { 0x3E } else { FRESH }, l.size());
            (*h).prev = std::ptr::null_mut();
            (*h).next = s.head;
            if !s.head.is_null() {
                (*s.head).prev = h;
            }
            s.head = h;
            s.live_bytes += l.size() as isize;
            s.live_count += 1;
            s.allocs += 1;
            if s.live_bytes > 1 << 29 {
                // runaway growth in the code under test: stop this process, the parent reports it
                crate::sys::exit_now(crate::sys::EXIT_MEMORY);
            }
        }
        user
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = st();
        if s.sut {
            crate::sys::point(true);
        }
        let h = p.sub(HDR + RZ) as *mut Header;
        if (*h).magic == FREED {
            err(Err::DoubleFree, p as usize, l.size());
            return;
        }
        if (*h).magic != LIVE {
            err(Err::InvalidFree, p as usize, l.size());
            return;
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            err(Err::LayoutMismatch, (*h).size, l.size());
        }
        let size = (*h).size;
        if (*h).sut == 0 {
            (*h).magic = FREED;
            System.dealloc(
                p.sub((*h).off),
                Layout::from_size_align_unchecked((*h).total, (*h).align.max(16)),
            );
            return;
        }
        if !all(p.sub(RZ), CANARY, RZ) {
            err(Err::Underrun, p as usize, size);
        }
        if !all(p.add(size), CANARY, RZ) {
            err(Err::Overrun, p as usize, size);
        }
        if (*h).prev.is_null() {
            s.head = (*h).next;
        } else {
            (*(*h).prev).next = (*h).next;
        }
        if !(*h).next.is_null() {
            (*(*h).next).prev = (*h).prev;
        }
        s.live_bytes -= size as isize;
        s.live_count -= 1;
        (*h).magic = FREED;
        fill(p, POISON, size);
        let i = s.qn % QUARANTINE;
        s.qn += 1;
        if !s.q[i].is_null() {
            release(s.q[i]);
        }
        s.q[i] = h;
    }

    // Always moves, so that a stale pointer into the old block is caught.
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let np = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !np.is_null() {
            let h = p.sub(HDR + RZ) as *mut Header;
            let have = if (*h).magic == LIVE { (*h).size } else { 0 };
            std::ptr::copy_nonoverlapping(p, np, l.size().min(n).min(have));
            self.dealloc(p, l);
        }
        np
    }
}

/// Check all live canaries and the quarantine (without releasing it).
pub fn check_live() {
    unsafe {
        let s = st();
        let mut h = s.head;
        while !h.is_null() {
            let p = (h as *mut u8).add(HDR + RZ);
            if (*h).magic != LIVE {
                err(Err::InvalidFree, p as usize, 0);
                return;
            }
            if !all(p.sub(RZ), CANARY, RZ) {
                err(Err::Underrun, p as usize, (*h).size);
            }
            if !all(p.add((*h).size), CANARY, RZ) {
                err(Err::Overrun, p as usize, (*h).size);
            }
            h = (*h).next;
        }
    }
}

pub fn flush() {
    let s = st();
    for i in 0..QUARANTINE {
        if !s.q[i].is_null() {
            unsafe { release(s.q[i]) };
            s.q[i] = std::ptr::null_mut();
        }
    }
}

/// Live code-under-test blocks as (start, len), sorted.
pub fn blocks() -> Vec<(usize, usize)> {
    let was = st().sut;
    st().sut = false;
    let mut v = Vec::new();
    unsafe {
        let mut h = st().head;
        while !h.is_null() {
            v.push(((h as *mut u8).add(HDR + RZ) as usize, (*h).size));
            h = (*h).next;
        }
    }
    v.sort_unstable();
    st().sut = was;
    v
}

/// Forget everything that is still accounted (used after a run that must leak).
pub fn reset() {
    flush();
    let s = st();
    unsafe {
        let mut h = s.head;
        while !h.is_null() {
            (*h).sut = 0;
            h = (*h).next;
        }
    }
    s.head = std::ptr::null_mut();
    s.live_bytes = 0;
    s.live_count = 0;
    s.nerr = 0;
    s.errs = [None; 8];
}

/// Run harness code from inside a code-under-test section.
#[inline]
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let was = st().sut;
    st().sut = false;
    let r = f();
    st().sut = was;
    r
}
