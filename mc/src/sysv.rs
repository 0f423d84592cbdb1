//! The untyped vector: histories of operations on two vectors of one kind, compared with `Vec`.
use crate::alloc;
use crate::engine::{Node, Sys, V};
use crate::kinds::*;
use crate::ledger::l;
use crate::suites::Plan;
use crate::sys::sut;
use crate::sysw::{ledger_errors, H};
use std::mem::MaybeUninit;
use untyped_vec::{TypeInfo, UntypedVec};

const PUSH: u32 = 1;
const POP: u32 = 2;
const REMOVE: u32 = 3; // index selector
const MOVE: u32 = 4; // from vec v to the other, index selector
const REALLOC: u32 = 5;
const WRITE: u32 = 6; // index selector, c: 0 get_mut_raw 1 as_mut_ptr
const RENEW: u32 = 7; // replace vec v by a new one made from the other
const OOR_REMOVE: u32 = 8; // c: 0 len, 1 len+1, 2 huge
const OOR_MOVE: u32 = 9;
const BOMB_POP: u32 = 10;
const BOMB_REMOVE: u32 = 11;
const BOMB_DROP: u32 = 12; // renew, destructor of element panics
const PUSHES: u32 = 13; // c many

fn op(code: u32, v: usize, i: usize, c: usize) -> u32 {
    code << 24 | (v as u32) << 16 | (i as u32) << 8 | c as u32
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// operations including refused ones and panicking destructors
    All,
    /// what a caller normally does
    Plain,
    /// lengths up to a bound, merged
    Long(usize),
}

pub struct SysV {
    kind: usize,
    mode: Mode,
    /// observe between operations
    each: bool,
}

struct Side {
    u: Option<UntypedVec>,
    m: Vec<u32>,
    cap: usize,
    reallocs: usize,
}

struct Vx {
    k: usize,
    s: [Side; 2],
    viols: Vec<V>,
    checks: u64,
    obs: H,
    bombed: bool,
}

use crate::sysw::{Tmp, TMP};


fn sel(len: usize, s: usize) -> Option<usize> {
    // distinct positions only
    let all = [0, 1, len / 2, len.wrapping_sub(2), len.wrapping_sub(1)];
    let i = all[s];
    if i >= len || all[..s].contains(&i) {
        None
    } else {
        Some(i)
    }
}

impl Vx {
    fn v(&mut self, class: &str, text: String) {
        if self.viols.len() < 4 {
            self.viols.push(V { class: class.into(), text });
        }
    }
    fn t(&self) -> &'static Vt {
        &kinds()[self.k]
    }
    fn fresh(&self) -> u32 {
        if self.t().max == 0 {
            0
        } else {
            l().fresh(self.k, self.t().max)
        }
    }
    fn new(k: usize) -> Vx {
        let t = &kinds()[k];
        let mut x = Vx { k, s: [0, 1].map(|_| Side { u: None, m: vec![], cap: 0, reallocs: 0 }), viols: vec![], checks: 0, obs: H(4), bombed: false };
        let r = sut(|| unsafe {
            let a = UntypedVec::new_from_raw(TypeInfo::new(t.layout, if t.drops { Some(t.drop_fn) } else { None }));
            let b = UntypedVec::new_from_raw(TypeInfo::new(t.layout, if t.drops { Some(t.drop_fn) } else { None }));
            (a, b)
        });
        match r {
            Ok((a, b)) => {
                x.s[0].u = Some(a);
                x.s[1].u = Some(b);
            }
            Err(p) => x.v("uvec", format!("new_from_raw panicked: {}", p.msg)),
        }
        x
    }
    fn u(&mut self, v: usize) -> &'static mut UntypedVec {
        unsafe { &mut *(self.s[v].u.as_mut().unwrap() as *mut UntypedVec) }
    }
    fn grow(&mut self, v: usize) {
        let s = &mut self.s[v];
        s.cap = if s.cap == 0 { 4 } else { s.cap * 2 };
    }
    fn pushed(&mut self, v: usize, x: u32) {
        if self.s[v].m.len() == self.s[v].cap && self.t().layout.size() > 0 {
            self.grow(v);
        }
        self.s[v].m.push(x);
    }
    fn push(&mut self, v: usize) {
        let (t, x) = (self.t(), self.fresh());
        let u = self.u(v);
        let r = sut(|| unsafe {
            let mut tmp = Tmp([MaybeUninit::uninit(); TMP]);
            alloc::off(|| (t.make_at)(tmp.0.as_mut_ptr() as *mut u8, x));
            u.push_raw(tmp.0.as_mut_ptr() as *mut MaybeUninit<u8>);
        });
        match r {
            Ok(()) => self.pushed(v, x),
            Err(p) => self.v("uvec", format!("push_raw panicked: {}", p.msg)),
        }
    }
    fn set_bomb(&mut self, val: u32) {
        l().bomb = Some((self.k, val));
    }
    fn disarm(&mut self) -> bool {
        let fired = l().bomb.is_none();
        l().bomb = None;
        fired
    }

    fn step(&mut self, o: u32) {
        let (code, v, i, c) = (o >> 24, (o >> 16 & 255) as usize, (o >> 8 & 255) as usize, (o & 255) as usize);
        let t = self.t();
        let len = self.s[v].m.len();
        let u = self.u(v);
        match code {
            PUSH => self.push(v),
            PUSHES => (0..c).for_each(|_| self.push(v)),
            POP | BOMB_POP => {
                let bomb = code == BOMB_POP;
                if bomb {
                    let x = *self.s[v].m.last().unwrap();
                    self.set_bomb(x);
                }
                let r = sut(|| u.pop());
                let had = self.s[v].m.pop().is_some();
                if bomb {
                    let fired = self.disarm();
                    if !fired {
                        self.v("uvec", "pop did not destroy the last element".into());
                    }
                }
                match r {
                    Ok(b) if b == had && !bomb => {}
                    Ok(b) if bomb => self.v("uvec", format!("pop returned {} although the destructor panicked", b)),
                    Ok(b) => self.v("uvec", format!("pop of a vector of {} returned {}", len, b)),
                    Err(p) if bomb && p.msg.starts_with("BOMB") => {}
                    Err(p) => self.v("uvec", format!("pop panicked: {}", p.msg)),
                }
            }
            REMOVE | BOMB_REMOVE => {
                let i = sel(len, i).unwrap();
                let bomb = code == BOMB_REMOVE;
                if bomb {
                    let x = self.s[v].m[i];
                    self.set_bomb(x);
                }
                let r = sut(|| u.swap_remove(i));
                self.s[v].m.swap_remove(i);
                if bomb {
                    let fired = self.disarm();
                    if !fired {
                        self.v("uvec", "swap_remove did not destroy the element".into());
                    }
                }
                match r {
                    Ok(()) => {}
                    Err(p) if bomb && p.msg.starts_with("BOMB") => {}
                    Err(p) => self.v("uvec", format!("swap_remove({}) of {} panicked: {}", i, len, p.msg)),
                }
            }
            MOVE => {
                let i = sel(len, i).unwrap();
                let w = self.u(1 - v);
                let r = sut(|| unsafe { u.swap_move_element_to_other_vec(w, i) });
                let x = self.s[v].m.swap_remove(i);
                self.pushed(1 - v, x);
                if let Err(p) = r {
                    self.v("uvec", format!("moving element {} of {} panicked: {}", i, len, p.msg));
                }
            }
            REALLOC => {
                let r = sut(|| u.realloc());
                self.grow(v);
                self.s[v].reallocs += 1;
                if let Err(p) = r {
                    self.v("uvec", format!("realloc panicked: {}", p.msg));
                }
            }
            WRITE => {
                let i = sel(len, i).unwrap();
                let x = self.fresh();
                let p = match c {
                    0 => sut(|| u.get_mut_raw(i)),
                    _ => sut(|| Some(unsafe { u.as_mut_ptr().add(i * t.layout.size()) })),
                };
                match p {
                    Ok(Some(p)) if p as usize % t.layout.align() == 0 && !p.is_null() => {
                        let old = (t.read_at)(p);
                        if old != self.s[v].m[i] as u64 {
                            self.v("uvec", format!("element {} of {} reads {:#x}, expected {}", i, len, old, self.s[v].m[i]));
                            return;
                        }
                        unsafe { (t.set_at)(p, x) };
                        self.s[v].m[i] = x;
                    }
                    Ok(p) => self.v(if p.is_some() { "mem" } else { "uvec" }, format!("pointer to element {} of {} is {:?}", i, len, p)),
                    Err(p) => self.v("uvec", format!("get_mut_raw panicked: {}", p.msg)),
                }
            }
            RENEW | BOMB_DROP => {
                let w = self.u(1 - v);
                if code == BOMB_DROP {
                    let x = self.s[v].m[sel(len, i).unwrap()];
                    self.set_bomb(x);
                }
                let old = self.s[v].u.take();
                let r = sut(|| UntypedVec::new_from_untyped_vec(w));
                match r {
                    Ok(n) => self.s[v].u = Some(n),
                    Err(p) => self.v("uvec", format!("new_from_untyped_vec panicked: {}", p.msg)),
                }
                let r = sut(move || drop(old));
                let fired = self.disarm();
                match r {
                    Ok(()) if code == RENEW => {}
                    Err(p) if code == BOMB_DROP && p.msg.starts_with("BOMB") => {}
                    Ok(()) => self.v("uvec", format!("dropping a vector swallowed a panic (destructor ran: {})", fired)),
                    Err(p) => self.v("uvec", format!("dropping a vector of {} panicked: {}", len, p.msg)),
                }
                self.s[v].m.clear();
                self.s[v].cap = 0;
                self.s[v].reallocs = 0;
            }
            OOR_REMOVE | OOR_MOVE => {
                let i = [len, len + 1, usize::MAX / 2 + 1, usize::MAX][c];
                let w = self.u(1 - v);
                let r = if code == OOR_REMOVE { sut(|| u.swap_remove(i)) } else { sut(|| unsafe { u.swap_move_element_to_other_vec(w, i) }) };
                if r.is_ok() {
                    self.v("uvec", format!("{} of element {} of {} was not refused", if code == OOR_REMOVE { "swap_remove" } else { "moving" }, i, len));
                }
            }
            _ => panic!("unknown op"),
        }
    }

    fn observe(&mut self) {
        let t = self.t();
        let size = t.layout.size();
        for v in 0..2 {
            if !self.viols.is_empty() {
                return;
            }
            let u = self.u(v);
            let m = self.s[v].m.clone();
            let n = m.len();
            let r = sut(|| {
                let a = (u.len(), u.raw_len(), u.is_empty(), u.get_type_info());
                let ptrs = unsafe { (u.as_immut_ptr() as usize, u.as_mut_ptr() as usize) };
                let mut els = vec![];
                let mut oor = 0;
                for i in 0..n {
                    let (p, q) = (u.get_raw(i), u.get_mut_raw(i));
                    alloc::off(|| els.push((p.map_or(0, |x| x as usize), q.map_or(0, |x| x as usize))));
                }
                for i in [n, n + 1, n + 7, 2 * n + 64, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX] {
                    oor += u.get_raw(i).is_some() as usize + u.get_mut_raw(i).is_some() as usize;
                }
                let mut toks = vec![];
                let sl = (t.slice)(u, &mut toks);
                let mut tokm = vec![];
                let sm = (t.slice_mut)(u, &mut tokm);
                (a, ptrs, els, oor, sl, toks, sm, tokm)
            });
            self.checks += 8 + 2 * n as u64;
            let (a, ptrs, els, oor, sl, toks, sm, tokm) = match r {
                Ok(x) => x,
                Err(p) => {
                    self.v("uvec", format!("looking at a vector of {} elements panicked: {}", n, p.msg));
                    return;
                }
            };
            if a.0 != n || a.2 != (n == 0) || a.3.layout != t.layout {
                self.v("uvec", format!("len() = {}, is_empty() = {}, layout {:?}; expected {} elements of {:?}", a.0, a.2, a.3.layout, n, t.layout));
            }
            if size > 0 && a.1 != n * size {
                self.v("uvec", format!("raw_len() = {} for {} elements of {} bytes", a.1, n, size));
            }
            if oor > 0 {
                self.v("uvec", format!("{} accesses beyond the {} elements were answered", oor, n));
            }
            for p in [ptrs.0, ptrs.1] {
                if p == 0 || p % t.layout.align() != 0 {
                    self.v("mem", format!("pointer to the data of {} elements is misaligned ({:#x}) for {:?}", n, p, t.layout));
                }
            }
            if ptrs.0 != ptrs.1 || els.iter().enumerate().any(|(i, e)| e.0 != e.1 || e.0 != ptrs.0 + i * size) {
                self.v("uvec", format!("pointers disagree: base {:#x}/{:#x}, elements {:x?}", ptrs.0, ptrs.1, els));
            }
            for (what, s, ts) in [("as_slice", sl, &toks), ("as_slice_mut", sm, &tokm)] {
                if self.k == R6 {
                    continue;
                }
                if s.0 == 0 || s.0 % t.layout.align() != 0 {
                    self.v("mem", format!("{} is misaligned ({:#x})", what, s.0));
                } else if s.1 != n || (n > 0 && s.0 != ptrs.0) {
                    self.v("uvec", format!("{} has length {}, expected {}", what, s.1, n));
                } else {
                    for i in 0..n {
                        if ts[i] != m[i] as u64 {
                            let c = if ts[i] & MISALIGNED != 0 { "mem" } else if ts[i] & DEAD != 0 { "dead-value" } else { "uvec" };
                            self.v(c, format!("{}[{}] reads {:#x}, expected {} ({:?})", what, i, ts[i], m[i], m));
                            break;
                        }
                    }
                }
            }
            if self.k == R6 && self.viols.is_empty() {
                for i in 0..n {
                    let g = (t.read_at)(els[i].0 as *const u8);
                    if g != m[i] as u64 {
                        self.v("uvec", format!("element {} reads {:#x}, expected {}", i, g, m[i]));
                        break;
                    }
                }
            }
            self.obs.add(n as u64);
        }
    }

    fn balance(&mut self) {
        let t = self.t();
        if !self.viols.is_empty() {
            return;
        }
        ledger_errors(&mut self.viols);
        if t.drops && self.viols.is_empty() {
            let want = (self.s[0].m.len() + self.s[1].m.len()) as i64;
            let have = l().count[self.k];
            self.checks += 1;
            if have != want {
                self.v(if have < want { "dead-value" } else { "leak" }, format!("{} {} values exist, {} are in the vectors", have, t.name, want));
            }
        }
    }
}

impl SysV {
    fn execute(&self, ops: &[u32]) -> Node {
        l().reset();
        alloc::reset();
        let mut x = Vx::new(self.kind);
        for &o in ops {
            if !x.viols.is_empty() {
                break;
            }
            if self.each {
                x.observe();
                if !x.viols.is_empty() {
                    break;
                }
            }
            x.step(o);
        }
        x.observe();
        x.balance();
        let t = x.t();
        let mut node = Node::default();
        let mut h = H(3);
        for s in &x.s {
            h.add(s.m.len() as u64);
            h.add(s.cap as u64);
            h.add(s.reallocs as u64);
        }
        node.key = h.0;
        node.obs = x.obs.0;
        if x.viols.is_empty() {
            let sized = t.layout.size() > 0;
            for v in 0..2 {
                let n = x.s[v].m.len();
                let (sels, maxlen, others): (Vec<usize>, usize, bool) = match self.mode {
                    Mode::Long(n) => (vec![0, 2, 3, 4], n, false),
                    _ => ((0..5).collect(), 64, true),
                };
                if x.s[1 - v].m.len() < maxlen || others {
                    for &s in &sels {
                        if sel(n, s).is_some() {
                            node.enabled.push(op(MOVE, v, s, 0));
                        }
                    }
                }
                if n < maxlen {
                    node.enabled.push(op(PUSH, v, 0, 0));
                }
                node.enabled.push(op(POP, v, 0, 0));
                for &s in &sels {
                    if sel(n, s).is_some() {
                        node.enabled.push(op(REMOVE, v, s, 0));
                        if others {
                            node.enabled.push(op(WRITE, v, s, s % 2));
                        }
                        if self.mode == Mode::All && t.drops {
                            node.enabled.push(op(BOMB_REMOVE, v, s, 0));
                            node.enabled.push(op(BOMB_DROP, v, s, 0));
                        }
                    }
                }
                if others && n == 0 {
                    node.enabled.push(op(PUSHES, v, 0, 4));
                    node.enabled.push(op(PUSHES, v, 0, 9));
                }
                node.enabled.push(op(RENEW, v, 0, 0));
                if sized && x.s[v].reallocs < if others { 2 } else { 1 } {
                    node.enabled.push(op(REALLOC, v, 0, 0));
                }
                if self.mode == Mode::All {
                    for c in 0..4 {
                        node.enabled.push(op(OOR_REMOVE, v, 0, c));
                        if sized {
                            node.enabled.push(op(OOR_MOVE, v, 0, c));
                        }
                    }
                    if n > 0 && t.drops {
                        node.enabled.push(op(BOMB_POP, v, 0, 0));
                    }
                }
            }
            let (a, b) = (x.s[0].u.take(), x.s[1].u.take());
            if let Err(p) = sut(move || {
                drop(a);
                drop(b);
            }) {
                x.v("uvec", format!("dropping the vectors panicked: {}", p.msg));
            }
            x.s[0].m.clear();
            x.s[1].m.clear();
            x.balance();
            alloc::check_live();
            alloc::flush();
            let s = alloc::st();
            if s.nerr > 0 && x.viols.is_empty() {
                let e = s.errs[0].unwrap();
                x.v("mem", format!("allocator: {:?} ({} bytes)", e.0, e.2));
            }
            if (s.live_bytes != 0 || s.live_count != 0) && x.viols.is_empty() {
                x.v("memleak", format!("{} bytes in {} allocations are still held after dropping the vectors", s.live_bytes, s.live_count));
            }
        } else {
            std::mem::forget(x.s[0].u.take());
            std::mem::forget(x.s[1].u.take());
        }
        node.checks = x.checks;
        node.viols = x.viols;
        if !node.viols.is_empty() {
            node.enabled.clear();
        }
        alloc::reset();
        node
    }
}

impl Sys for SysV {
    fn name(&self) -> String {
        let m = match self.mode {
            Mode::All => "all operations".to_string(),
            Mode::Plain => "plain operations".into(),
            Mode::Long(n) => format!("lengths to {}", n),
        };
        format!("vectors of {}, {}{}", kinds()[self.kind].name, m, if self.each { ", observed" } else { "" })
    }
    fn run(&self, ops: &[u32]) -> Node {
        let mut n = self.execute(ops);
        // memory that a global or thread-local keeps once is not a leak: it does not recur
        if n.viols.iter().any(|v| v.class == "memleak") {
            for _ in 0..2 {
                if !self.execute(ops).viols.iter().any(|v| v.class == "memleak") {
                    n.viols.retain(|v| v.class != "memleak");
                    break;
                }
            }
        }
        n
    }
    fn show(&self, ops: &[u32]) -> Vec<String> {
        let pos = ["first", "second", "middle", "last but one", "last"];
        ops.iter()
            .map(|&o| {
                let (code, v, i, c) = (o >> 24, (o >> 16 & 255) as usize, (o >> 8 & 255) as usize, (o & 255) as usize);
                let n = ["a", "b"][v];
                let m = ["a", "b"][1 - v];
                match code {
                    PUSH => format!("push to {}", n),
                    PUSHES => format!("push {} times to {}", c, n),
                    POP => format!("pop from {}", n),
                    REMOVE => format!("swap_remove the {} of {}", pos[i], n),
                    MOVE => format!("move the {} of {} to {}", pos[i], n, m),
                    REALLOC => format!("realloc {}", n),
                    WRITE => format!("overwrite the {} of {} through {}", pos[i], n, ["get_mut_raw", "as_mut_ptr"][c]),
                    RENEW => format!("replace {} by a new vector made from {}", n, m),
                    OOR_REMOVE => format!("swap_remove beyond the end of {} ({})", n, c),
                    OOR_MOVE => format!("move from beyond the end of {} ({})", n, c),
                    BOMB_POP => format!("pop from {}, destructor panics", n),
                    BOMB_REMOVE => format!("swap_remove the {} of {}, destructor panics", pos[i], n),
                    BOMB_DROP => format!("drop {}, destructor of the {} panics", n, pos[i]),
                    _ => format!("{:#x}", o),
                }
            })
            .collect()
    }
}

/// `less` 0: in full. 1: for the checks that use the vectors only as one of several systems.
pub fn jobs(p: &mut Plan, less: usize) {
    for k in (0..NKINDS).filter(|&k| k != T1::KIND && k != T2::KIND) {
        let mk = |mode, each| Box::new(SysV { kind: k, mode, each });
        if k == VST::KIND {
            p.add(mk(Mode::All, false), 3, 4, true);
            p.add(mk(Mode::Long(9), false), 22, 22, true);
        } else if less == 0 {
            p.add(mk(Mode::All, false), if k < 5 { 4 } else { 3 }, 5, false);
            p.add(mk(Mode::Plain, false), if k < 2 || k == 4 { 5 } else { 4 }, 6, false);
            p.add(mk(Mode::All, true), 3, 4, false);
            p.add(mk(Mode::All, false), if k < 5 { 6 } else { 5 }, 8, true);
            p.add(mk(Mode::Long(17), false), 40, 0, true);
            p.add(mk(Mode::Long(70), false), 0, 145, true);
        } else {
            p.add(mk(Mode::All, false), 3, 4, false);
            p.add(mk(Mode::All, true), 0, 4, false);
            p.add(mk(Mode::Long(9), false), 22, 0, true);
            p.add(mk(Mode::Long(33), false), 0, 70, true);
        }
    }
}
