//! Static query shapes over a palette of three component kinds, and dynamic query helpers.
use crate::alloc::off;
use crate::kinds::{read_at, Tok};
use arche_tape::{EcsId, EcsIds, FetchType, World};
use std::convert::TryInto;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cell {
    pub tok: u64,
    pub addr: usize,
}

pub trait IntoCell {
    fn cell(self) -> Cell;
}
impl<'a, T: Tok> IntoCell for &'a T {
    fn cell(self) -> Cell {
        Cell { tok: read_at(self as *const T), addr: self as *const T as usize }
    }
}
impl<'a, T: Tok> IntoCell for &'a mut T {
    fn cell(self) -> Cell {
        Cell { tok: read_at(self as *const T), addr: self as *const T as usize }
    }
}
impl IntoCell for EcsId {
    fn cell(self) -> Cell {
        Cell { tok: self.as_u64(), addr: 0 }
    }
}

pub type Row = [Cell; 4];
const NOCELL: Cell = Cell { tok: 0, addr: 0 };

#[derive(Default)]
pub struct QOut {
    pub first: Vec<Row>,
    pub second: Vec<Row>,
    pub partial: usize,
    pub fused: bool,
    /// results of get() for the given handles
    pub got: Vec<Option<Row>>,
    /// did get() panic for that handle (only tolerated for dead handles)
    pub limit: usize,
    /// look at the provided methods of the iterators too
    pub adapt: bool,
    pub adapted: Option<&'static str>,
}
impl QOut {
    pub fn clear(&mut self) {
        self.first.clear();
        self.second.clear();
        self.got.clear();
        self.fused = true;
        self.partial = 0;
        self.adapted = None;
    }
}

pub const ID: u8 = 9;

pub struct Shape {
    pub text: &'static str,
    /// palette index of each column, ID for the entity id
    pub cols: &'static [u8],
    pub run: fn(&World, &[EcsId], &mut QOut),
}

/// The provided methods of an iterator agree with what `next` gives. `$rows` is what it gives,
/// `$map` makes something comparable of an item. Evaluates to what is wrong.
macro_rules! adaptors {
    ($iter:expr, $rows:expr, $p:pat => $map:expr) => {{
        let rows = $rows;
        let n = rows.len();
        let mut bad: Option<&'static str> = None;
        for k in 0..=n {
            let mut it = $iter;
            for _ in 0..k {
                let _ = it.next();
            }
            let (lo, hi) = it.size_hint();
            if lo > n - k || hi.map_or(false, |h| h < n - k) {
                bad = Some("size_hint");
            }
            if it.count() != n - k {
                bad = Some("count");
            }
            let mut it = $iter;
            if it.nth(k).map(|$p| $map).as_ref() != rows.get(k) || (k < n && it.next().map(|$p| $map).as_ref() != rows.get(k + 1)) {
                bad = Some("nth");
            }
            let mut it = $iter;
            for _ in 0..k {
                let _ = it.next();
            }
            if it.last().map(|$p| $map).as_ref() != rows[k..].last() {
                bad = Some("last");
            }
            let mut it = $iter;
            if it.by_ref().take(k).count() != k || it.next().map(|$p| $map).as_ref() != rows.get(k) {
                bad = Some("take");
            }
            let mut it = $iter;
            for _ in 0..k {
                let _ = it.next();
            }
            let mut at = k;
            it.for_each(|$p| {
                if rows.get(at) != Some(&$map) {
                    bad = Some("for_each");
                }
                at += 1;
            });
            if at != n {
                bad = Some("for_each");
            }
            if k > 0 {
                let mut at = 0;
                for $p in $iter.step_by(k) {
                    if rows.get(at) != Some(&$map) {
                        bad = Some("step_by");
                    }
                    at += k;
                }
                if at < n {
                    bad = Some("step_by");
                }
            }
        }
        bad
    }};
}

/// Dynamic queries: look at the provided methods too
pub static ADAPTED: AtomicBool = AtomicBool::new(false);
/// More rows than this are only iterated with `next`.
const ADAPT: usize = 5;

macro_rules! shape {
    ($f:ident, ($($t:ty),*), ($($v:ident),*)) => {
        fn $f<A: Tok, B: Tok, C: Tok>(w: &World, hs: &[EcsId], out: &mut QOut) {
            let mut q = w.query::<($($t,)*)>();
            {
                let mut it = q.iter();
                while let Some(($($v,)*)) = it.next() {
                    let mut r: Row = [NOCELL; 4];
                    let mut n = 0;
                    $( r[n] = $v.cell(); n += 1; )*
                    let _ = n;
                    off(|| out.first.push(r));
                    if out.first.len() > out.limit { return; }
                }
                for _ in 0..3 {
                    if it.next().is_some() { out.fused = false; }
                }
            }
            {
                // an abandoned iteration in between
                let mut it = q.iter();
                if it.next().is_some() { out.partial = 1; }
            }
            {
                let mut it = q.iter();
                while let Some(($($v,)*)) = it.next() {
                    let mut r: Row = [NOCELL; 4];
                    let mut n = 0;
                    $( r[n] = $v.cell(); n += 1; )*
                    let _ = n;
                    off(|| out.second.push(r));
                    if out.second.len() > out.limit { return; }
                }
            }
            if out.adapt && out.first.len() <= ADAPT {
                let rows = &out.first;
                out.adapted = adaptors!(q.iter(), rows, ($($v,)*) => {
                    let mut r: Row = [NOCELL; 4];
                    let mut n = 0;
                    $( r[n] = $v.cell(); n += 1; )*
                    let _ = n;
                    r
                });
            }
            for h in hs {
                let g = q.get(*h).map(|($($v,)*)| {
                    let mut r: Row = [NOCELL; 4];
                    let mut n = 0;
                    $( r[n] = $v.cell(); n += 1; )*
                    let _ = n;
                    r
                });
                off(|| out.got.push(g));
            }
        }
    };
}

shape!(s0, (&'static A), (a));
shape!(s1, (&'static mut B, EcsIds), (b, i));
shape!(s2, (EcsIds, &'static C), (i, c));
shape!(s3, (EcsIds, &'static A, &'static mut B), (i, a, b));
shape!(s4, (&'static C, EcsIds, &'static B), (c, i, b));
shape!(s5, (&'static mut C, &'static mut A, EcsIds), (c, a, i));
shape!(s6, (&'static B, &'static A), (b, a));
shape!(s7, (EcsIds, &'static A, &'static B, &'static C), (i, a, b, c));
shape!(s8, (&'static mut C, &'static A, EcsIds, &'static mut B), (c, a, i, b));
shape!(s9, (EcsIds), (i));

pub fn shapes<A: Tok, B: Tok, C: Tok>() -> Vec<Shape> {
    vec![
        Shape { text: "(&A)", cols: &[0], run: s0::<A, B, C> },
        Shape { text: "(&mut B, EcsIds)", cols: &[1, ID], run: s1::<A, B, C> },
        Shape { text: "(EcsIds, &C)", cols: &[ID, 2], run: s2::<A, B, C> },
        Shape { text: "(EcsIds, &A, &mut B)", cols: &[ID, 0, 1], run: s3::<A, B, C> },
        Shape { text: "(&C, EcsIds, &B)", cols: &[2, ID, 1], run: s4::<A, B, C> },
        Shape { text: "(&mut C, &mut A, EcsIds)", cols: &[2, 0, ID], run: s5::<A, B, C> },
        Shape { text: "(&B, &A)", cols: &[1, 0], run: s6::<A, B, C> },
        Shape { text: "(EcsIds, &A, &B, &C)", cols: &[ID, 0, 1, 2], run: s7::<A, B, C> },
        Shape { text: "(&mut C, &A, EcsIds, &mut B)", cols: &[2, 0, ID, 1], run: s8::<A, B, C> },
        Shape { text: "(EcsIds)", cols: &[ID], run: s9::<A, B, C> },
    ]
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct PL(pub *mut u8, pub usize);

/// Columns of a dynamic query: None is the entity id, Some((component, writable)).
pub type Col = Option<(EcsId, bool)>;

pub fn fetch(c: Col) -> FetchType {
    match c {
        None => FetchType::EcsId,
        Some((id, true)) => FetchType::Mut(id),
        Some((id, false)) => FetchType::Immut(id),
    }
}

fn dynn<const N: usize>(w: &World, c: [Col; N], lim: usize, f: &mut dyn FnMut(usize, &[usize])) -> bool {
    let mut q = w.query_dynamic(c.map(fetch));
    let mut fused = true;
    for pass in 0..2 {
        let mut it = q.iter();
        let mut n = 0;
        while let Some(r) = it.next() {
            let r = r.map(|p| p as usize);
            off(|| f(pass, &r));
            n += 1;
            if n > lim {
                return false;
            }
        }
        for _ in 0..2 {
            if it.next().is_some() {
                fused = false;
            }
        }
        if pass == 1 && ADAPTED.load(Relaxed) && n <= ADAPT {
            off(|| {
                let rows: Vec<[*mut u8; N]> = q.iter().collect();
                let bad = adaptors!(q.iter(), &rows, r => r);
                fused &= bad.is_none() && rows.len() == n;
            })
        }
    }
    fused
}

fn coln<const N: usize>(w: &World, c: [Col; N], lim: usize, f: &mut dyn FnMut(usize, &[PL])) -> bool {
    let mut q = w.query_dynamic(c.map(fetch));
    let mut fused = true;
    for pass in 0..2 {
        let mut it = q.column_iter();
        let mut n = 0;
        while let Some(r) = it.next() {
            assert!(std::mem::size_of_val(&r) == std::mem::size_of::<[PL; N]>());
            let r: [PL; N] = unsafe { std::mem::transmute_copy(&r) };
            off(|| f(pass, &r));
            n += 1;
            if n > lim {
                return false;
            }
        }
        for _ in 0..2 {
            if it.next().is_some() {
                fused = false;
            }
        }
        if pass == 1 && ADAPTED.load(Relaxed) && n <= ADAPT {
            off(|| {
                let pl = |r| -> [(usize, usize); N] {
                    let r: [PL; N] = unsafe { std::mem::transmute_copy(&r) };
                    r.map(|p| (p.0 as usize, p.1))
                };
                let rows: Vec<[(usize, usize); N]> = q.column_iter().map(pl).collect();
                let bad = adaptors!(q.column_iter(), &rows, r => pl(r));
                fused &= bad.is_none() && rows.len() == n;
            })
        }
    }
    fused
}

/// Rows of `iter()` (pass 0 and pass 1); false if not fused or endless.
pub fn dyn_rows(w: &World, c: &[Col], lim: usize, f: &mut dyn FnMut(usize, &[usize])) -> bool {
    match *c {
        [a] => dynn(w, [a], lim, f),
        [a, b] => dynn(w, [a, b], lim, f),
        [a, b, d] => dynn(w, [a, b, d], lim, f),
        [a, b, d, e] => dynn(w, [a, b, d, e], lim, f),
        _ => match c.len() {
            12 => dynn::<12>(w, c.try_into().unwrap(), lim, f),
            17 => dynn::<17>(w, c.try_into().unwrap(), lim, f),
            33 => dynn::<33>(w, c.try_into().unwrap(), lim, f),
            65 => dynn::<65>(w, c.try_into().unwrap(), lim, f),
            _ => panic!("arity"),
        },
    }
}
pub fn col_rows(w: &World, c: &[Col], lim: usize, f: &mut dyn FnMut(usize, &[PL])) -> bool {
    match *c {
        [a] => coln(w, [a], lim, f),
        [a, b] => coln(w, [a, b], lim, f),
        [a, b, d] => coln(w, [a, b, d], lim, f),
        [a, b, d, e] => coln(w, [a, b, d, e], lim, f),
        _ => match c.len() {
            12 => coln::<12>(w, c.try_into().unwrap(), lim, f),
            17 => coln::<17>(w, c.try_into().unwrap(), lim, f),
            33 => coln::<33>(w, c.try_into().unwrap(), lim, f),
            65 => coln::<65>(w, c.try_into().unwrap(), lim, f),
            _ => panic!("arity"),
        },
    }
}

/// The `spawn!` macro, for the lists it is used with here.
pub fn spawn_macro<A: Tok, B: Tok, C: Tok>(mut w: &mut World, list: &[u8], v: &[u32]) -> Option<EcsId> {
    let _ = &mut w;
    Some(match list {
        [] => arche_tape::spawn!(&mut w),
        [0] => arche_tape::spawn!(&mut w, A::make(v[0])),
        [1] => arche_tape::spawn!(&mut w, B::make(v[0]),),
        [2] => arche_tape::spawn!(&mut w, C::make(v[0])),
        [0, 1] => arche_tape::spawn!(&mut w, A::make(v[0]), B::make(v[1])),
        [1, 0] => arche_tape::spawn!(&mut w, B::make(v[0]), A::make(v[1])),
        [0, 1, 2] => arche_tape::spawn!(&mut w, A::make(v[0]), B::make(v[1]), C::make(v[2])),
        [2, 1, 0] => arche_tape::spawn!(&mut w, C::make(v[0]), B::make(v[1]), A::make(v[2]),),
        [1, 2, 0] => arche_tape::spawn!(&mut w, B::make(v[0]), C::make(v[1]), A::make(v[2])),
        _ => return None,
    })
}
