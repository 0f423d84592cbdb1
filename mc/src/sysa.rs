//! Static queries of every arity and dynamic queries of every length, on worlds built from
//! subsets of ten kinds. A "history" is: which world, then which query.
use crate::alloc;
use crate::engine::{Node, Sys, V};
use crate::kinds::*;
use crate::ledger::l;
use crate::shapes::{fetch, Cell, Col, PL};
use crate::suites::Plan;
use crate::sys::sut;
use arche_tape::{EcsId, World};

pub const ID: usize = 99;
pub type ARow = [Cell; 10];
pub const NOROW: ARow = [Cell { tok: 0, addr: 0 }; 10];

pub struct AQ {
    pub text: &'static str,
    pub cols: &'static [usize],
    pub run: fn(&World, &[EcsId], usize) -> (Vec<ARow>, Vec<ARow>, Vec<Option<ARow>>, bool),
}

#[macro_export]
macro_rules! aq_ {
    (($($t:ty),* $(,)?), [$($c:expr),*], ($($v:ident),* $(,)?), ($($w:ident)*)) => {{
        fn run(w: &World, hs: &[EcsId], lim: usize) -> (Vec<$crate::sysa::ARow>, Vec<$crate::sysa::ARow>, Vec<Option<$crate::sysa::ARow>>, bool) {
            use $crate::shapes::IntoCell;
            use $crate::alloc::off;
            let mut a = vec![];
            let mut b = vec![];
            let mut g = vec![];
            let mut fused = true;
            let mut q = w.query::<($($t,)*)>();
            for pass in 0..2 {
                let out = if pass == 0 { &mut a } else { &mut b };
                let mut it = q.iter();
                while let Some(($($v,)*)) = it.next() {
                    let mut r = $crate::sysa::NOROW;
                    let mut n = 0;
                    $( r[n] = $v.cell(); n += 1; )*
                    let _ = n;
                    off(|| out.push(r));
                    if out.len() > lim { return (a, b, g, false); }
                }
                if it.next().is_some() { fused = false; }
            }
            for h in hs {
                let x = q.get(*h).map(|($($v,)*)| {
                    let mut r = $crate::sysa::NOROW;
                    let mut n = 0;
                    $( r[n] = $v.cell(); n += 1; )*
                    let _ = n;
                    r
                });
                off(|| g.push(x));
            }
            (a, b, g, fused)
        }
        AQ { text: stringify!(($($t),*)), cols: &[$($c),*], run }
    }};
}
pub use crate::aq_ as aq;

/// Kinds in use
pub const USED: [usize; 10] = [P4::KIND, H2::KIND, BX::KIND, L24::KIND, ZD::KIND, A64::KIND, B3::KIND, A16::KIND, C12::KIND, N8::KIND];

pub struct Ax {
    world: Option<Box<World>>,
    ents: Vec<(EcsId, [Option<u32>; 10])>,
    ids: [Option<EcsId>; 10],
    viols: Vec<V>,
    checks: u64,
}

impl Ax {
    fn v(&mut self, c: &str, t: String) {
        if self.viols.len() < 4 {
            self.viols.push(V { class: c.into(), text: t });
        }
    }
    fn spawn(&mut self, set: usize, rev: bool) {
        if !self.viols.is_empty() {
            return;
        }
        let mut vals = [None; 10];
        let order: Vec<usize> = if rev { (0..10).rev().collect() } else { (0..10).collect() };
        for &k in &order {
            if set >> k & 1 == 1 {
                let t = &kinds()[USED[k]];
                vals[k] = Some(if t.max > 0 { l().fresh(USED[k], t.max) } else { 0 });
            }
        }
        let w = self.world.as_mut().unwrap();
        let r = sut(|| {
            let mut b = w.spawn();
            for &k in &order {
                if let Some(v) = vals[k] {
                    b = (kinds()[USED[k]].with)(b, v);
                }
            }
            b.build()
        });
        match r {
            Ok(id) => self.ents.push((id, vals)),
            Err(p) => self.v("panic-build", format!("building an entity with set {:#b} panicked: {}", set, p.msg)),
        }
    }
    fn config(&mut self, c: usize) {
        match c {
            // nothing exists
            0 => {}
            // all types known, none in use
            1 => {}
            // every subset of ten kinds once
            2 => (0..1024).for_each(|s| self.spawn(s, s % 3 == 0)),
            // the full set and every set that misses one or two kinds, two entities each
            3 => {
                for a in 0..10 {
                    for b in a..10 {
                        for r in [false, true] {
                            self.spawn(1023 & !(1 << a) & !(1 << b), r);
                        }
                    }
                }
                self.spawn(1023, false);
                self.spawn(1023, true);
                self.spawn(0, false);
            }
            // only the full set, several entities
            4 => (0..7).for_each(|k| self.spawn(1023, k % 2 == 0)),
            // prefixes in descending order: the common sets are the youngest
            5 => {
                for n in (0..=10).rev() {
                    self.spawn((1 << n) - 1, false);
                    self.spawn((1 << n) - 1, true);
                    self.spawn(1023 & !((1 << n) - 1), true);
                }
            }
            // sets above a word of archetypes that use only the last kinds
            6 => {
                for s in 0..70 {
                    self.spawn(s * 8 % 1024, false);
                }
                for s in [1, 3, 7, 15, 1023, 512] {
                    self.spawn(s, false);
                    self.spawn(s, true);
                }
            }
            _ => {
                // full sets, then despawned again except two
                for _ in 0..6 {
                    self.spawn(1023, false);
                }
                for s in 0..10 {
                    self.spawn(1 << s, false);
                }
                for i in [0usize, 3, 4, 5] {
                    let id = self.ents[i].0;
                    let w = self.world.as_mut().unwrap();
                    if sut(|| w.despawn(id)).is_err() {
                        self.v("panic-op", "despawn panicked".into());
                        return;
                    }
                }
                let mut n = 0;
                self.ents.retain(|_| {
                    n += 1;
                    ![1, 4, 5, 6].contains(&n)
                });
            }
        }
    }

    fn compare(&mut self, what: &str, cols: &[usize], got: &[ARow], again: &[ARow], fused: bool, class: &str) {
        let nc = cols.len();
        let mut exp: Vec<Vec<u64>> = vec![];
        'e: for (id, vals) in &self.ents {
            let mut r = vec![];
            for &c in cols {
                if c == ID {
                    r.push(id.as_u64());
                } else {
                    match vals[c] {
                        Some(v) => r.push(v as u64),
                        None => continue 'e,
                    }
                }
            }
            exp.push(r);
        }
        let tok = |v: &[ARow]| -> Vec<Vec<u64>> { v.iter().map(|r| r[..nc].iter().map(|c| c.tok).collect()).collect() };
        let mut g = tok(got);
        let same = g == tok(again);
        g.sort_unstable();
        exp.sort_unstable();
        self.checks += 2 + exp.len() as u64;
        if g != exp {
            let mut cl = class;
            for r in &g {
                for (k, t) in r.iter().enumerate() {
                    if cols[k] != ID && t & MISALIGNED != 0 {
                        cl = "mem"
                    } else if cols[k] != ID && t & DEAD != 0 && cl != "mem" {
                        cl = "dead-value"
                    }
                }
            }
            let d = g.iter().find(|r| !exp.contains(r)).or_else(|| exp.iter().find(|r| !g.contains(r)));
            self.v(cl, format!("{} yields {} rows, expected {}; first difference {:x?}", what, g.len(), exp.len(), d));
        } else if !same || !fused {
            self.v("iter-again", format!("{} gives different rows when iterated again, or continues after its end", what));
        }
    }
}

pub struct SysA {
    qs: Vec<AQ>,
}

const CONFIGS: usize = 8;
/// number of dynamic queries per length
const DYN: usize = 6;

fn dcols(n: usize, v: usize) -> Vec<usize> {
    // v selects rotation and where the entity id stands
    let mut c: Vec<usize> = (0..n).map(|i| (i * (if v % 2 == 0 { 1 } else { 7 }) + v * 3) % 10).collect();
    match v {
        2 => c[0] = ID,
        3 => c[n / 2] = ID,
        4 | 5 => c[n - 1] = ID,
        _ => {}
    }
    c
}

fn dyn_run<const N: usize>(w: &World, cols: &[Col], lim: usize, colwise: bool) -> ([Vec<[usize; 10]>; 2], bool) {
    let f: Vec<_> = cols.iter().map(|c| fetch(*c)).collect();
    let mut i = f.into_iter();
    let f: [arche_tape::FetchType; N] = [(); N].map(|_| i.next().unwrap());
    let mut q = w.query_dynamic(f);
    let mut out = [vec![], vec![]];
    let mut fused = true;
    for pass in 0..2 {
        if !colwise {
            let mut it = q.iter();
            while let Some(r) = it.next() {
                let mut x = [0usize; 10];
                for k in 0..N {
                    x[k] = r[k] as usize;
                }
                alloc::off(|| out[pass].push(x));
                if out[pass].len() > lim {
                    return (out, false);
                }
            }
            if it.next().is_some() {
                fused = false;
            }
        } else {
            let mut it = q.column_iter();
            let mut groups = 0;
            while let Some(r) = it.next() {
                let r: [PL; N] = unsafe { std::mem::transmute_copy(&r) };
                let len = r[0].1;
                groups += 1;
                if r.iter().any(|p| p.1 != len) || len > lim || groups > 2 * lim + 8 {
                    return (out, false);
                }
                for row in 0..len {
                    let mut x = [0usize; 10];
                    for k in 0..N {
                        // the size of the element is applied by the caller
                        x[k] = r[k].0 as usize;
                    }
                    alloc::off(|| {
                        out[pass].push(x);
                        out[pass].push([row; 10]);
                    });
                }
            }
            if it.next().is_some() {
                fused = false;
            }
        }
    }
    (out, fused)
}

fn dyn_any(w: &World, cols: &[Col], lim: usize, colwise: bool) -> ([Vec<[usize; 10]>; 2], bool) {
    match cols.len() {
        1 => dyn_run::<1>(w, cols, lim, colwise),
        2 => dyn_run::<2>(w, cols, lim, colwise),
        3 => dyn_run::<3>(w, cols, lim, colwise),
        4 => dyn_run::<4>(w, cols, lim, colwise),
        5 => dyn_run::<5>(w, cols, lim, colwise),
        6 => dyn_run::<6>(w, cols, lim, colwise),
        7 => dyn_run::<7>(w, cols, lim, colwise),
        8 => dyn_run::<8>(w, cols, lim, colwise),
        9 => dyn_run::<9>(w, cols, lim, colwise),
        _ => dyn_run::<10>(w, cols, lim, colwise),
    }
}

impl SysA {
    fn dyn_count(&self) -> usize {
        10 * DYN
    }
    fn dyn_text(&self, d: usize) -> String {
        let cols = dcols(d / DYN + 1, d % DYN);
        let v: Vec<String> = cols.iter().map(|&c| if c == ID { "EcsId".into() } else { kinds()[USED[c]].name.to_string() }).collect();
        format!("dynamic [{}]", v.join(", "))
    }
    fn query(&self, x: &mut Ax, q: usize) {
        let lim = x.ents.len() + 2;
        if q < self.qs.len() {
            let aq = &self.qs[q];
            let hs: Vec<EcsId> = x.ents.iter().map(|e| e.0).collect();
            let w = x.world.as_ref().unwrap();
            let r = sut(|| (aq.run)(w, &hs, lim));
            let (a, b, g, fused) = match r {
                Ok(r) => r,
                Err(p) => {
                    x.v("panic-query", format!("query {} panicked: {}", aq.text, p.msg));
                    return;
                }
            };
            x.compare(&format!("query {}", aq.text), aq.cols, &a, &b, fused, "iter");
            for (i, got) in g.iter().enumerate() {
                let want: Option<Vec<u64>> = aq.cols.iter().map(|&c| if c == ID { Some(x.ents[i].0.as_u64()) } else { x.ents[i].1[c].map(|v| v as u64) }).collect();
                let have: Option<Vec<u64>> = got.map(|r| r[..aq.cols.len()].iter().map(|c| c.tok).collect());
                x.checks += 1;
                if want != have {
                    x.v("iter", format!("query {} get({:#x}) gives {:x?}, expected {:x?}", aq.text, x.ents[i].0.as_u64(), have, want));
                    return;
                }
            }
            return;
        }
        let d = q - self.qs.len();
        let cols = dcols(d / DYN + 1, d % DYN);
        let mut fc: Vec<Col> = vec![];
        for (i, &c) in cols.iter().enumerate() {
            if c == ID {
                fc.push(None)
            } else {
                match x.ids[c] {
                    Some(id) => fc.push(Some((id, (i + d) % 2 == 0))),
                    None => return, // the kind is unknown: nothing to ask for
                }
            }
        }
        for colwise in [false, true] {
            let w = x.world.as_ref().unwrap();
            let (raw, fused) = match sut(|| dyn_any(w, &fc, lim, colwise)) {
                Ok(r) => r,
                Err(p) => {
                    x.v("panic-query", format!("{} panicked: {}", self.dyn_text(d), p.msg));
                    return;
                }
            };
            let conv = |r: &Vec<[usize; 10]>| -> Vec<ARow> {
                let step = if colwise { 2 } else { 1 };
                r.chunks(step)
                    .map(|ch| {
                        let mut row = NOROW;
                        let n = if colwise { ch[1][0] } else { 0 };
                        for (k, &c) in cols.iter().enumerate() {
                            row[k].tok = if c == ID {
                                unsafe { *(ch[0][k] as *const EcsId).add(n) }.as_u64()
                            } else {
                                let t = &kinds()[USED[c]];
                                (t.read_at)((ch[0][k] + n * t.layout.size()) as *const u8)
                            };
                        }
                        row
                    })
                    .collect()
            };
            let (a, b) = (conv(&raw[0]), conv(&raw[1]));
            x.compare(&format!("{}{}", self.dyn_text(d), if colwise { " by column" } else { "" }), &cols, &a, &b, fused, if colwise { "coliter" } else { "dyniter" });
        }
    }
}

impl Sys for SysA {
    fn name(&self) -> String {
        "query arities".into()
    }
    fn run(&self, ops: &[u32]) -> Node {
        l().reset();
        alloc::reset();
        let mut node = Node::default();
        let mut x = Ax { world: None, ents: vec![], ids: [None; 10], viols: vec![], checks: 0 };
        match sut(|| Box::new(World::new())) {
            Ok(w) => x.world = Some(w),
            Err(p) => x.v("panic-op", p.msg),
        }
        let mut h = crate::sysw::H(9);
        for o in ops {
            h.add(*o as u64);
        }
        node.key = h.0;
        match ops.first() {
            None => node.enabled = (0..CONFIGS as u32).collect(),
            Some(&c) => {
                x.config(c as usize);
                if c > 0 && x.viols.is_empty() {
                    for k in 0..10 {
                        let w = x.world.as_mut().unwrap();
                        match sut(|| (kinds()[USED[k]].reg)(w)) {
                            Ok(id) => {
                                x.ids[k] = Some(id);
                                if c == 1 && !x.ents.iter().any(|e| e.0 == id) {
                                    x.ents.push((id, [None; 10]));
                                }
                            }
                            Err(p) => x.v("panic-type", p.msg),
                        }
                    }
                    // the component entities themselves are entities
                    if c > 1 {
                        for k in 0..10 {
                            let id = x.ids[k].unwrap();
                            x.ents.push((id, [None; 10]));
                        }
                    }
                }
                match ops.get(1) {
                    None => node.enabled = (0..(self.qs.len() + self.dyn_count()) as u32).collect(),
                    Some(&q) => {
                        if x.viols.is_empty() {
                            self.query(&mut x, q as usize)
                        }
                    }
                }
            }
        }
        alloc::check_live();
        let s = alloc::st();
        if s.nerr > 0 && x.viols.is_empty() {
            x.v("mem", format!("allocator: {:?}", s.errs[0].unwrap()));
        }
        if x.viols.is_empty() {
            let w = x.world.take();
            if let Err(p) = sut(move || drop(w)) {
                x.v("panic-drop", p.msg);
            }
        } else {
            std::mem::forget(x.world.take());
        }
        node.viols = x.viols;
        node.checks = x.checks;
        alloc::reset();
        node
    }
    fn show(&self, ops: &[u32]) -> Vec<String> {
        let names = [
            "empty world",
            "all types known, none in use",
            "every subset of ten kinds",
            "full set and all sets missing one or two kinds, twice",
            "seven entities with all kinds",
            "prefix and suffix sets, largest first",
            "70 sets first, then the common ones",
            "full sets, most despawned again",
        ];
        let mut v = vec![];
        if let Some(&c) = ops.first() {
            v.push(names[c as usize].to_string());
        }
        if let Some(&q) = ops.get(1) {
            let q = q as usize;
            v.push(if q < self.qs.len() { format!("query {}", self.qs[q].text) } else { self.dyn_text(q - self.qs.len()) });
        }
        v
    }
}

pub fn jobs(p: &mut Plan) {
    p.add(Box::new(SysA { qs: crate::arity_gen::queries() }), 2, 2, true);
}
