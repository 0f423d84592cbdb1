//! Live queries: histories of opening and closing queries on a fixed world. Opens that the borrow
//! rule allows must be granted; opens that it forbids must block, panic or never return.
use crate::alloc;
use crate::engine::{Node, Sys, V};
use crate::kinds::*;
use crate::ledger::l;
use crate::suites::Plan;
use crate::sys::*;
use crate::sysw::H;
use arche_tape::{EcsId, EcsIds, FetchType, World};

/// components 0..10: the kinds of `USED`; then:
pub const T: usize = 10; // tag entity in use
pub const D: usize = 11; // dead tag
pub const R: usize = 12; // registered, never used type
pub const U: usize = 13; // type unknown to the world
pub const X: usize = 14; // component entity carrying raw data, in use
const USED: [usize; 10] = crate::sysa::USED;

pub trait Open {
    /// iterate, doing something at each row; the number of rows
    fn each(&mut self, f: &mut dyn FnMut()) -> usize;
    fn touch(&mut self) -> usize {
        self.each(&mut || ())
    }
}
pub struct SQ<Q>(pub Q, pub fn(&mut Q, &mut dyn FnMut()) -> usize);
impl<Q> Open for SQ<Q> {
    fn each(&mut self, f: &mut dyn FnMut()) -> usize {
        (self.1)(&mut self.0, f)
    }
}
/// count the rows
#[macro_export]
macro_rules! rows_ {
    () => {
        |q, f| {
            let mut n = 0;
            for _ in q.iter() {
                f();
                n += 1;
            }
            n
        }
    };
}
pub use crate::rows_ as rows;
/// The same query open many times.
struct Many(Vec<Box<dyn Open>>);
impl Open for Many {
    fn each(&mut self, f: &mut dyn FnMut()) -> usize {
        let n = self.0.len();
        let a = self.0[0].touch();
        let b = self.0[n / 2].touch();
        if a != b {
            return usize::MAX;
        }
        self.0[n - 1].each(f)
    }
}
/// how many queries a crowd of them has: where counters of 7, 8, 15 and 16 bits end
const CROWDS: [usize; 8] = [127, 128, 255, 256, 257, 32768, 65535, 65536];

pub enum How {
    Static(fn(&'static World) -> Box<dyn Open>),
    Dynamic(Vec<(usize, bool)>),
}
const ID: usize = 99;

pub struct QDef {
    pub text: String,
    /// component, written?
    pub needs: Vec<(usize, bool)>,
    pub how: How,
}

#[macro_export]
macro_rules! sq_ {
    (($($t:ty),* $(,)?), [$(($c:expr, $m:expr)),*]) => {
        $crate::sysq::QDef {
            text: stringify!(($($t),*)).replace("'static ", ""),
            needs: vec![$(($c, $m)),*],
            how: $crate::sysq::How::Static(|w| Box::new($crate::sysq::SQ(w.query::<($($t,)*)>(), $crate::sysq::rows!()))),
        }
    };
}
pub use crate::sq_ as sq;

fn dq(cols: &[(usize, bool)]) -> QDef {
    let n = |c: usize| match c {
        ID => "EcsId".to_string(),
        T => "tag".into(),
        D => "dead tag".into(),
        R => "unused type".into(),
        X => "data component".into(),
        c => kinds()[USED[c]].name.to_string(),
    };
    let t: Vec<String> = cols.iter().map(|&(c, m)| if c == ID { n(c) } else { format!("{}{}", if m { "mut " } else { "" }, n(c)) }).collect();
    QDef { text: format!("dynamic [{}]", t.join(", ")), needs: cols.iter().copied().filter(|c| c.0 != ID).collect(), how: How::Dynamic(cols.to_vec()) }
}

fn dyn_open<const N: usize>(w: &'static World, ids: &[Option<EcsId>], cols: &[(usize, bool)]) -> Box<dyn Open> {
    let mut i = cols.iter();
    let f: [FetchType; N] = [(); N].map(|_| match i.next().unwrap() {
        (ID, _) => FetchType::EcsId,
        (c, true) => FetchType::Mut(ids[*c].unwrap()),
        (c, false) => FetchType::Immut(ids[*c].unwrap()),
    });
    Box::new(SQ(w.query_dynamic(f), |q, f| {
        let mut a = 0;
        for _ in q.iter() {
            f();
            a += 1;
        }
        let b: usize = q
            .column_iter()
            .map(|r| {
                let r: [crate::shapes::PL; N] = unsafe { std::mem::transmute_copy(&r) };
                r[0].1
            })
            .sum();
        if a == b {
            a
        } else {
            usize::MAX
        }
    }))
}

fn open(w: &'static World, ids: &[Option<EcsId>], q: &QDef) -> Box<dyn Open> {
    match &q.how {
        How::Static(f) => f(w),
        How::Dynamic(c) => match c.len() {
            1 => dyn_open::<1>(w, ids, c),
            2 => dyn_open::<2>(w, ids, c),
            3 => dyn_open::<3>(w, ids, c),
            4 => dyn_open::<4>(w, ids, c),
            5 => dyn_open::<5>(w, ids, c),
            6 => dyn_open::<6>(w, ids, c),
            7 => dyn_open::<7>(w, ids, c),
            8 => dyn_open::<8>(w, ids, c),
            9 => dyn_open::<9>(w, ids, c),
            _ => dyn_open::<10>(w, ids, c),
        },
    }
}

fn core() -> Vec<QDef> {
    // 0 P4, 1 H2, 2 BX
    vec![
        sq!((&'static P4), [(0, false)]),
        sq!((&'static mut P4), [(0, true)]),
        sq!((&'static H2), [(1, false)]),
        sq!((&'static mut H2), [(1, true)]),
        sq!((&'static P4, &'static H2), [(0, false), (1, false)]),
        sq!((&'static mut P4, &'static H2), [(0, true), (1, false)]),
        sq!((&'static P4, &'static mut H2), [(0, false), (1, true)]),
        sq!((&'static mut H2, &'static mut P4), [(1, true), (0, true)]),
        sq!((EcsIds), []),
        sq!((EcsIds, &'static mut P4), [(0, true)]),
        sq!((&'static H2, &'static mut BX, &'static P4), [(1, false), (2, true), (0, false)]),
        sq!((&'static P4, &'static mut P4), [(0, false), (0, true)]),
        sq!((&'static mut P4, &'static P4), [(0, true), (0, false)]),
        sq!((&'static mut H2, EcsIds, &'static mut H2), [(1, true), (1, true)]),
        sq!((&'static P4, &'static P4), [(0, false), (0, false)]),
        sq!((&'static N8), [(U, false)]),
        sq!((&'static mut N8, &'static P4), [(U, true), (0, false)]),
        sq!((&'static mut C12), [(R, true)]),
        sq!((&'static P4, &'static mut C12), [(0, false), (R, true)]),
        dq(&[(0, false)]),
        dq(&[(ID, false), (0, true)]),
        dq(&[(1, true), (0, false)]),
        dq(&[(ID, false)]),
        dq(&[(T, false)]),
        dq(&[(T, true), (1, false)]),
        dq(&[(X, true)]),
        dq(&[(D, true)]),
        dq(&[(D, false), (2, true)]),
        dq(&[(R, true)]),
        dq(&[(0, true), (2, false), (0, false)]),
        dq(&[(T, true), (T, true)]),
        dq(&[(1, false), (1, false), (X, false)]),
    ]
}

fn positions() -> Vec<QDef> {
    let mut v = crate::arity_gen::positions();
    for n in 1..=10 {
        for i in 0..n {
            for m in [false, true] {
                // component 0 at position i, others read, the entity id next to it
                let mut c: Vec<(usize, bool)> = (0..n).map(|k| if (k + 16 - i) % 8 == 0 { (ID, false) } else { ((k + 16 - i) % 8, false) }).collect();
                c[i] = (0, m);
                if n > 2 {
                    c[(i + 1) % n] = (ID, false);
                }
                v.push(dq(&c));
            }
        }
    }
    v.push(sq!((EcsIds), []));
    v
}

const OPEN: u32 = 1;
const REFUSED: u32 = 2;
const CLOSE: u32 = 3;
const UNWIND: u32 = 4;
const UNWIND_ALL: u32 = 5;
const USE_R: u32 = 6;
const RESPAWN: u32 = 7; // structural change between queries
const CROWD: u32 = 8; // the same query many times

pub struct SysQ {
    name: &'static str,
    qs: Vec<QDef>,
    max: usize,
    unwind: bool,
    again: bool,
    crowds: bool,
}

struct Qx<'a> {
    qs: &'a [QDef],
    world: Option<Box<World>>,
    ids: Vec<Option<EcsId>>,
    /// component sets of the entities
    ents: Vec<u32>,
    used: u32,
    open: Vec<(usize, Box<dyn Open>)>,
    viols: Vec<V>,
    checks: u64,
}

#[derive(PartialEq, Clone, Copy)]
enum Want {
    Grant,
    Refuse,
    Either,
}

fn clash(a: &[(usize, bool)], b: &[(usize, bool)]) -> bool {
    a.iter().any(|x| b.iter().any(|y| x.0 == y.0 && (x.1 || y.1)))
}

impl<'a> Qx<'a> {
    fn v(&mut self, c: &str, t: String) {
        if self.viols.len() < 4 {
            self.viols.push(V { class: c.into(), text: t });
        }
    }
    fn complete(&self, q: usize) -> bool {
        self.qs[q].needs.iter().all(|c| self.used >> c.0 & 1 == 1)
    }
    fn selfclash(&self, q: usize) -> bool {
        let n = &self.qs[q].needs;
        (0..n.len()).any(|i| clash(&n[i..=i], &n[i + 1..]))
    }
    fn want(&self, q: usize) -> Want {
        let c = self.complete(q);
        let mut either = false;
        let mut refuse = self.selfclash(q);
        for (o, _) in &self.open {
            if clash(&self.qs[q].needs, &self.qs[*o].needs) {
                if self.complete(*o) {
                    refuse = true
                } else {
                    either = true
                }
            }
        }
        if refuse {
            if c {
                Want::Refuse
            } else {
                Want::Either
            }
        } else if either {
            Want::Either
        } else {
            Want::Grant
        }
    }
    fn rows(&self, q: usize) -> usize {
        if !self.complete(q) {
            return 0;
        }
        let m = self.qs[q].needs.iter().fold(0, |a, c| a | 1u32 << c.0);
        self.ents.iter().filter(|e| *e & m == m).count()
    }
    fn w(&self) -> &'static World {
        unsafe { &*(&**self.world.as_ref().unwrap() as *const World) }
    }
    fn wm(&mut self) -> &'static mut World {
        unsafe { &mut *(&mut **self.world.as_mut().unwrap() as *mut World) }
    }
    fn touch(&mut self, i: usize) {
        let q = self.open[i].0;
        let want = self.rows(q);
        self.checks += 1;
        let o = &mut self.open[i].1;
        match sut(|| o.touch()) {
            Ok(n) if n == want => {}
            Ok(n) => self.v("iter", format!("live query {} yields {} rows, expected {}", self.qs[q].text, n as isize, want)),
            Err(p) => self.v("panic-query", format!("iterating live query {} panicked: {}", self.qs[q].text, p.msg)),
        }
    }
    /// One live query iterated inside the iteration of another.
    fn nested(&mut self) {
        let n = self.open.len();
        for i in 0..n {
            let j = n - 1;
            if i == j || !self.viols.is_empty() {
                continue;
            }
            for (i, j) in [(i, j), (j, i)] {
                let (qi, qj) = (self.open[i].0, self.open[j].0);
                let (ri, rj) = (self.rows(qi), self.rows(qj));
                self.checks += 1;
                let (lo, hi) = self.open.split_at_mut(i.max(j));
                let (a, b) = if i < j { (&mut lo[i].1, &mut hi[0].1) } else { (&mut hi[0].1, &mut lo[j].1) };
                let mut inner = 0;
                match sut(|| a.each(&mut || inner += b.touch())) {
                    Ok(m) if m == ri && inner == ri * rj => {}
                    Ok(m) => {
                        let t = format!("live query {} yields {} rows (expected {}) while {} is iterated at each of them ({} rows altogether, expected {})", self.qs[qi].text, m, ri, self.qs[qj].text, inner, ri * rj);
                        self.v("iter", t)
                    }
                    Err(p) => {
                        let t = format!("iterating live query {} while {} is iterated panicked: {}", self.qs[qi].text, self.qs[qj].text, p.msg);
                        self.v("panic-query", t)
                    }
                }
            }
        }
    }
    fn grant(&mut self, q: usize) {
        let (w, ids, d) = (self.w(), self.ids.clone(), &self.qs[q]);
        match sut(|| open(w, &ids, d)) {
            Ok(o) => {
                self.open.push((q, o));
                for i in 0..self.open.len() {
                    self.touch(i);
                }
                self.nested();
            }
            Err(p) => {
                let t = format!("query {} was refused ({}) although nothing conflicting is live: {:?}", self.qs[q].text, p.msg, self.live());
                self.v("refused", t)
            }
        }
    }
    fn grant_crowd(&mut self, q: usize, n: usize) {
        let (w, ids, d) = (self.w(), self.ids.clone(), &self.qs[q]);
        let mut all: Vec<Box<dyn Open>> = Vec::with_capacity(n);
        match sut(|| {
            for _ in 0..n {
                all.push(open(w, &ids, d));
            }
        }) {
            Ok(()) => {
                self.open.push((q, Box::new(Many(all))));
                let i = self.open.len() - 1;
                self.touch(i);
            }
            Err(p) => {
                let t = format!("query {} was refused ({}) when opened for the {}th time", self.qs[q].text, p.msg, all.len() + 1);
                self.v("refused", t)
            }
        }
    }
    fn live(&self) -> Vec<String> {
        self.open.iter().map(|o| self.qs[o.0].text.clone()).collect()
    }
    fn close(&mut self, i: usize) {
        let (q, o) = self.open.remove(i);
        if let Err(p) = sut(move || drop(o)) {
            self.v("panic-query", format!("closing query {} panicked: {}", self.qs[q].text, p.msg));
        }
    }
    /// Everything can be opened, one after the other.
    fn all_free(&mut self) {
        while !self.open.is_empty() {
            self.close(0);
        }
        for q in 0..self.qs.len() {
            if self.viols.is_empty() && self.want(q) == Want::Grant {
                self.checks += 1;
                self.grant(q);
                if !self.open.is_empty() {
                    self.close(0);
                }
            }
        }
    }
    /// Must not be granted: tried in a child process.
    fn refuse(&mut self, q: usize) {
        self.checks += 1;
        let r = attempt(|| {
            let (w, ids, d) = (self.w(), self.ids.clone(), &self.qs[q]);
            match sut(|| open(w, &ids, d)) {
                Ok(_o) => exit_now(3),
                Err(_) => {
                    // refused by a panic: nothing may be left locked
                    for i in 0..self.open.len() {
                        self.touch(i);
                    }
                    self.all_free();
                    if self.viols.is_empty() { 0 } else { 4 }
                }
            }
        });
        let what = format!("query {} with {:?} live", self.qs[q].text, self.live());
        match r {
            Attempt::Returned(3) => self.v("granted", format!("{} was granted although it conflicts", what)),
            Attempt::Returned(4) => self.v("refused", format!("{} was refused by a panic after which other queries do not work", what)),
            // blocks, panics, or never returns
            Attempt::Blocked | Attempt::Returned(_) => {}
            Attempt::Signal(n) => self.v("crash", format!("{} ended with signal {}", what, n)),
        }
    }

    fn build(&mut self) {
        // harness memory, allocated before the code under test is accounted
        let mut ids: Vec<Option<EcsId>> = vec![None; 15];
        let mut ents = Vec::with_capacity(64);
        ents.resize(3, 0u32);
        let mut es = Vec::with_capacity(64);
        let r = sut(|| {
            let w = self.wm();
            let x = unsafe { w.spawn_with_component_meta((kinds()[R6].meta)()) }.build();
            let tag = w.spawn().build();
            let dead = w.spawn().build();
            let k = kinds();
            let full = |mut b: arche_tape::entity_builder::EntityBuilder<'static>, m: u32| {
                for c in 0..9 {
                    if m >> c & 1 == 1 && USED[c] != C12::KIND {
                        let t = &k[USED[c]];
                        b = (t.with)(b, if t.max > 0 { l().fresh(USED[c], t.max) } else { 0 });
                    }
                }
                b.build()
            };
            // C12 is component R (8 of USED is C12: not used as such), N8 is U
            let sets = [0b0_1111_1111u32, 0b1, 0b10, 0b11, 0b0_1111_1110, 0b100, 0b1011, 0];
            for s in sets {
                let w = self.wm();
                es.push(full(w.spawn(), s));
                ents.push(s);
            }
            let w = self.wm();
            w.add_component_dynamic(es[2], tag);
            ents[3 + 2] |= 1 << T;
            w.add_component_dynamic(es[1], tag);
            w.add_component_dynamic(es[1], dead);
            ents[3 + 1] |= 1 << T;
            let mut v = 7u64;
            unsafe { w.add_component_dynamic_with_data(es[3], x, &mut v as *mut u64 as *mut u8) };
            ents[3 + 3] |= 1 << X;
            w.despawn(dead);
            ents.remove(2);
            ids[R] = Some((k[C12::KIND].reg)(w));
            for c in 0..8 {
                ids[c] = Some((k[USED[c]].reg)(w));
                ents.push(0);
            }
            ents.push(0); // R
            ids[T] = Some(tag);
            ids[D] = Some(dead);
            ids[X] = Some(x);
        });
        match r {
            Ok(()) => {
                self.ids = ids;
                self.ents = ents;
                self.used = 0xff | 1 << T | 1 << X;
            }
            Err(p) => self.v("panic-op", format!("setting up the world panicked: {}", p.msg)),
        }
    }
    fn use_r(&mut self) {
        let w = self.wm();
        let r = sut(|| {
            let t = &kinds()[C12::KIND];
            let v = l().fresh(C12::KIND, t.max);
            (t.with)(w.spawn(), v).build()
        });
        match r {
            Ok(_) => {
                self.ents.push(1 << R);
                self.used |= 1 << R;
            }
            Err(p) => self.v("panic-op", format!("using a type for the first time panicked: {}", p.msg)),
        }
    }
    fn respawn(&mut self) {
        let w = self.wm();
        let r = sut(|| {
            let t = &kinds()[USED[0]];
            let v = l().fresh(USED[0], t.max);
            let e = (t.with)(w.spawn(), v).build();
            let t1 = &kinds()[USED[2]];
            (t1.add)(w, e, l().fresh(USED[2], t1.max));
            (t.remove)(w, e);
        });
        match r {
            Ok(_) => self.ents.push(1 << 2),
            Err(p) => self.v("panic-op", format!("changing the world between queries panicked: {}", p.msg)),
        }
    }
}

impl SysQ {
    fn execute(&self, ops: &[u32]) -> Node {
        l().reset();
        alloc::reset();
        let mut x = Qx { qs: &self.qs, world: None, ids: vec![], ents: vec![], used: 0, open: vec![], viols: vec![], checks: 0 };
        match sut(|| Box::new(World::new())) {
            Ok(w) => x.world = Some(w),
            Err(p) => x.v("panic-op", p.msg),
        }
        x.build();
        let mut stop = false;
        let mut respawns = 0;
        for &o in ops {
            if !x.viols.is_empty() {
                break;
            }
            let (code, a) = (o >> 24, (o & 0xffff) as usize);
            match code {
                OPEN => x.grant(a),
                REFUSED => {
                    x.refuse(a);
                    stop = true;
                }
                CLOSE => x.close(a),
                CROWD => x.grant_crowd(a & 0xff, CROWDS[a >> 8]),
                UNWIND => {
                    let (_, q) = x.open.remove(a);
                    let _ = sut(move || {
                        let _q = q;
                        panic!("unwinding");
                    });
                }
                UNWIND_ALL => {
                    let q = std::mem::take(&mut x.open);
                    let _ = sut(move || {
                        let _q = q;
                        panic!("unwinding");
                    });
                }
                USE_R => x.use_r(),
                RESPAWN => {
                    x.respawn();
                    respawns += 1;
                }
                _ => panic!("unknown op"),
            }
        }
        let mut node = Node::default();
        let mut h = H(11);
        h.add(x.used as u64);
        h.add(respawns);
        h.add(stop as u64);
        let mut m: Vec<usize> = x.open.iter().map(|o| o.0).collect();
        m.sort_unstable();
        for q in &m {
            h.add(*q as u64);
        }
        if stop || ops.iter().any(|o| o >> 24 == CROWD) {
            for o in ops {
                h.add(*o as u64);
            }
        }
        node.key = h.0;
        if x.viols.is_empty() && !stop {
            for q in 0..x.qs.len() {
                match x.want(q) {
                    Want::Grant if x.open.len() < self.max => node.enabled.push(OPEN << 24 | q as u32),
                    Want::Refuse => node.enabled.push(REFUSED << 24 | q as u32),
                    _ => {}
                }
            }
            if self.crowds && x.open.is_empty() {
                for n in 0..CROWDS.len() {
                    for q in [0, 4, 8, 19, 23] {
                        node.enabled.push(CROWD << 24 | (n << 8) as u32 | q);
                    }
                }
            }
            for i in 0..x.open.len() {
                node.enabled.push(CLOSE << 24 | i as u32);
                if self.unwind {
                    node.enabled.push(UNWIND << 24 | i as u32);
                }
            }
            if self.unwind && x.open.len() > 1 {
                node.enabled.push(UNWIND_ALL << 24);
            }
            if self.again && x.open.is_empty() && x.viols.is_empty() {
                if x.used >> R & 1 == 0 {
                    node.enabled.push(USE_R << 24);
                }
                if respawns < 1 {
                    node.enabled.push(RESPAWN << 24);
                }
            }
        }
        if x.viols.is_empty() {
            for i in 0..x.open.len() {
                x.touch(i);
            }
            x.all_free();
        }
        let o = std::mem::take(&mut x.open);
        let w = x.world.take();
        if x.viols.is_empty() {
            drop(o);
            if let Err(p) = sut(move || drop(w)) {
                x.v("panic-drop", p.msg);
            }
            alloc::check_live();
            alloc::flush();
            let s = alloc::st();
            if s.nerr > 0 {
                let t = format!("allocator: {:?}", s.errs[0]);
                x.v("mem", t);
            } else if s.live_bytes != 0 {
                let t = format!("{} bytes left after the world was dropped", s.live_bytes);
                x.v("memleak", t);
            }
        } else {
            std::mem::forget(o);
            std::mem::forget(w);
        }
        node.viols = x.viols;
        if !node.viols.is_empty() {
            node.enabled.clear();
        }
        node.checks = x.checks;
        alloc::reset();
        node
    }
}

impl Sys for SysQ {
    fn name(&self) -> String {
        self.name.into()
    }
    fn run(&self, ops: &[u32]) -> Node {
        let mut n = self.execute(ops);
        // memory that a global or thread-local keeps once is not a leak: it does not recur
        let leaks = |n: &Node| n.viols.iter().any(|v| v.class == "memleak");
        for _ in 0..2 {
            if leaks(&n) {
                let m = self.execute(ops);
                if !leaks(&m) {
                    n = m;
                }
            }
        }
        n
    }
    fn show(&self, ops: &[u32]) -> Vec<String> {
        ops.iter()
            .map(|&o| {
                let (code, a) = (o >> 24, (o & 0xffff) as usize);
                match code {
                    OPEN => format!("open {}", self.qs[a].text),
                    REFUSED => format!("try to open {}", self.qs[a].text),
                    CROWD => format!("open {} {} times", self.qs[a & 0xff].text, CROWDS[a >> 8]),
                    CLOSE => format!("close live query {}", a),
                    UNWIND => format!("panic, dropping live query {}", a),
                    UNWIND_ALL => "panic, dropping all live queries".into(),
                    USE_R => "use the registered type for the first time".into(),
                    RESPAWN => "spawn and change an entity".into(),
                    _ => format!("{:#x}", o),
                }
            })
            .collect()
    }
}

pub fn jobs(p: &mut Plan) {
    let c = |name, max, unwind, again| Box::new(SysQ { name, qs: core(), max, unwind, again, crowds: false });
    p.add(c("two live queries, every order", 2, true, true), 3, 4, false);
    p.add(c("three live queries", 3, false, false), 4, 5, true);
    p.add(c("four live queries, closed by unwinding or not", 4, true, true), 4, 7, true);
    p.add(Box::new(SysQ { name: "every arity and position", qs: positions(), max: 2, unwind: false, again: false, crowds: false }), 2, 3, true);
    p.add(Box::new(SysQ { name: "crowds of the same query", qs: core(), max: 2, unwind: true, again: true, crowds: true }), 2, 3, true);
}
