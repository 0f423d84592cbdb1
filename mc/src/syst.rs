//! Many Rust types in one world: the type table next to the sizes at which it could overflow, wrap
//! or collide.
use crate::alloc;
use crate::engine::{Node, Sys, V};
use crate::ledger::l;
use crate::suites::Plan;
use crate::sys::sut;
use crate::sysw::H;
use arche_tape::entity_builder::EntityBuilder;
use arche_tape::{EcsId, EcsIds, FetchType, World};

/// `NTY` Rust types that differ in a constant only
#[derive(Clone, Copy)]
pub struct Ty<const N: usize>(u64);

struct T {
    reg: fn(&mut World) -> EcsId,
    with: for<'a> fn(EntityBuilder<'a>, u64) -> EntityBuilder<'a>,
    add: fn(&mut World, EcsId, u64),
    remove: fn(&mut World, EcsId),
    has: fn(&World, EcsId) -> bool,
    get: fn(&World, EcsId) -> Option<u64>,
    /// rows and sum of values
    sum: fn(&World) -> (usize, u64),
}

fn t<const N: usize>() -> T {
    T {
        reg: |w| w.get_or_create_type_id_ecsid::<Ty<N>>(),
        with: |b, v| b.with(Ty::<N>(v)),
        add: |w, e, v| w.add_component(e, Ty::<N>(v)),
        remove: |w, e| w.remove_component::<Ty<N>>(e),
        has: |w, e| w.has_component::<Ty<N>>(e),
        get: |w, e| w.query::<(&'static Ty<N>,)>().get(e).map(|(x,)| x.0),
        sum: |w| w.query::<(EcsIds, &'static mut Ty<N>)>().iter().fold((0, 0), |a, (_, x)| (a.0 + 1, a.1.wrapping_add(x.0))),
    }
}

macro_rules! table {
    ($($n:literal)*) => { vec![$(t::<$n>()),*] };
}
#[rustfmt::skip]
fn types() -> &'static Vec<T> {
    static mut ALL: Option<Vec<T>> = None;
    unsafe {
        (*std::ptr::addr_of_mut!(ALL)).get_or_insert_with(|| table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259 260 261))
    }
}
pub const NTY: usize = 262;

const REG: u32 = 1;
const SPAWN: u32 = 2; // with type a
const ADD: u32 = 3; // type a to the last entity
const REMOVE: u32 = 4; // type a from the last entity
const KILL: u32 = 5; // despawn the component entity of type a

pub struct SysT {
    /// so many types exist at the start
    first: usize,
    /// 0 registered, 1 spawned with, 2 added
    how: usize,
}

struct E {
    id: EcsId,
    comps: Vec<(usize, u64)>,
}

struct Tx {
    w: Option<Box<World>>,
    ty: Vec<Option<EcsId>>,
    es: Vec<E>,
    token: u64,
    viols: Vec<V>,
    checks: u64,
    key: H,
}

impl Tx {
    fn v(&mut self, c: &str, t: String) {
        if self.viols.len() < 4 {
            self.viols.push(V { class: c.into(), text: t });
        }
    }
    /// the handle of type `a` is known and fits
    fn learn(&mut self, a: usize) {
        let w = self.w.as_mut().unwrap();
        let r = sut(|| (types()[a].reg)(w));
        self.checks += 1;
        match r {
            Ok(id) => {
                let known = self.ty[a];
                if known.map_or(false, |k| k != id) {
                    self.v("type", format!("type {} has handle {} but had {}", a, id, known.unwrap()));
                }
                if self.es.iter().any(|e| e.id == id) || self.ty.iter().enumerate().any(|(b, k)| b != a && *k == Some(id)) {
                    self.v("type", format!("type {} has handle {}, which something else has too", a, id));
                }
                self.ty[a] = Some(id);
            }
            Err(p) => self.v("panic-type", format!("registering type {} panicked: {}", a, p.msg)),
        }
    }
    fn step(&mut self, o: u32) {
        let (code, a) = (o >> 16, (o & 0xffff) as usize);
        self.token += 1;
        let v = self.token * 0x1_0001;
        let t = &types()[a];
        let w = self.w.as_mut().unwrap();
        match code {
            REG => self.learn(a),
            SPAWN => match sut(|| (t.with)(w.spawn(), v).build()) {
                Ok(id) => {
                    self.es.push(E { id, comps: vec![(a, v)] });
                    self.learn(a);
                }
                Err(p) => self.v("panic-build", format!("building with type {} panicked: {}", a, p.msg)),
            },
            ADD => {
                let e = self.es.last_mut().unwrap();
                match sut(|| (t.add)(w, e.id, v)) {
                    Ok(()) => {
                        e.comps.push((a, v));
                        self.learn(a);
                    }
                    Err(p) => self.v("panic-op", format!("adding type {} panicked: {}", a, p.msg)),
                }
            }
            REMOVE => {
                let e = self.es.last_mut().unwrap();
                match sut(|| (t.remove)(w, e.id)) {
                    Ok(()) => e.comps.retain(|c| c.0 != a),
                    Err(p) => self.v("panic-op", format!("removing type {} panicked: {}", a, p.msg)),
                }
            }
            KILL => {
                let id = self.ty[a].unwrap();
                match sut(|| w.despawn(id)) {
                    Ok(true) => {
                        self.ty[a] = None;
                        for e in &mut self.es {
                            e.comps.retain(|c| c.0 != a);
                        }
                    }
                    Ok(false) => self.v("despawn-ret", format!("despawning type {} returned false", a)),
                    Err(p) => self.v("panic-op", format!("despawning type {} panicked: {}", a, p.msg)),
                }
            }
            _ => panic!("unknown op"),
        }
    }
    fn observe(&mut self) {
        for a in 0..NTY {
            if !self.viols.is_empty() {
                return;
            }
            let t = &types()[a];
            let w = self.w.as_ref().unwrap();
            let id = self.ty[a];
            let mut rows = (0, 0u64);
            for e in &self.es {
                if let Some(c) = e.comps.iter().find(|c| c.0 == a) {
                    rows = (rows.0 + 1, rows.1.wrapping_add(c.1));
                }
            }
            self.checks += 2;
            match sut(|| (t.sum)(w)) {
                Ok(r) if r == rows => {}
                Ok(r) => self.v("iter", format!("a query of type {} yields {:?} (rows, sum), expected {:?}", a, r, rows)),
                Err(p) => self.v("panic-query", format!("querying type {} panicked: {}", a, p.msg)),
            }
            if let Some(id) = id {
                let w = self.w.as_ref().unwrap();
                match sut(|| w.query_dynamic([FetchType::Mut(id), FetchType::EcsId]).iter().fold((0, 0u64), |s, [p, _]| (s.0 + 1, s.1.wrapping_add(unsafe { *(p as *const u64) })))) {
                    Ok(r) if r == rows => {}
                    Ok(r) => self.v("dyniter", format!("a dynamic query of type {} yields {:?} (rows, sum), expected {:?}", a, r, rows)),
                    Err(p) => self.v("panic-query", format!("querying type {} by handle panicked: {}", a, p.msg)),
                }
            }
            for i in 0..self.es.len() {
                let e = self.es[i].id;
                let want = self.es[i].comps.iter().find(|c| c.0 == a).map(|c| c.1);
                let w = self.w.as_mut().unwrap();
                self.checks += 3;
                let r = sut(|| {
                    let d = id.map_or(want, |id| w.get_component_mut_dynamic(e, id).map(|p| unsafe { *(p as *const u64) }));
                    ((t.has)(w, e), (t.get)(w, e), d)
                });
                match r {
                    Ok(r) if r == (want.is_some(), want, want) => {}
                    Ok(r) => self.v("lookup", format!("entity {} and type {}: (has, get, dynamic get) = {:?}, expected {:?}", i, a, r, want)),
                    Err(p) => self.v("panic-query", format!("looking up type {} panicked: {}", a, p.msg)),
                }
            }
        }
        // the table itself; unknown types stay unknown
        for a in 0..NTY {
            if self.viols.is_empty() && self.ty[a].is_some() {
                self.learn(a);
            }
        }
        for a in 0..NTY {
            if let Some(id) = self.ty[a] {
                let w = self.w.as_ref().unwrap();
                self.checks += 1;
                if !matches!(sut(|| w.is_alive(id)), Ok(true)) {
                    self.v("alive", format!("the component entity of type {} is not alive", a));
                }
            }
        }
    }
}

impl SysT {
    /// the types operations address
    fn which(&self) -> Vec<usize> {
        let f = self.first;
        let mut v = vec![0, 1, f / 2, f.saturating_sub(1), f, f + 1, NTY - 1];
        v.retain(|&x| x < NTY);
        v.sort_unstable();
        v.dedup();
        v
    }
    fn execute(&self, ops: &[u32]) -> Node {
        types();
        l().reset();
        alloc::reset();
        let mut x = Tx { w: None, ty: vec![None; NTY], es: vec![], token: 0, viols: vec![], checks: 0, key: H(5) };
        match sut(|| Box::new(World::new())) {
            Ok(w) => x.w = Some(w),
            Err(p) => x.v("panic-op", p.msg),
        }
        for i in 0..self.first {
            if x.viols.is_empty() {
                match self.how {
                    0 => x.step(REG << 16 | i as u32),
                    1 => x.step(SPAWN << 16 | i as u32),
                    _ if i == 0 => x.step(SPAWN << 16),
                    _ => x.step(ADD << 16 | i as u32),
                }
            }
        }
        for &o in ops {
            if x.viols.is_empty() {
                x.step(o);
                x.key.add(o as u64);
            }
        }
        if x.viols.is_empty() {
            x.observe();
        }
        let mut node = Node::default();
        if x.viols.is_empty() {
            for a in self.which() {
                let a_ = a as u32;
                if x.ty[a].is_none() {
                    node.enabled.push(REG << 16 | a_);
                } else {
                    node.enabled.push(KILL << 16 | a_);
                }
                node.enabled.push(SPAWN << 16 | a_);
                if let Some(e) = x.es.last() {
                    node.enabled.push(if e.comps.iter().any(|c| c.0 == a) { REMOVE } else { ADD } << 16 | a_);
                }
            }
            let w = x.w.take();
            if let Err(p) = sut(move || drop(w)) {
                x.v("panic-drop", p.msg);
            }
            alloc::check_live();
            alloc::flush();
            let s = alloc::st();
            if s.nerr > 0 {
                let t = format!("allocator: {:?}", s.errs[0]);
                x.v("mem", t);
            } else if s.live_bytes != 0 {
                let t = format!("{} bytes left after the world was dropped", s.live_bytes);
                x.v("memleak", t);
            }
        } else {
            std::mem::forget(x.w.take());
        }
        node.key = x.key.0;
        node.obs = x.key.0;
        node.viols = x.viols;
        node.checks = x.checks;
        if !node.viols.is_empty() {
            node.enabled.clear();
        }
        alloc::reset();
        node
    }
}

impl Sys for SysT {
    fn name(&self) -> String {
        format!("{} types {}", self.first, ["registered", "of one entity each", "of one entity"][self.how])
    }
    fn run(&self, ops: &[u32]) -> Node {
        let mut n = self.execute(ops);
        // memory that a global or thread-local keeps once is not a leak: it does not recur
        let leaks = |n: &Node| n.viols.iter().any(|v| v.class == "memleak");
        for _ in 0..2 {
            if leaks(&n) {
                let m = self.execute(ops);
                if !leaks(&m) {
                    n = m;
                }
            }
        }
        n
    }
    fn show(&self, ops: &[u32]) -> Vec<String> {
        ops.iter()
            .map(|&o| {
                let a = o & 0xffff;
                match o >> 16 {
                    REG => format!("register type {}", a),
                    SPAWN => format!("spawn an entity with type {}", a),
                    ADD => format!("add type {} to the last entity", a),
                    REMOVE => format!("remove type {} from the last entity", a),
                    KILL => format!("despawn the component entity of type {}", a),
                    _ => format!("{:#x}", o),
                }
            })
            .collect()
    }
}

pub fn jobs(p: &mut Plan) {
    for (how, sizes) in [(0, &[27, 28, 29, 31, 32, 33, 55, 56, 57, 63, 64, 65, 111, 112, 113, 127, 128, 129, 223, 224, 225, 255, 256, 257][..]), (1, &[32, 33, 64, 65, 128, 256]), (2, &[32, 64, 65, 128, 256])] {
        for &first in sizes {
            p.add(Box::new(SysT { first, how }), if how == 2 { 2 } else { 3 }, if how == 2 { 3 } else { 4 }, false);
        }
    }
}
