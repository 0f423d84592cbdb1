//! The world system: histories of structural operations on the real `World`, compared with a
//! reference model through every public observation channel.
use std::mem::MaybeUninit;
use crate::alloc;
use crate::engine::{Node, Sys, V};
use crate::kinds::{kinds, Vt, BAD, DEAD, MISALIGNED, NKINDS};
use crate::ledger::l;
use crate::shapes::*;
use crate::sys::{point, second, sut, Middle, PanicMsg, MIDDLE};
use arche_tape::entity_builder::EntityBuilder;
use crate::sysq::{Open, SQ};
use arche_tape::{EcsId, FetchType, World};
use std::collections::BTreeSet;

pub const UNIT: u8 = 255;
/// slots: 0..3 types of the palette, 3..FOC prepared components, FOC.. focus entities as tags
pub const FOC: usize = 200;

// ---- operations ------------------------------------------------------------------------------
pub const SPAWN: u32 = 1; // a: list, b: variant
pub const ADD: u32 = 2; // a: handle, b: slot, c: via (0 typed/plain, 1 handle-based)
pub const REMOVE: u32 = 3;
pub const DESPAWN: u32 = 4;
pub const DESPAWN_COMP: u32 = 5; // b: slot
pub const REG: u32 = 6; // b: slot
pub const WRITE: u32 = 7; // a: handle, b: slot, c: path
pub const ABANDON: u32 = 8; // a: list
pub const DUP: u32 = 9; // a: dup list
pub const SPAWN_DATA: u32 = 10; // a: kind index in cfg.data_kinds, b: list in cfg.data_lists
pub const STALE_ADD: u32 = 11; // a: dead handle, b: slot, c: via
pub const STALE_REMOVE: u32 = 12;
pub const STALE_DESPAWN: u32 = 13;
pub const STALE_TAG_ADD: u32 = 14; // a: live handle, b: dead handle
pub const STALE_TAG_REMOVE: u32 = 15;
pub const STALE_SPAWN: u32 = 16; // a: dead handle, b: list spawned along
pub const ADD_EXISTING: u32 = 20; // a: handle, b: slot, c: via
pub const REMOVE_ABSENT: u32 = 21;
pub const NEEDS_DATA: u32 = 22; // a: handle, b: slot, c: 0 add, 1 build, 2 a builder of impossible capacity
pub const BOMB_DESPAWN: u32 = 30; // a: handle, b: slot
pub const BOMB_REMOVE: u32 = 31;
pub const BOMB_WRITE: u32 = 32; // c: path
pub const BOMB_ABANDON: u32 = 33; // a: list, b: position
pub const BOMB_DROP: u32 = 34; // a: handle, b: slot: drops the world
pub const BOMB_DESPAWN_COMP: u32 = 35; // a: holder whose value panics, b: slot
pub const DROP_WORLD: u32 = 40;
pub const TWICE: u32 = 41; // a: list: build the same builder twice, if the API allows it
pub const OBSERVE: u32 = 42;
pub const BULK: u32 = 43; // a: index in cfg.bulks: spawn that many
pub const BULK_DESPAWN: u32 = 44; // c: 0 in order, 1 backwards, 2 every other one
pub const BULK_ADD: u32 = 45; // b: slot
pub const BULK_REMOVE: u32 = 46;
pub const AGE: u32 = 47; // a: index in cfg.ages
/// first in a history: leave out whatever was to happen before
pub const ALONE: u32 = 63 << 24;

pub fn op(code: u32, a: usize, b: usize, c: usize) -> u32 {
    debug_assert!(a < 256 && b < 256 && c < 256);
    code << 24 | (a as u32) << 16 | (b as u32) << 8 | c as u32
}
fn dec(o: u32) -> (u32, usize, usize, usize, usize) {
    (
        o >> 24 & 63,
        (o >> 16 & 255) as usize,
        (o >> 8 & 255) as usize,
        (o & 255) as usize,
        (o >> 30) as usize,
    )
}

pub mod fl {
    pub const SPAWN: u64 = 1;
    pub const ADD: u64 = 2;
    pub const REMOVE: u64 = 4;
    pub const DESPAWN: u64 = 8;
    pub const DESPAWN_COMP: u64 = 16;
    pub const REG: u64 = 32;
    pub const WRITE: u64 = 64;
    pub const ABANDON: u64 = 128;
    pub const DUP: u64 = 256;
    pub const SPAWN_DATA: u64 = 512;
    pub const STALE: u64 = 1024;
    pub const REFUSED: u64 = 2048;
    pub const BOMB: u64 = 4096;
    pub const TAGS: u64 = 8192; // focus entities as tags
    pub const VIA: u64 = 16384; // both routes of typed operations
    pub const DROPW: u64 = 32768;
    pub const TWICE: u64 = 65536;
    pub const OBSERVE: u64 = 131072;
    pub const STRUCT: u64 = SPAWN | ADD | REMOVE | DESPAWN;
    /// only bomb entities' components, no bomb on abandon
    pub const NONE: u64 = 0;
}

pub struct WCfg {
    pub name: String,
    pub palette: [usize; 3],
    pub shapes: Vec<Shape>,
    pub spawn: fn(&mut World, &[u8], &[u32]) -> Option<EcsId>,
    pub worlds: usize,
    pub base: Option<Box<dyn Fn(&mut Wx)>>,
    pub lists: Vec<Vec<u8>>,
    pub dup_lists: Vec<Vec<u8>>,
    pub variants: Vec<u8>, // capacity codes
    pub slots: Vec<u8>,
    /// crowds that can be spawned and changed in one step
    pub bulks: Vec<(usize, Vec<u8>)>,
    /// (what, how often): once in a history so many operations happen that leave nothing behind
    pub ages: Vec<(u8, usize)>,
    pub data_kinds: Vec<usize>,
    /// what component entities may be built with
    pub data_lists: Vec<Vec<u8>>,
    pub paths: Vec<u8>,
    pub flags: u64,
    pub max_spawn: usize,
    /// how many focus entities may exist for ops to be generated on
    pub max_focus: usize,
    /// observe after every operation, not only at the end
    pub obs_each: bool,
    /// observe before the first operation
    pub obs_first: bool,
    /// skip the expensive pairwise dynamic queries
    pub light: bool,
    /// at every state: which pairs of live queries are granted
    pub locks: bool,
    /// dynamic queries of many columns
    pub columns: bool,
    /// operations replaced / removed for differential attribution
    pub strip_ops: bool,
    pub strip_worlds: bool,
    /// look at the provided methods of the query iterators
    pub adapt: bool,
    /// whatever happens in one world, queries of the other worlds are live meanwhile
    pub held: bool,
    /// classes of violations that count without comparison with the stripped history
    pub direct: Vec<&'static str>,
    /// run the history a second time with a perturbed allocator and compare
    pub twice: bool,
    /// a history that runs before, in the same process, on a world of its own
    pub before: u32,
    /// this many further worlds live meanwhile
    pub others: usize,
    /// and they are created after the first world
    pub between: bool,
    /// this many worlds are created and dropped before each world but the first of the process
    pub gone: usize,
    /// an operation on the other world happens at this point in the middle of one on this world
    pub middle: u32,
    /// the second world lives on a second thread
    pub threads: bool,
    /// base entities may be despawned / changed
    pub ignore_index_bound: bool,
    /// afterwards repeat (history, despawn all focus entities) this often and watch the memory
    pub cycle: usize,
    /// afterwards repeat (despawn all focus entities, history) this often and observe in between
    pub repeat: usize,
}

pub const CAPS: [usize; 8] = [usize::MAX, 0, 1, 7, 64, 300, 5000, 16];

impl WCfg {
    pub fn new(name: &str, pal: &Palette) -> WCfg {
        WCfg {
            name: name.into(),
            palette: pal.kinds,
            shapes: (pal.shapes)(),
            spawn: pal.spawn,
            worlds: 1,
            base: None,
            lists: vec![vec![], vec![0], vec![0, 1]],
            dup_lists: vec![],
            variants: vec![0],
            slots: vec![0, 1, 2],
            bulks: vec![],
            ages: vec![],
            data_kinds: vec![],
            data_lists: vec![vec![]],
            paths: vec![],
            flags: fl::STRUCT,
            max_spawn: 3,
            max_focus: 16,
            obs_each: false,
            obs_first: false,
            light: false,
            locks: false,
            columns: false,
            strip_ops: false,
            strip_worlds: false,
            adapt: false,
            held: false,
            direct: vec![],
            twice: false,
            before: 0,
            others: 0,
            between: false,
            gone: 0,
            middle: 0,
            threads: false,
            ignore_index_bound: false,
            cycle: 0,
            repeat: 0,
        }
    }
}

pub struct Palette {
    pub kinds: [usize; 3],
    pub shapes: fn() -> Vec<Shape>,
    pub spawn: fn(&mut World, &[u8], &[u32]) -> Option<EcsId>,
}

// ---- model -----------------------------------------------------------------------------------
pub struct Ent {
    pub id: EcsId,
    pub alive: bool,
    pub comps: Vec<(u32, u32)>, // (component entity, token), sorted by component entity
    pub data: u8,               // kind of data it carries as a component, or UNIT
    pub ty: bool,
}

impl Ent {
    pub fn has(&self, c: usize) -> bool {
        self.comps.binary_search_by_key(&(c as u32), |x| x.0).is_ok()
    }
    pub fn val(&self, c: usize) -> Option<u32> {
        self.comps.binary_search_by_key(&(c as u32), |x| x.0).ok().map(|i| self.comps[i].1)
    }
    fn put(&mut self, c: usize, v: u32) {
        match self.comps.binary_search_by_key(&(c as u32), |x| x.0) {
            Ok(i) => self.comps[i].1 = v,
            Err(i) => self.comps.insert(i, (c as u32, v)),
        }
    }
    fn take(&mut self, c: usize) -> Option<u32> {
        match self.comps.binary_search_by_key(&(c as u32), |x| x.0) {
            Ok(i) => Some(self.comps.remove(i).1),
            Err(_) => None,
        }
    }
    fn set(&self) -> Vec<u32> {
        self.comps.iter().map(|c| c.0).collect()
    }
}

#[derive(Default)]
struct ArchInfo {
    high: usize,
    recent: Vec<u32>,
    edges: BTreeSet<u32>,
}

/// One world with its model.
pub struct Wx<'c> {
    pub cfg: &'c WCfg,
    pub world: Option<Box<World>>,
    pub ents: Vec<Ent>,
    pub ty: [Option<usize>; NKINDS],
    pub foc: Vec<usize>,
    pub pre: Vec<usize>,
    pub crowd: Vec<usize>,
    pub spawned: usize,
    aged: bool,
    sets: BTreeSet<Vec<u32>>,
    by_id: std::collections::BTreeMap<u64, usize>,
    freed: Vec<usize>,
    peak: usize,
    nalive: usize,
    arch: Vec<ArchInfo>,
    scratch: usize,
    order: Vec<Vec<u32>>,
    pub maybe: Vec<(u8, u32)>,
    pub viols: Vec<V>,
    mark: usize,
    pub checks: u64,
    pub obs: H,
    bounded: bool,
}

#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    #[inline]
    pub fn add(&mut self, x: u64) {
        let mut h = (self.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 32;
        h = h.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        self.0 = h ^ (h >> 29);
    }
}

fn kname(k: usize) -> &'static str {
    kinds()[k].name
}

#[repr(C, align(4096))]
pub struct Tmp(pub [MaybeUninit<u8>; TMP]);
pub const TMP: usize = 17 * 4096;

enum Built {
    Id(EcsId),
    Panic(PanicMsg),
}

trait NoTwice: Sized {
    fn build(self) -> No {
        No
    }
}
impl<'a, 'b> NoTwice for &'b mut EntityBuilder<'a> {}
struct No;
trait Opt {
    fn opt(self) -> Option<EcsId>;
}
impl Opt for No {
    fn opt(self) -> Option<EcsId> {
        None
    }
}
impl Opt for EcsId {
    fn opt(self) -> Option<EcsId> {
        Some(self)
    }
}

impl<'c> Wx<'c> {
    pub fn new(cfg: &'c WCfg) -> Wx<'c> {
        let mut x = Wx {
            cfg,
            world: None,
            ents: vec![],
            ty: [None; NKINDS],
            foc: vec![],
            pre: vec![],
            crowd: vec![],
            spawned: 0,
            aged: false,
            sets: BTreeSet::new(),
            by_id: Default::default(),
            freed: vec![],
            peak: 0,
            nalive: 0,
            arch: vec![],
            scratch: 0,
            order: vec![],
            maybe: vec![],
            viols: vec![],
            mark: 0,
            checks: 0,
            obs: H(1),
            bounded: true,
        };
        match sut(|| Box::new(World::new())) {
            Ok(w) => x.world = Some(w),
            Err(p) => x.v("panic-op", format!("World::new panicked: {}", p.msg)),
        }
        x
    }

    pub fn v(&mut self, class: &str, text: String) {
        if self.viols.len() < 12 {
            self.viols.push(V { class: class.into(), text });
        }
    }
    /// something went wrong (in the current part of an observation)
    pub fn bad(&self) -> bool {
        self.viols.len() > self.mark
    }
    fn w(&mut self) -> &'static mut World {
        unsafe { &mut *(&mut **self.world.as_mut().unwrap() as *mut World) }
    }
    fn wr(&self) -> &'static World {
        unsafe { &*(&**self.world.as_ref().unwrap() as *const World) }
    }
    fn name(&self, i: usize) -> String {
        format!("entity #{} ({:#x})", i, self.ents[i].id.as_u64())
    }
    fn cname(&self, c: usize) -> String {
        let e = &self.ents[c];
        if e.ty {
            kname(e.data as usize).to_string()
        } else if e.data != UNIT {
            format!("data component #{} ({})", c, kname(e.data as usize))
        } else {
            format!("tag #{}", c)
        }
    }

    /// A handle was handed out.
    pub fn issue(&mut self, id: EcsId, data: u8, ty: bool) -> usize {
        let i = self.ents.len();
        if let Some(&j) = self.by_id.get(&id.as_u64()) {
            self.v("unique", format!("new handle {:#x} equals the handle of entity #{}", id.as_u64(), j));
        }
        self.by_id.insert(id.as_u64(), i);
        if i < 300 {
            for (j, e) in self.ents.iter().enumerate() {
                let eq = e.id == id || e.id.cmp(&id) == std::cmp::Ordering::Equal || id.cmp(&e.id) != e.id.cmp(&id).reverse();
                if eq && !self.bad() {
                    self.viols.push(V { class: "unique".into(), text: format!("handle {:#x} compares equal to (or inconsistently with) {:#x} of entity #{}", id.as_u64(), e.id.as_u64(), j) });
                }
            }
        }
        if let Some(p) = self.freed.iter().position(|&f| f == id.uindex()) {
            self.freed.remove(p);
        }
        self.ents.push(Ent { id, alive: true, comps: vec![], data, ty });
        self.nalive += 1;
        self.peak = self.peak.max(self.nalive);
        self.sets.insert(vec![]);
        self.obs.add(id.as_u64());
        i
    }

    /// Model: entity i dies; it is also removed as a component everywhere.
    fn kill(&mut self, i: usize) {
        self.ents[i].alive = false;
        self.ents[i].comps.clear();
        self.nalive -= 1;
        self.freed.push(self.ents[i].id.uindex());
        if !self.sets.iter().any(|s| s.contains(&(i as u32))) {
            return;
        }
        for j in 0..self.ents.len() {
            if self.ents[j].alive && self.ents[j].take(i).is_some() {
                let s = self.ents[j].set();
                self.sets.insert(s);
            }
        }
    }

    pub fn comp_of(&self, slot: usize) -> Option<usize> {
        let c = if slot < 3 {
            self.ty[self.cfg.palette[slot]]?
        } else if slot < FOC {
            *self.pre.get(slot - 3)?
        } else {
            *self.foc.get(slot - FOC)?
        };
        if self.ents[c].alive {
            Some(c)
        } else {
            None
        }
    }
    /// Kind of the value that a component of this slot carries
    fn kind_of(&self, slot: usize) -> Option<usize> {
        if slot < 3 {
            return Some(self.cfg.palette[slot]);
        }
        let c = self.comp_of(slot)?;
        if self.ents[c].data == UNIT {
            None
        } else {
            Some(self.ents[c].data as usize)
        }
    }
    /// Kind if the typed interface can be used
    fn typed(&self, slot: usize) -> Option<&'static Vt> {
        if slot < 3 {
            return Some(&kinds()[self.cfg.palette[slot]]);
        }
        let c = self.comp_of(slot)?;
        if self.ents[c].ty {
            Some(&kinds()[self.ents[c].data as usize])
        } else {
            None
        }
    }

    /// The component entity standing for a kind; a new one if the old one is dead.
    pub fn learn(&mut self, k: usize) -> Option<usize> {
        let w = self.w();
        let id = match sut(|| (kinds()[k].reg)(w)) {
            Ok(id) => id,
            Err(p) => {
                self.v("panic-type", format!("registering {} panicked: {}", kname(k), p.msg));
                return None;
            }
        };
        self.checks += 1;
        if let Some(c) = self.ty[k] {
            if self.ents[c].alive {
                if self.ents[c].id != id {
                    let t = format!("component entity of {} changed from {:#x} to {:#x}", kname(k), self.ents[c].id.as_u64(), id.as_u64());
                    self.v("type", t);
                }
                return Some(c);
            }
        }
        if self.by_id.contains_key(&id.as_u64()) {
            let j = self.by_id[&id.as_u64()];
            let t = format!("component entity of {} is the handle of {} (alive: {})", kname(k), self.name(j), self.ents[j].alive);
            self.v("type", t);
            return None;
        }
        let c = self.issue(id, k as u8, true);
        self.ty[k] = Some(c);
        Some(c)
    }

    fn arch_of(&self, i: usize) -> Option<(usize, usize)> {
        let w = self.wr();
        let id = self.ents[i].id;
        sut(|| w.get_entity_meta(id).map(|m| (m.instance_meta.archetype.0, m.instance_meta.index)))
            .ok()
            .flatten()
    }
    fn edge(&mut self, i: usize, c: usize) {
        if let Some((a, _)) = self.arch_of(i) {
            if a > 100_000 {
                return;
            }
            while self.arch.len() <= a {
                self.arch.push(ArchInfo::default());
            }
            let r = &mut self.arch[a];
            let c = c as u32;
            r.edges.insert(c);
            if !r.recent.contains(&c) {
                r.recent.insert(0, c);
                r.recent.truncate(4);
            }
        }
    }
    fn note_set(&mut self, i: usize) {
        let s = self.ents[i].set();
        if self.sets.insert(s.clone()) {
            self.order.push(s);
        }
    }
    fn fresh(&self, k: usize) -> u32 {
        let t = &kinds()[k];
        if t.max == 0 {
            0
        } else {
            l().fresh(k, t.max)
        }
    }

    // ---- building ----
    /// Values for a list of slots; None if a slot is unusable.
    fn plan(&self, list: &[u8]) -> Option<Vec<(usize, Option<usize>)>> {
        let mut out = vec![];
        for &s in list {
            let s = s as usize;
            if s >= 3 && self.comp_of(s).is_none() {
                return None;
            }
            out.push((s, self.kind_of(s)));
        }
        Some(out)
    }

    /// mode 0 build, 1 abandon, 2 build twice
    fn builder(&mut self, list: &[u8], variant: usize, mode: usize, data: Option<usize>, extra: Option<EcsId>, bomb: Option<usize>) -> (Built, Vec<(usize, u32)>, Option<EcsId>, Vec<EcsId>) {
        let plan = self.plan(list).expect("plan");
        let mut vals: Vec<(usize, u32)> = vec![];
        // never hand out the same token twice within one list
        let mut items: Vec<(usize, Option<&'static Vt>, u32, EcsId, bool)> = vec![];
        for (s, k) in plan {
            let v = match k {
                Some(k) if kinds()[k].max > 0 => {
                    let mut v = self.fresh(k);
                    while items.iter().any(|i| i.1.map_or(false, |t| t.kind == k) && i.2 == v) {
                        v = self.fresh(k);
                    }
                    v
                }
                _ => 0,
            };
            let id = if s >= 3 { self.ents[self.comp_of(s).unwrap()].id } else { EcsId_dummy() };
            let typed = self.typed(s).is_some() && (variant & 8 == 0 || self.comp_of(s).is_none());
            let id = if !typed && s < 3 { self.ents[self.comp_of(s).unwrap()].id } else { id };
            items.push((s, k.map(|k| &kinds()[k]), v, id, typed));
            vals.push((s, v));
            if bomb == Some(items.len() - 1) {
                l().bomb = Some((k.unwrap(), v));
            }
        }
        let cap = CAPS[variant & 7];
        let w = self.w();
        let mut second: Option<EcsId> = None;
        let mut metas = vec![];
        let r = {
            let second = &mut second;
            let items = &items;
            let sm = self.cfg.spawn;
            let toks: Vec<u32> = vals.iter().map(|v| v.1).collect();
            sut(move || {
                if variant & 16 != 0 {
                    return sm(w, list, &toks);
                }
                let mut tmp = Tmp([MaybeUninit::uninit(); TMP]);
                let mut b: EntityBuilder = match data {
                    Some(k) => unsafe { w.spawn_with_component_meta((kinds()[k].meta)()) },
                    None => {
                        if cap == usize::MAX {
                            w.spawn()
                        } else {
                            w.spawn_with_capacity(cap)
                        }
                    }
                };
                for (_, k, v, id, typed) in items.iter() {
                    point(false);
                    b = match (k, typed) {
                        (Some(t), true) => (t.with)(b, *v),
                        (Some(t), false) => unsafe {
                            (t.make_at)(tmp.0.as_mut_ptr() as *mut u8, *v);
                            let b = b.with_dynamic_with_data(tmp.0.as_mut_ptr() as *mut u8, *id);
                            b
                        },
                        (None, _) => b.with_dynamic(*id),
                    };
                    if let (Some(t), false) = (k, typed) {
                        tmp.0[..t.layout.size()].fill(MaybeUninit::new(0xA7));
                    }
                }
                if let Some(x) = extra {
                    b = b.with_dynamic(x);
                }
                point(false);
                match mode {
                    1 => None,
                    2 => {
                        {
                            let bm = &mut b;
                            *second = bm.build().opt();
                        }
                        Some(b.build())
                    }
                    _ => Some(b.build()),
                }
            })
        };
        let r = match r {
            Ok(Some(id)) => Built::Id(id),
            Ok(None) => {
                metas.clear();
                Built::Panic(PanicMsg { msg: "abandoned".into() })
            }
            Err(p) => Built::Panic(p),
        };
        (r, vals, second, metas)
    }

    fn bytes(&self, list: &[u8]) -> usize {
        list.iter().filter_map(|&s| self.kind_of(s as usize)).map(|k| kinds()[k].layout.size()).sum()
    }
    /// Types first mentioned by a builder exist afterwards
    fn learn_list(&mut self, list: &[u8]) {
        for &s in list {
            if (s as usize) < 3 {
                self.learn(self.cfg.palette[s as usize]);
            }
        }
    }

    pub fn do_spawn(&mut self, list: &[u8], variant: usize, data: Option<usize>) -> Option<usize> {
        let by = self.bytes(list);
        self.scratch = self.scratch.max(by);
        match self.builder(list, variant, 0, data, None, None).into_parts() {
            (Built::Id(id), vals) => Some(self.spawned_ok(id, &vals, list, data)),
            (Built::Panic(p), _) => {
                self.v("panic-build", format!("building an entity with {} panicked: {}", self.slots(list), p.msg));
                None
            }
        }
    }
    fn spawned_ok(&mut self, id: EcsId, vals: &[(usize, u32)], list: &[u8], data: Option<usize>) -> usize {
        let i = self.issue(id, data.map_or(UNIT, |k| k as u8), false);
        self.learn_list(list);
        if self.bad() {
            return i;
        }
        for &(s, v) in vals {
            let c = self.comp_of(s).unwrap();
            self.ents[i].put(c, v);
        }
        self.note_set(i);
        i
    }
    fn slots(&self, list: &[u8]) -> String {
        let v: Vec<String> = list.iter().map(|&s| self.slot(s as usize)).collect();
        format!("[{}]", v.join(", "))
    }
    fn slot(&self, s: usize) -> String {
        slot_name(self.cfg, s)
    }

    pub fn do_add(&mut self, i: usize, slot: usize, dynamic: bool) {
        let id = self.ents[i].id;
        let w = self.w();
        if let Some(c) = self.comp_of(slot) {
            self.edge(i, c);
        }
        let k = self.kind_of(slot);
        let v = k.map_or(0, |k| self.fresh(k));
        let r = match (self.typed(slot), k) {
            (Some(t), _) if !dynamic || self.comp_of(slot).is_none() => sut(|| (t.add)(w, id, v)),
            (_, Some(k)) => {
                let t = &kinds()[k];
                let cid = self.ents[self.comp_of(slot).unwrap()].id;
                sut(|| unsafe {
                    let mut tmp = Tmp([MaybeUninit::uninit(); TMP]);
                    (t.make_at)(tmp.0.as_mut_ptr() as *mut u8, v);
                    w.add_component_dynamic_with_data(id, cid, tmp.0.as_mut_ptr() as *mut u8);
                    tmp.0[..t.layout.size()].fill(MaybeUninit::new(0xA7));
                })
            }
            (_, None) => {
                let cid = self.ents[self.comp_of(slot).unwrap()].id;
                sut(|| w.add_component_dynamic(id, cid))
            }
        };
        if let Err(p) = r {
            self.v("panic-op", format!("adding {} to {} panicked: {}", self.slot(slot), self.name(i), p.msg));
            return;
        }
        if slot < 3 {
            self.learn(self.cfg.palette[slot]);
            if self.bad() {
                return;
            }
        }
        let c = self.comp_of(slot).unwrap();
        self.ents[i].put(c, v);
        self.note_set(i);
    }

    pub fn do_remove(&mut self, i: usize, slot: usize, dynamic: bool) {
        let c = self.comp_of(slot).unwrap();
        self.edge(i, c);
        let (id, cid) = (self.ents[i].id, self.ents[c].id);
        let w = self.w();
        let r = match self.typed(slot) {
            Some(t) if !dynamic => sut(|| (t.remove)(w, id)),
            _ => sut(|| w.remove_component_dynamic(id, cid)),
        };
        if let Err(p) = r {
            self.v("panic-op", format!("removing {} from {} panicked: {}", self.slot(slot), self.name(i), p.msg));
            return;
        }
        self.ents[i].take(c);
        self.note_set(i);
    }

    pub fn do_despawn(&mut self, i: usize) {
        let id = self.ents[i].id;
        let w = self.w();
        match sut(|| w.despawn(id)) {
            Ok(true) => {}
            Ok(false) => self.v("despawn-ret", format!("despawning live {} returned false", self.name(i))),
            Err(p) => {
                let used = self.ents.iter().any(|e| e.has(i)) || self.order.iter().any(|s| s.contains(&(i as u32)));
                let cl = if used { "panic-compdespawn" } else { "panic-op" };
                self.v(cl, format!("despawning {} panicked: {}", self.name(i), p.msg))
            }
        }
        self.kill(i);
    }

    fn do_write(&mut self, i: usize, slot: usize, path: usize, bomb: bool) {
        let c = self.comp_of(slot).unwrap();
        let k = self.ents[c].data as usize;
        let t = &kinds()[k];
        let old = self.ents[i].val(c).unwrap();
        let v = self.fresh(k);
        let (id, cid) = (self.ents[i].id, self.ents[c].id);
        let w = self.w();
        let lim = self.nalive + 4;
        if bomb {
            l().bomb = Some((k, old));
        }
        let mut done = 0usize;
        let r = match path {
            0 => sut(|| (t.set_get)(w, id, v) as usize),
            1 => sut(|| (t.set_iter)(w, id, v)),
            2 => sut(|| match w.get_component_mut_dynamic(id, cid) {
                Some(p) => unsafe {
                    (t.set_at)(p, v);
                    1
                },
                None => 0,
            }),
            3 => sut(|| {
                let mut n = 0;
                let want = id.as_u64();
                dyn_rows(w, &[None, Some((cid, true))], lim, &mut |pass, r| {
                    if pass == 0 && unsafe { *(r[0] as *const EcsId) }.as_u64() == want {
                        crate::alloc::st().sut = true;
                        unsafe { (t.set_at)(r[1] as *mut u8, v) };
                        n += 1;
                    }
                });
                n
            }),
            _ => sut(|| {
                let mut n = 0;
                let want = id.as_u64();
                let size = t.layout.size();
                col_rows(w, &[Some((cid, true)), None], lim * 4, &mut |pass, r| {
                    if pass == 0 {
                        for row in 0..r[1].1 {
                            let e = unsafe { *(r[1].0 as *const EcsId).add(row) };
                            if e.as_u64() == want {
                                unsafe { (t.set_at)(r[0].0.add(row * size), v) };
                                n += 1;
                            }
                        }
                    }
                });
                n
            }),
        };
        match r {
            Ok(n) => {
                if bomb && l().bomb.is_some() {
                    l().bomb = None;
                }
                if n != 1 {
                    self.v("write", format!("write path {} found {} of {} {} times", path, self.slot(slot), self.name(i), n));
                }
                done = n;
            }
            Err(p) => {
                if bomb && p.msg.starts_with("BOMB") {
                    // assignment: the new value is in place although the old one's destructor panicked
                    done = 1;
                } else {
                    self.v("panic-query", format!("write path {} to {} of {} panicked: {}", path, self.slot(slot), self.name(i), p.msg));
                }
            }
        }
        if done > 0 {
            self.ents[i].put(c, v);
        }
    }

    // ---- step ----
    pub fn step(&mut self, o: u32) {
        let (code, a, b, c, _) = dec(o);
        let cfg = self.cfg;
        match code {
            SPAWN => {
                if let Some(i) = self.do_spawn(&cfg.lists[a], b, None) {
                    self.foc.push(i);
                }
                self.spawned += 1;
            }
            SPAWN_DATA => {
                let k = cfg.data_kinds[a];
                if let Some(i) = self.do_spawn(&cfg.data_lists[b], 0, Some(k)) {
                    self.pre.push(i);
                }
            }
            ADD => self.do_add(self.foc[a], b, c == 1),
            REMOVE => self.do_remove(self.foc[a], b, c == 1),
            DESPAWN => self.do_despawn(self.foc[a]),
            DESPAWN_COMP => {
                // on a repeated history the type may be unknown by now
                if let Some(x) = self.comp_of(b) {
                    self.do_despawn(x)
                }
            }
            REG => {
                self.learn(cfg.palette[b]);
            }
            WRITE => self.do_write(self.foc[a], b, c, false),
            OBSERVE => self.observe(),
            BULK => {
                let (n, list) = &cfg.bulks[a];
                self.crowd.clear();
                for _ in 0..*n {
                    match self.do_spawn(list, 0, None) {
                        Some(i) => self.crowd.push(i),
                        None => return,
                    }
                    if self.bad() {
                        return;
                    }
                }
            }
            AGE => {
                let (what, n) = cfg.ages[a];
                self.aged = true;
                if what == 4 {
                    // so many component sets that never existed before
                    let t = self.pre.len() as u8;
                    let pairs = (0..t).flat_map(|i| (0..i).map(move |j| [3 + i, 3 + j]));
                    for p in pairs.take(n) {
                        match self.do_spawn(&p, 0, None) {
                            Some(i) if !self.bad() => self.do_despawn(i),
                            _ => return,
                        }
                    }
                    return;
                }
                let list: &[u8] = if what % 3 == 0 { &[] } else { &[0] };
                let mut mover = None;
                for _ in 0..n {
                    if what != 2 || mover.is_none() {
                        mover = self.do_spawn(list, 0, None);
                    }
                    let Some(i) = mover else { return };
                    if what != 2 {
                        self.do_despawn(i);
                    } else {
                        self.do_add(i, 1, false);
                        if !self.bad() {
                            self.do_remove(i, 1, false);
                        }
                    }
                    if self.bad() {
                        return;
                    }
                }
                if what == 2 {
                    if let Some(i) = mover {
                        self.do_despawn(i);
                    }
                }
                if what == 3 {
                    self.do_spawn(&[], 0, None);
                }
            }
            BULK_DESPAWN | BULK_ADD | BULK_REMOVE => {
                let mut v = self.crowd.clone();
                if c == 1 {
                    v.reverse();
                }
                if c == 2 {
                    v = v.into_iter().step_by(2).collect();
                }
                for i in v {
                    match code {
                        BULK_DESPAWN => self.do_despawn(i),
                        BULK_ADD => self.do_add(i, b, false),
                        _ => self.do_remove(i, b, false),
                    }
                    if self.bad() {
                        return;
                    }
                }
                let ents = &self.ents;
                self.crowd.retain(|&i| ents[i].alive);
            }
            ABANDON | BOMB_ABANDON => {
                let list = &cfg.lists[a];
                let by = self.bytes(list);
                self.scratch = self.scratch.max(by);
                let bomb = if code == BOMB_ABANDON { Some(b) } else { None };
                let (r, vals, _, _) = self.builder(list, 0, 1, None, None, bomb);
                l().bomb = None;
                match r {
                    Built::Panic(p) if p.msg == "abandoned" || (bomb.is_some() && p.msg.starts_with("BOMB")) => {}
                    Built::Panic(p) => self.v("panic-build", format!("dropping a builder with {} panicked: {}", self.slots(list), p.msg)),
                    Built::Id(_) => {}
                }
                if bomb.is_some() {
                    self.maybes(&vals);
                }
                self.learn_list(list);
            }
            TWICE => {
                let list = &cfg.lists[a];
                let by = self.bytes(list);
                self.scratch = self.scratch.max(by);
                let (r, vals, second, _) = self.builder(list, 0, 2, None, None, None);
                match r {
                    Built::Id(id) => {
                        let i = self.spawned_ok(id, &vals, list, None);
                        self.foc.push(i);
                        if let Some(s) = second {
                            if s != id {
                                self.issue(s, UNIT, false);
                            }
                        }
                    }
                    Built::Panic(p) => {
                        // refusing the second build is fine; the first one has happened
                        match second {
                            Some(s) => {
                                let i = self.spawned_ok(s, &vals, list, None);
                                self.foc.push(i);
                            }
                            None => self.v("panic-build", format!("building {} panicked: {}", self.slots(list), p.msg)),
                        }
                    }
                }
                self.spawned += 1;
            }
            DUP => {
                let list = &cfg.dup_lists[a];
                let by = self.bytes(list);
                self.scratch = self.scratch.max(by);
                let (r, vals, _, _) = self.builder(list, b, 0, None, None, None);
                match r {
                    Built::Panic(_) => {}
                    Built::Id(id) => {
                        let t = format!("building with a duplicate component {} was not refused (gave {:#x})", self.slots(list), id.as_u64());
                        self.v("dup", t);
                    }
                }
                self.maybes(&vals);
                self.learn_list(list);
            }
            STALE_ADD => {
                let id = self.ents[self.foc[a]].id;
                let w = self.w();
                let k = self.kind_of(b);
                let v = k.map_or(0, |k| self.fresh(k));
                match (self.typed(b), k) {
                    (Some(t), _) if c == 0 => {
                        let _ = sut(|| (t.add)(w, id, v));
                    }
                    (_, Some(k)) => {
                        let t = &kinds()[k];
                        let cid = self.ents[self.comp_of(b).unwrap()].id;
                        let _ = sut(|| unsafe {
                            let mut tmp = Tmp([MaybeUninit::uninit(); TMP]);
                            (t.make_at)(tmp.0.as_mut_ptr() as *mut u8, v);
                            w.add_component_dynamic_with_data(id, cid, tmp.0.as_mut_ptr() as *mut u8);
                        });
                    }
                    (_, None) => {
                        let cid = self.ents[self.comp_of(b).unwrap()].id;
                        let _ = sut(|| w.add_component_dynamic(id, cid));
                    }
                }
                self.maybes(&[(b, v)]);
                self.maybe_learn(b);
            }
            STALE_REMOVE => {
                let id = self.ents[self.foc[a]].id;
                let w = self.w();
                match self.typed(b) {
                    Some(t) if c == 0 => {
                        let _ = sut(|| (t.remove)(w, id));
                    }
                    _ => {
                        let cid = self.ents[self.comp_of(b).unwrap()].id;
                        let _ = sut(|| w.remove_component_dynamic(id, cid));
                    }
                }
                self.maybe_learn(b);
            }
            STALE_DESPAWN => {
                let id = self.ents[self.foc[a]].id;
                let w = self.w();
                match sut(|| w.despawn(id)) {
                    Ok(false) => {}
                    Ok(true) => self.v("despawn-ret", format!("despawning dead {} returned true", self.name(self.foc[a]))),
                    Err(p) => self.v("despawn-dead", format!("despawning dead {} panicked: {}", self.name(self.foc[a]), p.msg)),
                }
            }
            STALE_TAG_ADD => {
                let (e, d) = (self.ents[self.foc[a]].id, self.ents[self.foc[b]].id);
                let w = self.w();
                if c == 0 {
                    let _ = sut(|| w.add_component_dynamic(e, d));
                } else {
                    let mut u = 0u64;
                    let _ = sut(|| unsafe { w.add_component_dynamic_with_data(e, d, &mut u as *mut u64 as *mut u8) });
                }
            }
            STALE_TAG_REMOVE => {
                let (e, d) = (self.ents[self.foc[a]].id, self.ents[self.foc[b]].id);
                let w = self.w();
                let _ = sut(|| w.remove_component_dynamic(e, d));
            }
            STALE_SPAWN => {
                let d = self.ents[self.foc[a]].id;
                let list = &cfg.lists[b];
                let (r, vals, _, _) = self.builder(list, 0, 0, None, Some(d), None);
                match r {
                    Built::Panic(_) => {
                        self.maybes(&vals);
                        self.learn_list(list);
                    }
                    Built::Id(id) => {
                        // tolerated if the dead component was simply left out
                        let i = self.spawned_ok(id, &vals, list, None);
                        self.foc.push(i);
                    }
                }
            }
            ADD_EXISTING => {
                let i = self.foc[a];
                let (id, w) = (self.ents[i].id, self.w());
                let k = self.kind_of(b);
                let v = k.map_or(0, |k| self.fresh(k));
                let cid = self.ents[self.comp_of(b).unwrap()].id;
                let r = match (self.typed(b), k) {
                    (Some(t), _) if c == 0 => sut(|| (t.add)(w, id, v)),
                    (_, Some(k)) => {
                        let t = &kinds()[k];
                        sut(|| unsafe {
                            let mut tmp = Tmp([MaybeUninit::uninit(); TMP]);
                            (t.make_at)(tmp.0.as_mut_ptr() as *mut u8, v);
                            w.add_component_dynamic_with_data(id, cid, tmp.0.as_mut_ptr() as *mut u8);
                        })
                    }
                    (_, None) => sut(|| w.add_component_dynamic(id, cid)),
                };
                if r.is_ok() {
                    self.v("refuse", format!("adding {} to {} a second time was not refused", self.slot(b), self.name(i)));
                }
                self.maybes(&[(b, v)]);
            }
            REMOVE_ABSENT => {
                let i = self.foc[a];
                let (id, w) = (self.ents[i].id, self.w());
                let r = match self.typed(b) {
                    Some(t) if c == 0 => sut(|| (t.remove)(w, id)),
                    _ => {
                        let cid = self.ents[self.comp_of(b).unwrap()].id;
                        sut(|| w.remove_component_dynamic(id, cid))
                    }
                };
                if r.is_ok() {
                    self.v("refuse", format!("removing absent {} from {} was not refused", self.slot(b), self.name(i)));
                }
                self.maybe_learn(b);
            }
            NEEDS_DATA if c == 2 => {
                // no memory can have this size: refused, or the buffer of an earlier builder is used
                let w = self.w();
                let _ = sut(|| {
                    let _ = w.spawn_with_capacity(usize::MAX);
                });
            }
            NEEDS_DATA => {
                let cid = self.ents[self.comp_of(b).unwrap()].id;
                let w = self.w();
                let r = if c == 0 {
                    let id = self.ents[self.foc[a]].id;
                    sut(|| w.add_component_dynamic(id, cid))
                } else {
                    sut(|| {
                        let _ = w.spawn().with_dynamic(cid).build();
                    })
                };
                if r.is_ok() {
                    self.v("refuse", format!("attaching {} without data was not refused", self.slot(b)));
                }
            }
            BOMB_DESPAWN | BOMB_REMOVE | BOMB_DESPAWN_COMP => {
                let i = self.foc[a];
                let cc = self.comp_of(b).unwrap();
                let k = self.ents[cc].data as usize;
                let v = self.ents[i].val(cc).unwrap();
                l().bomb = Some((k, v));
                let (id, cid, w) = (self.ents[i].id, self.ents[cc].id, self.w());
                let r = match code {
                    BOMB_DESPAWN => sut(|| {
                        w.despawn(id);
                    }),
                    BOMB_REMOVE => match self.typed(b) {
                        Some(t) if c == 0 => sut(|| (t.remove)(w, id)),
                        _ => sut(|| w.remove_component_dynamic(id, cid)),
                    },
                    _ => sut(|| {
                        w.despawn(cid);
                    }),
                };
                let fired = l().bomb.is_none();
                l().bomb = None;
                match r {
                    Err(p) if p.msg.starts_with("BOMB") => {}
                    Err(p) => {
                        let cl = if code == BOMB_DESPAWN_COMP { "panic-compdespawn" } else { "panic-op" };
                        self.v(cl, format!("unexpected panic (destructor {}): {}", if fired { "had panicked" } else { "not reached" }, p.msg))
                    }
                    Ok(_) => {}
                }
                match code {
                    BOMB_DESPAWN => {
                        // the other values of the entity may be leaked, never destroyed twice
                        let rest: Vec<(u32, u32)> = self.ents[i].comps.clone();
                        for (c2, v2) in rest {
                            let k2 = self.ents[c2 as usize].data;
                            if k2 != UNIT && c2 as usize != cc {
                                self.maybe.push((k2, v2));
                            }
                        }
                        self.kill(i);
                    }
                    BOMB_REMOVE => {
                        self.ents[i].take(cc);
                        self.note_set(i);
                    }
                    _ => {
                        for j in 0..self.ents.len() {
                            if j != i && self.ents[j].alive {
                                if let Some(v2) = self.ents[j].val(cc) {
                                    self.maybe.push((k as u8, v2));
                                }
                            }
                        }
                        self.kill(cc);
                    }
                }
            }
            BOMB_WRITE => self.do_write(self.foc[a], b, c, true),
            BOMB_DROP => {
                let i = self.foc[a];
                let cc = self.comp_of(b).unwrap();
                let k = self.ents[cc].data as usize;
                l().bomb = Some((k, self.ents[i].val(cc).unwrap()));
                // everything may be leaked, nothing may be destroyed twice
                let all: Vec<(u8, u32)> = self
                    .ents
                    .iter()
                    .filter(|e| e.alive)
                    .flat_map(|e| e.comps.iter())
                    .map(|(c, v)| (self.ents[*c as usize].data, *v))
                    .filter(|x| x.0 != UNIT)
                    .collect();
                self.maybe.extend(all);
                let w = self.world.take();
                let _ = sut(move || drop(w));
                l().bomb = None;
                self.bounded = false;
                for e in &mut self.ents {
                    e.alive = false;
                    e.comps.clear();
                }
            }
            DROP_WORLD => {
                self.drop_world();
                self.fresh_world();
            }
            _ => panic!("unknown op {}", code),
        }
    }

    fn maybe_learn(&mut self, slot: usize) {
        // a stale or refused typed call may or may not have registered the type
        if slot < 3 {
            self.learn(self.cfg.palette[slot]);
        }
    }
    fn maybes(&mut self, vals: &[(usize, u32)]) {
        for &(s, v) in vals {
            if let Some(k) = self.kind_of(s) {
                self.maybe.push((k as u8, v));
            }
        }
    }

    fn fresh_world(&mut self) {
        self.ents.clear();
        self.ty = [None; NKINDS];
        self.foc.clear();
        self.pre.clear();
        self.crowd.clear();
        self.sets.clear();
        self.by_id.clear();
        self.freed.clear();
        self.peak = 0;
        self.nalive = 0;
        self.arch.clear();
        self.order.clear();
        self.scratch = 0;
        match sut(|| Box::new(World::default())) {
            Ok(w) => self.world = Some(w),
            Err(p) => self.v("panic-op", format!("World::new panicked: {}", p.msg)),
        }
    }

    pub fn drop_world(&mut self) {
        for e in &mut self.ents {
            e.alive = false;
            e.comps.clear();
        }
        if let Some(w) = self.world.take() {
            if let Err(p) = sut(move || drop(w)) {
                self.v("panic-drop", format!("dropping the world panicked: {}", p.msg));
            }
        }
    }

    // ---- enabled operations ----
    fn holds(&self, i: usize, slot: usize) -> bool {
        self.comp_of(slot).map_or(false, |c| self.ents[i].has(c))
    }
    fn all_slots(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.cfg.slots.iter().map(|&s| s as usize).collect();
        if self.cfg.flags & fl::SPAWN_DATA != 0 {
            for i in 0..self.pre.len() {
                if !v.contains(&(3 + i)) {
                    v.push(3 + i);
                }
            }
        }
        if self.cfg.flags & fl::TAGS != 0 {
            for h in 0..self.foc.len().min(self.cfg.max_focus) {
                v.push(FOC + h);
            }
        }
        v
    }
    fn usable(&self, s: usize) -> bool {
        s < 3 || self.comp_of(s).is_some()
    }

    pub fn enabled(&self) -> Vec<u32> {
        let f = self.cfg.flags;
        let mut out = vec![];
        if self.world.is_none() {
            return out;
        }
        let live: Vec<usize> = (0..self.foc.len().min(self.cfg.max_focus)).filter(|&h| self.ents[self.foc[h]].alive).collect();
        let dead: Vec<usize> = (0..self.foc.len().min(self.cfg.max_focus)).filter(|&h| !self.ents[self.foc[h]].alive).collect();
        let slots = self.all_slots();
        if f & fl::REG != 0 {
            for s in 0..3 {
                if self.cfg.slots.contains(&(s as u8)) && self.comp_of(s).is_none() {
                    out.push(op(REG, 0, s, 0));
                }
            }
        }
        if f & fl::OBSERVE != 0 {
            out.push(op(OBSERVE, 0, 0, 0));
        }
        if f & fl::SPAWN != 0 && self.spawned < self.cfg.max_spawn {
            for (i, li) in self.cfg.lists.iter().enumerate() {
                if li.iter().all(|&s| self.usable(s as usize)) {
                    for &var in &self.cfg.variants {
                        if var & 8 != 0 && !li.iter().any(|&s| s < 3 && self.comp_of(s as usize).is_some()) {
                            continue;
                        }
                        if var & 16 != 0 && ![&[][..], &[0], &[1], &[2], &[0, 1], &[1, 0], &[0, 1, 2], &[2, 1, 0], &[1, 2, 0]].contains(&&li[..]) {
                            continue;
                        }
                        out.push(op(SPAWN, i, var as usize, 0));
                    }
                }
            }
        }
        if self.crowd.is_empty() {
            for (i, (_, li)) in self.cfg.bulks.iter().enumerate() {
                if li.iter().all(|&s| self.usable(s as usize)) {
                    out.push(op(BULK, i, 0, 0));
                }
            }
        } else {
            for c in 0..if self.crowd.len() > 1 { 3 } else { 1 } {
                out.push(op(BULK_DESPAWN, 0, 0, c));
            }
            for &s in &slots {
                if s < FOC && self.usable(s) {
                    if self.holds(self.crowd[0], s) {
                        out.push(op(BULK_REMOVE, 0, s, 0));
                    } else {
                        out.push(op(BULK_ADD, 0, s, 0));
                    }
                }
            }
        }
        if !self.aged {
            for i in 0..self.cfg.ages.len() {
                out.push(op(AGE, i, 0, 0));
            }
        }
        if f & fl::TWICE != 0 && self.spawned < self.cfg.max_spawn {
            for (i, li) in self.cfg.lists.iter().enumerate() {
                if li.iter().all(|&s| self.usable(s as usize)) {
                    out.push(op(TWICE, i, 0, 0));
                }
            }
        }
        if f & fl::SPAWN_DATA != 0 && self.pre.len() < 13 {
            for i in 0..self.cfg.data_kinds.len() {
                if self.pre.iter().filter(|&&p| self.ents[p].data as usize == self.cfg.data_kinds[i]).count() < 2 {
                    for (j, li) in self.cfg.data_lists.iter().enumerate() {
                        if li.iter().all(|&s| self.usable(s as usize)) {
                            out.push(op(SPAWN_DATA, i, j, 0));
                        }
                    }
                }
            }
        }
        for &h in &live {
            let i = self.foc[h];
            for &s in &slots {
                if !self.usable(s) {
                    continue;
                }
                let has = self.holds(i, s);
                let vias = if f & fl::VIA != 0 && self.typed(s).is_some() && self.comp_of(s).is_some() { 2 } else { 1 };
                for via in 0..vias {
                    if !has && f & fl::ADD != 0 {
                        out.push(op(ADD, h, s, via));
                    }
                    if has && f & fl::REMOVE != 0 {
                        out.push(op(REMOVE, h, s, via));
                    }
                    if has && f & fl::REFUSED != 0 {
                        out.push(op(ADD_EXISTING, h, s, via));
                    }
                    if !has && f & fl::REFUSED != 0 {
                        out.push(op(REMOVE_ABSENT, h, s, via));
                    }
                }
                if let (true, Some(k)) = (has, self.kind_of(s)) {
                    if f & fl::WRITE != 0 {
                        for &p in &self.cfg.paths {
                            if p >= 2 || self.typed(s).is_some() {
                                out.push(op(WRITE, h, s, p as usize));
                            }
                        }
                    }
                    if f & fl::BOMB != 0 && kinds()[k].drops {
                        out.push(op(BOMB_DESPAWN, h, s, 0));
                        out.push(op(BOMB_REMOVE, h, s, 0));
                        for &p in &self.cfg.paths {
                            if p >= 2 || self.typed(s).is_some() {
                                out.push(op(BOMB_WRITE, h, s, p as usize));
                            }
                        }
                        out.push(op(BOMB_DROP, h, s, 0));
                        if f & fl::DESPAWN_COMP != 0 {
                            out.push(op(BOMB_DESPAWN_COMP, h, s, 0));
                        }
                    }
                }
                if f & fl::REFUSED != 0 && !has && self.comp_of(s).is_some() {
                    if let Some(k) = self.kind_of(s) {
                        if kinds()[k].layout.size() > 0 {
                            out.push(op(NEEDS_DATA, h, s, 0));
                        }
                    }
                }
            }
            if f & fl::DESPAWN != 0 {
                out.push(op(DESPAWN, h, 0, 0));
            }
        }
        if f & fl::REFUSED != 0 {
            out.push(op(NEEDS_DATA, 0, 0, 2));
            for &s in &slots {
                if let (Some(_), Some(k)) = (self.comp_of(s), self.kind_of(s)) {
                    if kinds()[k].layout.size() > 0 {
                        out.push(op(NEEDS_DATA, 0, s, 1));
                    }
                }
            }
        }
        if f & fl::DESPAWN_COMP != 0 {
            for &s in &slots {
                if s < FOC && self.comp_of(s).is_some() {
                    out.push(op(DESPAWN_COMP, 0, s, 0));
                }
            }
        }
        if f & fl::ABANDON != 0 {
            for (i, li) in self.cfg.lists.iter().enumerate() {
                if li.iter().all(|&s| self.usable(s as usize)) {
                    out.push(op(ABANDON, i, 0, 0));
                    if f & fl::BOMB != 0 {
                        for (p, &s) in li.iter().enumerate() {
                            if self.kind_of(s as usize).map_or(false, |k| kinds()[k].drops) {
                                out.push(op(BOMB_ABANDON, i, p, 0));
                            }
                        }
                    }
                }
            }
        }
        if f & fl::DUP != 0 {
            for (i, li) in self.cfg.dup_lists.iter().enumerate() {
                if li.iter().all(|&s| self.usable(s as usize)) {
                    out.push(op(DUP, i, 0, 0));
                }
            }
        }
        if f & fl::STALE != 0 {
            for &h in &dead {
                out.push(op(STALE_DESPAWN, h, 0, 0));
                for &s in &slots {
                    if !self.usable(s) {
                        continue;
                    }
                    let vias = if self.typed(s).is_some() && self.comp_of(s).is_some() { 2 } else { 1 };
                    for via in 0..vias {
                        out.push(op(STALE_ADD, h, s, via));
                        out.push(op(STALE_REMOVE, h, s, via));
                    }
                }
                for &g in &live {
                    out.push(op(STALE_TAG_ADD, g, h, 0));
                    out.push(op(STALE_TAG_ADD, g, h, 1));
                    out.push(op(STALE_TAG_REMOVE, g, h, 0));
                }
                for (i, li) in self.cfg.lists.iter().enumerate() {
                    if i < 3 && li.iter().all(|&s| self.usable(s as usize)) {
                        out.push(op(STALE_SPAWN, h, i, 0));
                    }
                }
            }
        }
        if f & fl::DROPW != 0 {
            out.push(op(DROP_WORLD, 0, 0, 0));
        }
        out
    }

    // ---- observation ----
    fn tok_class(t: u64) -> &'static str {
        if t & MISALIGNED != 0 {
            "mem"
        } else if t & DEAD != 0 {
            "dead-value"
        } else {
            "value"
        }
    }
    fn tok_text(t: u64) -> String {
        if t & MISALIGNED != 0 {
            format!("a misaligned reference ({:#x})", t & 0xff_ffff_ffff)
        } else if t & DEAD != 0 {
            format!("a destroyed value (token {})", t & 0xffff_ffff)
        } else if t == BAD {
            "a damaged value".into()
        } else {
            format!("token {}", t)
        }
    }

    fn expect_tok(&mut self, what: &dyn Fn() -> String, i: usize, c: usize, got: u64, want: u32, class: &str) {
        self.checks += 1;
        if got != want as u64 {
            let cl = Self::tok_class(got);
            let cl = if cl == "value" { class } else { cl };
            let t = format!("{}: {} of {} gives {}, expected token {}", what(), self.cname(c), self.name(i), Self::tok_text(got), want);
            self.v(cl, t);
        }
    }

    /// Compare the world with the model through every channel. The parts are independent: what one
    /// finds does not keep the others from looking.
    pub fn observe(&mut self) {
        if self.world.is_none() || self.bad() {
            return;
        }
        let whom: Vec<usize> = if self.ents.len() <= 300 {
            (0..self.ents.len()).collect()
        } else {
            self.foc.clone()
        };
        let loc = self.obs_liveness();
        self.part();
        self.obs_groups(&loc);
        self.part();
        let inter = self.interesting();
        self.obs_types();
        self.part();
        self.obs_lookups(&whom, &inter);
        self.part();
        self.obs_dead_components();
        self.part();
        self.static_queries(&whom);
        self.part();
        self.dynamic_queries(&inter);
        self.part();
        if self.cfg.columns {
            self.wide_queries();
            self.part();
        }
        if self.cfg.locks {
            self.obs_locks(&inter);
            self.part();
        }
        self.monitors();
        self.mark = 0;
    }
    fn part(&mut self) {
        self.mark = self.viols.len();
    }

    fn obs_liveness(&mut self) -> Vec<(usize, usize)> {
        let w = self.w();
        let n = self.ents.len();
        // liveness and location of every handle ever issued
        let mut loc: Vec<(usize, usize)> = vec![(usize::MAX, 0); n];
        for i in 0..n {
            let id = self.ents[i].id;
            let alive = self.ents[i].alive;
            let r = sut(|| (w.is_alive(id), w.get_entity_meta(id).map(|m| (m.instance_meta.archetype.0, m.instance_meta.index, m.component_meta.layout))));
            self.checks += 2;
            match r {
                Err(p) => self.v(if alive { "alive" } else { "stale" }, format!("is_alive/get_entity_meta({}) panicked: {}", self.name(i), p.msg)),
                Ok((a, m)) => {
                    if a != alive {
                        self.v("alive", format!("is_alive({}) = {}, expected {}", self.name(i), a, alive));
                    }
                    match m {
                        Some((ar, row, lay)) if alive => {
                            loc[i] = (ar, row);
                            self.obs.add((ar as u64) << 32 | row as u64);
                            let want = if self.ents[i].data == UNIT { std::alloc::Layout::new::<()>() } else { kinds()[self.ents[i].data as usize].layout };
                            if lay != want {
                                self.v("meta", format!("{} expects data of layout {:?} as a component, should be {:?}", self.name(i), lay, want));
                            }
                        }
                        None if alive => self.v("loc", format!("live {} has no location", self.name(i))),
                        Some(_) => self.v("stale", format!("dead {} has metadata", self.name(i))),
                        None => {}
                    }
                }
            }
            if !self.cfg.ignore_index_bound && id.uindex() >= self.peak + 1 {
                self.v("index", format!("{} has index {} although at most {} entities were ever alive at once", self.name(i), id.uindex(), self.peak));
            }
            if self.bad() {
                return loc;
            }
        }
        loc
    }

    fn obs_groups(&mut self, loc: &[(usize, usize)]) {
        let w = self.w();
        let n = self.ents.len();
        // groups: one column query over everything
        let mut groups: Vec<Vec<u64>> = vec![];
        let mut again: Vec<Vec<u64>> = vec![];
        let lim = self.sets.len() * 2 + 8;
        let r = sut(|| {
            col_rows(w, &[None], lim, &mut |pass, r| {
                let mut g = vec![];
                if r[0].1 <= n {
                    for k in 0..r[0].1 {
                        g.push(unsafe { *(r[0].0 as *const EcsId).add(k) }.as_u64());
                    }
                } else {
                    g.push(u64::MAX);
                }
                if pass == 0 {
                    groups.push(g)
                } else {
                    again.push(g)
                }
            })
        });
        self.checks += 3;
        match r {
            Err(p) => {
                self.v("panic-query", format!("column query of [EcsId] panicked: {}", p.msg));
                return;
            }
            Ok(f) => {
                if !f || groups != again {
                    self.v("iter-again", format!("column query of [EcsId] is not repeatable or not fused: {:?} then {:?}", groups, again));
                }
            }
        }
        let mut seen = vec![false; n];
        let mut gset: Vec<Option<usize>> = vec![None; groups.len()]; // a representative
        let mut garch: Vec<Option<usize>> = vec![None; groups.len()];
        for (g, rows) in groups.iter().enumerate() {
            for (row, id) in rows.iter().enumerate() {
                self.checks += 1;
                self.obs.add(*id);
                match self.by_id.get(id).copied() {
                    Some(i) if self.ents[i].alive => {
                        if seen[i] {
                            self.v("iter", format!("{} is stored twice", self.name(i)));
                        }
                        seen[i] = true;
                        if loc[i].1 != row {
                            self.v("loc", format!("{} reports row {} but column iteration finds it in row {}", self.name(i), loc[i].1, row));
                        }
                        match (gset[g], garch[g]) {
                            (Some(j), Some(a)) => {
                                if self.ents[j].set() != self.ents[i].set() {
                                    self.v("group", format!("{} and {} share a group but have different components", self.name(i), self.name(j)));
                                }
                                if a != loc[i].0 {
                                    self.v("loc", format!("{} reports group {} but {} in the same column reports {}", self.name(i), loc[i].0, self.name(j), a));
                                }
                            }
                            _ => {
                                gset[g] = Some(i);
                                garch[g] = Some(loc[i].0);
                            }
                        }
                    }
                    _ => self.v("iter", format!("column query of [EcsId] yields {:#x}, which is not a live entity", id)),
                }
                if self.bad() {
                    return;
                }
            }
        }
        for i in 0..n {
            if self.ents[i].alive && !seen[i] {
                self.v("iter", format!("column query of [EcsId] misses {}", self.name(i)));
                return;
            }
        }
        let mut reps: std::collections::BTreeMap<Vec<u32>, usize> = Default::default();
        let mut nums: BTreeSet<usize> = BTreeSet::new();
        for g in 0..groups.len() {
            if let Some(i) = gset[g] {
                if let Some(h) = reps.insert(self.ents[i].set(), g) {
                    self.v("group", format!("groups {} and {} hold the same component set (of {})", h, g, self.name(i)));
                }
                if !nums.insert(garch[g].unwrap()) {
                    self.v("loc", format!("two groups report the number {}", garch[g].unwrap()));
                }
            }
        }
        if groups.len() > self.sets.len() {
            self.v("group", format!("{} groups exist for {} component sets ever used", groups.len(), self.sets.len()));
        }
        for (g, rows) in groups.iter().enumerate() {
            if let Some(a) = garch[g] {
                while self.arch.len() <= a.min(100_000) {
                    self.arch.push(ArchInfo::default());
                }
                if a < self.arch.len() {
                    self.arch[a].high = self.arch[a].high.max(rows.len());
                }
            }
        }
    }

    fn interesting(&self) -> Vec<usize> {
        // interesting components: typed ones, prepared ones, and any that someone holds
        let mut inter: Vec<usize> = vec![];
        for s in 0..3 {
            if let Some(c) = self.comp_of(s) {
                inter.push(c);
            }
        }
        for s in 3..FOC {
            if s - 3 >= self.pre.len() {
                break;
            }
            if self.cfg.slots.len() > 3 && !self.cfg.slots.contains(&(s as u8)) && self.cfg.flags & fl::SPAWN_DATA == 0 {
                continue;
            }
            if let Some(c) = self.comp_of(s) {
                if !inter.contains(&c) {
                    inter.push(c);
                }
            }
        }
        for h in 0..self.foc.len().min(24) {
            let c = self.foc[h];
            if self.ents[c].alive && !inter.contains(&c) && inter.len() < 12 {
                inter.push(c);
            }
        }
        inter
    }

    fn obs_types(&mut self) {
        // type mapping
        for k in 0..NKINDS {
            if let Some(c) = self.ty[k] {
                if self.ents[c].alive && k != crate::kinds::R6 {
                    self.learn(k);
                }
            }
        }
    }

    fn obs_lookups(&mut self, whom: &[usize], inter: &[usize]) {
        let w = self.w();
        // single-entity lookups
        let blocks = alloc::blocks();
        let mut spans: Vec<(usize, usize, usize, usize)> = vec![];
        for &i in whom {
            let id = self.ents[i].id;
            let alive = self.ents[i].alive;
            let is_focus = self.foc.contains(&i);
            if !alive && !is_focus {
                continue;
            }
            for &c in inter {
                let (cid, data, ty) = (self.ents[c].id, self.ents[c].data, self.ents[c].ty);
                let want = if alive { self.ents[i].val(c) } else { None };
                // presence via raw lookup
                let r = sut(|| w.get_component_mut_dynamic(id, cid));
                self.checks += 1;
                match r {
                    Err(p) => {
                        if alive {
                            let cl = if want.is_some() { "lookup" } else { "absent" };
                            self.v(cl, format!("raw lookup of {} on {} panicked: {}", self.cname(c), self.name(i), p.msg))
                        }
                    }
                    Ok(Some(p)) => match want {
                        None => self.v(if alive { "lookup" } else { "stale" }, format!("raw lookup finds {} on {}, which does not have it", self.cname(c), self.name(i))),
                        Some(v) => {
                            if data != UNIT {
                                let t = &kinds()[data as usize];
                                let (a, sz) = (p as usize, t.layout.size());
                                if a == 0 || a % t.layout.align() != 0 {
                                    self.v("mem", format!("pointer to {} of {} is misaligned ({:#x})", self.cname(c), self.name(i), a));
                                    return;
                                }
                                if sz > 0 {
                                    let ok = match blocks.binary_search_by(|b| if b.0 > a { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }) {
                                        Err(0) => false,
                                        Err(k) => a + sz <= blocks[k - 1].0 + blocks[k - 1].1,
                                        Ok(_) => false,
                                    };
                                    if !ok {
                                        self.v("mem", format!("pointer to {} of {} ({:#x}, {} bytes) is outside every live allocation", self.cname(c), self.name(i), a, sz));
                                        return;
                                    }
                                    spans.push((a, sz, i, c));
                                }
                                let g = (t.read_at)(p);
                                self.expect_tok(&|| "raw lookup".into(), i, c, g, v, "value");
                            }
                        }
                    },
                    Ok(None) => {
                        if want.is_some() {
                            self.v("lookup", format!("raw lookup does not find {} on {}", self.cname(c), self.name(i)))
                        }
                    }
                }
                if ty && !self.bad() {
                    let t = &kinds()[data as usize];
                    let r = sut(|| ((t.has)(w, id), (t.get)(w, id), (t.get_mut)(w, id)));
                    self.checks += 3;
                    match r {
                        Err(p) => {
                            if alive {
                                self.v("panic-query", format!("lookup of {} on {} panicked: {}", self.cname(c), self.name(i), p.msg))
                            }
                        }
                        Ok((h, g1, g2)) => {
                            let cl = if alive { "lookup" } else { "stale" };
                            if h != want.is_some() {
                                self.v(cl, format!("has_component::<{}>({}) = {}, expected {}", self.cname(c), self.name(i), h, want.is_some()));
                            }
                            for g in [g1, g2] {
                                match (g, want) {
                                    (Some(g), Some(v)) => self.expect_tok(&|| "single-entity query".into(), i, c, g, v, "value"),
                                    (None, None) => {}
                                    _ => self.v(cl, format!("single-entity query of {} on {} gives {:?}, expected {:?}", self.cname(c), self.name(i), g, want)),
                                }
                            }
                        }
                    }
                }
                if self.bad() {
                    return;
                }
            }
            // types that were never registered, or whose component entity died
            for s in 0..3 {
                if self.comp_of(s).is_none() {
                    let t = &kinds()[self.cfg.palette[s]];
                    let r = sut(|| ((t.has)(w, id), (t.get)(w, id), (t.get_mut)(w, id)));
                    self.checks += 3;
                    match r {
                        Err(p) if alive => self.v("panic-query", format!("lookup of unregistered {} on {} panicked: {}", t.name, self.name(i), p.msg)),
                        Err(_) => {}
                        Ok((false, None, None)) => {}
                        Ok(x) => self.v(if alive { "lookup" } else { "stale" }, format!("lookup of unregistered {} on {} gives {:?}", t.name, self.name(i), x)),
                    }
                }
            }
        }
        if self.bad() {
            return;
        }
        // component storage is disjoint
        spans.sort_unstable();
        for p in spans.windows(2) {
            self.checks += 1;
            if p[0].0 + p[0].1 > p[1].0 {
                let t = format!("{} of {} overlaps {} of {}", self.cname(p[0].3), self.name(p[0].2), self.cname(p[1].3), self.name(p[1].2));
                self.v("mem", t);
                return;
            }
        }
    }

    fn obs_dead_components(&mut self) {
        let w = self.w();
        let n = self.ents.len();
        let lim = self.sets.len() * 2 + 8;
        // dead handles as components
        for &d in self.foc.clone().iter().filter(|&&d| !self.ents[d].alive).collect::<Vec<_>>().iter() {
            let did = self.ents[*d].id;
            for &i in &self.foc.clone() {
                if !self.ents[i].alive {
                    continue;
                }
                let id = self.ents[i].id;
                self.checks += 1;
                if let Ok(Some(_)) = sut(|| w.get_component_mut_dynamic(id, did)) {
                    self.v("stale", format!("raw lookup finds dead {} as a component of {}", self.name(*d), self.name(i)));
                }
            }
            for m in [false, true] {
                let mut rows = 0;
                let r = sut(|| dyn_rows(w, &[None, Some((did, m))], n + 4, &mut |_, _| rows += 1));
                let r2 = sut(|| col_rows(w, &[Some((did, m))], lim, &mut |_, p| rows += p[0].1));
                let _ = (r, r2);
                self.checks += 2;
                if rows > 0 {
                    self.v("stale", format!("a query for dead {} as a component yields {} rows", self.name(*d), rows));
                }
            }
        }
    }

    fn static_queries(&mut self, whom: &[usize]) {
        let w = self.w();
        let n = self.ents.len();
        let mut out = QOut { limit: n + 4, adapt: self.cfg.adapt, ..QOut::default() };
        let live: Vec<usize> = whom.iter().copied().filter(|&i| self.ents[i].alive).collect();
        let hs: Vec<EcsId> = live.iter().map(|&i| self.ents[i].id).collect();
        let cfg = self.cfg;
        let mut exp: Vec<Row> = vec![];
        for sh in &cfg.shapes {
            out.clear();
            let r = sut(|| (sh.run)(w, &hs, &mut out));
            if let Err(p) = r {
                self.v("panic-query", format!("query {} panicked: {}", qtext(cfg, sh), p.msg));
                return;
            }
            // expectation
            let comps: Vec<Option<usize>> = sh
                .cols
                .iter()
                .map(|&c| if c == ID { Some(usize::MAX) } else { self.comp_of(c as usize) })
                .collect();
            exp.clear();
            let row_of = |s: &Self, i: usize| -> Option<Row> {
                let mut r: Row = [Cell { tok: 0, addr: 0 }; 4];
                for (k, c) in comps.iter().enumerate() {
                    match *c {
                        None => return None,
                        Some(usize::MAX) => r[k].tok = s.ents[i].id.as_u64(),
                        Some(c) => r[k].tok = s.ents[i].val(c)? as u64,
                    }
                }
                Some(r)
            };
            for i in 0..n {
                if self.ents[i].alive {
                    if let Some(r) = row_of(self, i) {
                        exp.push(r);
                    }
                }
            }
            self.checks += 3 + exp.len() as u64;
            let nc = sh.cols.len();
            for (which, got) in [("", &out.first), ("second ", &out.second)] {
                let mut g: Vec<[u64; 4]> = got.iter().map(|r| [r[0].tok, r[1].tok, r[2].tok, r[3].tok]).collect();
                for r in &g {
                    for t in &r[..nc] {
                        self.obs.add(*t);
                    }
                }
                let mut e: Vec<[u64; 4]> = exp.iter().map(|r| [r[0].tok, r[1].tok, r[2].tok, r[3].tok]).collect();
                g.sort_unstable();
                e.sort_unstable();
                if g != e {
                    // classify: rows about a destroyed or misaligned value first
                    let mut cl = if which.is_empty() { "iter" } else { "iter-again" };
                    let mut why = String::new();
                    for r in &g {
                        for (k, t) in r[..nc].iter().enumerate() {
                            if sh.cols[k] != ID && (*t & (MISALIGNED | DEAD) != 0) {
                                cl = Self::tok_class(*t);
                                why = format!(" ({})", Self::tok_text(*t));
                            }
                        }
                    }
                    let show = |v: &Vec<[u64; 4]>| v.iter().take(12).map(|r| format!("{:x?}", &r[..nc])).collect::<Vec<_>>().join(" ");
                    let t = format!("{}iteration of {} yields {} rows {}{}, expected {} rows {}", which, qtext(cfg, sh), g.len(), show(&g), why, e.len(), show(&e));
                    self.v(cl, t);
                    return;
                }
            }
            if out.first != out.second {
                self.v("iter-again", format!("iterating {} twice gives different rows", qtext(cfg, sh)));
                return;
            }
            if let Some(m) = out.adapted {
                self.v("iter-again", format!("{}() of the iterator of {} disagrees with next()", m, qtext(cfg, sh)));
                return;
            }
            if !out.fused {
                self.v("iter-again", format!("iteration of {} continues after its end", qtext(cfg, sh)));
                return;
            }
            for (q, &i) in live.iter().enumerate() {
                let e = row_of(self, i);
                let g = out.got.get(q).copied().flatten();
                self.checks += 1;
                let same = match (&g, &e) {
                    (None, None) => true,
                    (Some(g), Some(e)) => (0..nc).all(|k| g[k].tok == e[k].tok),
                    _ => false,
                };
                if !same {
                    let t = format!("query {} on {} gives {:x?}, expected {:x?}", qtext(cfg, sh), self.name(i), g.map(|r| r.map(|c| c.tok)), e.map(|r| r.map(|c| c.tok)));
                    let mut cl = "lookup";
                    if let Some(g) = g {
                        for k in 0..nc {
                            if sh.cols[k] != ID && g[k].tok & (MISALIGNED | DEAD) != 0 {
                                cl = Self::tok_class(g[k].tok);
                            }
                        }
                    }
                    self.v(cl, t);
                    return;
                }
            }
        }
    }

    fn dynamic_queries(&mut self, inter: &[usize]) {
        crate::shapes::ADAPTED.store(self.cfg.adapt, std::sync::atomic::Ordering::Relaxed);
        let n = self.ents.len();
        // subsets: all singles, all pairs, and triples of the first five
        let mut subs: Vec<Vec<usize>> = vec![];
        for &a in inter {
            subs.push(vec![a]);
        }
        if !self.cfg.light {
            for (x, &a) in inter.iter().enumerate().take(6) {
                for &b in inter.iter().skip(x + 1).take(6) {
                    subs.push(if (x + b) % 2 == 0 { vec![a, b] } else { vec![b, a] });
                }
            }
            if inter.len() >= 3 {
                subs.push(vec![inter[0], inter[1], inter[2]]);
                subs.push(vec![inter[2], inter[0], inter[1]]);
            }
            if inter.len() >= 4 {
                subs.push(vec![inter[3], inter[1], inter[2]]);
            }
        }
        for (q, sub) in subs.iter().enumerate() {
            let w = self.w();
            let pos = q % (sub.len() + 1);
            let mut cols: Vec<Col> = sub.iter().enumerate().map(|(k, &c)| Some((self.ents[c].id, (q + k) % 2 == 0))).collect();
            let mut cidx: Vec<usize> = sub.clone();
            cols.insert(pos, None);
            cidx.insert(pos, usize::MAX);
            let text = |s: &Self| -> String {
                let v: Vec<String> = cidx.iter().map(|&c| if c == usize::MAX { "EcsId".into() } else { s.cname(c) }).collect();
                format!("[{}]", v.join(", "))
            };
            for colwise in [false, true] {
                let mut rows: [Vec<(u64, [u64; 4])>; 2] = [vec![], vec![]];
                let ents = &self.ents;
                let mut ragged = false;
                let read = |addr: usize, row: usize, c: usize| -> u64 {
                    let d = ents[c].data;
                    if d == UNIT {
                        return 0;
                    }
                    let t = &kinds()[d as usize];
                    (t.read_at)((addr + row * t.layout.size()) as *const u8)
                };
                let r = if !colwise {
                    sut(|| {
                        dyn_rows(w, &cols, n + 4, &mut |pass, r| {
                            let mut t = [0u64; 4];
                            for (k, &c) in cidx.iter().enumerate() {
                                t[k] = if c == usize::MAX { unsafe { *(r[k] as *const EcsId) }.as_u64() } else { read(r[k], 0, c) };
                            }
                            rows[pass].push((t[pos], t));
                        })
                    })
                } else {
                    sut(|| {
                        col_rows(w, &cols, self.sets.len() * 2 + 8, &mut |pass, r| {
                            let len = r[0].1;
                            if r.iter().any(|p| p.1 != len) || len > n + 4 {
                                ragged = true;
                                return;
                            }
                            for row in 0..len {
                                let mut t = [0u64; 4];
                                for (k, &c) in cidx.iter().enumerate() {
                                    t[k] = if c == usize::MAX {
                                        unsafe { *(r[k].0 as *const EcsId).add(row) }.as_u64()
                                    } else {
                                        read(r[k].0 as usize, row, c)
                                    };
                                }
                                rows[pass].push((t[pos], t));
                            }
                        })
                    })
                };
                let kind = if colwise { "column" } else { "dynamic" };
                let fused = match r {
                    Err(p) => {
                        self.v("panic-query", format!("{} query {} panicked: {}", kind, text(self), p.msg));
                        return;
                    }
                    Ok(f) => f,
                };
                if ragged {
                    self.v("coliter", format!("column query {} yields columns of different or absurd length", text(self)));
                    return;
                }
                for r in &rows[0] {
                    self.obs.add(r.0);
                }
                if !fused || rows[0] != rows[1] {
                    self.v("iter-again", format!("{} query {} is endless, not fused, gives different rows the second time or through the provided methods", kind, text(self)));
                    return;
                }
                let mut exp: Vec<(u64, [u64; 4])> = vec![];
                'e: for i in 0..n {
                    if !self.ents[i].alive {
                        continue;
                    }
                    let mut t = [0u64; 4];
                    for (k, &c) in cidx.iter().enumerate() {
                        if c == usize::MAX {
                            t[k] = self.ents[i].id.as_u64();
                        } else {
                            match self.ents[i].val(c) {
                                Some(v) => t[k] = v as u64,
                                None => continue 'e,
                            }
                        }
                    }
                    exp.push((t[pos], t));
                }
                self.checks += 2 + exp.len() as u64;
                rows[0].sort_unstable();
                exp.sort_unstable();
                if rows[0] != exp {
                    let mut cl = if colwise { "coliter" } else { "dyniter" };
                    for r in &rows[0] {
                        for (k, &c) in cidx.iter().enumerate() {
                            if c != usize::MAX && r.1[k] & (MISALIGNED | DEAD) != 0 {
                                cl = Self::tok_class(r.1[k]);
                            }
                        }
                    }
                    let nc = cidx.len();
                    let show = |v: &Vec<(u64, [u64; 4])>| v.iter().take(12).map(|r| format!("{:x?}", &r.1[..nc])).collect::<Vec<_>>().join(" ");
                    let t = format!("{} query {} yields {} rows {}, expected {} rows {}", kind, text(self), rows[0].len(), show(&rows[0]), exp.len(), show(&exp));
                    self.v(cl, t);
                    return;
                }
            }
        }
    }

    /// Dynamic queries of many columns: all components of some entity, and the entity id, repeated.
    fn wide_queries(&mut self) {
        let mut sets: Vec<Vec<u32>> = self.foc.iter().filter(|&&i| self.ents[i].alive).map(|&i| self.ents[i].set()).collect();
        sets.sort();
        sets.dedup();
        let n = self.ents.len();
        for set in sets {
            for (len, colwise) in [(12usize, false), (17, true), (33, false), (65, true), (65, false)] {
                // the id in places that depend on the length
                let cidx: Vec<usize> = (0..len)
                    .scan(len, |k, i| {
                        Some(if set.is_empty() || i % 7 == len % 7 {
                            usize::MAX
                        } else {
                            *k += 1;
                            set[*k % set.len()] as usize
                        })
                    })
                    .collect();
                let pos = len % 7;
                let cols: Vec<Col> = cidx.iter().map(|&c| if c == usize::MAX { None } else { Some((self.ents[c].id, false)) }).collect();
                let w = self.w();
                let ents = &self.ents;
                let read = |addr: usize, row: usize, c: usize| -> u64 {
                    let d = ents[c].data;
                    if d == UNIT {
                        return 0;
                    }
                    let t = &kinds()[d as usize];
                    (t.read_at)((addr + row * t.layout.size()) as *const u8)
                };
                let mut rows: [Vec<Vec<u64>>; 2] = [vec![], vec![]];
                let mut ragged = false;
                let r = if colwise {
                    sut(|| {
                        col_rows(w, &cols, self.sets.len() * 2 + 8, &mut |pass, r| {
                            let l = r[0].1;
                            if r.iter().any(|p| p.1 != l) || l > n + 4 {
                                ragged = true;
                                return;
                            }
                            for row in 0..l {
                                rows[pass].push(cidx.iter().enumerate().map(|(k, &c)| if c == usize::MAX { unsafe { *(r[k].0 as *const EcsId).add(row) }.as_u64() } else { read(r[k].0 as usize, row, c) }).collect());
                            }
                        })
                    })
                } else {
                    sut(|| {
                        dyn_rows(w, &cols, n + 4, &mut |pass, r| {
                            rows[pass].push(cidx.iter().enumerate().map(|(k, &c)| if c == usize::MAX { unsafe { *(r[k] as *const EcsId) }.as_u64() } else { read(r[k], 0, c) }).collect());
                        })
                    })
                };
                let text = format!("{} query of {} columns over {} components", if colwise { "column" } else { "dynamic" }, len, set.len());
                match r {
                    Err(p) => return self.v("panic-query", format!("{} panicked: {}", text, p.msg)),
                    Ok(f) if !f || rows[0] != rows[1] => return self.v("iter-again", format!("{} is endless, not fused, or gives different rows the second time", text)),
                    Ok(_) => {}
                }
                let mut exp: Vec<Vec<u64>> = vec![];
                for e in self.ents.iter().filter(|e| e.alive) {
                    let row: Vec<Option<u64>> = cidx.iter().map(|&c| if c == usize::MAX { Some(e.id.as_u64()) } else { e.val(c).map(|v| v as u64) }).collect();
                    if row.iter().all(|x| x.is_some()) {
                        exp.push(row.into_iter().map(|x| x.unwrap()).collect());
                    }
                }
                self.checks += exp.len() as u64 + 2;
                rows[0].sort_by_key(|r| r[pos]);
                exp.sort_by_key(|r| r[pos]);
                if ragged || rows[0] != exp {
                    let cl = if colwise { "coliter" } else { "dyniter" };
                    return self.v(cl, format!("{} yields {} rows, expected {} (or other contents)", text, rows[0].len(), exp.len()));
                }
            }
        }
    }

    /// Open one query on the columns, through the typed interface if so asked and possible.
    fn lq(&self, cols: &[(usize, bool)], typed: bool) -> Result<Box<dyn Open>, PanicMsg> {
        let w = self.wr();
        let f = |k: usize| {
            let (c, m) = cols[k];
            let id = self.ents[c].id;
            if m { FetchType::Mut(id) } else { FetchType::Immut(id) }
        };
        if typed && cols.len() == 1 {
            let (c, m) = cols[0];
            if self.ents[c].ty {
                let k = &kinds()[self.ents[c].data as usize];
                return sut(|| if m { (k.q_mut)(w) } else { (k.q_ref)(w) });
            }
        }
        match cols.len() {
            1 => sut(|| -> Box<dyn Open> { Box::new(SQ(w.query_dynamic([f(0)]), crate::sysq::rows!())) }),
            2 => sut(|| -> Box<dyn Open> { Box::new(SQ(w.query_dynamic([f(0), f(1)]), crate::sysq::rows!())) }),
            _ => sut(|| -> Box<dyn Open> { Box::new(SQ(w.query_dynamic([f(0), FetchType::EcsId, f(1), f(2)]), crate::sysq::rows!())) }),
        }
    }
    fn lq_rows(&self, cols: &[(usize, bool)]) -> usize {
        self.ents.iter().filter(|e| e.alive && cols.iter().all(|c| e.has(c.0))).count()
    }
    fn lq_text(&self, cols: &[(usize, bool)], typed: bool) -> String {
        let t: Vec<String> = cols.iter().map(|&(c, m)| format!("{}{}", if m { "mut " } else { "" }, self.cname(c))).collect();
        format!("{}[{}]", if typed && cols.len() == 1 && self.ents[cols[0].0].ty { "typed " } else { "dynamic " }, t.join(", "))
    }
    /// All of these are live together, in that order; then closed, and opened again.
    fn together(&mut self, qs: &[(&[(usize, bool)], bool)]) {
        for round in 0..2 {
            let mut live = vec![];
            for &(cols, typed) in qs {
                self.checks += 1;
                match self.lq(cols, typed) {
                    Ok(q) => live.push((cols, q)),
                    Err(p) => {
                        let t = qs[..live.len()].iter().map(|q| self.lq_text(q.0, q.1)).collect::<Vec<_>>();
                        let n = self.lq_text(cols, typed);
                        return self.v("refused", format!("query {} was refused ({}) with {:?} live", n, p.msg, t));
                    }
                }
                for k in 0..live.len() {
                    let want = self.lq_rows(live[k].0);
                    let q = &mut live[k].1;
                    match sut(|| q.touch()) {
                        Ok(n) if n == want => {}
                        Ok(n) => {
                            let t = self.lq_text(qs[k].0, qs[k].1);
                            return self.v("iter", format!("live query {} yields {} rows, expected {}", t, n, want));
                        }
                        Err(p) => {
                            let t = self.lq_text(qs[k].0, qs[k].1);
                            return self.v("panic-query", format!("iterating live query {} panicked: {}", t, p.msg));
                        }
                    }
                }
            }
            // the first time closed in the order of opening, then backwards
            while !live.is_empty() {
                let q = if round == 0 { live.remove(0) } else { live.pop().unwrap() };
                if let Err(p) = sut(move || drop(q)) {
                    return self.v("panic-query", format!("closing a query panicked: {}", p.msg));
                }
            }
        }
    }
    /// With these live, the last one must not be granted.
    fn conflict(&mut self, qs: &[(&[(usize, bool)], bool)], cols: &[(usize, bool)], typed: bool) {
        self.checks += 1;
        let mut live = vec![];
        for &(cols, typed) in qs {
            match self.lq(cols, typed) {
                Ok(q) => live.push(q),
                Err(_) => return,
            }
        }
        let r = crate::sys::attempt(|| match self.lq(cols, typed) {
            Ok(_q) => crate::sys::exit_now(3),
            Err(_) => 0,
        });
        let t = qs.iter().map(|q| self.lq_text(q.0, q.1)).collect::<Vec<_>>();
        let n = self.lq_text(cols, typed);
        match r {
            crate::sys::Attempt::Returned(3) => self.v("granted", format!("query {} was granted although {:?} is live (or it conflicts with itself)", n, t)),
            crate::sys::Attempt::Signal(s) => self.v("crash", format!("opening query {} with {:?} live ended with signal {}", n, t, s)),
            _ => {}
        }
        let _ = sut(move || drop(live));
    }
    fn obs_locks(&mut self, inter: &[usize]) {
        let cs: Vec<usize> = inter.iter().copied().filter(|&c| self.ents.iter().any(|e| e.alive && e.has(c))).take(5).collect();
        let n = cs.len();
        for i in 0..n {
            let c = cs[i];
            let (r, w) = (&[(c, false)][..], &[(c, true)][..]);
            self.together(&[(r, true), (r, false), (r, true)]);
            self.together(&[(w, true)]);
            self.together(&[(w, false)]);
            for (a, b) in [(true, false), (false, true)] {
                self.conflict(&[(w, a)], w, b);
                self.conflict(&[(w, a)], r, b);
                self.conflict(&[(r, a)], w, b);
            }
            self.conflict(&[], &[(c, true), (c, true)], false);
            self.conflict(&[], &[(c, true), (c, false)], false);
            self.conflict(&[], &[(c, false), (c, true)], false);
            for j in 0..n {
                if i == j || self.bad() {
                    continue;
                }
                let d = cs[j];
                let (rd, wd) = (&[(d, false)][..], &[(d, true)][..]);
                self.together(&[(w, i % 2 == 0), (wd, j % 2 == 0)]);
                self.together(&[(w, false), (rd, true), (rd, false)]);
                let both = &[(c, false), (d, true)][..];
                self.together(&[(both, false), (r, true), (r, false)]);
                if j == (i + 1) % n {
                    self.conflict(&[(both, false)], wd, true);
                    self.conflict(&[(both, false)], rd, true);
                    self.conflict(&[(both, false)], w, true);
                    self.conflict(&[(r, true)], &[(d, true), (c, true)], false);
                    self.conflict(&[(both, false), (r, true)], rd, false);
                }
            }
            if self.bad() {
                return;
            }
        }
        // every component at once, each through a query of its own
        let all: Vec<[(usize, bool); 1]> = cs.iter().map(|&c| [(c, true)]).collect();
        let qs: Vec<(&[(usize, bool)], bool)> = all.iter().enumerate().map(|(i, c)| (&c[..], i % 2 == 1)).collect();
        self.together(&qs);
    }

    fn alloc_errors(&mut self) {
        alloc::check_live();
        let s = alloc::st();
        if s.nerr > 0 {
            let e = s.errs[0].unwrap();
            let t = format!("allocator: {:?} ({} bytes)", e.0, e.2);
            s.nerr = 0;
            self.v("mem", t);
        }
    }

    fn monitors(&mut self) {
        self.alloc_errors();
        ledger_errors(&mut self.viols);
    }

    /// A few questions, which are part of a cycle too.
    fn ask(&mut self) {
        let inter = self.interesting();
        let w = self.wr();
        let ids: Vec<EcsId> = self.foc.iter().map(|&i| self.ents[i].id).collect();
        let mut qs = vec![];
        for (n, &c) in inter.iter().take(4).enumerate() {
            for m in [false, true] {
                qs.push((vec![(c, m)], false));
                qs.push((vec![(c, m)], true));
            }
            if n > 0 {
                qs.push((vec![(c, false), (inter[n - 1], true)], false));
            }
            if self.ents[c].ty {
                let k = &kinds()[self.ents[c].data as usize];
                for &e in &ids {
                    let _ = sut(|| ((k.has)(w, e), (k.get)(w, e), (k.get_mut)(w, e)));
                }
            }
            for &e in &ids {
                let id = self.ents[c].id;
                let w = self.w();
                let _ = sut(|| w.get_component_mut_dynamic(e, id));
            }
        }
        for (cols, typed) in qs {
            if let Ok(mut q) = self.lq(&cols, typed) {
                let _ = sut(|| q.touch());
                let _ = sut(move || drop(q));
            }
        }
    }

    /// Repeat a cycle: the history, then everything it spawned is despawned again.
    fn churn(&mut self, ops: &[u32], reps: usize) {
        let mut early = (0, 0);
        let marks = self.sets.len() + self.ty.iter().flatten().count();
        // growth seen at the end has to go on for as many repetitions again, twice and four times
        let mut more = 0;
        let mut limit = reps;
        for rep in 0..reps * 8 {
            for h in 0..self.foc.len() {
                if self.ents[self.foc[h]].alive {
                    self.do_despawn(self.foc[h]);
                }
            }
            for i in std::mem::take(&mut self.crowd) {
                if self.ents[i].alive {
                    self.do_despawn(i);
                }
            }
            self.foc.clear();
            self.spawned = 0;
            let now = (alloc::st().live_bytes, alloc::st().live_count);
            if rep == reps / 4 {
                early = now;
            }
            if rep + 1 == limit {
                self.checks += 2;
                let after = self.sets.len() + self.ty.iter().flatten().count();
                let grown = after == marks && (now.0 > early.0 || now.1 > early.1);
                if grown && more < 3 {
                    more += 1;
                    limit *= 2;
                    early = now;
                } else if grown {
                    self.v("growth", format!("after {} repetitions of the cycle the world holds {} bytes in {} blocks, after {} repetitions {} bytes in {} blocks", limit / 2, early.0, early.1, limit, now.0, now.1));
                }
            }
            if self.bad() || rep + 1 == limit {
                break;
            }
            for &o in ops {
                self.step(o);
                if self.bad() {
                    return;
                }
            }
            self.ask();
        }
        if !self.bad() {
            self.observe();
        }
    }

    /// The history over and over, on a world whose other entities stay as they are: whatever an
    /// implementation does every so many operations has to happen without anybody noticing.
    fn again_and_again(&mut self, ops: &[u32], reps: usize) {
        for rep in 1..=reps {
            if self.world.is_none() {
                return;
            }
            for h in 0..self.foc.len() {
                if self.ents[self.foc[h]].alive {
                    self.do_despawn(self.foc[h]);
                }
            }
            for i in std::mem::take(&mut self.crowd) {
                if self.ents[i].alive {
                    self.do_despawn(i);
                }
            }
            self.foc.clear();
            self.spawned = 0;
            for &o in ops {
                self.step(o);
                if self.bad() {
                    return;
                }
            }
            // 256 and 65536 repetitions without a look at anything among them
            if rep <= 70 || rep == 70 + 256 || rep % 128 < 2 && rep > 500 && rep <= 1100 || rep == 2000 || rep == 2000 + 65_536 || rep == reps {
                self.observe();
            }
            if self.bad() {
                return;
            }
        }
    }

    pub fn key(&self, h: &mut H) {
        h.add(self.ents.len() as u64);
        for (i, e) in self.ents.iter().enumerate() {
            h.add(e.id.as_u64());
            h.add(e.alive as u64 | (e.data as u64) << 1 | (e.ty as u64) << 10);
            if e.alive {
                for (c, _) in &e.comps {
                    h.add(*c as u64 + 7);
                }
                let l = self.arch_of(i).unwrap_or((usize::MAX, 0));
                h.add(l.0 as u64);
                h.add(l.1 as u64);
            }
        }
        h.add(0xF0C);
        for f in &self.foc {
            h.add(*f as u64);
        }
        for f in &self.pre {
            h.add(*f as u64 | 1 << 40);
        }
        for f in &self.crowd {
            h.add(*f as u64 | 1 << 43);
        }
        h.add(0xF1C);
        for f in &self.freed {
            h.add(*f as u64);
        }
        h.add(0xF2C);
        for a in &self.arch {
            h.add(if a.high == 0 { 0 } else { a.high.max(4).next_power_of_two() as u64 });
            for r in &a.recent {
                h.add(*r as u64 | 1 << 41);
            }
            for r in &a.edges {
                h.add(*r as u64 | 1 << 42);
            }
        }
        for s in &self.order {
            h.add(0xABC);
            for c in s {
                h.add(*c as u64);
            }
        }
        for k in 0..NKINDS {
            h.add(self.ty[k].map_or(u64::MAX, |c| c as u64));
        }
        h.add(self.scratch as u64);
        h.add(self.spawned as u64);
        h.add(self.peak as u64);
        h.add(self.world.is_some() as u64);
    }
}

#[allow(non_snake_case)]
fn EcsId_dummy() -> EcsId {
    // any handle: never used
    unsafe { std::mem::zeroed() }
}

trait IntoParts {
    fn into_parts(self) -> (Built, Vec<(usize, u32)>);
}
impl IntoParts for (Built, Vec<(usize, u32)>, Option<EcsId>, Vec<EcsId>) {
    fn into_parts(self) -> (Built, Vec<(usize, u32)>) {
        (self.0, self.1)
    }
}

fn qtext(cfg: &WCfg, sh: &Shape) -> String {
    let mut s = sh.text.to_string();
    for (i, n) in ["A", "B", "C"].iter().enumerate() {
        s = s.replace(&format!("&{}", n), &format!("&{}", kname(cfg.palette[i])));
        s = s.replace(&format!("mut {}", n), &format!("mut {}", kname(cfg.palette[i])));
    }
    s
}

pub fn ledger_errors(viols: &mut Vec<V>) {
    let g = l();
    if g.errs > 0 {
        let (_, k, v) = g.err[0];
        viols.push(V {
            class: "ledger".into(),
            text: format!("a {} value (token {}) was destroyed twice, or a value that never existed was destroyed", kname(k as usize), v as i64),
        });
        g.errs = 0;
    }
}

/// Every live value is accounted for by some model (or may have been leaked by a refused call).
pub fn balance(ws: &[Wx], extra: &[(u8, u32)], viols: &mut Vec<V>, at_end: bool) {
    let g = l();
    let first = viols.len() + 1;
    let mut want = [0i64; NKINDS];
    for w in ws {
        for e in w.ents.iter().filter(|e| e.alive) {
            for (c, v) in &e.comps {
                let k = w.ents[*c as usize].data;
                if k == UNIT || !kinds()[k as usize].drops {
                    continue;
                }
                want[k as usize] += 1;
                if kinds()[k as usize].max > 0 && !g.is_live(k as usize, *v) && viols.len() < first {
                    viols.push(V { class: "dead-value".into(), text: format!("a {} value (token {}) that is still reachable has been destroyed", kname(k as usize), v) });
                }
            }
        }
    }
    let mut slack = [0i64; NKINDS];
    for (k, v) in ws.iter().flat_map(|w| w.maybe.iter()).chain(extra.iter()) {
        let k = *k as usize;
        if !kinds()[k].drops {
            continue;
        }
        if kinds()[k].max == 0 {
            slack[k] += 1;
        } else if g.is_live(k, *v) {
            want[k] += 1;
        }
    }
    for k in 0..NKINDS {
        if g.count[k] < want[k] && viols.len() < first {
            viols.push(V { class: "dead-value".into(), text: format!("{} {} values exist, {} are still reachable", g.count[k], kname(k), want[k]) });
        }
        if g.count[k] > want[k] + slack[k] && viols.len() < first {
            viols.push(V {
                class: if at_end { "leak".into() } else { "early".into() },
                text: format!(
                    "{} {} values have not been destroyed {}, expected {}",
                    g.count[k],
                    kname(k),
                    if at_end { "although their world is gone" } else { "" },
                    want[k]
                ),
            });
        }
    }
}

fn slot_name(cfg: &WCfg, s: usize) -> String {
    if s < 3 {
        kname(cfg.palette[s]).to_string()
    } else if s < FOC {
        format!("component {}", s - 3)
    } else {
        format!("e{}", s - FOC)
    }
}

pub struct SysW(pub WCfg);

impl SysW {
    fn execute(&self, ops: &[u32], before: bool) -> Node {
        let cfg = &self.0;
        l().reset();
        alloc::reset();
        let mut node = Node::default();
        let alone = ops.first() == Some(&ALONE);
        let ops = if alone { &ops[1..] } else { ops };
        if cfg.before != 0 && before && !alone {
            // something else ran in this process before
            let mut b = Wx::new(cfg);
            prelude(&mut b, cfg.before);
            b.drop_world();
            l().reset();
            alloc::reset();
        }
        let bystanders = || -> Vec<Bystander> { (0..cfg.others).map(|i| Bystander::new(cfg, i)).collect() };
        let mut others: Vec<Bystander> = if alone || cfg.between { vec![] } else { bystanders() };
        let mut ws: Vec<Wx> = vec![];
        for wi in 0..cfg.worlds {
            if wi == 1 && cfg.between && !alone {
                others = bystanders();
            }
            if !alone && (wi == 1 || cfg.before != 0) {
                for _ in 0..cfg.gone {
                    let _ = sut(|| drop(World::new()));
                }
            }
            on(cfg, wi, &mut || {
                let mut w = Wx::new(cfg);
                if let Some(b) = &cfg.base {
                    b(&mut w);
                }
                w.spawned = 0;
                ws.push(w);
            });
        }
        let mut i = 0;
        while i < ops.len() {
            let o = ops[i];
            i += 1;
            let (_, _, _, _, wi) = dec(o);
            if ws.iter().any(|w| w.bad()) {
                break;
            }
            if cfg.obs_each || cfg.obs_first && i == 1 {
                for w in &mut ws {
                    w.observe();
                }
                if ws.iter().any(|w| w.bad()) {
                    break;
                }
            }
            let next = ops.get(i).copied().filter(|&n| cfg.middle > 0 && dec(n).4 != wi && (wi == 0 || !cfg.threads));
            if let Some(n) = next {
                i += 1;
                middle(cfg, &mut ws, o, n);
                continue;
            }
            let live = if cfg.held { hold(&mut ws, wi) } else { vec![] };
            on(cfg, wi, &mut || ws[wi].step(o));
            if cfg.held {
                ws[wi].observe();
                drop(live);
            }
        }
        // an operation that failed leaves the model behind; a failed observation does not
        let mut sound = !ws.iter().any(|w| w.bad());
        for wi in 0..ws.len() {
            on(cfg, wi, &mut || ws[wi].observe());
        }
        for w in &mut ws {
            node.viols.append(&mut w.viols);
        }
        if sound {
            balance(&ws, &[], &mut node.viols, false);
        }
        for o in &mut others {
            node.checks += 1;
            if let Some(t) = o.check() {
                node.viols.push(V { class: "bystander".into(), text: t });
                sound = false;
                break;
            }
        }
        let mut h = H(0);
        if node.viols.is_empty() {
            for (i, w) in ws.iter().enumerate() {
                on(cfg, i, &mut || {
                    w.key(&mut h);
                    for o in w.enabled() {
                        node.enabled.push(o | (i as u32) << 30);
                    }
                });
            }
        }
        node.key = h.0;
        if cfg.cycle > 0 && node.viols.is_empty() && !ops.is_empty() {
            ws[0].churn(ops, cfg.cycle);
            sound = !ws[0].bad();
            node.viols.append(&mut ws[0].viols);
        }
        if cfg.repeat > 0 && node.viols.is_empty() && !ops.is_empty() {
            ws[0].again_and_again(ops, cfg.repeat);
            sound = !ws[0].bad();
            node.viols.append(&mut ws[0].viols);
        }
        if sound {
            let before_drop = node.viols.len();
            let mut bounded = true;
            let mut extra = vec![];
            let late = others.split_off(others.len() / 2);
            drop_bystanders(others, &mut node.viols);
            for (wi, w) in ws.iter_mut().enumerate() {
                on(cfg, wi, &mut || w.drop_world());
                node.viols.append(&mut w.viols);
                bounded &= w.bounded;
                extra.append(&mut w.maybe);
            }
            drop_bystanders(late, &mut node.viols);
            ledger_errors(&mut node.viols);
            balance(&[], &extra, &mut node.viols, true);
            alloc::check_live();
            alloc::flush();
            let s = alloc::st();
            if s.nerr > 0 {
                let e = s.errs[0].unwrap();
                node.viols.push(V { class: "mem".into(), text: format!("allocator: {:?} ({} bytes)", e.0, e.2) });
            }
            if bounded && (s.live_bytes != 0 || s.live_count != 0) && node.viols.len() == before_drop {
                node.viols.push(V { class: "memleak".into(), text: format!("{} bytes in {} allocations are still held after the world was dropped", s.live_bytes, s.live_count) });
            }
        } else {
            std::mem::forget(others);
            for w in &mut ws {
                std::mem::forget(w.world.take());
            }
        }
        let mut o = H(2);
        o.add(l().order);
        for w in &ws {
            o.add(w.obs.0);
            node.checks += w.checks;
        }
        node.obs = o.0;
        alloc::reset();
        node
    }
}

/// Do something with world `wi`, on its thread.
fn on(cfg: &WCfg, wi: usize, f: &mut dyn FnMut()) {
    if cfg.threads && wi == 1 {
        second::start(f);
        second::finish();
    } else {
        f()
    }
}

/// `n`, on another world, happens in the middle of `o` (or after it, if `o` has no such point).
fn middle(cfg: &WCfg, ws: &mut [Wx], o: u32, n: u32) {
    let (wi, wj) = (dec(o).4, dec(n).4);
    let p = ws.as_mut_ptr();
    let mut job = || unsafe { (*p.add(wj)).step(n) };
    let mut go = || if cfg.threads { second::start(&mut job) } else { job() };
    unsafe {
        let f: *mut (dyn FnMut() + '_) = &mut go;
        let f: *mut dyn FnMut() = std::mem::transmute(f);
        MIDDLE = Some(Middle { countdown: cfg.middle, alloc: cfg.threads, f });
        (*p.add(wi)).step(o);
        let m = &mut *std::ptr::addr_of_mut!(MIDDLE);
        if let Some(m) = m.take() {
            (*m.f)();
        }
    }
    if cfg.threads {
        second::finish();
    }
}

/// One of many other worlds that live while a history happens.
struct Bystander {
    world: Option<Box<World>>,
    e: Option<EcsId>,
    n: usize,
}
#[derive(PartialEq)]
struct Private(u64);

impl Bystander {
    fn new(cfg: &WCfg, i: usize) -> Bystander {
        let r = sut(|| {
            let mut w = Box::new(World::new());
            for k in 0..i % 4 {
                (kinds()[cfg.palette[k % 3]].reg)(&mut w);
            }
            let e = w.spawn().with(Private(i as u64)).build();
            (w, e)
        });
        match r {
            Ok((w, e)) => Bystander { world: Some(w), e: Some(e), n: i },
            Err(_) => Bystander { world: None, e: None, n: i },
        }
    }
    fn check(&mut self) -> Option<String> {
        let n = self.n;
        let (Some(w), Some(e)) = (self.world.as_mut(), self.e) else {
            return Some(format!("setting up world {} of many panicked", n));
        };
        let r = sut(|| {
            w.is_alive(e)
                && w.has_component::<Private>(e)
                && w.query::<(&'static Private,)>().iter().map(|(p,)| p.0).sum::<u64>() == n as u64
                && w.query::<(&'static mut Private,)>().get(e).map_or(false, |(p,)| *p == Private(n as u64))
        });
        match r {
            Ok(true) => None,
            Ok(false) => Some(format!("the only entity of world {} of many has changed", n)),
            Err(p) => Some(format!("looking at world {} of many panicked: {}", n, p.msg)),
        }
    }
}

fn drop_bystanders(mut b: Vec<Bystander>, viols: &mut Vec<V>) {
    for x in &mut b {
        let w = x.world.take();
        if let Err(p) = sut(move || drop(w)) {
            viols.push(V { class: "panic-drop".into(), text: format!("dropping one of many worlds panicked: {}", p.msg) });
            return;
        }
    }
}

/// In every world except for one, open queries that write each component someone has.
fn hold(ws: &mut [Wx], except: usize) -> Vec<Box<dyn Open>> {
    let mut live = vec![];
    for (i, w) in ws.iter_mut().enumerate() {
        if i == except || w.bad() || w.world.is_none() {
            continue;
        }
        let cs: Vec<usize> = w.interesting().into_iter().filter(|&c| w.ents[c].alive && w.ents.iter().any(|e| e.alive && e.has(c))).collect();
        for (n, c) in cs.into_iter().enumerate() {
            let n = n + w.ents.len();
            w.checks += 1;
            match w.lq(&[(c, true)], n % 2 == 0) {
                Ok(q) => live.push(q),
                Err(p) => {
                    let t = w.lq_text(&[(c, true)], n % 2 == 0);
                    w.v("refused", format!("query {} was refused ({}) with {} queries of other components or other worlds live", t, p.msg, live.len()));
                    return live;
                }
            }
        }
    }
    live
}

/// Histories that run first in the same process (for the determinism and independence checks).
fn prelude(b: &mut Wx, n: u32) {
    let i = b.do_spawn(&[2], 0, None);
    let j = b.do_spawn(&[1, 2], 0, None);
    if n > 1 {
        if let (Some(i), Some(j)) = (i, j) {
            b.do_add(i, 0, false);
            b.do_despawn(j);
            b.do_spawn(&[0, 2, 1], 5, None);
        }
    }
    if n > 2 {
        for k in 0..40 {
            let e = b.do_spawn(&[(k % 3) as u8], 0, None);
            if k % 2 == 0 {
                if let Some(e) = e {
                    b.do_despawn(e);
                }
            }
        }
    }
    b.viols.clear();
}

impl Sys for SysW {
    fn name(&self) -> String {
        self.0.name.clone()
    }
    fn run(&self, ops: &[u32]) -> Node {
        let mut n = self.execute(ops, !self.0.twice);
        // memory that a global or thread-local keeps once is not a leak: it does not recur
        if n.viols.iter().any(|v| v.class == "memleak") {
            for _ in 0..2 {
                if !self.execute(ops, !self.0.twice).viols.iter().any(|v| v.class == "memleak") {
                    n.viols.retain(|v| v.class != "memleak");
                    break;
                }
            }
        }
        if self.0.twice && n.viols.is_empty() {
            for round in 1..3usize {
                alloc::st().perturb = round * 16 + 16;
                let junk: Vec<Vec<u8>> = (0..round * 7).map(|k| vec![1u8; 100 + 77 * k]).collect();
                let m = self.execute(ops, true);
                alloc::st().perturb = 0;
                drop(junk);
                n.checks += m.checks;
                if m.obs != n.obs || m.key != n.key || !m.viols.is_empty() {
                    n.viols.push(V { class: "nondet".into(), text: format!("the same history gave different handles, locations, or orders of iteration or destruction when run again ({:#x} vs {:#x}) {:?}", n.obs, m.obs, m.viols) });
                    n.enabled.clear();
                    break;
                }
            }
        }
        n
    }
    fn show(&self, ops: &[u32]) -> Vec<String> {
        let cfg = &self.0;
        let s = |x: usize| slot_name(cfg, x);
        let li = |l: &Vec<Vec<u8>>, i: usize| -> String {
            l.get(i).map_or("?".into(), |v| format!("[{}]", v.iter().map(|&x| s(x as usize)).collect::<Vec<_>>().join(", ")))
        };
        ops.iter()
            .filter(|&&o| o != ALONE)
            .map(|&o| {
                let (code, a, b, c, w) = dec(o);
                let pre = if cfg.worlds > 1 { format!("world {}: ", w) } else { String::new() };
                let via = if c == 1 { " (by handle)" } else { "" };
                let t = match code {
                    SPAWN => format!(
                        "spawn {}{}",
                        li(&cfg.lists, a),
                        if b == 0 { String::new() } else { format!(" capacity {:?}{}", if CAPS[b & 7] == usize::MAX { None } else { Some(CAPS[b & 7]) }, if b & 8 != 0 { " (by handle)" } else { "" }) }
                    ),
                    SPAWN_DATA => format!("spawn a component entity carrying {}, itself with {}", kname(cfg.data_kinds[a]), li(&cfg.data_lists, b)),
                    ADD => format!("add {} to e{}{}", s(b), a, via),
                    REMOVE => format!("remove {} from e{}{}", s(b), a, via),
                    DESPAWN => format!("despawn e{}", a),
                    DESPAWN_COMP => format!("despawn the component entity of {}", s(b)),
                    REG => format!("register {}", s(b)),
                    WRITE => format!("write {} of e{} via path {}", s(b), a, c),
                    ABANDON => format!("start building {} and drop the builder", li(&cfg.lists, a)),
                    TWICE => format!("build {} twice from one builder", li(&cfg.lists, a)),
                    DUP => format!("try to build {} (duplicate)", li(&cfg.dup_lists, a)),
                    STALE_ADD => format!("add {} to dead e{}{}", s(b), a, via),
                    STALE_REMOVE => format!("remove {} from dead e{}{}", s(b), a, via),
                    STALE_DESPAWN => format!("despawn dead e{}", a),
                    STALE_TAG_ADD => format!("add dead e{} as a component to e{}{}", b, a, via),
                    STALE_TAG_REMOVE => format!("remove dead e{} as a component from e{}", b, a),
                    STALE_SPAWN => format!("spawn {} with dead e{} as a component", li(&cfg.lists, b), a),
                    ADD_EXISTING => format!("add {} to e{} again{}", s(b), a, via),
                    REMOVE_ABSENT => format!("remove absent {} from e{}{}", s(b), a, via),
                    NEEDS_DATA if c == 2 => "start building with an impossible capacity".into(),
                    NEEDS_DATA => format!("attach {} without data to {}", s(b), if c == 0 { format!("e{}", a) } else { "a new entity".into() }),
                    BOMB_DESPAWN => format!("despawn e{}; destructor of {} panics", a, s(b)),
                    BOMB_REMOVE => format!("remove {} from e{}; its destructor panics", s(b), a),
                    BOMB_WRITE => format!("overwrite {} of e{} via path {}; destructor panics", s(b), a, c),
                    BOMB_ABANDON => format!("drop a builder of {}; destructor {} panics", li(&cfg.lists, a), b),
                    BOMB_DROP => format!("drop the world; destructor of {} of e{} panics", s(b), a),
                    BOMB_DESPAWN_COMP => format!("despawn the component entity of {}; destructor of e{}'s value panics", s(b), a),
                    DROP_WORLD => "drop the world and create a new one".into(),
                    OBSERVE => "observe everything".into(),
                    BULK => format!("spawn a crowd of {}: {}", cfg.bulks[a].0, li(&cfg.bulks.iter().map(|x| x.1.clone()).collect(), a)),
                    AGE => match cfg.ages[a] {
                        (0, n) => format!("{} times: spawn an entity, despawn it", n),
                        (1, n) => format!("{} times: spawn {}, despawn it", n, li(&vec![vec![0]], 0)),
                        (4, n) => format!("spawn and despawn an entity with each of {} new sets of two tags", n),
                        (3, n) => format!("{} times: spawn an entity, despawn it; then spawn one more", n),
                        (_, n) => format!("spawn {}, {} times add and remove {}, despawn it", li(&vec![vec![0]], 0), n, s(1)),
                    },
                    BULK_DESPAWN => format!("despawn the crowd{}", ["", ", backwards", ", every other one"][c]),
                    BULK_ADD => format!("add {} to the crowd", s(b)),
                    BULK_REMOVE => format!("remove {} from the crowd", s(b)),
                    _ => format!("op {:#x}", o),
                };
                pre + &t
            })
            .collect()
    }
    fn direct(&self, v: &V) -> bool {
        self.0.direct.contains(&v.class.as_str())
    }
    fn strips(&self, ops: &[u32]) -> Vec<Vec<u32>> {
        let mut out = vec![];
        if (self.0.before != 0 || self.0.others != 0) && !self.0.twice && ops.first() != Some(&ALONE) {
            let mut h = vec![ALONE];
            h.extend(ops);
            out.push(h);
        }
        if self.0.strip_worlds {
            for k in 0..self.0.worlds as u32 {
                out.push(ops.iter().copied().filter(|o| o >> 30 == k).collect());
            }
        }
        if self.0.strip_ops {
            out.push(
                ops.iter()
                    .filter_map(|&o| {
                        let (code, a, b, c, w) = dec(o);
                        let m = |x: u32| Some(x | (w as u32) << 30);
                        match code {
                            ABANDON | DUP | STALE_ADD..=STALE_SPAWN | ADD_EXISTING..=NEEDS_DATA | BOMB_ABANDON | BOMB_DROP => None,
                            TWICE => m(op(SPAWN, a, 0, 0)),
                            BOMB_DESPAWN => m(op(DESPAWN, a, 0, 0)),
                            BOMB_REMOVE => m(op(REMOVE, a, b, c)),
                            BOMB_WRITE => m(op(WRITE, a, b, c)),
                            BOMB_DESPAWN_COMP => m(op(DESPAWN_COMP, 0, b, 0)),
                            _ => Some(o),
                        }
                    })
                    .collect(),
            );
        }
        out
    }
}
