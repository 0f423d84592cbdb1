//! Handles: long histories of spawning and despawning, on `Entities` and on `World`, with counts
//! chosen around the sizes at which indices or generations could be cut off.
use crate::alloc;
use crate::engine::{Node, Sys, V};
use crate::ledger::l;
use crate::suites::Plan;
use crate::sys::sut;
use crate::sysw::H;
use arche_tape::entities::Entities;
use arche_tape::{EcsId, World};
use std::collections::HashSet;

const SPAWN: u32 = 1;
const DESPAWN: u32 = 2; // b: position among the remembered handles
const DEAD: u32 = 3; // despawn a dead one
const BURST: u32 = 4; // b: which count: that many are spawned
const CYCLE: u32 = 5; // a: handle, b: which count: despawn and respawn that often
const CULL: u32 = 6; // despawn most of the crowd; b: 0 oldest first, 1 youngest first, 2 every other one
const REFILL: u32 = 7; // spawn as many as were culled

enum Sut {
    E(Entities),
    W(Box<World>),
}

impl Sut {
    fn spawn(&mut self) -> EcsId {
        match self {
            Sut::E(e) => e.spawn(),
            Sut::W(w) => w.spawn().build(),
        }
    }
    fn despawn(&mut self, id: EcsId) -> bool {
        match self {
            Sut::E(e) => e.despawn(id),
            Sut::W(w) => w.despawn(id),
        }
    }
    fn alive(&self, id: EcsId) -> bool {
        match self {
            Sut::E(e) => e.is_alive(id),
            Sut::W(w) => w.is_alive(id),
        }
    }
}

pub struct SysE {
    world: bool,
    bursts: Vec<usize>,
    cycles: Vec<usize>,
    max: usize,
}

struct Ex {
    s: Sut,
    /// every handle ever issued, in order, and whether it lives
    all: Vec<(EcsId, bool)>,
    /// positions in `all` that operations address
    foc: Vec<usize>,
    crowd: Vec<usize>,
    culled: usize,
    viols: Vec<V>,
    checks: u64,
    key: H,
}

fn hash(id: EcsId) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    id.hash(&mut h);
    h.finish()
}

impl Ex {
    fn v(&mut self, class: &str, text: String) {
        if self.viols.len() < 4 {
            self.viols.push(V { class: class.into(), text });
        }
    }
    fn spawn(&mut self) -> Option<usize> {
        match sut(|| self.s.spawn()) {
            Ok(id) => {
                self.all.push((id, true));
                if !self.s.alive(id) {
                    self.v("alive", format!("{:#x} is not alive after being spawned", id.as_u64()));
                }
                Some(self.all.len() - 1)
            }
            Err(p) => {
                self.v("panic-op", format!("spawning panicked: {}", p.msg));
                None
            }
        }
    }
    fn despawn(&mut self, i: usize) {
        let (id, alive) = self.all[i];
        match sut(|| self.s.despawn(id)) {
            Ok(b) if b == alive => {}
            Ok(b) => self.v("despawn-ret", format!("despawning {:#x} (alive: {}) returned {}", id.as_u64(), alive, b)),
            Err(p) => self.v("despawn-dead", format!("despawning {:#x} (alive: {}) panicked: {}", id.as_u64(), alive, p.msg)),
        }
        self.all[i].1 = false;
        if self.s.alive(id) {
            self.v("alive", format!("{:#x} is alive after being despawned", id.as_u64()));
        }
    }
    fn check(&mut self) {
        if !self.viols.is_empty() {
            return;
        }
        let n = self.all.len();
        self.checks += 2 * n as u64;
        for i in 0..n {
            let (id, alive) = self.all[i];
            match sut(|| self.s.alive(id)) {
                Ok(a) if a == alive => {}
                Ok(a) => {
                    self.v("alive", format!("is_alive({:#x}) = {}, expected {}", id.as_u64(), a, alive));
                    return;
                }
                Err(p) => {
                    self.v("alive", format!("is_alive({:#x}) panicked: {}", id.as_u64(), p.msg));
                    return;
                }
            }
        }
        let mut u: Vec<u64> = self.all.iter().map(|x| x.0.as_u64()).collect();
        u.sort_unstable();
        if let Some(w) = u.windows(2).find(|w| w[0] == w[1]) {
            let t = format!("the handle {:#x} was handed out twice", w[0]);
            self.v("unique", t);
            return;
        }
        if n < 100_000 {
            let set: HashSet<EcsId> = self.all.iter().map(|x| x.0).collect();
            let ord: std::collections::BTreeSet<EcsId> = self.all.iter().map(|x| x.0).collect();
            if set.len() != n || ord.len() != n || self.all.iter().any(|x| !set.contains(&x.0) || !ord.contains(&x.0)) {
                self.v("unique", format!("{} handles collapse to {} by equality and hash, {} by order", n, set.len(), ord.len()));
                return;
            }
        }
        let m: Vec<EcsId> = if n <= 60 { self.all.iter().map(|x| x.0).collect() } else { self.foc.iter().chain(self.crowd.iter().take(20)).map(|&i| self.all[i].0).collect() };
        for (i, a) in m.iter().enumerate() {
            for (j, b) in m.iter().enumerate() {
                use std::cmp::Ordering::*;
                let same = i == j || a.as_u64() == b.as_u64();
                let c = a.cmp(b);
                if (a == b) != same || (c == Equal) != same || c != b.cmp(a).reverse() || a.partial_cmp(b) != Some(c) || (same && hash(*a) != hash(*b)) {
                    self.v("unique", format!("{:#x} and {:#x}: eq {}, cmp {:?}", a.as_u64(), b.as_u64(), a == b, c));
                    return;
                }
            }
        }
    }
}

impl Sys for SysE {
    fn name(&self) -> String {
        format!("handles of {}, bursts {:?}, cycles {:?}", if self.world { "World" } else { "Entities" }, self.bursts, self.cycles)
    }
    fn run(&self, ops: &[u32]) -> Node {
        l().reset();
        alloc::reset();
        let s = match sut(|| if self.world { Sut::W(Box::new(World::new())) } else { Sut::E(Entities::new()) }) {
            Ok(s) => s,
            Err(p) => {
                return Node { viols: vec![V { class: "panic-op".into(), text: p.msg }], ..Node::default() };
            }
        };
        let mut x = Ex { s, all: vec![], foc: vec![], crowd: vec![], culled: 0, viols: vec![], checks: 0, key: H(5) };
        for &o in ops {
            if !x.viols.is_empty() {
                break;
            }
            let (code, a, b) = (o >> 24, (o >> 16 & 255) as usize, (o & 255) as usize);
            match code {
                SPAWN => {
                    if let Some(i) = x.spawn() {
                        x.foc.push(i);
                    }
                }
                DESPAWN | DEAD => x.despawn(x.foc[a]),
                BURST => {
                    for _ in 0..self.bursts[b] {
                        if let Some(i) = x.spawn() {
                            x.crowd.push(i);
                        }
                        if !x.viols.is_empty() {
                            break;
                        }
                    }
                }
                CYCLE => {
                    let mut i = x.foc[a];
                    for _ in 0..self.cycles[b] {
                        x.despawn(i);
                        match x.spawn() {
                            Some(j) => i = j,
                            None => break,
                        }
                        if !x.viols.is_empty() {
                            break;
                        }
                    }
                    x.foc.push(i);
                }
                CULL => {
                    let n = x.crowd.len();
                    let mut idx: Vec<usize> = match b {
                        0 => (0..n - n / 8).collect(),
                        1 => (n / 8..n).rev().collect(),
                        _ => (0..n).step_by(2).collect(),
                    };
                    x.culled = idx.len();
                    for &k in &idx {
                        let i = x.crowd[k];
                        x.despawn(i);
                    }
                    idx.sort_unstable();
                    for k in idx.into_iter().rev() {
                        x.crowd.swap_remove(k);
                    }
                }
                REFILL => {
                    for _ in 0..x.culled {
                        if let Some(i) = x.spawn() {
                            x.crowd.push(i);
                        }
                        if !x.viols.is_empty() {
                            break;
                        }
                    }
                    x.culled = 0;
                }
                _ => panic!("unknown op"),
            }
        }
        x.check();
        let mut node = Node::default();
        let mut h = x.key;
        for &(id, alive) in &x.all {
            h.add(id.as_u64() << 1 | alive as u64);
        }
        for &f in x.foc.iter().chain(&x.crowd) {
            h.add(f as u64);
        }
        node.key = h.0;
        if x.viols.is_empty() {
            if x.foc.len() < self.max {
                node.enabled.push(SPAWN << 24);
            }
            for (k, &i) in x.foc.iter().enumerate() {
                let c = if x.all[i].1 { DESPAWN } else { DEAD };
                node.enabled.push(c << 24 | (k as u32) << 16);
                if x.all[i].1 && x.all.len() < 60_000 {
                    for b in 0..self.cycles.len() {
                        node.enabled.push(CYCLE << 24 | (k as u32) << 16 | b as u32);
                    }
                }
            }
            if x.all.len() < 60_000 {
                for b in 0..self.bursts.len() {
                    node.enabled.push(BURST << 24 | b as u32);
                }
            }
            if x.crowd.len() > 16 {
                for b in 0..3 {
                    node.enabled.push(CULL << 24 | b);
                }
            }
            if x.culled > 0 {
                node.enabled.push(REFILL << 24);
            }
            // every remaining handle can be despawned exactly once
            let n = x.all.len();
            if n < 100_000 {
                for i in (0..n).rev() {
                    if x.all[i].1 {
                        x.despawn(i);
                    }
                }
                for i in 0..n {
                    x.despawn(i);
                }
                x.check();
            }
        }
        let s = x.s;
        if x.viols.is_empty() {
            let _ = sut(move || drop(s));
        } else {
            std::mem::forget(s);
        }
        node.viols = x.viols;
        node.checks = x.checks;
        if !node.viols.is_empty() {
            node.enabled.clear();
        }
        alloc::reset();
        node
    }
    fn show(&self, ops: &[u32]) -> Vec<String> {
        ops.iter()
            .map(|&o| {
                let (code, a, b) = (o >> 24, (o >> 16 & 255) as usize, (o & 255) as usize);
                match code {
                    SPAWN => "spawn".to_string(),
                    DESPAWN => format!("despawn h{}", a),
                    DEAD => format!("despawn dead h{}", a),
                    BURST => format!("spawn {} more", self.bursts[b]),
                    CYCLE => format!("{} times despawn h{} and spawn its successor", self.cycles[b], a),
                    CULL => format!("despawn {} of the crowd", ["the oldest", "the youngest", "every other one"][b]),
                    REFILL => "spawn as many again".into(),
                    _ => format!("{:#x}", o),
                }
            })
            .collect()
    }
}

pub fn jobs(p: &mut Plan) {
    let e = |world, bursts: &[usize], cycles: &[usize], max| Box::new(SysE { world, bursts: bursts.to_vec(), cycles: cycles.to_vec(), max });
    p.add(e(false, &[], &[], 6), 9, 11, true);
    p.add(e(false, &[], &[], 4), 7, 9, false);
    p.add(e(true, &[], &[], 5), 8, 10, true);
    p.add(e(false, &[40], &[3, 255, 256], 3), 4, 5, true);
    p.add(e(true, &[40], &[3, 255, 256], 3), 4, 4, true);
    p.add(e(false, &[600, 4097], &[127, 300], 2), 4, 5, true);
    p.add(e(true, &[600, 4097], &[300], 2), 3, 4, true);
    p.add(e(false, &[65_537], &[65_535, 65_536], 2), 3, 4, true);
    p.add(e(true, &[65_537], &[65_536], 1), 2, 3, true);
    p.add(e(false, &[], &[1 << 24], 1), 2, 2, true);
    p.add(e(true, &[], &[1 << 24], 1), 0, 2, true);
    p.add(e(false, &[(1 << 24) + 1], &[], 1), 0, 2, true);
    p.add(e(false, &[], &[1 << 26], 1), 0, 2, true);
}
