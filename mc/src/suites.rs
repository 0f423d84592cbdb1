//! Which systems decide which property, and to which depth.
use crate::bases::*;
use crate::engine::{Sys, V};
use crate::kinds::*;
use crate::shapes::shapes;
use crate::sysw::*;

pub struct Job {
    pub sys: Box<dyn Sys>,
    pub depth: usize,
    pub merge: bool,
    pub cap: u64,
}

pub struct Plan {
    pub jobs: Vec<Job>,
    /// 0: the quick bounds; 1, 2, ...: successively deeper ones
    pub deeper: usize,
}

impl WCfg {
    fn also(mut self, f: impl Fn(&mut WCfg)) -> WCfg {
        f(&mut self);
        self
    }
}

impl Plan {
    pub fn add(&mut self, sys: Box<dyn Sys>, quick: usize, thorough: usize, merge: bool) {
        self.job(sys, if self.deeper == 0 { quick } else { thorough }, merge);
    }
    fn job(&mut self, sys: Box<dyn Sys>, depth: usize, merge: bool) {
        if depth == 0 {
            return;
        }
        // a shallower run, for experiments
        let less = std::env::var("MC_LESS").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let depth = depth.min(2).max(depth.saturating_sub(less));
        let cap = if self.deeper > 0 { 60_000_000 } else { 4_000_000 };
        self.jobs.push(Job { sys, depth, merge, cap });
    }
    fn w(&mut self, c: WCfg, depth: usize, merge: bool) {
        let depth = depth + self.deeper;
        self.job(Box::new(SysW(c)), depth, merge)
    }
}

macro_rules! pal {
    ($n:ident, $a:ident, $b:ident, $c:ident) => {
        pub fn $n() -> Palette {
            Palette { kinds: [$a::KIND, $b::KIND, $c::KIND], shapes: shapes::<$a, $b, $c>, spawn: crate::shapes::spawn_macro::<$a, $b, $c> }
        }
    };
}
pal!(pa, P4, BX, ZD);
pal!(pb, P4, P1, BX);
pal!(pc, L24, ZD, A64);
pal!(pd, ZD, ZA, BX);
pal!(pe, P4, Q4, N8);
pal!(pf, B3, A16, C12);
pal!(pg, BIG, H2, P4);
pal!(ph, A64, P1, B3);
pal!(pi, HUG, BX, P1);
pal!(pj, T1, T2, P4);
pal!(pk, VST, P1, ZD);

pub const PALS: [(&str, fn() -> Palette); 11] = [
    ("P4,BX,ZD", pa),
    ("P4,P1,BX", pb),
    ("L24,ZD,A64", pc),
    ("ZD,ZA,BX", pd),
    ("P4,Q4,N8", pe),
    ("B3,A16,C12", pf),
    ("BIG,H2,P4", pg),
    ("A64,P1,B3", ph),
    ("HUG,BX,P1", pi),
    ("T1,T2,P4", pj),
    ("VST,P1,ZD", pk),
];

type F = fn(&mut WCfg);

fn cfg(name: &str, p: usize, base: Option<Base>, f: impl Fn(&mut WCfg)) -> WCfg {
    let mut c = WCfg::new(&format!("{} [{}]", name, PALS[p].0), &PALS[p].1());
    c.base = base;
    f(&mut c);
    c
}

/// Structural histories from the empty world and from every base.
/// `all` is applied to every configuration. `rich`: all palettes.
fn structural(p: &mut Plan, less: usize, all: &dyn Fn(&mut WCfg)) {
    let q = |d: usize| d.saturating_sub(less);
    let mk = |name: &str, pal: usize, base: Option<Base>, f: F| {
        cfg(name, pal, base, |c| {
            f(c);
            all(c);
        })
    };
    // from nothing, every palette
    for k in 0..8 {
        p.w(mk("empty", k, None, |_| ()), q(if k == 0 { 7 } else { 6 }), true);
    }
    p.w(mk("empty", 8, None, |c| c.max_spawn = 2), q(5), true);
    p.w(mk("empty", 10, None, |c| c.max_spawn = 2), q(4), true);
    // no merging of states: every history on its own
    p.w(mk("unmerged", 0, None, |c| c.max_spawn = 2), q(6), false);
    p.w(mk("unmerged recycled", 0, Some(Box::new(recycled)), |c| c.max_spawn = 2), q(5), false);
    // every intermediate state observed (so observation itself is part of the history)
    p.w(mk("observed", 0, None, |c| c.obs_each = true), q(5), true);
    // entities as tags of each other, unsorted component ids
    p.w(mk("tags", 0, None, |c| { c.flags |= fl::TAGS; c.slots = vec![0]; c.lists = vec![vec![], vec![0]]; c.max_spawn = 3 }), q(7), true);
    p.w(mk("tags recycled", 1, Some(Box::new(recycled)), |c| { c.flags |= fl::TAGS; c.slots = vec![0]; c.lists = vec![vec![], vec![0]] }), q(6), true);
    // component entities with data, through the handle-based interface
    p.w(mk("data components", 4, None, |c| { c.flags |= fl::SPAWN_DATA; c.data_kinds = vec![R6, BX::KIND, ZD::KIND]; c.slots = vec![0]; c.lists = vec![vec![], vec![0]]; c.max_spawn = 2 }), q(6), true);
    // component entities that carry components themselves, also while they are built
    p.w(mk("component entities as holders", 0, Some(Box::new(selfs)), |c| { c.flags |= fl::TAGS; c.slots = vec![0]; c.lists = vec![vec![], vec![0]]; c.max_spawn = 1; c.max_focus = 5 }), q(4), true);
    p.w(mk("data components built with components", 4, None, |c| { c.flags |= fl::SPAWN_DATA; c.data_kinds = vec![BX::KIND, BIG::KIND, ZD::KIND]; c.data_lists = vec![vec![], vec![0], vec![1, 0]]; c.slots = vec![0, 1]; c.lists = vec![vec![], vec![0], vec![1, 0]]; c.max_spawn = 2 }), q(4), true);
    for k in [0, 5] {
        p.w(mk("recycled", k, Some(Box::new(recycled)), |_| ()), q(5), true);
    }
    p.w(mk("late 5", 0, Some(late(5)), |_| ()), q(5), true);
    p.w(mk("late 33", 0, Some(late(33)), |_| ()), q(4), true);
    p.w(mk("late 65", 2, Some(late(65)), |_| ()), q(4), true);
    for (n, k) in [(2, 0), (3, 5), (4, 0), (4, 2), (5, 1), (8, 0), (8, 7), (9, 5), (16, 0), (32, 0), (33, 2), (5, 8)] {
        p.w(mk(&format!("tall {} of AB", n), k, Some(tall(n, &[0, 1])), |c| c.max_spawn = 2), q(4), true);
    }
    for (n, k) in [(4, 0), (8, 2), (5, 3)] {
        p.w(mk(&format!("tall {} of CBA", n), k, Some(tall(n, &[2, 1, 0])), |c| c.max_spawn = 2), q(4), true);
    }
    for (n, k, early, hold) in [(62, 6, true, true), (63, 6, false, true), (64, 7, true, false), (65, 7, false, false), (126, 7, true, true), (128, 7, false, false)] {
        p.w(mk(&format!("wide {}{}{}", n, if early { " early" } else { "" }, if hold { " held" } else { "" }), 0, Some(wide(n, k, early, hold)), |c| { c.max_spawn = 2; c.light = true }), q(3), true);
    }
    for (n, k) in [(257, 9), (520, 10)] {
        p.w(mk(&format!("wide {}", n), 0, Some(wide(n, k, n == 257, true)), |c| { c.max_spawn = 1; c.light = true; c.slots = vec![0, 1, 3] }), q(3), true);
    }
    for (n, hold) in [(70, true), (130, false), (300, true), (300, false)] {
        p.w(mk(&format!("{} component kinds{}", n, if hold { " held" } else { "" }), 0, Some(comps(n, hold)), |c| { c.max_spawn = 1; c.light = true; c.slots = vec![0, 3, 4]; c.lists = vec![vec![3], vec![4, 0, 3]] }), q(4), true);
    }
    for n in [3usize, 4, 5, 6] {
        p.w(
            mk(&format!("fan {}", n), 0, Some(fan(n, 1)), |c| { c.slots = vec![0, 3, 4, 5]; c.lists = vec![vec![], vec![0]]; c.max_spawn = 1; c.light = true }),
            q(5),
            false);
    }
    for n in [17usize, 30] {
        p.w(mk(&format!("fan {}", n), 0, Some(fan(n, 1)), |c| { c.slots = vec![0, 3, 4, 17, 19]; c.lists = vec![vec![], vec![3]]; c.max_spawn = 1; c.light = true }), q(4), false);
    }
    for (n, k) in [(9usize, 0usize), (40, 5), (65, 2), (130, 0)] {
        p.w(mk(&format!("crowd {}", n), k, None, |_| ()).also(|c| { c.bulks = vec![(n, vec![0]), (n, vec![1, 0])]; c.lists = vec![vec![0]]; c.max_spawn = 1; c.slots = vec![0, 1]; c.light = true }), q(4), true);
    }
    p.w(mk("crowd 600", 0, None, |_| ()).also(|c| { c.bulks = vec![(600, vec![0, 1])]; c.lists = vec![vec![1]]; c.max_spawn = 1; c.slots = vec![0]; c.light = true }), q(3), true);
    p.w(mk("crowd 66000", 0, None, |_| ()).also(|c| { c.bulks = vec![(66_000, vec![2])]; c.lists = vec![vec![2]]; c.max_spawn = 1; c.slots = vec![2]; c.light = true }), q(2), true);
    p.w(mk("many 4097", 0, Some(many(4097, 0)), |c| { c.light = true; c.max_spawn = 2; c.lists = vec![vec![], vec![0, 1]] }), q(2), true);
    p.w(mk("late 66000", 0, Some(late(66_000)), |c| { c.light = true; c.max_spawn = 2; c.lists = vec![vec![0], vec![1, 0]]; c.slots = vec![0, 1] }), q(2), true);
    p.w(mk("triples of 75", 0, Some(triples(75)), |c| { c.light = true; c.max_spawn = 1; c.slots = vec![0, 3, 4]; c.lists = vec![vec![], vec![3, 5]] }), q(2), true);
    p.w(mk("wide 66000", 0, Some(wide(66_000, 17, true, true)), |c| { c.light = true; c.max_spawn = 1; c.slots = vec![0, 3]; c.lists = vec![vec![0], vec![1, 0, 4]] }), q(1), true);
    p.w(mk("many 1100, 514 despawned", 0, Some(many(1100, 514)), |c| { c.light = true; c.max_spawn = 2; c.lists = vec![vec![], vec![0, 1]] }), q(2), true);
    for n in [9, 17, 33, 60] {
        p.w(mk(&format!("heavy {}", n), 0, Some(heavy(n)), |_| ()).also(|c| heavily(c, n)), q(5), true);
    }
    for (n, d) in [(66, 4), (131, 3)] {
        p.w(mk(&format!("heavy {}", n), 0, Some(heavy(n)), |_| ()).also(|c| { heavily(c, n); c.max_spawn = 1 }), q(d), true);
    }
    any_kinds(p, false, all);
    builders(p, less, all, false);
    weathered(p, less, all);
    aged(p, less, all);
    aged_sets(p, less, all);
}

/// Every short history repeated very often among entities that are left alone.
fn weathered(p: &mut Plan, less: usize, all: &dyn Fn(&mut WCfg)) {
    let q = |d: usize| d.saturating_sub(less);
    for (reps, k, n, d) in [(330, 0, 1, 5), (330, 2, 3, 5), (1100, 1, 1, 4), (5000, 5, 2, 4), (68_000, 0, 1, 3)] {
        let c = cfg(&format!("weathered {}", reps), k, Some(settled(n, reps == 1100)), |c| {
            all(c);
            c.repeat = reps;
            c.light = true;
            c.max_spawn = 2;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = if reps == 1100 { vec![0, 1, 3, 4] } else { vec![0, 1] };
        });
        p.w(c, q(d), true);
    }
}

/// Once in every history a number of other operations happens that wraps a counter of 8 or 16 bits,
/// and nothing is looked at between the beginning and the end.
fn aged(p: &mut Plan, less: usize, all: &dyn Fn(&mut WCfg)) {
    let q = |d: usize| d.saturating_sub(less);
    for (k, long, d) in [(0, false, 4), (5, false, 3), (0, true, 3)] {
        let whats: &[u8] = if long { &[0, 2, 3] } else { &[0, 1, 2, 3] };
        let times: &[usize] = if long { &[32_767, 32_768, 65_535, 65_536] } else { &[126, 127, 128, 254, 255, 256] };
        let c = cfg(&format!("aged by {} bits", if long { 16 } else { 8 }), k, Some(among(1)), |c| {
            c.obs_first = true;
            c.max_spawn = 1;
            c.lists = vec![vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
            for &what in whats {
                c.ages.extend(times.iter().map(|&n| (what, n)));
            }
            all(c);
            c.light = true;
        });
        p.w(c, q(d), false);
    }
}

/// The same with a number of component sets that wraps a counter of 8 bits.
fn aged_sets(p: &mut Plan, less: usize, all: &dyn Fn(&mut WCfg)) {
    let base: Base = Box::new(move |x: &mut Wx| {
        // no two components on the same entity
        for l in [&[0u8][..], &[1], &[2], &[]] {
            if let Some(e) = x.do_spawn(l, 0, None) {
                x.foc.push(e);
            }
        }
        x.foc.truncate(2);
        let t: Vec<usize> = (0..24).filter_map(|_| x.do_spawn(&[], 0, None)).collect();
        x.pre.extend(t);
    });
    let c = cfg("aged by component sets", 1, Some(base), |c| {
        c.obs_first = true;
        c.max_spawn = 1;
        c.lists = vec![vec![0], vec![2, 1, 0]];
        c.slots = vec![0, 1, 2];
        c.ages = [62, 63, 64, 126, 127, 128, 253, 254, 255, 256].iter().map(|&n| (4, n)).collect();
        all(c);
        c.light = false;
    });
    p.w(c, 3usize.saturating_sub(less), false);
}

/// The same for histories with other operations.
fn weathered_with(p: &mut Plan, name: &str, most: usize, f: &dyn Fn(&mut WCfg)) {
    for (reps, k, n, d) in [(330, 0, 1, 4), (330, 2, 2, 4), (1100, 1, 1, 4), (5000, 5, 1, 3), (68_000, 0, 1, 2)] {
        // what a refused operation was given may be lost, and there are only so many values;
        // despawning a component entity makes every later lookup of archetypes slower
        let (reps, k) = (reps.min(most), if k == 1 && most < 5000 { 2 } else { k });
        let c = cfg(&format!("{} weathered {}", name, reps), k, Some(settled(n, false)), |c| {
            c.light = true;
            c.max_spawn = 2;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
            f(c);
            c.repeat = reps;
        });
        p.w(c, d, true);
    }
}

/// Entities with up to `n` components (and one more).
fn heavily(c: &mut WCfg, n: usize) {
    // all in one order, all in another, every other one
    let k = if n % 7 == 0 || n % 5 == 0 { 11 } else { 5 };
    let mut a: Vec<u8> = (0..n).map(|i| 3 + (i * k % n) as u8).collect();
    let b: Vec<u8> = (0..n).rev().filter(|i| i % 2 == 0).map(|i| 3 + i as u8).collect();
    let full: Vec<u8> = (0..n).map(|i| 3 + i as u8).collect();
    a.insert(n / 2, 0);
    c.lists = vec![full, a, b, vec![]];
    c.slots = vec![0, 3, 4, 3 + n as u8 / 2, 2 + n as u8];
    c.max_spawn = 2;
    c.light = true;
    c.columns = true;
}

/// All kinds at once: entities built from every list of up to `len` kinds that starts with a given
/// one, and moved by adding and removing any kind.
fn any_kinds(p: &mut Plan, builds: bool, all: &dyn Fn(&mut WCfg)) {
    for a in 0..15u8 {
        let others = || (0..15u8).filter(move |&b| b != a);
        if builds {
            let c = cfg(&format!("lists of any kinds from {}", a), 0, Some(all_types(a % 2 == 1)), |c| {
                c.lists = vec![vec![3 + a]];
                for b in others() {
                    c.lists.push(vec![3 + a, 3 + b]);
                    for d in others().filter(|&d| d != b) {
                        c.lists.push(vec![3 + a, 3 + b, 3 + d]);
                    }
                }
                c.slots = (3..18).collect();
                c.flags = fl::SPAWN;
                c.variants = vec![[0, 1, 2, 3, 4, 0, 1, 2, 3, 5, 0, 1, 2, 7, 3][a as usize]];
                c.max_spawn = 2;
                c.light = true;
                all(c);
            });
            p.w(c, 2, true);
        } else {
            let c = cfg(&format!("any kinds moved, from {}", a), 0, Some(all_types(a % 2 == 0)), |c| {
                c.lists = vec![vec![3 + a], vec![3 + (a + 1) % 15, 3 + a], vec![3 + a, 3 + (a + 7) % 15, 3 + (a + 3) % 15]];
                c.slots = (3..18).collect();
                c.max_spawn = 2;
                c.light = true;
                all(c);
            });
            p.w(c, 3, true);
        }
    }
}

const ORDERS: [&[u8]; 14] = [&[], &[0], &[1], &[2], &[0, 1], &[1, 0], &[2, 0], &[0, 2], &[2, 1], &[0, 1, 2], &[1, 0, 2], &[2, 1, 0], &[1, 2, 0], &[2, 0, 1]];

fn builders(p: &mut Plan, less: usize, all: &dyn Fn(&mut WCfg), more: bool) {
    let q = |d: usize| d.saturating_sub(less);
    for k in 0..9 {
        if !more && k > 2 && k < 6 || k == 7 {
            continue;
        }
        let c = cfg("builder orders", k, None, |c| {
            c.lists = ORDERS.iter().map(|x| x.to_vec()).collect();
            c.flags = fl::SPAWN | fl::DESPAWN;
            c.variants = if k % 3 == 0 { vec![0, 16] } else { vec![0] };
            all(c);
        });
        p.w(c, q(4), true);
        let c = cfg("builder capacities", k, None, |c| {
            c.lists = vec![vec![], vec![0], vec![1, 0], vec![2, 0, 1]];
            c.variants = vec![0, 1, 2, 3, 4, 5, 7, 8];
            c.flags = fl::SPAWN;
            all(c);
        });
        p.w(c, q(3), true);
    }
}

fn writes(p: &mut Plan, all: &dyn Fn(&mut WCfg)) {
    for k in 0..9 {
        let c = cfg("writes", k, None, |c| {
            c.flags |= fl::WRITE;
            c.paths = vec![0, 1, 2, 3, 4];
            c.max_spawn = 2;
            c.lists = vec![vec![0], vec![0, 1], vec![2, 0]];
            all(c);
        });
        p.w(c, 5, true);
    }
    for (n, k) in [(3, 0), (4, 5), (8, 2)] {
        let c = cfg(&format!("writes tall {}", n), k, Some(tall(n, &[0, 1])), |c| {
            c.flags |= fl::WRITE;
            c.paths = vec![0, 1, 2, 3, 4];
            c.max_spawn = 1;
            all(c);
        });
        p.w(c, 4, true);
    }
    let c = cfg("writes by handle", 4, Some(holders(&[R6, BX::KIND, ZD::KIND, A64::KIND], &[&[4], &[4, 5], &[4, 6, 7]])), |c| {
        c.flags |= fl::WRITE;
        c.paths = vec![2, 3, 4];
        c.slots = vec![0, 4, 5, 7];
        c.max_spawn = 1;
        all(c);
    });
    p.w(c, 4, true);
    for n in [63, 65] {
        let c = cfg(&format!("writes wide {}", n), 0, Some(wide(n, 7, true, true)), |c| {
            c.flags |= fl::WRITE;
            c.paths = vec![0, 1, 2, 3, 4];
            c.max_spawn = 1;
            c.light = true;
            all(c);
        });
        p.w(c, 3, true);
    }
    for n in [17, 60] {
        let c = cfg(&format!("writes heavy {}", n), 0, Some(heavy(n)), |c| {
            heavily(c, n);
            c.flags |= fl::WRITE;
            c.paths = vec![0, 1, 2, 3, 4];
            c.lists.truncate(2);
            all(c);
        });
        p.w(c, 4, true);
    }
}

fn stale(p: &mut Plan) {
    for (k, base, t) in [(0usize, 0u8, 6usize), (2, 0, 6), (3, 0, 5), (0, 1, 5), (5, 2, 5)] {
        let b: Option<Base> = match base {
            0 => None,
            1 => Some(Box::new(recycled)),
            _ => Some(tall(3, &[0, 1])),
        };
        let c = cfg(["stale", "stale recycled", "stale tall"][base as usize], k, b, |c| {
            c.flags |= fl::STALE;
            c.strip_ops = true;
            c.direct = vec!["stale"];
            c.max_spawn = 3;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
        });
        p.w(c, t, true);
    }
    let c = cfg("stale tags", 0, None, |c| {
        c.flags |= fl::STALE | fl::TAGS;
        c.strip_ops = true;
            c.direct = vec!["stale"];
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0];
    });
    p.w(c, 6, true);
    let c = cfg("stale components", 4, Some(holders(&[BX::KIND, R6], &[&[3, 4], &[5, 4], &[]])), |c| {
        c.flags |= fl::STALE | fl::DESPAWN_COMP;
        c.strip_ops = true;
            c.direct = vec!["stale"];
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0, 3, 4, 5];
        c.max_spawn = 2;
    });
    p.w(c, 4, true);
    let c = cfg("stale types", 0, None, |c| {
        c.flags |= fl::STALE | fl::DESPAWN_COMP;
        c.strip_ops = true;
            c.direct = vec!["stale"];
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0, 1];
        c.max_spawn = 2;
    });
    p.w(c, 5, true);
    let c = cfg("stale unmerged", 0, None, |c| {
        c.flags |= fl::STALE;
        c.strip_ops = true;
            c.direct = vec!["stale"];
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0];
        c.max_spawn = 3;
    });
    p.w(c, 6, false);
    let n = 33;
    let c = cfg(&format!("stale heavy {}", n), 0, Some(heavy(n)), |c| {
        heavily(c, n);
        c.flags |= fl::STALE | fl::DESPAWN_COMP;
        c.strip_ops = true;
        c.direct = vec!["stale"];
        c.lists.truncate(2);
    });
    p.w(c, 5, true);
}

fn comp_despawn(p: &mut Plan, all: &dyn Fn(&mut WCfg), less: usize) {
    let q = |d: usize| d.saturating_sub(less);
    for k in 0..8 {
        let c = cfg("despawn types", k, None, |c| {
            c.flags |= fl::DESPAWN_COMP;
            c.max_spawn = 3;
            all(c);
        });
        p.w(c, q(6), true);
    }
    let c = cfg("despawn tags", 0, None, |c| {
        c.flags |= fl::DESPAWN_COMP | fl::TAGS;
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0];
        c.max_spawn = 4;
        all(c);
    });
    p.w(c, q(7), true);
    let c = cfg("despawn tags recycled", 1, Some(Box::new(recycled)), |c| {
        c.flags |= fl::DESPAWN_COMP | fl::TAGS;
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0];
        all(c);
    });
    p.w(c, q(6), true);
    const HL: [&[u8]; 5] = [&[3, 4], &[5, 4], &[4, 3, 5, 6], &[6], &[4]];
    for kinds in [&[BX::KIND, R6, ZD::KIND][..], &[A64::KIND, P1::KIND, BX::KIND]] {
        let kinds: &'static [usize] = Box::leak(kinds.to_vec().into_boxed_slice());
        let c = cfg(&format!("despawn data {:?}", kinds), 4, Some(holders(kinds, &HL)), |c| {
            c.flags |= fl::DESPAWN_COMP;
            c.lists = vec![vec![], vec![4, 0], vec![3]];
            c.slots = vec![0, 3, 4, 5, 6];
            c.max_spawn = 2;
            c.max_focus = 4;
            all(c);
        });
        p.w(c, 4, true);
    }
    let c = cfg("despawn component entities that hold components", 0, Some(Box::new(selfs)), |c| {
        c.flags |= fl::TAGS | fl::DESPAWN_COMP;
        c.slots = vec![0, 1];
        c.lists = vec![vec![], vec![1, 0]];
        c.max_spawn = 1;
        c.max_focus = 5;
        all(c);
    });
    p.w(c, q(4), true);
    for (n, k) in [(5, 0), (9, 2)] {
        let c = cfg(&format!("despawn types tall {}", n), k, Some(tall(n, &[0, 1])), |c| {
            c.flags |= fl::DESPAWN_COMP;
            c.max_spawn = 1;
            all(c);
        });
        p.w(c, q(4), true);
    }
    let c = cfg("despawn unmerged", 0, None, |c| {
        c.flags |= fl::DESPAWN_COMP;
        c.max_spawn = 2;
        c.slots = vec![0, 1];
        c.lists = vec![vec![0], vec![1, 0]];
        all(c);
    });
    p.w(c, q(6), false);
    let c = cfg("despawn observed", 0, None, |c| {
        c.flags |= fl::DESPAWN_COMP;
        c.max_spawn = 2;
        c.obs_each = true;
        all(c);
    });
    p.w(c, q(5), true);
    for (n, early) in [(63, true), (65, false)] {
        let c = cfg(&format!("despawn types wide {}", n), 0, Some(wide(n, 7, early, true)), |c| {
            c.flags |= fl::DESPAWN_COMP;
            c.max_spawn = 1;
            c.light = true;
            c.slots = vec![0, 1, 3, 8];
            all(c);
        });
        p.w(c, q(3), true);
    }
    for n in [9, 33] {
        let c = cfg(&format!("despawn heavy {}", n), 0, Some(heavy(n)), |c| {
            heavily(c, n);
            c.flags |= fl::DESPAWN_COMP;
            all(c);
            c.light = true;
        });
        p.w(c, q(5), true);
    }
}

fn building(p: &mut Plan) {
    builders(p, 0, &|_| (), true);
    any_kinds(p, true, &|_| ());
    for k in 0..8 {
        let c = cfg("abandoned and refused builders", k, None, |c| {
            c.flags = fl::SPAWN | fl::DESPAWN | fl::ABANDON | fl::DUP | fl::TWICE;
            c.lists = vec![vec![], vec![0], vec![1, 0], vec![0, 2, 1]];
            c.dup_lists = vec![vec![0, 0], vec![0, 1, 0], vec![2, 1, 1], vec![1, 2, 0, 2]];
            c.strip_ops = true;
            c.direct = vec!["dup"];
            c.max_spawn = 3;
        });
        p.w(c, 5, true);
    }
    let c = cfg("abandoned builders in use", 0, None, |c| {
        c.flags |= fl::ABANDON | fl::DUP | fl::REG;
        c.lists = vec![vec![], vec![0], vec![1, 0]];
        c.dup_lists = vec![vec![1, 1], vec![0, 1, 0]];
        c.strip_ops = true;
            c.direct = vec!["dup"];
        c.max_spawn = 2;
    });
    p.w(c, 5, true);
    let c = cfg("builders with component entities", 4, Some(holders(&[R6, BX::KIND, ZD::KIND, A64::KIND], &[&[4], &[5, 4]])), |c| {
        c.flags = fl::SPAWN | fl::ADD | fl::REMOVE | fl::DESPAWN | fl::ABANDON | fl::DUP;
        c.lists = vec![vec![3], vec![4, 0], vec![0, 4], vec![7, 5, 6], vec![6, 3, 7, 4], vec![1, 2, 5, 0]];
        c.dup_lists = vec![vec![3, 3], vec![4, 0, 4], vec![6, 5, 6], vec![7, 7]];
        c.slots = vec![0, 4, 5];
        c.strip_ops = true;
            c.direct = vec!["dup"];
        c.max_spawn = 2;
    });
    p.w(c, 4, true);
    for k in [0, 1, 4, 6] {
        let c = cfg("component entities built with components", k, None, |c| {
            c.flags = fl::SPAWN | fl::SPAWN_DATA | fl::DESPAWN | fl::ABANDON | fl::REMOVE;
            c.data_kinds = vec![BX::KIND, R6, ZD::KIND, BIG::KIND, A64::KIND];
            c.data_lists = vec![vec![], vec![0], vec![1, 0], vec![2, 0, 1]];
            c.lists = vec![vec![1, 0], vec![3, 0], vec![0, 4, 2]];
            c.slots = vec![0, 1];
            c.max_spawn = 2;
        });
        p.w(c, 4, true);
    }
    let c = cfg("builders after structure", 1, None, |c| {
        c.lists = ORDERS.iter().map(|x| x.to_vec()).collect();
        c.max_spawn = 2;
    });
    p.w(c, 5, true);
    for n in [9, 17, 33, 60] {
        let c = cfg(&format!("builders heavy {}", n), 0, Some(heavy(n)), |c| {
            heavily(c, n);
            c.flags = fl::SPAWN | fl::DESPAWN | fl::ABANDON | fl::DUP | fl::REMOVE;
            c.dup_lists = vec![c.lists[1].iter().copied().chain([3 + n as u8 / 2]).collect()];
            c.variants = vec![0, 1, 5];
            c.strip_ops = true;
            c.direct = vec!["dup"];
        });
        p.w(c, 4, true);
    }
    for n in [64, 65, 128] {
        let c = cfg(&format!("builders wide {}", n), 0, Some(wide(n, 7, n == 65, true)), |c| {
            c.lists = vec![vec![3, 4], vec![9, 3], vec![0, 9], vec![1, 0], vec![0, 1, 2], vec![9, 8, 7, 6, 5, 4, 3]];
            c.flags = fl::SPAWN | fl::DESPAWN;
            c.light = true;
            c.max_spawn = 3;
        });
        p.w(c, 3, true);
    }
}

fn refused(p: &mut Plan) {
    for k in 0..8 {
        let c = cfg("refused", k, None, |c| {
            c.flags |= fl::REFUSED | fl::VIA;
            c.strip_ops = true;
            c.direct = vec!["absent", "refuse"];
            c.max_spawn = 2;
            c.slots = if k == 0 { vec![0, 1, 2] } else { vec![0, 1] };
        });
        p.w(c, 5, true);
    }
    let c = cfg("refused stale", 0, None, |c| {
        c.flags |= fl::REFUSED | fl::STALE;
        c.strip_ops = true;
            c.direct = vec!["absent", "refuse"];
        c.max_spawn = 2;
        c.slots = vec![0, 1];
    });
    p.w(c, 5, true);
    let c = cfg("refused on component entities", 4, Some(holders(&[R6, BX::KIND, ZD::KIND], &[&[3, 4], &[5, 4], &[6]])), |c| {
        c.flags |= fl::REFUSED | fl::DUP;
        c.strip_ops = true;
            c.direct = vec!["absent", "refuse"];
        c.lists = vec![vec![], vec![4, 0]];
        c.dup_lists = vec![vec![4, 4], vec![3, 0, 3]];
        c.slots = vec![0, 3, 4, 5, 6];
        c.max_spawn = 1;
    });
    p.w(c, 4, true);
    let c = cfg("refused tags", 0, None, |c| {
        c.flags |= fl::REFUSED | fl::TAGS;
        c.strip_ops = true;
            c.direct = vec!["absent", "refuse"];
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0];
    });
    p.w(c, 5, true);
    for (n, k) in [(3, 0), (5, 2)] {
        let c = cfg(&format!("refused tall {}", n), k, Some(tall(n, &[0, 1])), |c| {
            c.flags |= fl::REFUSED;
            c.strip_ops = true;
            c.direct = vec!["absent", "refuse"];
            c.max_spawn = 1;
        });
        p.w(c, 4, true);
    }
    let c = cfg("refused unmerged", 0, None, |c| {
        c.flags |= fl::REFUSED;
        c.strip_ops = true;
            c.direct = vec!["absent", "refuse"];
        c.max_spawn = 2;
        c.slots = vec![0, 1];
        c.lists = vec![vec![0], vec![1, 0]];
    });
    p.w(c, 5, false);
    for n in [9, 33] {
        let c = cfg(&format!("refused heavy {}", n), 0, Some(heavy(n)), |c| {
            heavily(c, n);
            c.flags |= fl::REFUSED;
            c.strip_ops = true;
            c.direct = vec!["absent", "refuse"];
        });
        p.w(c, 5, true);
    }
}

fn bombs(p: &mut Plan) {
    for k in 0..8 {
        let c = cfg("destructor panics", k, None, |c| {
            c.flags |= fl::BOMB | fl::ABANDON;
            c.strip_ops = true;
            c.paths = vec![0, 1, 2, 3, 4];
            c.max_spawn = 2;
            c.lists = vec![vec![0], vec![0, 1], vec![2, 1, 0]];
        });
        p.w(c, 5, true);
    }
    for (n, k) in [(2, 0), (3, 1), (5, 2), (4, 5)] {
        let c = cfg(&format!("destructor panics tall {}", n), k, Some(tall(n, &[0, 1])), |c| {
            c.flags |= fl::BOMB | fl::DESPAWN_COMP;
            c.strip_ops = true;
            c.paths = vec![0, 1, 2, 3, 4];
            c.max_spawn = 1;
        });
        p.w(c, 4, true);
    }
    let c = cfg("destructor panics, component despawned", 0, None, |c| {
        c.flags |= fl::BOMB | fl::DESPAWN_COMP;
        c.strip_ops = true;
        c.paths = vec![0];
        c.max_spawn = 3;
        c.lists = vec![vec![0], vec![1, 0], vec![1]];
        c.slots = vec![0, 1];
    });
    p.w(c, 6, true);
    let c = cfg("destructor panics by handle", 4, Some(holders(&[BX::KIND, ZD::KIND, P4::KIND], &[&[4, 5], &[4, 6, 5], &[6]])), |c| {
        c.flags |= fl::BOMB | fl::DESPAWN_COMP;
        c.strip_ops = true;
        c.paths = vec![2, 3];
        c.slots = vec![4, 5, 6];
        c.max_spawn = 1;
    });
    p.w(c, 4, true);
    let c = cfg("destructor panics recycled", 0, Some(Box::new(recycled)), |c| {
        c.flags |= fl::BOMB | fl::ABANDON;
        c.strip_ops = true;
        c.paths = vec![1];
        c.max_spawn = 2;
    });
    p.w(c, 5, true);
    for n in [9, 33] {
        let c = cfg(&format!("destructor panics heavy {}", n), 0, Some(heavy(n)), |c| {
            heavily(c, n);
            c.flags |= fl::BOMB | fl::ABANDON;
            c.strip_ops = true;
            c.paths = vec![2, 3];
            c.slots = vec![0, 4, 11];
        });
        p.w(c, 4, true);
    }
}

fn types(p: &mut Plan) {
    for k in (0..8).chain(9..10) {
        let c = cfg("typed and by handle", k, None, |c| {
            c.flags |= fl::VIA | fl::REG | fl::ABANDON;
            c.max_spawn = 2;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.variants = vec![0, 8];
        });
        p.w(c, 5, true);
    }
    let c = cfg("first mention in a refused call", 0, None, |c| {
        c.flags |= fl::REG | fl::REFUSED | fl::STALE | fl::ABANDON;
        c.max_spawn = 2;
        c.lists = vec![vec![], vec![0], vec![1, 0]];
    });
    p.w(c, 5, true);
    let c = cfg("same layout, different types", 4, None, |c| {
        c.flags |= fl::SPAWN_DATA | fl::VIA | fl::REG;
        c.data_kinds = vec![P4::KIND, N8::KIND];
        c.max_spawn = 2;
    });
    p.w(c, 5, true);
    let c = cfg("type writes", 0, None, |c| {
        c.flags |= fl::WRITE | fl::VIA;
        c.paths = vec![0, 2, 3];
        c.max_spawn = 2;
        c.lists = vec![vec![], vec![0], vec![1, 0]];
    });
    p.w(c, 5, true);
    let c = cfg("type lifetime", 1, None, |c| {
        c.flags |= fl::DESPAWN_COMP | fl::REG | fl::VIA;
        c.max_spawn = 2;
        c.lists = vec![vec![], vec![0], vec![1, 0]];
    });
    p.w(c, 5, true);
    for (n, k) in [(33, 0), (65, 2)] {
        let c = cfg(&format!("types late {}", n), k, Some(late(n)), |c| {
            c.flags |= fl::REG | fl::VIA;
            c.max_spawn = 1;
        });
        p.w(c, 4, true);
    }
    let c = cfg("types unmerged", 0, None, |c| {
        c.flags |= fl::REG | fl::ABANDON;
        c.max_spawn = 2;
        c.lists = vec![vec![0], vec![1, 0]];
        c.slots = vec![0, 1];
    });
    p.w(c, 6, false);
}

fn churn(p: &mut Plan) {
    let n = if p.deeper > 0 { 256 } else { 48 };
    for k in 0..8 {
        let c = cfg("cycles", k, None, |c| {
            c.cycle = n;
            c.light = true;
            c.flags |= fl::ABANDON;
            c.max_spawn = 3;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
        });
        p.w(c, 5, true);
    }
    let c = cfg("cycles refused", 0, None, |c| {
        c.cycle = n;
        c.light = true;
        c.flags |= fl::ABANDON | fl::DUP | fl::WRITE | fl::REFUSED;
        c.paths = vec![0, 1];
        c.max_spawn = 2;
        c.lists = vec![vec![], vec![0], vec![1, 0]];
        c.dup_lists = vec![vec![0, 0], vec![0, 1, 0]];
    });
    p.w(c, 4, true);
    for k in [6, 8] {
        let c = cfg("cycles capacities", k, None, |c| {
            c.cycle = n;
            c.light = true;
            c.flags = fl::SPAWN | fl::DESPAWN | fl::ABANDON;
            c.variants = vec![0, 1, 2, 4, 5, 6];
            c.lists = vec![vec![], vec![0], vec![2, 1, 0]];
            c.max_spawn = if k == 6 { 3 } else { 2 };
        });
        p.w(c, 4, true);
    }
    // as many despawned at once as fit, and more than fit, into the tables made in advance
    for (m, t) in [(600, 3), (5000, 2)] {
        let c = cfg(&format!("cycles crowd {}", m), 0, None, |c| {
            c.cycle = if m == 600 { n } else { 8 };
            c.light = true;
            c.bulks = vec![(m, vec![]), (m, vec![0])];
            c.lists = vec![vec![1]];
            c.slots = vec![0];
            c.max_spawn = 1;
        });
        p.w(c, t, true);
    }
    let c = cfg("cycles with component entities", 4, Some(holders(&[BX::KIND, R6, ZD::KIND], &[])), |c| {
        c.cycle = n;
        c.light = true;
        c.lists = vec![vec![3], vec![4, 0], vec![5, 6]];
        c.slots = vec![0, 3, 4, 6];
        c.max_spawn = 2;
    });
    p.w(c, 4, true);
    for (m, k) in [(6, 0), (17, 0)] {
        let c = cfg(&format!("cycles fan {}", m), k, Some(Box::new(move |x: &mut Wx| { fan(m, 1)(x); x.foc.clear() })), |c| {
            c.cycle = n;
            c.light = true;
            c.slots = vec![0, 3, 4, 5, 6, 7];
            c.lists = vec![vec![0]];
            c.max_spawn = 1;
        });
        p.w(c, 5, true);
    }
    let c = cfg("cycles many 1100, 600 despawned", 0, Some(Box::new(|x: &mut Wx| { many(1100, 600)(x); x.foc.clear() })), |c| {
        c.cycle = 24;
        c.light = true;
        c.lists = vec![vec![], vec![1, 0]];
        c.max_spawn = 2;
    });
    p.w(c, 3, true);
}

/// Cycles repeated so often that counters of 16 bits wrap.
fn soak(p: &mut Plan) {
    for k in [0, 1] {
        let c = cfg("soak", k, None, |c| {
            c.cycle = 66_000;
            c.light = true;
            c.max_spawn = 1;
            c.lists = vec![vec![0]];
            c.slots = vec![0, 1];
            c.flags |= fl::ABANDON;
        });
        p.job(Box::new(SysW(c)), if p.deeper == 0 { 3 } else { 4 }, true);
    }
}

fn two_worlds(p: &mut Plan) {
    for k in 0..8 {
        let c = cfg("two worlds", k, None, |c| {
            c.worlds = 2;
            c.strip_worlds = true;
            c.max_spawn = 2;
            c.flags |= fl::REG;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
        });
        p.w(c, if k < 2 { 6 } else { 5 }, true);
    }
    let c = cfg("two worlds, everything", 0, None, |c| {
        c.worlds = 2;
        c.strip_worlds = true;
        c.max_spawn = 2;
        c.flags |= fl::REG | fl::DROPW | fl::WRITE | fl::ABANDON | fl::DESPAWN_COMP;
        c.paths = vec![0, 2];
        c.lists = vec![vec![], vec![0], vec![1, 0]];
        c.slots = vec![0, 1];
    });
    p.w(c, 5, true);
    let c = cfg("two worlds unmerged", 1, None, |c| {
        c.worlds = 2;
        c.strip_worlds = true;
        c.max_spawn = 2;
        c.flags |= fl::DROPW;
        c.lists = vec![vec![0], vec![1, 0]];
        c.slots = vec![0, 1];
    });
    p.w(c, 5, false);
    let c = cfg("three worlds", 0, None, |c| {
        c.worlds = 3;
        c.strip_worlds = true;
        c.max_spawn = 1;
        c.lists = vec![vec![0], vec![1, 0]];
        c.slots = vec![0, 1];
    });
    p.w(c, 5, true);
    let c = cfg("two worlds recycled", 0, Some(Box::new(recycled)), |c| {
        c.worlds = 2;
        c.strip_worlds = true;
        c.max_spawn = 1;
        c.slots = vec![0, 1];
    });
    p.w(c, 4, true);
    // while queries of the other world are live
    for k in [0, 2, 9] {
        let c = cfg("two worlds, one queried", k, None, |c| {
            c.worlds = 2;
            c.strip_worlds = true;
            c.held = true;
            c.max_spawn = 2;
            c.flags |= fl::DROPW | fl::DESPAWN_COMP | fl::ABANDON;
            c.lists = vec![vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
        });
        p.w(c, 5, true);
    }
    let c = cfg("two worlds tags, one queried", 0, None, |c| {
        c.worlds = 2;
        c.strip_worlds = true;
        c.held = true;
        c.max_spawn = 2;
        c.flags |= fl::TAGS | fl::DESPAWN_COMP;
        c.slots = vec![0];
        c.lists = vec![vec![], vec![0]];
    });
    p.w(c, 5, true);
    let c = cfg("two worlds tags", 0, None, |c| {
        c.worlds = 2;
        c.strip_worlds = true;
        c.max_spawn = 2;
        c.flags |= fl::TAGS;
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0];
    });
    p.w(c, 5, true);
    // in the middle of an operation: between the steps of a builder and in destructors
    for m in 1..4 {
        for k in [0, 1, 2, 9] {
            let c = cfg(&format!("two worlds, one in the middle of the other {}", m), k, None, |c| {
                c.worlds = 2;
                c.strip_worlds = true;
                c.middle = m;
                c.max_spawn = 2;
                c.flags |= fl::DROPW | fl::ABANDON | fl::WRITE;
                c.paths = vec![0, 2];
                c.lists = vec![vec![], vec![0], vec![1, 0]];
                c.slots = vec![0, 1];
            });
            p.w(c, if m == 1 { 5 } else { 4 }, true);
        }
    }
    // on two threads, switching at calls of the allocator, too
    for m in 1..41 {
        let c = cfg(&format!("two worlds on two threads, switching at {}", m), m as usize % 2, None, |c| {
            c.worlds = 2;
            c.strip_worlds = true;
            c.middle = m;
            c.threads = true;
            c.light = true;
            c.max_spawn = 2;
            c.flags |= fl::DROPW | fl::ABANDON | fl::REG;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
        });
        p.w(c, 4, true);
    }
    // many further worlds live meanwhile
    for (n, k, t) in [(255, 0, 4), (256, 0, 4), (257, 2, 4), (70, 1, 4)] {
        let c = cfg(&format!("among {} other worlds", n), k, None, |c| {
            c.others = n;
            c.max_spawn = 2;
            c.flags |= fl::REG;
            c.light = true;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
        });
        p.w(c, t, true);
    }
    // they are created between the first and the second world
    for (n, k) in [(254, 0), (255, 1), (256, 0)] {
        let c = cfg(&format!("two worlds with {} others between", n), k, None, |c| {
            c.worlds = 2;
            c.strip_worlds = true;
            c.others = n;
            c.between = true;
            c.max_spawn = 2;
            c.flags |= fl::REG;
            c.light = true;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
        });
        p.w(c, 4, true);
    }
    // so many worlds lived and died between
    for (n, k, t) in [(127, 0, 4), (254, 0, 4), (255, 1, 4), (256, 0, 4), (65534, 0, 2), (65535, 1, 2), (65536, 0, 2)] {
        let c = cfg(&format!("two worlds with {} gone between", n), k, None, |c| {
            c.worlds = 2;
            c.strip_worlds = true;
            c.gone = n;
            c.max_spawn = 2;
            c.flags |= fl::REG;
            c.light = true;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
        });
        p.w(c, t, true);
        let c = cfg(&format!("after an earlier world and {} more", n), k, None, |c| {
            c.before = 1 + k as u32;
            c.gone = n;
            c.max_spawn = 2;
            c.flags |= fl::REG;
            c.light = true;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            c.slots = vec![0, 1];
        });
        p.w(c, t, true);
    }
    // a world that lived and died earlier in the process
    for b in 1..4 {
        let c = cfg(&format!("after an earlier world {}", b), 0, None, |c| {
            c.before = b;
            c.max_spawn = 2;
            c.flags |= fl::REG;
        });
        p.w(c, 4, true);
    }
}

fn again(p: &mut Plan) {
    let f: [(&str, usize, Option<Base>, usize); 12] = [
        ("again", 0, None, 5),
        ("again", 1, None, 5),
        ("again", 2, None, 5),
        ("again", 3, None, 4),
        ("again", 5, None, 4),
        ("again recycled", 0, Some(Box::new(recycled)), 4),
        ("again late 33", 0, Some(late(33)), 3),
        ("again tall 5", 0, Some(tall(5, &[0, 1])), 3),
        ("again tall 16", 2, Some(tall(16, &[0, 1])), 3),
        ("again fan 6", 0, Some(fan(6, 1)), 3),
        ("again wide 65", 0, Some(wide(65, 7, true, true)), 2),
        ("again many", 0, Some(many(600, 520)), 2),
    ];
    for (n, k, b, t) in f {
        let c = cfg(n, k, b, |c| {
            c.twice = true;
            c.flags |= fl::ABANDON;
            c.max_spawn = 3;
            c.lists = vec![vec![], vec![0], vec![2, 1, 0], vec![1, 2]];
        });
        p.w(c, t, true);
    }
    for n in [9, 33, 130] {
        let c = cfg(&format!("again crowd {}", n), 0, None, |c| {
            c.twice = true;
            c.bulks = vec![(n, vec![]), (n, vec![0])];
            c.lists = vec![vec![1]];
            c.slots = vec![0];
            c.max_spawn = 2;
        });
        p.w(c, 4, true);
    }
    for b in 1..4u32 {
        let c = cfg(&format!("again after an earlier world {}", b), 0, None, |c| {
            c.twice = true;
            c.before = b;
            c.lists = vec![vec![], vec![0], vec![2, 1, 0]];
        });
        p.w(c, 4, true);
    }
    let c = cfg("again tags", 0, None, |c| {
        c.twice = true;
        c.flags |= fl::TAGS | fl::DESPAWN_COMP;
        c.lists = vec![vec![], vec![0]];
        c.slots = vec![0, 1];
    });
    p.w(c, 5, true);
    let c = cfg("again unmerged", 1, None, |c| {
        c.twice = true;
        c.max_spawn = 2;
    });
    p.w(c, 5, false);
}

/// Which live queries are granted, whatever the route on which the components came into use.
fn locks(p: &mut Plan) {
    let mut add = |name: &str, k: usize, b: Option<Base>, depth: usize, f: &dyn Fn(&mut WCfg)| {
        let c = cfg(&format!("locks {}", name), k, b, |c| {
            c.locks = true;
            c.light = true;
            c.max_spawn = 2;
            c.lists = vec![vec![], vec![0], vec![1, 0]];
            f(c);
        });
        p.w(c, depth, true);
    };
    add("of types", 0, None, 5, &|_| ());
    add("of types, first met in refused calls", 3, None, 4, &|c| {
        c.flags |= fl::REG | fl::ABANDON | fl::DUP | fl::REFUSED;
        c.slots = vec![0, 1];
        c.dup_lists = vec![vec![0, 0], vec![1, 0, 1]];
    });
    add("of types, despawned", 1, None, 5, &|c| { c.flags |= fl::DESPAWN_COMP; c.slots = vec![0, 1] });
    add("of tags", 0, None, 5, &|c| { c.flags |= fl::TAGS | fl::DESPAWN_COMP; c.slots = vec![0]; c.lists = vec![vec![], vec![0]]; c.max_spawn = 3 });
    add("of recycled tags", 0, Some(Box::new(recycled)), 4, &|c| { c.flags |= fl::TAGS | fl::DESPAWN_COMP; c.slots = vec![0]; c.lists = vec![vec![], vec![0]] });
    add("of data components", 4, None, 4, &|c| {
        c.flags |= fl::SPAWN_DATA | fl::DESPAWN_COMP;
        c.data_kinds = vec![R6, ZD::KIND];
        c.data_lists = vec![vec![], vec![0]];
        c.slots = vec![0];
        c.lists = vec![vec![], vec![0]];
    });
    add("of held data components", 4, Some(holders(&[BX::KIND, R6, ZD::KIND], &[&[3, 4], &[5, 4], &[4, 3, 5, 6], &[6]])), 2, &|c| {
        c.flags |= fl::DESPAWN_COMP;
        c.slots = vec![0, 3, 4, 5, 6];
    });
    add("of component entities that hold components", 0, Some(Box::new(selfs)), 3, &|c| {
        c.flags |= fl::TAGS | fl::DESPAWN_COMP;
        c.slots = vec![0, 1];
        c.max_focus = 5;
    });
    for (n, early) in [(62, true), (65, false), (130, true)] {
        add(&format!("wide {}", n), 0, Some(wide(n, 7, early, true)), 2, &|c| { c.max_spawn = 1; c.flags |= fl::DESPAWN_COMP; c.slots = vec![0, 1, 3, 8, 9] });
    }
    add("late 65", 2, Some(late(65)), 3, &|_| ());
}

pub const PROPS: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
];

pub fn plan(prop: &str, deeper: usize) -> Plan {
    let mut p = Plan { jobs: vec![], deeper };
    match prop {
        "C01" => {
            crate::syse::jobs(&mut p);
            structural(&mut p, 0, &|c| c.light = true);
        }
        "C02" => {
            structural(&mut p, 0, &|_| ());
            writes(&mut p, &|_| ());
        }
        "C03" => {
            crate::sysa::jobs(&mut p);
            structural(&mut p, 0, &|c| c.adapt = true);
        }
        "C04" => {
            crate::sysv::jobs(&mut p, 1);
            structural(&mut p, 0, &|c| c.flags |= fl::ABANDON);
            writes(&mut p, &|c| c.light = true);
            comp_despawn(&mut p, &|c| c.light = true, 1);
        }
        "C05" => {
            crate::sysv::jobs(&mut p, 1);
            crate::sysa::jobs(&mut p);
            structural(&mut p, 0, &|c| c.light = false);
            writes(&mut p, &|c| c.light = true);
        }
        "C06" => crate::sysv::jobs(&mut p, 0),
        "C07" => {
            stale(&mut p);
            weathered_with(&mut p, "stale", 2000, &|c| { c.flags |= fl::STALE; c.strip_ops = true; c.direct = vec!["stale"] });
            aged(&mut p, 0, &|c| { c.flags |= fl::STALE; c.strip_ops = true; c.direct = vec!["stale"]; c.slots = vec![0] });
        }
        "C08" => {
            comp_despawn(&mut p, &|_| (), 0);
            aged(&mut p, 0, &|c| c.flags |= fl::DESPAWN_COMP);
            weathered_with(&mut p, "despawn types", 1100, &|c| c.flags |= fl::DESPAWN_COMP);
            weathered_with(&mut p, "despawn tags", 1100, &|c| { c.flags |= fl::TAGS | fl::DESPAWN_COMP; c.slots = vec![0]; c.lists = vec![vec![], vec![0]] });
        }
        "C09" => {
            structural(&mut p, 0, &|c| c.light = true);
            comp_despawn(&mut p, &|c| c.light = true, 1);
        }
        "C10" => {
            crate::sysq::jobs(&mut p);
            locks(&mut p);
        }
        "C11" => {
            building(&mut p);
            weathered_with(&mut p, "building", 68_000, &|c| {
                c.flags = fl::SPAWN | fl::DESPAWN | fl::ABANDON | fl::DUP | fl::TWICE;
                c.dup_lists = vec![vec![0, 0], vec![0, 1, 0]];
                c.variants = vec![0, 2, 4];
                c.strip_ops = true;
                c.direct = vec!["dup"];
            });
        }
        "C12" => {
            bombs(&mut p);
            weathered_with(&mut p, "destructor panics", 68_000, &|c| {
                c.flags |= fl::BOMB | fl::ABANDON;
                c.strip_ops = true;
                c.paths = vec![0, 1];
                c.lists = vec![vec![0], vec![1, 0]];
            });
        }
        "C13" => {
            writes(&mut p, &|_| ());
            structural(&mut p, 1, &|_| ());
            aged(&mut p, 1, &|c| { c.flags |= fl::WRITE; c.paths = vec![0, 1, 2, 3, 4]; c.slots = vec![0] });
            weathered_with(&mut p, "writes", 68_000, &|c| { c.flags |= fl::WRITE; c.paths = vec![0, 1, 2, 3, 4]; c.lists = vec![vec![0], vec![1, 0]] });
        }
        "C14" => {
            types(&mut p);
            weathered_with(&mut p, "types", 1100, &|c| { c.flags |= fl::REG | fl::DESPAWN_COMP; c.max_spawn = 1; c.slots = vec![0, 1, 2] });
            crate::syst::jobs(&mut p);
        }
        "C15" => {
            churn(&mut p);
            soak(&mut p);
            structural(&mut p, 1, &|c| c.light = true);
        }
        "C16" => {
            refused(&mut p);
            weathered_with(&mut p, "refused", 2000, &|c| { c.flags |= fl::REFUSED | fl::VIA; c.strip_ops = true; c.direct = vec!["absent", "refuse"] });
        }
        "C17" => two_worlds(&mut p),
        "C18" => {
            again(&mut p);
            weathered_with(&mut p, "again", 1100, &|c| { c.twice = true; c.flags |= fl::ABANDON; c.lists = vec![vec![], vec![0], vec![1, 0]] });
        }
        _ => panic!("no property {}", prop),
    }
    p
}

/// Which violations speak about a property (given what its systems do).
pub fn relevant(prop: &str, v: &V) -> bool {
    let c = v.class.as_str();
    if ["crash", "hang", "blocked", "memory"].contains(&c) {
        return true;
    }
    let l: &[&str] = match prop {
        "C01" => &["alive", "unique", "despawn-ret", "despawn-dead", "panic-op", "panic-build", "panic-type"],
        "C02" => &["lookup", "value", "absent", "dead-value", "panic-op", "panic-build", "panic-query", "panic-type"],
        "C03" => &["iter", "dyniter", "coliter", "iter-again", "panic-query", "dead-value", "mem", "panic-op", "panic-build"],
        "C04" => &["ledger", "leak", "early", "dead-value", "panic-drop"],
        "C05" => &["mem", "memleak", "dead-value", "panic-drop"],
        "C09" => &["group", "loc", "panic-op", "panic-build"],
        "C13" => &["write", "value", "dead-value", "lookup", "iter", "dyniter", "coliter", "mem", "panic-query"],
        "C15" => &["index", "growth", "memleak", "unique"],
        "C18" => &["nondet"],
        // differential or focused systems: whatever goes wrong there is about the property
        _ => return true,
    };
    l.contains(&c)
}
