//! Non-initial states from which histories are explored: each sits next to a size threshold of the
//! implementation (bit set words, cache size, vector growth, free list, id tables).
use crate::kinds::*;
use crate::sysw::*;

pub type Base = Box<dyn Fn(&mut Wx)>;

/// Free list with several entries in scrambled order; one live focus entity.
pub fn recycled(x: &mut Wx) {
    let mut v = vec![];
    for l in [&[][..], &[0], &[0, 1], &[]] {
        v.push(x.do_spawn(l, 0, None));
    }
    for i in [1usize, 2, 0] {
        if let Some(e) = v[i] {
            x.do_despawn(e);
        }
    }
    if let Some(e) = v[3] {
        x.foc.push(e);
    }
}

/// `n` plain entities exist before the first type is mentioned, every other one is despawned.
pub fn late(n: usize) -> Base {
    Box::new(move |x| {
        let mut v = vec![];
        for _ in 0..n {
            v.push(x.do_spawn(&[], 0, None));
            if x.bad() {
                return;
            }
        }
        let v: Vec<usize> = v.into_iter().flatten().collect();
        for i in (0..n).step_by(2) {
            x.do_despawn(v[i]);
            if x.bad() {
                return;
            }
        }
        x.foc.push(v[1]);
        x.foc.push(v[n - 1 - (n + 1) % 2]);
    })
}

/// `n` entities with the same components; the first, a middle and the last are in focus.
pub fn tall(n: usize, list: &'static [u8]) -> Base {
    Box::new(move |x| {
        let mut v = vec![];
        for _ in 0..n {
            match x.do_spawn(list, 0, None) {
                Some(e) => v.push(e),
                None => return,
            }
            if x.bad() {
                return;
            }
        }
        x.foc.push(v[0]);
        if n > 2 {
            x.foc.push(v[n / 2]);
        }
        if n > 1 {
            x.foc.push(v[n - 1]);
        }
    })
}

/// Component sets are created from subsets of `k` tags until `n` of them exist.
/// `early`: the types of the palette are in use before that. `hold`: entities stay alive.
pub fn wide(n: usize, k: usize, early: bool, hold: bool) -> Base {
    Box::new(move |x| {
        for _ in 0..k {
            match x.do_spawn(&[], 0, None) {
                Some(e) => x.pre.push(e),
                None => return,
            }
        }
        let mut made = 1;
        if early {
            for l in [&[0u8][..], &[0, 1], &[2]] {
                match x.do_spawn(l, 0, None) {
                    Some(e) => x.foc.push(e),
                    None => return,
                }
                made += 1;
            }
        }
        let mut s = 1usize;
        let mut last = None;
        while made < n {
            let list: Vec<u8> = (0..k).filter(|b| s >> b & 1 == 1).map(|b| 3 + b as u8).collect();
            s += 1;
            match x.do_spawn(&list, 0, None) {
                Some(e) => {
                    if hold {
                        last = Some(e);
                    } else {
                        x.do_despawn(e);
                    }
                }
                None => return,
            }
            // spawning with several components creates every prefix set first
            made += 1;
            if x.bad() {
                return;
            }
        }
        if let Some(e) = last {
            x.foc.push(e);
        }
        match x.do_spawn(&[], 0, None) {
            Some(e) => x.foc.push(e),
            None => {}
        }
    })
}

/// `n` tags have been added to and removed from the focus entity (and again, `rounds` times).
pub fn fan(n: usize, rounds: usize) -> Base {
    Box::new(move |x| {
        for _ in 0..n {
            match x.do_spawn(&[], 0, None) {
                Some(e) => x.pre.push(e),
                None => return,
            }
        }
        let f = match x.do_spawn(&[0], 0, None) {
            Some(f) => f,
            None => return,
        };
        x.foc.push(f);
        for _ in 0..rounds {
            for t in 0..n {
                x.do_add(f, 3 + t, false);
                if x.bad() {
                    return;
                }
                x.do_remove(f, 3 + t, false);
                if x.bad() {
                    return;
                }
            }
        }
    })
}

/// One entity has had every set of up to three of `k` tags, so that all of the steps there are known;
/// the last ones of them have been taken twice.
pub fn triples(k: usize) -> Base {
    Box::new(move |x| {
        for _ in 0..k {
            match x.do_spawn(&[], 0, None) {
                Some(e) => x.pre.push(e),
                None => return,
            }
        }
        let f = match x.do_spawn(&[], 0, None) {
            Some(f) => f,
            None => return,
        };
        x.foc.push(f);
        for (i, from) in (0..k).rev().map(|i| (i, k)).chain((0..3).map(|i| (i, 8))) {
            x.do_add(f, 3 + i, false);
            for j in (i + 1..from).rev() {
                x.do_add(f, 3 + j, false);
                for l in (j + 1..from).rev() {
                    x.do_add(f, 3 + l, false);
                    if x.bad() {
                        return;
                    }
                    x.do_remove(f, 3 + l, false);
                    if x.bad() {
                        return;
                    }
                }
                x.do_remove(f, 3 + j, false);
            }
            x.do_remove(f, 3 + i, false);
        }
    })
}

/// `n` entities, of which `d` are despawned again.
pub fn many(n: usize, d: usize) -> Base {
    Box::new(move |x| {
        let mut v = vec![];
        for i in 0..n {
            match x.do_spawn(if i % 64 == 0 { &[0] } else { &[] }, 0, None) {
                Some(e) => v.push(e),
                None => return,
            }
            if x.bad() {
                return;
            }
        }
        for i in 0..d {
            x.do_despawn(v[i]);
            if x.bad() {
                return;
            }
        }
        x.foc.push(v[n - 1]);
        x.foc.push(v[n - 2]);
    })
}

/// Component entities: a tag, a data component of each kind, held by a few entities.
pub fn holders(kinds: &'static [usize], lists: &'static [&'static [u8]]) -> Base {
    Box::new(move |x| {
        match x.do_spawn(&[], 0, None) {
            Some(e) => x.pre.push(e),
            None => return,
        }
        for &k in kinds {
            match x.do_spawn(&[], 0, Some(k)) {
                Some(e) => x.pre.push(e),
                None => return,
            }
        }
        for l in lists {
            match x.do_spawn(l, 0, None) {
                Some(e) => x.foc.push(e),
                None => return,
            }
            if x.bad() {
                return;
            }
        }
    })
}

/// Component entities (of a type and with data) that are themselves used like any other entity.
pub fn selfs(x: &mut Wx) {
    for k in [x.cfg.palette[0], x.cfg.palette[1]] {
        match x.learn(k) {
            Some(c) => x.foc.push(c),
            None => return,
        }
    }
    match x.do_spawn(&[0], 0, Some(BX::KIND)) {
        Some(c) => x.foc.push(c),
        None => return,
    }
    match x.do_spawn(&[1, 0], 0, None) {
        Some(e) => x.foc.push(e),
        None => {}
    }
}

/// `n` prepared component entities: tags and several kinds of data, in turn.
pub fn heavy(n: usize) -> Base {
    Box::new(move |x| {
        let k = [None, Some(BX::KIND), Some(R6), Some(ZD::KIND), Some(N8::KIND), Some(A64::KIND), Some(B3::KIND)];
        for i in 0..n {
            match x.do_spawn(&[], 0, k[i % k.len()]) {
                Some(e) => x.pre.push(e),
                None => return,
            }
        }
    })
}

/// `n` component entities have been used, each with its own component set; the last two are prepared.
/// `hold`: an entity stays behind in each of those sets.
pub fn comps(n: usize, hold: bool) -> Base {
    Box::new(move |x| {
        let f = match x.do_spawn(&[0], 0, None) {
            Some(f) => f,
            None => return,
        };
        x.foc.push(f);
        for i in 0..n {
            match x.do_spawn(&[], 0, if i % 3 == 1 { Some(R6) } else { None }) {
                Some(e) => x.pre.push(e),
                None => return,
            }
            let last = x.pre.len() - 1;
            if hold {
                if x.do_spawn(&[3 + last as u8], 0, None).is_none() {
                    return;
                }
            } else {
                x.do_add(f, 3 + last, false);
                if x.bad() {
                    return;
                }
                x.do_remove(f, 3 + last, false);
            }
            if x.bad() {
                return;
            }
            if i + 2 < n {
                x.pre.pop();
            }
        }
    })
}

/// Every kind that is a Rust type is registered and prepared (slots 3..), in order or backwards.
pub fn all_types(backwards: bool) -> Base {
    Box::new(move |x| {
        let mut ks: Vec<usize> = (0..NKINDS).filter(|&k| k != R6).collect();
        if backwards {
            ks.reverse();
        }
        for k in ks {
            match x.learn(k) {
                Some(c) => x.pre.push(c),
                None => return,
            }
        }
    })
}

/// Entities nobody touches: `n` of each of a few archetypes, none of them in focus. With `tags` some
/// of the components are plain entities too.
pub fn settled(n: usize, tags: bool) -> Base {
    Box::new(move |x| {
        // their indices are in no particular order
        let v: Vec<usize> = (0..8 * n).filter_map(|_| x.do_spawn(&[], 0, None)).collect();
        for i in 0..v.len() {
            x.do_despawn(v[i * 5 % v.len()]);
        }
        for _ in 0..n {
            for l in [&[0u8][..], &[], &[1, 0], &[], &[1], &[2, 0, 1]] {
                if x.do_spawn(l, 0, None).is_none() || x.bad() {
                    return;
                }
            }
        }
        // and some have been elsewhere
        for (i, l) in [&[0u8][..], &[1, 0], &[]].iter().enumerate() {
            if let Some(e) = x.do_spawn(l, 0, None) {
                if i == 0 {
                    x.do_add(e, 1, false);
                    x.do_remove(e, 0, false);
                } else {
                    x.do_add(e, 2, false);
                    x.do_remove(e, 2, false);
                }
            }
        }
        if tags {
            let t: Vec<usize> = (0..3).filter_map(|_| x.do_spawn(&[], 0, None)).collect();
            x.pre.extend(&t);
            for l in [&[3u8][..], &[0, 4], &[5, 3, 1]] {
                if x.do_spawn(l, 0, None).is_none() || x.bad() {
                    return;
                }
            }
        }
    })
}

/// The same, and some entities in focus among them.
pub fn among(n: usize) -> Base {
    let s = settled(n, false);
    Box::new(move |x| {
        for l in [&[0u8][..], &[0, 1]] {
            if let Some(e) = x.do_spawn(l, 0, None) {
                x.foc.push(e);
            }
        }
        s(x);
    })
}
