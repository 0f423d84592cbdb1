//! Component kinds of many layouts. Every value carries a token that the ledger knows.
use crate::alloc::off;
use crate::ledger::l;
use arche_tape::entity_builder::EntityBuilder;
use arche_tape::{EcsId, World};
use std::alloc::Layout;
use std::any::TypeId;

pub const BAD: u64 = 1 << 40; // content damaged
pub const DEAD: u64 = 1 << 41; // token already destroyed
pub const MISALIGNED: u64 = 1 << 42;

pub trait Tok: Sized + 'static {
    const KIND: usize;
    /// Largest token (0: zero-sized, no token)
    const MAX: usize;
    fn make(v: u32) -> Self;
    /// Token, or BAD|..., or DEAD|token
    fn tok(&self) -> u64;
}

fn chk(k: usize, v: u32) -> u64 {
    if l().is_live(k, v) {
        v as u64
    } else {
        DEAD | v as u64
    }
}

pub fn read_at<T: Tok>(p: *const T) -> u64 {
    let a = std::hint::black_box(p as usize);
    if a == 0 || a % std::mem::align_of::<T>() != 0 {
        return MISALIGNED | a as u64;
    }
    unsafe { (*p).tok() }
}

macro_rules! plain {
    ($name:ident, $k:expr, $max:expr, ($($attr:meta),*), $body:ty, |$v:ident| $mk:expr, |$s:ident| $rd:expr) => {
        $(#[$attr])*
        pub struct $name($body);
        impl Tok for $name {
            const KIND: usize = $k;
            const MAX: usize = $max;
            fn make($v: u32) -> Self {
                l().born($k, $v);
                $name($mk)
            }
            fn tok(&self) -> u64 {
                let $s = &self.0;
                let r: Option<u32> = $rd;
                match r {
                    Some(v) => chk($k, v),
                    None => BAD,
                }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let $s = &self.0;
                let r: Option<u32> = $rd;
                l().died($k, r.unwrap_or(u32::MAX));
            }
        }
    };
}

fn same<T: PartialEq + Copy>(s: &[T]) -> Option<T> {
    if s.iter().all(|x| *x == s[0]) {
        Some(s[0])
    } else {
        None
    }
}

plain!(P4, 0, 8191, (), u32, |v| v ^ 0x5A5A_0000, |s| Some(*s ^ 0x5A5A_0000));
plain!(P1, 1, 255, (), u8, |v| v as u8, |s| Some(*s as u32));
plain!(L24, 3, 8191, (), [u64; 3], |v| [v as u64, !(v as u64), v as u64], |s| if s[0] == !s[1] && s[0] == s[2] { Some(s[0] as u32) } else { None });
plain!(A64, 5, 8191, (repr(align(64))), [u32; 16], |v| [v; 16], |s| same(&s[..]));
plain!(B3, 6, 8191, (), [u8; 3], |v| [v as u8, (v >> 8) as u8, v as u8 ^ 0x77], |s| if s[0] ^ 0x77 == s[2] { Some(s[0] as u32 | (s[1] as u32) << 8) } else { None });
plain!(A16, 7, 8191, (repr(align(16))), [u32; 3], |v| [v; 3], |s| same(&s[..]));
plain!(C12, 8, 8191, (), [u32; 3], |v| [v; 3], |s| same(&s[..]));
plain!(BIG, 11, 8191, (), [u64; 25], |v| [v as u64; 25], |s| same(&s[..]).map(|v| v as u32));
plain!(H2, 12, 8191, (), u16, |v| v as u16, |s| Some(*s as u32));
plain!(Q4, 13, 8191, (), u32, |v| v ^ 0x1234_0000, |s| Some(*s ^ 0x1234_0000));

macro_rules! large {
    ($name:ident, $k:expr, $align:literal, $n:expr) => {
        #[repr(align($align))]
        pub struct $name([u32; $n]);
        impl $name {
            fn word(v: u32, i: usize) -> u32 {
                v ^ (i as u32) << 14
            }
        }
        impl Tok for $name {
            const KIND: usize = $k;
            const MAX: usize = 8191;
            fn make(v: u32) -> Self {
                l().born($k, v);
                let mut a = [0; $n];
                for (i, x) in a.iter_mut().enumerate() {
                    *x = Self::word(v, i);
                }
                $name(a)
            }
            fn tok(&self) -> u64 {
                let v = self.0[0];
                let mut diff = 0;
                for (i, x) in self.0.iter().enumerate() {
                    diff |= *x ^ Self::word(v, i);
                }
                if diff == 0 { chk($k, v) } else { BAD }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let t = self.tok();
                l().died($k, if t & BAD != 0 { u32::MAX } else { t as u32 });
            }
        }
    };
}
// Larger than anything of a fixed size that an implementation might use on the way, and over-aligned
large!(HUG, 15, 256, 768);
// More than 64 KiB
large!(VST, 18, 4096, 17 * 1024);

/// Two different types of the same layout that also have the same name: as types that are local to
/// two blocks have. The module system cannot name them, so they get names through a trait.
pub trait Local {
    type T: Tok;
}
pub struct First;
pub struct Second;
const _: () = {
    plain!(Twin, 16, 8191, (), u32, |v| v ^ 0x0F0F_0000, |s| Some(*s ^ 0x0F0F_0000));
    impl Local for First {
        type T = Twin;
    }
};
const _: () = {
    plain!(Twin, 17, 8191, (), u32, |v| v ^ 0x3300_0000, |s| Some(*s ^ 0x3300_0000));
    impl Local for Second {
        type T = Twin;
    }
};
pub type T1 = <First as Local>::T;
pub type T2 = <Second as Local>::T;

/// Owns heap memory
pub struct BX(Box<[u32; 2]>);
impl Tok for BX {
    const KIND: usize = 2;
    const MAX: usize = 4095;
    fn make(v: u32) -> Self {
        off(|| {
            let b = Box::new([v, !v]);
            l().born(2, v);
            l().set_box(v, &*b as *const _ as usize);
            BX(b)
        })
    }
    fn tok(&self) -> u64 {
        let p = unsafe { *(self as *const BX as *const usize) };
        match l().box_of(p) {
            Some(v) if self.0[0] == v && self.0[1] == !v => v as u64,
            Some(_) => BAD,
            None => DEAD,
        }
    }
}
impl Drop for BX {
    fn drop(&mut self) {
        let p = unsafe { *(self as *const BX as *const usize) };
        match l().box_of(p) {
            Some(v) => {
                l().died(2, v);
            }
            None => {
                l().died(2, u32::MAX);
                // do not free a garbage pointer: replace it by a fresh box
                off(|| unsafe { std::ptr::write(&mut self.0, Box::new([0, 0])) });
            }
        }
    }
}

/// Zero-sized with destructor
pub struct ZD;
impl Tok for ZD {
    const KIND: usize = 4;
    const MAX: usize = 0;
    fn make(_: u32) -> Self {
        l().born(4, 0);
        ZD
    }
    fn tok(&self) -> u64 {
        if l().count[4] > 0 { 0 } else { DEAD }
    }
}
impl Drop for ZD {
    fn drop(&mut self) {
        l().died(4, 0)
    }
}

/// Plain data, no destructor
#[derive(Clone, Copy)]
pub struct N8(u64);
impl Tok for N8 {
    const KIND: usize = 9;
    const MAX: usize = 8191;
    fn make(v: u32) -> Self {
        N8(v as u64 | (!(v as u64)) << 32)
    }
    fn tok(&self) -> u64 {
        let v = self.0 & 0xffff_ffff;
        if (self.0 >> 32) ^ v == 0xffff_ffff { v } else { BAD }
    }
}

/// Over-aligned, zero-sized, with destructor
#[repr(align(32))]
pub struct ZA;
impl Tok for ZA {
    const KIND: usize = 10;
    const MAX: usize = 0;
    fn make(_: u32) -> Self {
        l().born(10, 0);
        ZA
    }
    fn tok(&self) -> u64 {
        if l().count[10] > 0 { 0 } else { DEAD }
    }
}
impl Drop for ZA {
    fn drop(&mut self) {
        l().died(10, 0)
    }
}

/// What an erased kind can do
#[derive(Clone, Copy)]
pub struct Vt {
    pub kind: usize,
    pub name: &'static str,
    pub max: usize,
    pub drops: bool,
    pub layout: Layout,
    pub type_id: fn() -> TypeId,
    pub reg: fn(&mut World) -> EcsId,
    pub add: fn(&mut World, EcsId, u32),
    pub remove: fn(&mut World, EcsId),
    pub has: fn(&World, EcsId) -> bool,
    /// read through a shared / a mutable single-entity query
    pub get: fn(&World, EcsId) -> Option<u64>,
    pub get_mut: fn(&World, EcsId) -> Option<u64>,
    /// overwrite through static queries; returns how many were written
    pub set_get: fn(&World, EcsId, u32) -> bool,
    pub set_iter: fn(&World, EcsId, u32) -> usize,
    /// live queries for reading and for writing
    pub q_ref: fn(&'static World) -> Box<dyn crate::sysq::Open>,
    pub q_mut: fn(&'static World) -> Box<dyn crate::sysq::Open>,
    pub with: for<'a> fn(EntityBuilder<'a>, u32) -> EntityBuilder<'a>,
    pub meta: fn() -> arche_tape::world::ComponentMeta,
    pub make_at: unsafe fn(*mut u8, u32),
    pub read_at: fn(*const u8) -> u64,
    pub set_at: unsafe fn(*mut u8, u32),
    pub drop_fn: fn(*mut std::mem::MaybeUninit<u8>),
    /// typed slices: (address, length), tokens appended
    pub slice: fn(&untyped_vec::UntypedVec, &mut Vec<u64>) -> (usize, usize),
    pub slice_mut: fn(&mut untyped_vec::UntypedVec, &mut Vec<u64>) -> (usize, usize),
}

pub fn vt<T: Tok>(name: &'static str) -> Vt {
    Vt {
        kind: T::KIND,
        name,
        max: T::MAX,
        drops: std::mem::needs_drop::<T>(),
        layout: Layout::new::<T>(),
        type_id: || TypeId::of::<T>(),
        reg: |w| w.get_or_create_type_id_ecsid::<T>(),
        add: |w, e, v| w.add_component(e, T::make(v)),
        remove: |w, e| w.remove_component::<T>(e),
        has: |w, e| w.has_component::<T>(e),
        get: |w, e| {
            let mut q = w.query::<(&T,)>();
            let r = q.get(e).map(|(t,)| read_at(t as *const T));
            r
        },
        get_mut: |w, e| {
            let mut q = w.query::<(arche_tape::EcsIds, &mut T)>();
            let r = q.get(e).map(|(id, t)| {
                if id != e {
                    BAD
                } else {
                    read_at(t as *const T)
                }
            });
            r
        },
        set_get: |w, e, v| {
            let mut q = w.query::<(&mut T,)>();
            match q.get(e) {
                Some((t,)) => {
                    *t = T::make(v);
                    true
                }
                None => false,
            }
        },
        set_iter: |w, e, v| {
            let mut n = 0;
            let mut q = w.query::<(&mut T, arche_tape::EcsIds)>();
            for (t, id) in q.iter() {
                if id == e {
                    *t = T::make(v);
                    n += 1;
                }
            }
            n
        },
        q_ref: |w| Box::new(crate::sysq::SQ(w.query::<(&T,)>(), crate::sysq::rows!())),
        q_mut: |w| Box::new(crate::sysq::SQ(w.query::<(&mut T, arche_tape::EcsIds)>(), crate::sysq::rows!())),
        with: |b, v| b.with(T::make(v)),
        meta: || arche_tape::world::ComponentMeta::from_generic::<T>(),
        make_at: |p, v| unsafe { std::ptr::write(p as *mut T, T::make(v)) },
        read_at: |p| read_at(p as *const T),
        set_at: |p, v| unsafe { *(p as *mut T) = T::make(v) },
        drop_fn: |p| unsafe { std::ptr::drop_in_place(p as *mut T) },
        slice: |u, out| {
            let s = unsafe { u.as_slice::<T>() };
            off(|| out.extend(s.iter().map(|t| read_at(t as *const T))));
            (s.as_ptr() as usize, s.len())
        },
        slice_mut: |u, out| {
            let s = unsafe { u.as_slice_mut::<T>() };
            off(|| out.extend(s.iter().map(|t| read_at(t as *const T))));
            (s.as_ptr() as usize, s.len())
        },
    }
}

/// Raw bytes, size 6 align 2, no destructor: only usable through the handle-based interface.
fn r6() -> Vt {
    Vt {
        kind: 14,
        name: "R6",
        max: 8191,
        drops: false,
        layout: Layout::from_size_align(6, 2).unwrap(),
        meta: || arche_tape::world::ComponentMeta::from_size_align(6, 2),
        make_at: |p, v| unsafe { std::ptr::write(p as *mut [u16; 3], [v as u16, !(v as u16), v as u16]) },
        read_at: |p| {
            let a = std::hint::black_box(p as usize);
            if a == 0 || a % 2 != 0 {
                return MISALIGNED | a as u64;
            }
            let x = unsafe { *(p as *const [u16; 3]) };
            if x[0] == !x[1] && x[0] == x[2] { x[0] as u64 } else { BAD }
        },
        set_at: |p, v| unsafe { *(p as *mut [u16; 3]) = [v as u16, !(v as u16), v as u16] },
        drop_fn: |_| (),
        slice: |_, _| (usize::MAX, usize::MAX),
        slice_mut: |_, _| (usize::MAX, usize::MAX),
        ..vt::<N8>("R6")
    }
}

pub const R6: usize = 14;
pub const NKINDS: usize = 19;

pub fn kinds() -> &'static [Vt; NKINDS] {
    static mut K: Option<[Vt; NKINDS]> = None;
    unsafe {
        let k = &mut *std::ptr::addr_of_mut!(K);
        if k.is_none() {
            *k = Some([
                vt::<P4>("P4"),
                vt::<P1>("P1"),
                vt::<BX>("BX"),
                vt::<L24>("L24"),
                vt::<ZD>("ZD"),
                vt::<A64>("A64"),
                vt::<B3>("B3"),
                vt::<A16>("A16"),
                vt::<C12>("C12"),
                vt::<N8>("N8"),
                vt::<ZA>("ZA"),
                vt::<BIG>("BIG"),
                vt::<H2>("H2"),
                vt::<Q4>("Q4"),
                r6(),
                vt::<HUG>("HUG"),
                vt::<T1>("T1"),
                vt::<T2>("T2"),
                vt::<VST>("VST"),
            ]);
            assert!(std::any::type_name::<T1>() == std::any::type_name::<T2>());
            for (i, v) in k.as_ref().unwrap().iter().enumerate() {
                assert!(v.kind == i);
            }
        }
        k.as_ref().unwrap()
    }
}
