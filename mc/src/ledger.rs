//! Which component values exist. No allocation on any path (called from inside the code under test).
pub const NK: usize = 19;
pub const MAXV: usize = 8192;

pub struct Ledger {
    live: [[bool; MAXV]; NK],
    boxes: [usize; MAXV],
    pub count: [i64; NK],
    next: [usize; NK],
    used: [usize; NK],
    pub errs: usize,
    pub err: [(u8, u8, u32); 8], // (what, kind, value)
    pub bomb: Option<(usize, u32)>,
    pub births: u64,
    pub deaths: u64,
    /// in which order values were destroyed
    pub order: u64,
}

pub static mut L: Ledger = Ledger {
    live: [[false; MAXV]; NK],
    boxes: [0; MAXV],
    count: [0; NK],
    next: [1; NK],
    used: [0; NK],
    errs: 0,
    err: [(0, 0, 0); 8],
    bomb: None,
    births: 0,
    deaths: 0,
    order: 0,
};

pub fn l() -> &'static mut Ledger {
    unsafe { &mut *std::ptr::addr_of_mut!(L) }
}

impl Ledger {
    pub fn reset(&mut self) {
        for k in 0..NK {
            let n = self.used[k] + 1;
            for b in &mut self.live[k][..n.min(MAXV)] {
                *b = false;
            }
            self.used[k] = 0;
            self.count[k] = 0;
            self.next[k] = 1;
        }
        self.errs = 0;
        self.order = 0;
        self.bomb = None;
    }
    /// A value of this kind that no living component has.
    pub fn fresh(&mut self, k: usize, max: usize) -> u32 {
        let max = max.min(MAXV - 1);
        for _ in 0..=max {
            let v = self.next[k];
            self.next[k] = if v >= max { 1 } else { v + 1 };
            if !self.live[k][v] {
                return v as u32;
            }
        }
        panic!("harness: out of values for kind {}", k)
    }
    pub fn born(&mut self, k: usize, v: u32) {
        self.births += 1;
        self.count[k] += 1;
        if v != 0 {
            self.live[k][v as usize] = true;
            self.used[k] = self.used[k].max(v as usize);
        }
    }
    pub fn died(&mut self, k: usize, v: u32) {
        self.deaths += 1;
        self.order = (self.order ^ ((k as u64) << 32 | v as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        if v == 0 {
            self.count[k] -= 1;
            if self.count[k] < 0 {
                self.count[k] = 0;
                self.bad(1, k, v);
            }
        } else if (v as usize) < MAXV && self.live[k][v as usize] {
            self.live[k][v as usize] = false;
            self.count[k] -= 1;
        } else {
            self.bad(1, k, v);
        }
        crate::sys::point(false);
        if self.bomb == Some((k, v)) {
            self.bomb = None;
            panic!("BOMB");
        }
    }
    pub fn is_live(&self, k: usize, v: u32) -> bool {
        (v as usize) < MAXV && self.live[k][v as usize]
    }
    pub fn set_box(&mut self, v: u32, p: usize) {
        self.boxes[v as usize] = p;
    }
    pub fn box_of(&self, p: usize) -> Option<u32> {
        let n = self.used[2];
        (1..=n).find(|&v| self.live[2][v] && self.boxes[v] == p).map(|v| v as u32)
    }
    fn bad(&mut self, w: u8, k: usize, v: u32) {
        if self.errs < 8 {
            self.err[self.errs] = (w, k as u8, v);
        }
        self.errs += 1;
    }
}
