//! Level-synchronous exhaustive exploration of operation histories of a `Sys`, executed on the real
//! code in forked single-threaded worker processes.
use crate::sys::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V {
    pub class: String,
    pub text: String,
}

#[derive(Default)]
pub struct Node {
    pub viols: Vec<V>,
    /// canonical form of the reached state
    pub key: u64,
    /// hash of everything observed (used by the determinism check)
    pub obs: u64,
    /// operations enabled in the reached state, simplest first
    pub enabled: Vec<u32>,
    /// checks (comparisons) made at this node
    pub checks: u64,
}

pub trait Sys {
    fn name(&self) -> String;
    /// Execute the whole history on a fresh system, then evaluate every oracle.
    fn run(&self, ops: &[u32]) -> Node;
    fn show(&self, ops: &[u32]) -> Vec<String>;
    /// Differential attribution: a violation only counts if none of these histories has one.
    fn strips(&self, _ops: &[u32]) -> Vec<Vec<u32>> {
        vec![]
    }
    /// Violations that count without that comparison.
    fn direct(&self, _v: &V) -> bool {
        false
    }
}

pub type Relevant<'a> = &'a dyn Fn(&V) -> bool;

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub histories: u64,
    pub checks: u64,
    pub pruned: u64,
    /// maximal histories (not extended further)
    pub leaves: u64,
    pub foreign: u64,
    pub depth: usize,
    pub capped: Option<String>,
    pub samples: Vec<String>,
    pub per_level: Vec<(u64, u64)>,
}

pub struct Found {
    pub sys: String,
    pub ops: Vec<u32>,
    pub shown: Vec<String>,
    pub viols: Vec<V>,
    /// histories that have to run in the process before (worlds that lived and died)
    pub prior: Vec<Vec<u32>>,
}

pub enum Outcome {
    Ok(Stats),
    Violation(Found, Stats),
    Error(String),
}

#[derive(Clone)]
pub struct Opts {
    pub depth: usize,
    pub merge: bool,
    pub workers: usize,
    /// hard cap on executed histories (reported when hit)
    pub cap: u64,
    /// no new level starts after this
    pub deadline: Option<Instant>,
    /// a level in progress stops after this
    pub hard: Option<Instant>,
}

struct Shared {
    base: *mut u8,
}
const MAXW: usize = 64;
const OUT: usize = 1 << 29;
const TXT: usize = 1 << 20;
impl Shared {
    fn new(workers: usize) -> Shared {
        Shared { base: shared(65536 + workers * (OUT + TXT)) }
    }
    fn free(&self, workers: usize) {
        unsafe { munmap(self.base, 65536 + workers * (OUT + TXT)) };
    }
    fn next(&self) -> &AtomicUsize {
        unsafe { &*(self.base as *const AtomicUsize) }
    }
    fn stop(&self) -> &AtomicUsize {
        unsafe { &*(self.base.add(64) as *const AtomicUsize) }
    }
    fn slot(&self, w: usize) -> &AtomicI64 {
        unsafe { &*(self.base.add(4096 + w * 64) as *const AtomicI64) }
    }
    fn outlen(&self, w: usize) -> &AtomicUsize {
        unsafe { &*(self.base.add(4096 + w * 64 + 8) as *const AtomicUsize) }
    }
    fn txtlen(&self, w: usize) -> &AtomicUsize {
        unsafe { &*(self.base.add(4096 + w * 64 + 16) as *const AtomicUsize) }
    }
    fn foreign(&self, w: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(4096 + w * 64 + 24) as *const AtomicU64) }
    }
    fn checks(&self, w: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(4096 + w * 64 + 32) as *const AtomicU64) }
    }
    fn tick(&self, w: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(4096 + w * 64 + 40) as *const AtomicU64) }
    }
    fn out(&self, w: usize) -> *mut u32 {
        unsafe { self.base.add(65536 + w * (OUT + TXT)) as *mut u32 }
    }
    #[allow(clippy::mut_from_ref)]
    fn again(&self, w: usize) -> &mut u64 {
        unsafe { &mut *(self.txt(w).add(64) as *mut u64) }
    }
    #[allow(clippy::mut_from_ref)]
    fn again_list(&self, w: usize) -> &mut [u64; 4] {
        unsafe { &mut *(self.txt(w).add(72) as *mut [u64; 4]) }
    }
    /// The last tasks of a worker
    #[allow(clippy::mut_from_ref)]
    fn ring(&self, w: usize) -> &mut Ring {
        unsafe { &mut *(self.txt(w).add(4096) as *mut Ring) }
    }
    fn txt(&self, w: usize) -> *mut u8 {
        unsafe { self.base.add(65536 + w * (OUT + TXT) + OUT) }
    }
}

const RING: usize = 512;
#[repr(C)]
struct Ring {
    n: u64,
    tasks: [u64; RING],
}

impl Ring {
    fn push(&mut self, t: usize) {
        self.tasks[self.n as usize % RING] = t as u64;
        self.n += 1;
    }
    /// What ran before the last one, in order
    fn before(&self) -> Vec<usize> {
        let end = (self.n as usize).saturating_sub(1);
        (end.saturating_sub(RING - 1)..end).map(|i| self.tasks[i % RING] as usize).collect()
    }
}

fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

/// Run harness code in this (worker) process; a harness panic ends it with EXIT_HARNESS.
fn guarded<R>(f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => exit_now(EXIT_HARNESS),
    }
}

pub fn describe_exit(status: i32) -> (String, String) {
    if status & 0x7f != 0 {
        let sig = status & 0x7f;
        let n = match sig {
            4 => "SIGILL",
            6 => "SIGABRT (abort: undefined behaviour check or panic that cannot unwind)",
            7 => "SIGBUS",
            8 => "SIGFPE",
            11 => "SIGSEGV",
            _ => "signal",
        };
        ("crash".into(), format!("the process died with {} ({})", n, sig))
    } else {
        match (status >> 8) & 0xff {
            EXIT_BLOCKED => ("blocked".into(), "the call blocks for ever on a lock".into()),
            EXIT_MEMORY => ("memory".into(), "unbounded memory growth (over 512 MiB)".into()),
            c => ("exit".into(), format!("exit code {}", c)),
        }
    }
}

/// Run one history in a fresh child (`repeat` times, reporting the last run).
pub fn isolated(sys: &dyn Sys, ops: &[u32], repeat: usize) -> Result<Node, (String, String)> {
    isolated_after(sys, &[], ops, repeat)
}

/// The same in a process in which other histories have run before.
pub fn isolated_after(sys: &dyn Sys, prior: &[Vec<u32>], ops: &[u32], repeat: usize) -> Result<Node, (String, String)> {
    let sh = shared(TXT + 64);
    let len = unsafe { &*(sh as *const AtomicUsize) };
    len.store(usize::MAX, SeqCst);
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        die_with_parent();
        unsafe { TRAP_FUTEX = true };
        for p in prior {
            guarded(|| sys.run(p));
        }
        let mut n = guarded(|| sys.run(ops));
        for _ in 1..repeat {
            n = guarded(|| sys.run(ops));
        }
        let s = format!(
            "{}\u{3}{}\u{3}{}\u{3}{}",
            enc(&n.viols),
            n.key,
            n.checks,
            n.enabled.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        );
        assert!(s.len() < TXT);
        let b = s.as_bytes();
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), sh.add(64), b.len()) };
        len.store(b.len(), SeqCst);
        exit_now(0);
    }
    let t0 = Instant::now();
    let mut status = 0;
    let r = loop {
        let r = unsafe { waitpid(pid, &mut status, WNOHANG) };
        if r == pid {
            let n = len.load(SeqCst);
            if status == 0 && n != usize::MAX {
                let b = unsafe { std::slice::from_raw_parts(sh.add(64), n) };
                let t = String::from_utf8_lossy(b).to_string();
                let f: Vec<&str> = t.split('\u{3}').collect();
                break Ok(Node {
                    viols: dec(f[0]),
                    key: f[1].parse().unwrap(),
                    obs: 0,
                    checks: f[2].parse().unwrap(),
                    enabled: f[3].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                });
            }
            break Err(describe_exit(status));
        }
        if t0.elapsed() > Duration::from_secs(if prior.is_empty() { 20 } else { 40 }) {
            unsafe {
                kill(pid, 9);
                waitpid(pid, &mut status, 0);
            }
            break Err(("hang".into(), "the history does not terminate (20 s)".into()));
        }
        unsafe { usleep(if t0.elapsed().as_millis() < 20 { 100 } else { 5000 }) };
    };
    unsafe { munmap(sh, TXT + 64) };
    r
}

fn enc(v: &[V]) -> String {
    v.iter().map(|v| format!("{}\u{1}{}", v.class, v.text)).collect::<Vec<_>>().join("\u{2}")
}
fn dec(s: &str) -> Vec<V> {
    s.split('\u{2}')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let mut p = x.splitn(2, '\u{1}');
            V { class: p.next().unwrap_or("").into(), text: p.next().unwrap_or("").into() }
        })
        .collect()
}

/// Violations of `ops` that count.
fn judge(sys: &dyn Sys, ops: &[u32], viols: &[V], relevant: Relevant) -> Vec<V> {
    let rel: Vec<V> = viols.iter().filter(|v| relevant(v)).cloned().collect();
    if rel.is_empty() || rel.iter().any(|v| sys.direct(v)) {
        return rel;
    }
    for s in sys.strips(ops) {
        if s == ops || sys.run(&s).viols.iter().any(|v| relevant(v)) {
            return vec![];
        }
    }
    rel
}

fn relevant_any(viols: &[V], relevant: Relevant) -> bool {
    viols.iter().any(|v| relevant(v))
}

struct Front {
    hist: Vec<u32>,
    enabled: Vec<u32>,
}

pub enum Verdict {
    Confirmed(Vec<V>),
    /// reproducible, but not attributable to what this check is about
    Foreign,
    Unreproducible(String),
    Harness(String),
}

/// Replay a history in fresh processes (twice) before believing it.
pub fn confirm(sys: &dyn Sys, ops: &[u32], relevant: Relevant) -> Verdict {
    // nondeterminism does not have to show every time
    let mut nondet = None;
    for _ in 0..12 {
        match isolated(sys, ops, 1) {
            Ok(n) => {
                let v: Vec<V> = n.viols.iter().filter(|v| v.class == "nondet" && relevant(v)).cloned().collect();
                if !v.is_empty() {
                    nondet = Some(v);
                } else if nondet.is_none() && !n.viols.is_empty() {
                    break;
                }
            }
            Err(_) => break,
        }
    }
    if let Some(v) = nondet {
        return Verdict::Confirmed(v);
    }
    for repeat in [1usize, 2, 3] {
        let mut got: Vec<Vec<V>> = vec![];
        for _ in 0..2 {
            match isolated(sys, ops, repeat) {
                Ok(n) => got.push(n.viols.into_iter().filter(|v| relevant(v)).collect()),
                Err((c, t)) => {
                    if c == "exit" {
                        return Verdict::Harness(format!("harness failure ({}) in {} {:?}", t, sys.name(), sys.show(ops)));
                    }
                    let v = V { class: c, text: t };
                    got.push(if relevant(&v) { vec![v] } else { vec![] });
                }
            }
        }
        if got.iter().any(|g| g.is_empty()) {
            continue;
        }
        if got.iter().all(|g| g.iter().any(|v| sys.direct(v))) {
            return Verdict::Confirmed(got.pop().unwrap());
        }
        for s in sys.strips(ops) {
            if s == ops {
                return Verdict::Foreign;
            }
            match isolated(sys, &s, repeat) {
                Ok(n) if n.viols.iter().any(|v| relevant(v)) => return Verdict::Foreign,
                Err((c, _)) if c != "exit" => return Verdict::Foreign,
                _ => {}
            }
        }
        return Verdict::Confirmed(got.pop().unwrap());
    }
    // behaviour that depends on addresses or random seeds does not have to show every time
    if sys.strips(ops).is_empty() {
        let mut last = None;
        let mut n = 0;
        for _ in 0..24 {
            if let Ok(x) = isolated(sys, ops, 1) {
                let v: Vec<V> = x.viols.into_iter().filter(|v| relevant(v)).collect();
                if !v.is_empty() {
                    n += 1;
                    last = Some(v);
                }
            }
        }
        if n >= 2 {
            return Verdict::Confirmed(last.unwrap());
        }
    }
    Verdict::Unreproducible(format!("not reproducible: {} {:?}", sys.name(), sys.show(ops)))
}

/// Does the history violate the property in a process in which these others have run before? Gives as
/// few of them as suffice.
pub fn confirm_after(sys: &dyn Sys, prior: &[Vec<u32>], ops: &[u32], relevant: Relevant) -> Option<(Vec<Vec<u32>>, Vec<V>)> {
    let try_with = |prior: &[Vec<u32>]| -> Option<Vec<V>> {
        let viols = |prior: &[Vec<u32>], ops: &[u32]| -> Vec<V> {
            match isolated_after(sys, prior, ops, 1) {
                Ok(n) => n.viols.into_iter().filter(|v| relevant(v)).collect(),
                // (also when one of the prior histories does not survive)
                Err((c, _)) if c == "exit" => vec![],
                Err((c, t)) => vec![V { class: c, text: t }].into_iter().filter(|v| relevant(v)).collect(),
            }
        };
        let v = viols(prior, ops);
        if v.is_empty() || viols(prior, ops).is_empty() {
            return None;
        }
        if v.iter().any(|v| sys.direct(v)) {
            return Some(v);
        }
        for s in sys.strips(ops) {
            if s == ops || !viols(prior, &s).is_empty() {
                return None;
            }
        }
        Some(v)
    };
    let t0 = Instant::now();
    let mut k = 1;
    let (mut best, mut v) = loop {
        let p = &prior[prior.len().saturating_sub(k)..];
        if let Some(v) = try_with(p) {
            break (p.to_vec(), v);
        }
        if k >= prior.len() || t0.elapsed() > Duration::from_secs(60) {
            return None;
        }
        k *= 4;
    };
    // fewer
    let mut size = best.len() / 2;
    while size > 0 && t0.elapsed() < Duration::from_secs(90) {
        let mut i = 0;
        while i + size <= best.len() && t0.elapsed() < Duration::from_secs(90) {
            let mut p = best.clone();
            p.drain(i..i + size);
            match try_with(&p) {
                Some(w) => {
                    best = p;
                    v = w;
                }
                None => i += size,
            }
        }
        size /= 2;
    }
    Some((best, v))
}

pub fn explore(sys: &dyn Sys, relevant: Relevant, o: &Opts) -> Outcome {
    let mut st = Stats { depth: 0, ..Stats::default() };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut unreproduced: Option<String> = None;
    macro_rules! decide {
        ($h:expr, $prior:expr) => {
            match confirm(sys, &$h, relevant) {
                Verdict::Confirmed(v) => {
                    let shown = sys.show(&$h);
                    return Outcome::Violation(Found { sys: sys.name(), ops: $h.clone(), shown, viols: v, prior: vec![] }, st);
                }
                Verdict::Foreign => st.foreign += 1,
                Verdict::Unreproducible(e) => match confirm_after(sys, &$prior, &$h, relevant) {
                    Some((prior, viols)) => {
                        let shown = sys.show(&$h);
                        return Outcome::Violation(Found { sys: sys.name(), ops: $h.clone(), shown, viols, prior }, st);
                    }
                    None => unreproduced = Some(e),
                },
                Verdict::Harness(e) => return Outcome::Error(e),
            }
        };
    }
    // the initial state
    let root: Vec<u32> = vec![];
    let n0 = match isolated(sys, &root, 1) {
        Ok(n) if n.viols.is_empty() => n,
        r => {
            if let Err((c, t)) = &r {
                if c == "exit" {
                    return Outcome::Error(format!("harness failure ({}) in base of {}", t, sys.name()));
                }
            }
            let rel = match &r {
                Ok(n) => n.viols.iter().any(|v| relevant(v) && (sys.strips(&root).is_empty() || sys.direct(v))),
                Err(_) => sys.strips(&root).is_empty(),
            };
            if rel {
                decide!(root, Vec::<Vec<u32>>::new());
            }
            st.foreign += 1;
            return match unreproduced {
                Some(e) => Outcome::Error(e),
                None => Outcome::Ok(st),
            };
        }
    };
    seen.insert(n0.key);
    st.states = 1;
    st.histories = 1;
    st.checks += n0.checks;
    let mut frontier = vec![Front { hist: vec![], enabled: n0.enabled }];
    let w = o.workers.clamp(1, MAXW - 1);
    for level in 1..=o.depth {
        // tasks of this level
        let mut starts = Vec::with_capacity(frontier.len() + 1);
        let mut total = 0usize;
        for f in &frontier {
            starts.push(total);
            total += f.enabled.len();
        }
        starts.push(total);
        if total == 0 {
            break;
        }
        if st.histories + total as u64 > o.cap {
            st.capped = Some(format!(
                "level {} ({} histories) not started: cap of {} histories",
                level, total, o.cap
            ));
            st.leaves += frontier.len() as u64;
            break;
        }
        if let Some(d) = o.deadline {
            if Instant::now() > d {
                st.capped = Some(format!("level {} ({} histories) not started: time budget", level, total));
                st.leaves += frontier.len() as u64;
                break;
            }
        }
        let last = level == o.depth;
        let hist_of = |t: usize| -> Vec<u32> {
            let i = match starts.binary_search(&t) {
                Ok(mut i) => {
                    while starts[i + 1] == t {
                        i += 1;
                    }
                    i
                }
                Err(i) => i - 1,
            };
            let mut h = frontier[i].hist.clone();
            h.push(frontier[i].enabled[t - starts[i]]);
            h
        };
        let nw = w.min(total.div_ceil(16)).max(1);
        let mut skip: HashSet<usize> = HashSet::new();
        let sh = 'retry: loop {
        let sh = Shared::new(nw);
        let mut pids = vec![0i32; nw];
        for k in 0..nw {
            sh.slot(k).store(-1, SeqCst);
            let pid = unsafe { fork() };
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                die_with_parent();
                unsafe { TRAP_FUTEX = true };
                guarded(|| worker(sys, relevant, &sh, k, total, &hist_of, last, &skip, o.hard));
                exit_now(0);
            }
            pids[k] = pid;
        }
        // supervise
        let mut alive = nw;
        let mut suspects: Vec<(usize, String, String)> = vec![];
        let mut ticks = vec![(0u64, Instant::now()); nw];
        let mut done = vec![false; nw];
        let t0 = Instant::now();
        while alive > 0 {
            for k in 0..nw {
                if done[k] {
                    continue;
                }
                let mut status = 0;
                let r = unsafe { waitpid(pids[k], &mut status, WNOHANG) };
                if r == pids[k] {
                    done[k] = true;
                    alive -= 1;
                    if status != 0 {
                        let (c, t) = describe_exit(status);
                        suspects.push((sh.slot(k).load(SeqCst).max(0) as usize, c, t));
                        sh.stop().store(1, SeqCst);
                    }
                    continue;
                }
                let t = sh.tick(k).load(Relaxed);
                if t != ticks[k].0 {
                    ticks[k] = (t, Instant::now());
                } else if ticks[k].1.elapsed() > Duration::from_secs(15) {
                    unsafe {
                        kill(pids[k], 9);
                        waitpid(pids[k], &mut status, 0);
                    }
                    done[k] = true;
                    alive -= 1;
                    suspects.push((
                        sh.slot(k).load(SeqCst).max(0) as usize,
                        "hang".into(),
                        "no progress for 15 s".into(),
                    ));
                    sh.stop().store(1, SeqCst);
                }
            }
            if alive > 0 {
                unsafe { usleep(if t0.elapsed().as_millis() < 50 { 200 } else { 3000 }) };
            }
        }
        // collect
        let mut found: Vec<usize> = vec![];
        let prior_of = |t: usize| -> Vec<Vec<u32>> {
            let k = (0..nw).find(|&k| sh.slot(k).load(SeqCst) == t as i64);
            k.map_or(vec![], |k| sh.ring(k).before().into_iter().map(&hist_of).collect())
        };
        for k in 0..nw {
            let n = sh.txtlen(k).load(SeqCst);
            if n == 8 {
                found.push(unsafe { *(sh.txt(k) as *const u64) } as usize);
            }
        }
        found.sort_unstable();
        suspects.sort();
        let mut again = false;
        for t in found.iter() {
            let h = hist_of(*t);
            decide!(h, prior_of(*t));
            skip.insert(*t);
            again = true;
        }
        for (t, c, x) in suspects.iter() {
            let h = hist_of(*t);
            if c == "exit" {
                return Outcome::Error(format!("harness failure ({}) in {} {:?}", x, sys.name(), sys.show(&h)));
            }
            decide!(h, prior_of(*t));
            skip.insert(*t);
            again = true;
        }
        if again {
            sh.free(nw);
            if skip.len() > 200 {
                st.capped = Some(format!("level {}: too many histories that crash for other reasons", level));
                return match unreproduced {
                    Some(e) => Outcome::Error(e),
                    None => Outcome::Ok(st),
                };
            }
            continue 'retry;
        }
        for k in 0..nw {
            let n = *sh.again(k) as usize;
            for &t in &sh.again_list(k)[..n] {
                let h = hist_of(t as usize);
                if let Verdict::Confirmed(v) = confirm(sys, &h, relevant) {
                    let shown = sys.show(&h);
                    return Outcome::Violation(Found { sys: sys.name(), ops: h, shown, viols: v, prior: vec![] }, st);
                }
            }
        }
        for k in 0..nw {
            st.foreign += sh.foreign(k).load(SeqCst);
            st.checks += sh.checks(k).load(SeqCst);
        }
        break sh;
        };
        // merge, deterministically: records ordered by task number
        let mut recs: Vec<(u32, usize, usize)> = vec![]; // task, worker, position
        for k in 0..nw {
            let n = sh.outlen(k).load(SeqCst);
            let p = sh.out(k);
            let mut i = 0;
            while i < n {
                unsafe {
                    let task = *p.add(i);
                    let m = *p.add(i + 3) as usize;
                    recs.push((task, k, i));
                    i += 4 + m;
                }
            }
        }
        recs.sort_unstable();
        let partial = recs.len() + skip.len() < total;
        if partial {
            st.capped = Some(format!("level {}: {} of {} histories executed when the time ran out", level, recs.len(), total));
        }
        st.histories += recs.len() as u64;
        st.transitions += recs.len() as u64;
        let mut next: Vec<Front> = vec![];
        let mut fresh = 0u64;
        for (task, k, i) in &recs {
            unsafe {
                let p = sh.out(*k).add(*i);
                let key = *p.add(1) as u64 | (*p.add(2) as u64) << 32;
                let m = *p.add(3) as usize;
                let is_new = seen.insert(key);
                if is_new {
                    fresh += 1;
                }
                if o.merge && !is_new {
                    st.pruned += 1;
                    st.leaves += 1;
                    continue;
                }
                if last || m == 0 {
                    st.leaves += 1;
                }
                if !last && m > 0 {
                    let en = std::slice::from_raw_parts(p.add(4), m).to_vec();
                    next.push(Front { hist: hist_of(*task as usize), enabled: en });
                }
            }
        }
        for t in [0, recs.len() / 2, recs.len().saturating_sub(1)] {
            if level == o.depth && t < recs.len() && st.samples.len() < 3 {
                st.samples.push(format!("{}: {}", sys.name(), sys.show(&hist_of(recs[t].0 as usize)).join("; ")));
            }
        }
        st.states += fresh;
        st.per_level.push((recs.len() as u64, fresh));
        sh.free(nw);
        if partial {
            st.leaves += next.len() as u64;
            break;
        }
        st.depth = level;
        frontier = next;
    }
    if let Some(e) = unreproduced {
        return Outcome::Error(e);
    }
    Outcome::Ok(st)
}

fn worker(
    sys: &dyn Sys,
    relevant: Relevant,
    sh: &Shared,
    k: usize,
    total: usize,
    hist_of: &dyn Fn(usize) -> Vec<u32>,
    last: bool,
    skip: &HashSet<usize>,
    hard: Option<Instant>,
) {
    let chunk = (total / 256).clamp(1, 64);
    let out = sh.out(k);
    let mut pos = 0usize;
    let mut tick = 0u64;
    loop {
        let s = sh.next().fetch_add(chunk, SeqCst);
        if s >= total || hard.map_or(false, |d| Instant::now() > d) {
            return;
        }
        for t in s..(s + chunk).min(total) {
            if sh.stop().load(Relaxed) != 0 {
                return;
            }
            if skip.contains(&t) {
                continue;
            }
            tick += 1;
            sh.tick(k).store(tick, Relaxed);
            sh.slot(k).store(t as i64, SeqCst);
            sh.ring(k).push(t);
            let h = hist_of(t);
            let n = sys.run(&h);
            sh.checks(k).fetch_add(n.checks, Relaxed);
            let mut keep = !last;
            if !n.viols.is_empty() {
                if std::env::var_os("MC_VERBOSE").is_some() {
                    eprintln!("{:?} {:?}", sys.show(&h), n.viols);
                }
                let rel = judge(sys, &h, &n.viols, relevant);
                if !rel.is_empty() {
                    unsafe { *(sh.txt(k) as *mut u64) = t as u64 };
                    sh.txtlen(k).store(8, SeqCst);
                    sh.stop().store(1, SeqCst);
                    return;
                }
                if relevant_any(&n.viols, relevant) {
                    // earlier histories of this process may have spoilt the comparison: the
                    // supervisor looks at a few of these again, in fresh processes
                    let c = sh.again(k);
                    if *c < 4 {
                        sh.again_list(k)[*c as usize] = t as u64;
                        *c += 1;
                    }
                }
                sh.foreign(k).fetch_add(1, Relaxed);
                keep = false; // behaviour after a foreign violation is meaningless
            }
            unsafe {
                let en: &[u32] = if keep { &n.enabled } else { &[] };
                if (pos + 4 + en.len()) * 4 > OUT {
                    exit_now(EXIT_HARNESS);
                }
                *out.add(pos) = t as u32;
                *out.add(pos + 1) = n.key as u32;
                *out.add(pos + 2) = (n.key >> 32) as u32;
                *out.add(pos + 3) = en.len() as u32;
                for (i, e) in en.iter().enumerate() {
                    *out.add(pos + 4 + i) = *e;
                }
                pos += 4 + en.len();
                sh.outlen(k).store(pos, SeqCst);
            }
        }
    }
}
