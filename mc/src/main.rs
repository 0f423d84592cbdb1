#![allow(static_mut_refs)]
mod alloc;
mod arity_gen;
mod bases;
mod engine;
mod kinds;
mod ledger;
mod shapes;
mod suites;
mod sys;
mod sysa;
mod syse;
mod sysq;
mod syst;
mod sysv;
mod sysw;

use engine::*;
use std::time::{Duration, Instant};
use suites::*;

fn secs(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|x| x.parse().ok()).unwrap_or(default)
}
fn dir() -> String {
    std::env::var("MC_DIR").unwrap_or_else(|_| "/verif".into())
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Line {
    name: String,
    bound: usize,
    merge: bool,
    st: Stats,
    wall: f64,
}

fn check(prop: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let soft = t0 + Duration::from_secs(secs("MC_SOFT", if thorough { 700 } else { 300 }));
    let hard = t0 + Duration::from_secs(secs("MC_HARD", if thorough { 800 } else { 500 }));
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16);
    let filter = std::env::var("MC_FILTER").unwrap_or_default();
    let rel = |v: &V| relevant(prop, v);
    let mut lines: Vec<Line> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut found: Option<(Found, usize)> = None;
    let passes: &[usize] = if thorough { &[0, 1, 2, 3] } else { &[0] };
    'all: for &pass in passes {
        let p = plan(prop, pass);
        let quick: Vec<(String, usize)> = lines.iter().map(|l| (l.name.clone(), l.bound)).collect();
        let jobs: Vec<Job> = p
            .jobs
            .into_iter()
            .filter(|j| j.sys.name().contains(&filter) && !quick.contains(&(format!("{}{}", j.sys.name(), if j.merge { "" } else { " (unmerged)" }), j.depth)))
            .collect();
        let n = jobs.len();
        for (k, j) in jobs.into_iter().enumerate() {
            let now = Instant::now();
            // a fair share of what is left, thrice over (most systems need less)
            let share = soft.saturating_duration_since(now) * 3 / (n - k) as u32;
            let o = Opts { depth: j.depth, merge: j.merge, workers, cap: j.cap, deadline: Some(soft.min(now + share)), hard: Some(hard.min(now + share * 2)) };
            let o = if pass > 0 { o } else { Opts { deadline: Some(soft), hard: Some(hard), ..o } };
            let name = format!("{}{}", j.sys.name(), if j.merge { "" } else { " (unmerged)" });
            let r = explore(&*j.sys, &rel, &o);
            let wall = now.elapsed().as_secs_f64();
            let st = match r {
                Outcome::Ok(st) => st,
                Outcome::Violation(f, st) => {
                    lines.push(Line { name, bound: j.depth, merge: j.merge, st, wall });
                    found = Some((f, pass));
                    break 'all;
                }
                Outcome::Error(e) => {
                    eprintln!("ERROR {}: {}", name, e);
                    errors.push(e);
                    continue;
                }
            };
            if std::env::var_os("MC_PROGRESS").is_some() {
                eprintln!("{:6.1}s {:60} depth {}/{} states {} histories {} {}", wall, name, st.depth, j.depth, st.states, st.histories, st.capped.clone().unwrap_or_default());
            }
            // a deeper run covers the shallower one
            match lines.iter_mut().find(|l| l.name == name) {
                Some(l) if st.depth >= l.st.depth => *l = Line { name, bound: j.depth, merge: j.merge, st, wall },
                Some(_) => {}
                None => lines.push(Line { name, bound: j.depth, merge: j.merge, st, wall }),
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    // evidence
    let sum = |f: &dyn Fn(&Stats) -> u64| lines.iter().map(|l| f(&l.st)).sum::<u64>();
    let capped: Vec<String> = lines.iter().filter_map(|l| l.st.capped.as_ref().map(|c| format!("{}: {}", l.name, c))).collect();
    let samples: Vec<String> = {
        let all: Vec<&String> = lines.iter().flat_map(|l| l.st.samples.iter()).collect();
        let step = (all.len() / 12).max(1);
        all.iter().step_by(step).take(12).map(|s| js(s)).collect()
    };
    let systems: Vec<String> = lines
        .iter()
        .map(|l| {
            format!(
                "{{\"system\": {}, \"depth\": {}, \"depth_bound\": {}, \"states_merged\": {}, \"states\": {}, \"histories\": {}, \"other_property_violations\": {}, \"wall_s\": {:.2}{}}}",
                js(&l.name),
                l.st.depth,
                l.bound,
                l.merge,
                l.st.states,
                l.st.histories,
                l.st.foreign,
                l.wall,
                l.st.capped.as_ref().map_or(String::new(), |c| format!(", \"capped\": {}", js(c)))
            )
        })
        .collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"comparisons\": {},\n  \"merged_transitions\": {},\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"samples\": [\n   {}\n  ],\n  \"systems\": [\n   {}\n  ],\n  \"capped\": [{}],\n  \"errors\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop),
        js(tier),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        sum(&|s| s.states),
        sum(&|s| s.transitions),
        sum(&|s| s.leaves),
        sum(&|s| s.checks),
        sum(&|s| s.pruned),
        capped.is_empty() && errors.is_empty() && found.is_none(),
        js("Every history of operations up to each system's depth was executed on the real crates and compared with the reference model after its last operation. states: distinct canonical states; transitions: (state, operation) pairs executed, each by running its whole history from a fresh system; traces_validated_against_impl: maximal histories among them (those not extended further); comparisons: individual checks made. exhaustive: no system was cut short of its bound."),
        samples.join(",\n   "),
        systems.join(",\n   "),
        capped.iter().map(|c| js(c)).collect::<Vec<_>>().join(", "),
        errors.iter().map(|c| js(c)).collect::<Vec<_>>().join(", "),
        js("component values are opaque to the code under test, so one distinguishable token per value suffices"),
        wall,
        found.is_some() as u32
    );
    let d = dir();
    let _ = std::fs::create_dir_all(format!("{}/evidence", d));
    let _ = std::fs::create_dir_all(format!("{}/out", d));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", d, prop), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{} {}: {} systems, {} states, {} transitions, {} checks, {:.1} s{}",
        prop,
        tier,
        lines.len(),
        sum(&|s| s.states),
        sum(&|s| s.transitions),
        sum(&|s| s.checks),
        wall,
        if capped.is_empty() { String::new() } else { format!(" ({} systems cut short)", capped.len()) }
    );
    if let Some((f, pass)) = found {
        let path = format!("{}/out/{}.replay", d, prop);
        let mut s = format!("prop {}\ndeeper {}\nsystem {}\nops {}\n", prop, pass, f.sys, f.ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(" "));
        for p in &f.prior {
            s.push_str(&format!("prior {}\n", p.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(" ")));
        }
        if !f.prior.is_empty() {
            s.push_str(&format!("# after {} other histories (worlds that are gone) in the same process\n", f.prior.len()));
        }
        s.push_str("# history:\n");
        for (i, o) in f.shown.iter().enumerate() {
            s.push_str(&format!("#  {}. {}\n", i + 1, o));
        }
        for v in &f.viols {
            s.push_str(&format!("# {}: {}\n", v.class, v.text));
        }
        let _ = std::fs::write(&path, &s);
        print!("{}", s);
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    if !errors.is_empty() {
        return 2;
    }
    0
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{} ", k)).map(|x| x.to_string())).unwrap_or_default();
    let (prop, tier, name) = (get("prop"), get("deeper"), get("system"));
    let ops: Vec<u32> = get("ops").split_whitespace().map(|x| x.parse().unwrap()).collect();
    let p = plan(&prop, tier.parse().unwrap_or(0));
    let j = p.jobs.iter().find(|j| j.sys.name() == name).expect("system");
    for (i, o) in j.sys.show(&ops).iter().enumerate() {
        println!("{}. {}", i + 1, o);
    }
    let prior: Vec<Vec<u32>> =
        t.lines().filter_map(|l| l.strip_prefix("prior")).map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
    if !prior.is_empty() {
        println!("(after {} other histories in the same process)", prior.len());
        let r = confirm_after(&*j.sys, &prior, &ops, &|v| relevant(&prop, v));
        for v in r.iter().flat_map(|r| &r.1) {
            println!("{}: {}", v.class, v.text);
        }
        println!("{}", if r.is_some() { format!("VIOLATION property={} replay={}", prop, path) } else { "no violation".into() });
        return r.is_some() as i32;
    }
    match confirm(&*j.sys, &ops, &|v| relevant(&prop, v)) {
        Verdict::Confirmed(v) => {
            for v in v {
                println!("{}: {}", v.class, v.text);
            }
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        Verdict::Foreign => {
            println!("the history violates something, but not this property");
            0
        }
        Verdict::Unreproducible(_) => {
            println!("no violation");
            0
        }
        Verdict::Harness(e) => {
            println!("{}", e);
            2
        }
    }
}

fn main() {
    sys::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match a.get(1).copied() {
        Some("check") => check(a[2], a.get(3).copied() == Some("thorough")),
        Some("replay") => replay(a[2]),
        Some("selftest") => selftest(),
        _ => {
            eprintln!("mc check PROPERTY quick|thorough; mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}

/// Names of systems must be unique per property (replay files refer to them).
fn selftest() -> i32 {
    let mut r = 0;
    for p in PROPS {
        for t in [0, 1, 2] {
            let names: Vec<String> = plan(p, t).jobs.iter().map(|j| format!("{}/{}", j.sys.name(), j.merge)).collect();
            let mut s = names.clone();
            s.sort();
            for w in s.windows(2) {
                if w[0] == w[1] {
                    println!("{}: {} twice", p, w[0]);
                    r = 1;
                }
            }
        }
    }
    r
}
