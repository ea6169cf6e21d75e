//! Looks for a concrete input on which the real crate breaks a property.  The oracle is exact
//! rational arithmetic.  usage: fz PROPERTY SECONDS [--only NAME --round N]
#![allow(non_snake_case, dead_code, unused, unused_macros, clippy::all)]
#![recursion_limit = "512"]
// further dimensions: written by check.py from integer literals that are new in the source
include!(env!("FZ_EXTRA"));
mod rat;
mod m;
#[macro_use]
mod util;
mod guide;
mod kernels;
mod filters;
mod life;
mod big;
#[cfg(feature = "floats")]
mod typed;
mod mix;
#[cfg(feature = "nalgebra")]
mod nalg;
#[cfg(feature = "storage")]
mod storage;
use rat::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use util::*;

fn list(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    let all = p == "C14";
    if all || ["C08", "C09", "C10", "C11", "C12", "C13"].contains(&p) { v.extend(kernels::cases(p)); v.extend(mix::cases(p)); }
    if all || ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C18", "C20", "C21"].contains(&p) { v.extend(filters::cases(p)); v.extend(life::cases(p)); }
    #[cfg(feature = "storage")]
    if all || ["C15", "C16"].contains(&p) { v.extend(storage::cases(p)); }
    v.extend(big::cases(p));
    #[cfg(feature = "floats")]
    v.extend(typed::cases(p));
    #[cfg(feature = "nalgebra")]
    if all || p == "C17" { v.extend(nalg::cases(p)); }
    v
}

/// a dimension beyond those every run uses; slow, so run on every eighth round only
pub fn large(name: &str) -> bool { name.split_once('<').map_or(false, |(_, d)| d.trim_end_matches('>').split(',').any(|n| n.trim().parse::<u32>().map_or(false, |n| n > 40))) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let secs: f64 = a.get(2).map_or(10.0, |s| s.parse().unwrap());
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let only = opt("--only");
    let only_round: Option<u64> = opt("--round").map(|s| s.parse().unwrap());
    let seed: u64 = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let max: u64 = opt("--max").map_or(u64::MAX, |s| s.parse().unwrap());
    let lits: Vec<Rat> = std::env::var("FZ_LITS").unwrap_or_default().split(',').filter_map(|s| s.trim().parse::<f64>().ok()).filter_map(num_traits::FromPrimitive::from_f64).flat_map(around).collect();
    let cases = list(p);
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
    TAILS.with(|t| t.set(p == "C14"));
    let t0 = Instant::now();
    let trace = a.iter().any(|x| x == "--trace");
    let now: &'static std::sync::Mutex<(String, u64, Instant)> = Box::leak(Box::new(std::sync::Mutex::new((String::new(), 0, Instant::now()))));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let l = now.lock().unwrap();
        if l.2.elapsed() > Duration::from_secs(25) {
            println!("FAIL property={p} case={} round={} seed={seed}\n  hang: the call did not return within 25 s", l.0, l.1);
            std::process::exit(1);
        }
    });
    let (mut ran, mut kept, mut fails) = (0u64, 0u64, 0);
    let mut sample = vec![];
    let mut distinct = std::collections::HashSet::new();
    let mut round = 0;
    let mut bad: std::collections::BTreeSet<String> = Default::default();
    if a.iter().any(|x| x == "--guided") {
        let cases: Vec<_> = cases.into_iter().filter(|c| !large(&c.0)).collect();
        guide::search(p, &cases, seed, &lits, secs, now);
    }
    let ov: Vec<(usize, Rat)> = opt("--with").unwrap_or_default().split(',').filter_map(guide::parse).collect();
    loop {
        for (name, f) in &cases {
            if only.as_ref().map_or(false, |o| o != name) || bad.contains(name) { continue; }
            if only.is_none() && (round > 1 && t0.elapsed() > Duration::from_secs_f64(secs) || large(name) && (round % 8 != 1 || t0.elapsed() > Duration::from_secs_f64(secs / 2.0))) { continue; }
            let r = only_round.unwrap_or(round);
            let mut g = G::new(p, seed, name, r, &lits);
            g.ov = ov.iter().cloned().collect();
            reset();
            if trace { eprintln!("TRACE case={name} round={r} seed={seed}"); }
            { let mut l = now.lock().unwrap(); if l.0 != *name { l.0 = name.clone(); } l.1 = r; l.2 = Instant::now(); }
            ran += 1;
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut g)));
            if lost() { continue; }
            kept += 1;
            distinct.insert(g.fingerprint());
            if sample.len() < 3 && r % 7 == 3 { sample.push(format!("{name} round {r}: {}", g.log())); }
            let e = match res {
                Ok(Ok(())) => continue,
                Ok(Err(e)) => e,
                Err(_) => format!("panic: {}", PANIC.with(|p| p.borrow().clone())),
            };
            if p == "C14" && !(e.starts_with("panic") || e.starts_with("tail")) { continue; }
            bad.insert(name.clone());
            fails += 1;
            println!("FAIL property={p} case={name} round={r} seed={seed}\n  {e}\n  input: {}", g.log());
            if fails >= 5 { break; }
        }
        round += 1;
        if only_round.is_some() || fails >= 5 || round >= max || t0.elapsed() > Duration::from_secs_f64(secs) { break; }
    }
    println!("RAN {ran} KEPT {kept} DISTINCT {} CASES {} ROUNDS {round}", distinct.len(), cases.len());
    for s in &sample { println!("SAMPLE {}", s.chars().take(600).collect::<String>()); }
    std::process::exit(if fails > 0 { 1 } else { 0 });
}
