//! Guided search: watches the comparisons of elements the crate under test makes, and solves for drawn values
//! that make them come out the other way, one after the other.
use crate::{rat::*, util::*};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

type Now = std::sync::Mutex<(String, u64, Instant)>;
pub fn parse(s: &str) -> Option<(usize, Rat)> {
    let (k, v) = s.split_once('=')?;
    let (n, d) = v.split_once('/').unwrap_or((v, "1"));
    Some((k.parse().ok()?, rat(n.parse().ok()?, d.parse().ok()?)))
}
#[derive(Clone, Default)]
struct Run { round: u64, ov: BTreeMap<usize, Rat>, draws: Vec<Rat>, trace: Vec<Cmp>, ok: bool }
struct S<'a> { p: &'static str, cases: &'a [(String, Case)], seed: u64, lits: &'a [Rat], now: &'static Now, feats: HashSet<(usize, usize, i32, usize)>, end: Instant,
    ran: u64, kept: u64, fails: u64, distinct: HashSet<u64>, bad: HashSet<usize>, trace: bool }
fn sign(d: Rat) -> i32 { d.n.signum() as i32 }
impl<'a> S<'a> {
    fn over(&self) -> bool { self.fails >= 3 || Instant::now() > self.end }
    fn exec(&mut self, c: usize, round: u64, ov: &BTreeMap<usize, Rat>) -> Run {
        let (name, f) = &self.cases[c];
        let mut g = G::new(self.p, self.seed, name, round, self.lits);
        g.ov = ov.clone();
        reset();
        TRACE.with(|t| t.borrow_mut().clear());
        { let mut l = self.now.lock().unwrap(); if l.0 != *name { l.0 = name.clone(); } l.1 = round; l.2 = Instant::now(); }
        self.ran += 1;
        if self.trace { eprintln!("TRACE case={name} round={round} seed={} with={}", self.seed, ov.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",")); }
        REC.with(|r| r.set(true));
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut g)));
        REC.with(|r| r.set(false));
        let gone = lost();
        let trace = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
        if !gone {
            self.kept += 1;
            self.distinct.insert(g.fingerprint());
            let e = match res {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(_) => Some(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
            };
            if let Some(e) = e.filter(|e| self.p != "C14" || e.starts_with("panic") || e.starts_with("tail")) {
                if self.bad.insert(c) {
                    self.fails += 1;
                    let w: Vec<String> = ov.iter().map(|(k, v)| format!("{k}={v}")).collect();
                    println!("FAIL property={} case={name} round={round} seed={} with={}\n  {e}\n  input: {}", self.p, self.seed, w.join(","), g.log());
                }
            }
        }
        Run { round, ov: ov.clone(), draws: g.draws, trace, ok: !gone }
    }
    /// has it anything no run of this case had before?
    fn news(&mut self, c: usize, r: &Run) -> bool {
        let mut n: HashMap<(usize, i32), usize> = HashMap::new();
        for t in &r.trace { *n.entry((t.site, if t.ord { sign(t.d) } else { (t.d.n == 0) as i32 + 5 })).or_default() += 1; }
        let mut new = false;
        for ((s, o), k) in n { new |= self.feats.insert((c, s, o, k.min(40))); }
        new
    }
    /// the difference compared at the n-th comparison of this site
    fn at(r: &Run, site: usize, n: usize) -> Option<Rat> { r.trace.iter().filter(|t| t.site == site).nth(n).map(|t| t.d) }
    fn solve(&mut self, c: usize, r: &Run, site: usize, n: usize, ord: bool, out: &mut Vec<Run>, rnd: &mut u64) {
        let Some(d) = Self::at(r, site, n) else { return };
        let s = sign(d);
        let goals: Vec<Rat> = if !ord { vec![int((s == 0) as i64)] } else if s == 0 { vec![int(1), int(-1)] } else { vec![int(0), int(-s as i64)] };
        let k = r.draws.len();
        if k == 0 { return; }
        let mut hits = 0;
        for q in 0..k.min(70) {
            if self.over() { return; }
            *rnd = rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let i = if k <= 70 { q } else { (*rnd >> 33) as usize % k };
            let v = r.draws[i];
            let mut ov = r.ov.clone();
            ov.insert(i, v + int(1));
            let probe = self.exec(c, r.round, &ov);
            if self.news(c, &probe) && probe.ok { out.push(probe.clone()); }
            let Some(d1) = Self::at(&probe, site, n) else { continue };
            let slope = d1 - d;
            if slope.n == 0 { continue; }
            for goal in &goals {
                let (mut v0, mut e0, mut v1, mut e1) = (v, d, v + int(1), d1);
                for _ in 0..3 {
                    if e1.n == e0.n && e1.d == e0.d { break; }
                    reset();
                    let w = v1 + (*goal - e1) * (v1 - v0) / (e1 - e0);
                    if lost() || w.n.abs() > 1 << 40 || w.d > 1 << 20 { break; }
                    ov.insert(i, w);
                    let got = self.exec(c, r.round, &ov);
                    if got.ok && self.news(c, &got) { out.push(got.clone()); }
                    let Some(e) = Self::at(&got, site, n) else { break };
                    if sign(e) == sign(*goal) { break; }
                    (v0, e0, v1, e1) = (v1, e1, w, e);
                }
            }
            hits += 1;
            if hits >= 4 { return; }
        }
    }
}
pub fn search(p: &'static str, cases: &[(String, Case)], seed: u64, lits: &[Rat], secs: f64, now: &'static Now) -> ! {
    let t0 = Instant::now();
    let mut s = S { p, cases, seed, lits, now, feats: Default::default(), end: t0 + Duration::from_secs_f64(secs), ran: 0, kept: 0, fails: 0, distinct: Default::default(), bad: Default::default(), trace: std::env::args().any(|x| x == "--trace") };
    let mut pool: Vec<Vec<Run>> = cases.iter().map(|_| vec![]).collect();
    let mut cost = vec![0f64; cases.len()];
    let mut rnd = seed;
    let none = BTreeMap::new();
    let mut first = 2;      // rounds 0 and 1 are for the long and the big cases
    while !s.over() {
        // some fresh runs of each case, then a few attempts on what they showed
        let fresh = if first == 2 { 12 } else { 3 };
        for c in 0..cases.len() {
            if s.bad.contains(&c) || cost[c] > 0.02 { continue; }
            for r in first..first + fresh {
                if s.over() { break; }
                let t = Instant::now();
                let run = s.exec(c, r, &none);
                cost[c] = cost[c].max(t.elapsed().as_secs_f64());
                if run.ok && !run.trace.is_empty() && s.news(c, &run) { pool[c].push(run); }
            }
        }
        first += fresh;
        if pool.iter().all(|q| q.is_empty()) && first > 40 { break; }
        for c in 0..cases.len() {
            for attempt in 0..8 {
                if s.over() || s.bad.contains(&c) || pool[c].is_empty() { break; }
                rnd = rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let n = pool[c].len();
                // mostly what was found last
                let r = pool[c][if attempt % 3 != 2 { n - 1 - ((rnd >> 35) as usize % n.min(3)) } else { (rnd >> 35) as usize % n }].clone();
                if r.trace.is_empty() { continue; }
                let k = (rnd >> 40) as usize % r.trace.len();
                let k = match attempt % 4 { 0 => r.trace.len() - 1, _ => k };
                let t = r.trace[k];
                let nth = r.trace[..k].iter().filter(|x| x.site == t.site).count();
                let mut out = vec![];
                s.solve(c, &r, t.site, nth, t.ord, &mut out, &mut rnd);
                pool[c].extend(out);
                if pool[c].len() > 200 { pool[c].drain(..80); }
            }
        }
    }
    println!("RAN {} KEPT {} DISTINCT {} CASES {} ROUNDS {first}", s.ran, s.kept, s.distinct.len(), cases.len());
    println!("GUIDED {} outcomes of comparisons seen", s.feats.len());
    std::process::exit(if s.fails > 0 { 1 } else { 0 })
}
