use crate::m::M;
use crate::rat::*;
use std::cell::RefCell;
thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub type R = Result<(), String>;
pub type Case = Box<dyn Fn(&mut G) -> R>;

/// the generator of one case: everything it hands out goes into the log
pub struct G { s: u64, pub prop: &'static str, pub round: u64, mode: u64, ex: i64, lits: Vec<Rat>, log: String, fp: u64, pub ov: std::collections::BTreeMap<usize, Rat>, pub draws: Vec<Rat> }
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl G {
    pub fn new(prop: &'static str, seed: u64, name: &str, round: u64, lits: &[Rat]) -> G {
        let mut s = mix(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ mix(round + 77));
        for b in name.bytes() { s = mix(s ^ b as u64); }
        let mut g = G { s, prop, round, mode: 0, ex: 0, lits: lits.to_vec(), log: String::new(), fp: 0, ov: Default::default(), draws: vec![] };
        g.mode = g.below(8);
        if g.below(3) == 0 {
            let k = g.below(6 + lits.len() as u64) as usize;
            g.ex = if k < 6 { [3, 7, 11, 17, 20, 30][k] } else { (log2(lits[k - 6]).abs() + g.below(3) as i64).clamp(1, 60) };
        }
        g
    }
    /// now and then, a power of two that takes a whole operand to another order of magnitude
    pub fn magnitude(&mut self) -> Rat {
        if self.ex == 0 { return int(1); }
        match self.below(5) { 0 => pow2(self.ex), 1 => pow2(-self.ex), _ => int(1) }
    }
    pub fn next(&mut self) -> u64 { self.s = self.s.wrapping_add(0x9e3779b97f4a7c15); mix(self.s) }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn flip(&mut self) -> bool { self.below(2) == 0 }
    pub fn note(&mut self, s: &str) { self.log.push_str(s); self.log.push(' '); for b in s.bytes() { self.fp = mix(self.fp ^ b as u64); } }
    pub fn log(&self) -> String { self.log.clone() }
    pub fn fingerprint(&self) -> u64 { self.fp }
    /// hands out a value, unless this run is to use another one in its place
    fn draw(&mut self, v: Rat) -> Rat {
        let v = if self.ov.is_empty() { v } else { *self.ov.get(&self.draws.len()).unwrap_or(&v) };
        self.draws.push(v);
        v
    }
    pub fn val(&mut self) -> Rat { let v = self.val_(); self.draw(v) }
    fn val_(&mut self) -> Rat {
        match self.mode {
            0 | 1 => int(self.below(7) as i64 - 3),
            2 => int([0, 0, 1, -1, 0, 2][self.below(6) as usize]),
            3 => rat(self.below(17) as i128 - 8, [1, 2, 4][self.below(3) as usize]),
            4 => int(self.below(201) as i64 - 100),
            5 => { let k = self.below(12); if k == 0 { int(1_000_003) } else if k == 1 { rat(1, 1024) } else { int(k as i64 - 6) } }
            6 => if !self.lits.is_empty() && self.flip() { let k = self.below(self.lits.len() as u64); let v = self.lits[k as usize]; match self.below(6) { 0 => -v, 1 => v / int(2), 2 => v * int(2), 3 => v + int(1), _ => v } } else { int(self.below(5) as i64 - 2) },
            _ => int(1 + self.below(9) as i64),
        }
    }
    /// a number of repetitions: one of the numbers written in the source, or 257
    pub fn count(&mut self) -> u64 {
        let l: Vec<u64> = self.lits.iter().filter(|v| v.d == 1 && v.n >= 2 && v.n <= 5000).map(|v| v.n as u64).collect();
        if l.is_empty() { 257 } else { let k = self.below(l.len() as u64); l[k as usize] }
    }
    pub fn small(&mut self) -> Rat { let v = self.small_(); self.draw(v) }
    fn small_(&mut self) -> Rat { if self.mode == 2 { int([0, 0, 1, -1][self.below(4) as usize]) } else { int(self.below(5) as i64 - 2) } }
    pub fn nz(&mut self) -> Rat { loop { let v = self.val(); if v != int(0) { return v; } } }
    pub fn vec(&mut self, n: usize) -> Vec<Rat> { (0..n).map(|_| self.val()).collect() }
    pub fn mat(&mut self, n: &str, r: usize, c: usize) -> M {
        let kind = self.below(10);
        let mut m = match kind {
            0 => M::f(r, c, |_, _| int(0)),
            1 => M::f(r, c, |i, j| int((i == j) as i64)),
            2 => { let v = self.val(); M::f(r, c, |i, j| if i == j { v } else { int(0) }) }
            3 => { let k = self.below(3) as usize; let mut m = M::f(r, c, |_, _| int(0)); for i in 0..r { for j in 0..c { if (i + j + k) % 3 == 0 { m.d[i * c + j] = self.val(); } } } m }
            4 if r == c => { let a = M { r, c, d: self.vec(r * c) }; a.add(&a.t()) }
            _ => M { r, c, d: self.vec(r * c) },
        };
        let e = self.magnitude();
        if e != int(1) { m = m.scale(e); }
        if kind == 5 && r > 0 { let k = self.below(r as u64) as usize; for j in 0..c { m.d[k * c + j] = int(0); } }
        self.note(&format!("{n}[{r}x{c}]={:?}", m.d));
        m
    }
    pub fn smat(&mut self, n: &str, r: usize, c: usize) -> M {
        let e = self.magnitude();
        let m = M::f(r, c, |_, _| self.small()).scale(e);
        self.note(&format!("{n}[{r}x{c}]={:?}", m.d));
        m
    }
    pub fn sym(&mut self, n: &str, r: usize) -> M {
        let a = M { r, c: r, d: self.vec(r * r) };
        let e = self.magnitude();
        let m = M::f(r, r, |i, j| if i <= j { a.at(i, j) } else { a.at(j, i) }).scale(e);
        self.note(&format!("{n}[{r}x{r}]={:?}", m.d));
        m
    }
    /// G·Gᵀ: positive semidefinite
    pub fn psd(&mut self, n: &str, r: usize) -> M {
        let k = 1 + self.below(r as u64) as usize;
        let a = M::f(r, k, |_, _| self.small());
        let e = self.magnitude();
        let m = a.mul(&a.t()).scale(e);
        self.note(&format!("{n}[{r}x{r}]={:?}", m.d));
        m
    }
    /// lower triangular, diagonal a power of two
    pub fn low(&mut self, r: usize) -> M {
        let e = self.magnitude();
        M::f(r, r, |i, j| if i == j { let d = [int(1), int(2), int(1), rat(1, 2)][self.below(4) as usize]; if self.ex > 0 && self.below(3) == 0 { d * e } else { d } } else if i > j { self.small() } else { int(0) })
    }
    /// a buffer with these contents, followed by up to three spare elements
    pub fn buf(&mut self, m: &M) -> Vec<Rat> {
        let e = if self.flip() { 0 } else { 1 + self.below(4) as usize };
        let mut v = m.d.clone();
        for k in 0..e { v.push(int(7700 + k as i64)); }
        v
    }
    /// the same with spare elements of its own kind
    pub fn buf_at(&mut self, m: &M, base: i64) -> Vec<Rat> {
        let mut v = self.buf(m);
        retail(&mut v, m.d.len(), base);
        v
    }
    pub fn junk(&mut self, r: usize, c: usize) -> Vec<Rat> {
        let m = match self.below(3) { 0 => M::f(r, c, |_, _| int(0)), 1 => M { r, c, d: self.vec(r * c) }, _ => M::f(r, c, |i, j| int(90 + (i * c + j) as i64)) };
        self.buf(&m)
    }
}
pub fn pow2(e: i64) -> Rat { if e >= 0 { Rat { n: 1i128 << e, d: 1 } } else { Rat { n: 1, d: 1i128 << -e } } }
/// the exponent of the largest power of two that is not above |v|
pub fn log2(v: Rat) -> i64 {
    if v.n == 0 { return 0; }
    let a = v.n.unsigned_abs();
    let e = (127 - a.leading_zeros() as i64) - (127 - (v.d as u128).leading_zeros() as i64);
    if e >= 0 { if (a >> e) < v.d as u128 { e - 1 } else { e } } else if (a << -e) < v.d as u128 { e - 1 } else { e }
}
/// a number from the source, or the powers of two around it where it would be too long to calculate with
pub fn around(v: Rat) -> Vec<Rat> {
    if v.n.unsigned_abs().checked_mul(v.d as u128).map_or(false, |p| p < 1 << 26) { return vec![v]; }
    let s = if v.n < 0 { int(-1) } else { int(1) };
    let e = log2(v).clamp(-60, 60);
    vec![s * pow2(e), s * pow2(e + 1)]
}
pub fn eq(what: &str, got: &[Rat], want: &M) -> R {
    if got.len() < want.d.len() { return Err(format!("{what}: only {} elements", got.len())); }
    for k in 0..want.d.len() {
        if got[k] != want.d[k] && !lost() {
            return Err(format!("{what}[{},{}] is {} but should be {}  (got {:?}, should be {:?})", k / want.c, k % want.c, got[k], want.d[k], &got[..want.d.len()], want.d));
        }
    }
    Ok(())
}
/// gives the elements beyond n values that tell this buffer from others
pub fn retail(v: &mut [Rat], n: usize, base: i64) { for (k, e) in v.iter_mut().enumerate().skip(n) { *e = int(base + (k - n) as i64); } }
pub fn tail(what: &str, got: &[Rat], n: usize) -> R { tail_at(what, got, n, 7700) }
pub fn tail_at(what: &str, got: &[Rat], n: usize, base: i64) -> R {
    for (k, v) in got.iter().enumerate().skip(n) {
        if *v != int(base + (k - n) as i64) && !lost() { return Err(format!("tail of {what}: element {k} beyond {n} became {v}")); }
    }
    Ok(())
}
pub fn ck(b: bool, msg: impl FnOnce() -> String) -> R { if b { Ok(()) } else { Err(msg()) } }
thread_local! { pub static TAILS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// filter-level checks look at the excess elements of buffers only for C14
pub fn tails_wanted() -> bool { TAILS.with(|t| t.get()) }

macro_rules! extra { (1, $($n:literal)*; $v:ident, $f:ident) => { $( $v.push((format!("{}<{}>", stringify!($f), $n), Box::new($f::<$n>) as Case)); )* };
    (2, $(($n:literal, $m:literal))*; $v:ident, $f:ident) => { $( $v.push((format!("{}<{},{}>", stringify!($f), $n, $m), Box::new($f::<$n, $m>) as Case)); )* };
    (3, $(($n:literal, $m:literal, $k:literal))*; $v:ident, $f:ident) => { $( $v.push((format!("{}<{},{},{}>", stringify!($f), $n, $m, $k), Box::new($f::<$n, $m, $k>) as Case)); )* } }
/// instantiations, compiled only when the property's cargo feature (or C14, which runs all) is on
#[macro_export]
macro_rules! dims {
    ($v:ident, $p:expr, $prop:literal, $f:ident; $($n:literal)*) => { #[cfg(any(feature = $prop, feature = "C14"))] if $p == $prop || $p == "C14" { $( $v.push((format!("{}<{}>", stringify!($f), $n), Box::new($f::<$n>) as Case)); )* extra1!($v, $f); } };
    ($v:ident, $p:expr, $prop:literal, $f:ident; $(($n:literal, $m:literal))*) => { #[cfg(any(feature = $prop, feature = "C14"))] if $p == $prop || $p == "C14" { $( $v.push((format!("{}<{},{}>", stringify!($f), $n, $m), Box::new($f::<$n, $m>) as Case)); )* extra2!($v, $f); } };
    ($v:ident, $p:expr, $prop:literal, $f:ident; $(($n:literal, $m:literal, $k:literal))*) => { #[cfg(any(feature = $prop, feature = "C14"))] if $p == $prop || $p == "C14" { $( $v.push((format!("{}<{},{},{}>", stringify!($f), $n, $m, $k), Box::new($f::<$n, $m, $k>) as Case)); )* extra3!($v, $f); } };
}
