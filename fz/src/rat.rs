//! An exact element type: rationals over i128.  A calculation that leaves the range raises a flag
//! and the case it belongs to is dropped.
use core::ops::*;
use minikalman::matrix::MatrixDataType;
use num_traits::{Bounded, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;

thread_local! {
    pub static LOST: Cell<bool> = Cell::new(false);
    /// the next square root that is not rational makes the case worthless, not wrong
    pub static IRRATIONAL: Cell<bool> = Cell::new(false);
}
pub fn reset() {
    LOST.with(|l| l.set(false));
    IRRATIONAL.with(|l| l.set(false));
}
pub fn lost() -> bool {
    LOST.with(|l| l.get()) || IRRATIONAL.with(|l| l.get())
}
fn lose() -> Rat {
    LOST.with(|l| l.set(true));
    Rat { n: 0, d: 1 }
}

// Comparisons the crate under test makes: where, of what, and how they came out (the guided search looks at them)
#[derive(Clone, Copy)]
pub struct Cmp { pub site: usize, pub d: Rat, pub ord: bool }
thread_local! {
    pub static REC: Cell<bool> = const { Cell::new(false) };
    pub static TRACE: std::cell::RefCell<Vec<Cmp>> = const { std::cell::RefCell::new(vec![]) };
    static SITES: std::cell::RefCell<std::collections::HashMap<usize, usize>> = Default::default();
}
#[cold]
fn record(l: &'static core::panic::Location<'static>, a: Rat, b: Rat, ord: bool) {
    REC.with(|r| r.set(false));
    let site = SITES.with(|s| *s.borrow_mut().entry(l as *const _ as usize).or_insert_with(|| if l.file().starts_with("src/") { 0 } else {
        let mut h = 0xcbf29ce484222325u64;
        for b in format!("{}:{}:{}", l.file(), l.line(), l.column()).bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        h as usize | 1
    }));
    if site != 0 && !LOST.with(|l| l.get()) {
        let d = a - b;
        if LOST.with(|l| l.get()) { LOST.with(|l| l.set(false)); } else { TRACE.with(|t| { let mut t = t.borrow_mut(); if t.len() < 3000 { t.push(Cmp { site, d, ord }); } }); }
    }
    REC.with(|r| r.set(true));
}
#[inline]
#[track_caller]
fn seen(a: Rat, b: Rat, ord: bool) { if REC.with(|r| r.get()) { record(core::panic::Location::caller(), a, b, ord); } }

/// comparisons of the oracle's
pub fn quiet<A>(f: impl FnOnce() -> A) -> A { let w = REC.with(|r| r.replace(false)); let a = f(); REC.with(|r| r.set(w)); a }

#[derive(Clone, Copy, Eq, Hash)]
pub struct Rat { pub n: i128, pub d: i128 }
impl Default for Rat { fn default() -> Self { Rat { n: 0, d: 1 } } }
impl core::fmt::Debug for Rat {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}
impl core::fmt::Display for Rat {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(self, f) }
}
fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 { let t = a % b; a = b; b = t; }
    a
}
pub fn rat(n: i128, d: i128) -> Rat {
    if d == 0 || n == i128::MIN || d == i128::MIN { return lose(); }
    let g = gcd(n.unsigned_abs(), d.unsigned_abs()).max(1) as i128;
    let s = if d < 0 { -1 } else { 1 };
    Rat { n: s * (n / g), d: s * (d / g) }
}
pub fn int(n: i64) -> Rat { Rat { n: n as i128, d: 1 } }
impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 { return self.n.checked_add(o.n).map(|n| Rat { n, d: 1 }).unwrap_or_else(lose); }
        let f = || Some(rat(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?));
        f().unwrap_or_else(lose)
    }
}
impl Neg for Rat { type Output = Rat; fn neg(self) -> Rat { Rat { n: -self.n, d: self.d } } }
impl Sub for Rat { type Output = Rat; fn sub(self, o: Rat) -> Rat { self + -o } }
impl Mul for Rat {
    type Output = Rat;
    fn mul(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 { return self.n.checked_mul(o.n).map(|n| Rat { n, d: 1 }).unwrap_or_else(lose); }
        let f = || Some(rat(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?));
        f().unwrap_or_else(lose)
    }
}
impl Div for Rat {
    type Output = Rat;
    fn div(self, o: Rat) -> Rat {
        if o.n == 0 { return int(987_654_321); } // x/0 is no number: whatever depends on it is wrong
        let f = || Some(rat(self.n.checked_mul(o.d)?, self.d.checked_mul(o.n)?));
        f().unwrap_or_else(lose)
    }
}
impl Rem for Rat { type Output = Rat; fn rem(self, o: Rat) -> Rat { if o.n == 0 { return int(987_654_321); } let q = self / o; self - Rat { n: q.n / q.d, d: 1 } * o } }
macro_rules! asg { ($($t:ident $f:ident $o:tt),*) => { $(impl $t for Rat { fn $f(&mut self, o: Rat) { *self = *self $o o; } })* } }
asg!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
impl PartialEq for Rat {
    #[track_caller]
    fn eq(&self, o: &Rat) -> bool { seen(*self, *o, false); self.n == o.n && self.d == o.d }
    #[track_caller]
    fn ne(&self, o: &Rat) -> bool { seen(*self, *o, false); self.n != o.n || self.d != o.d }
}
fn order(a: Rat, b: Rat) -> core::cmp::Ordering { (a - b).n.cmp(&0) }
impl PartialOrd for Rat {
    #[track_caller]
    fn partial_cmp(&self, o: &Rat) -> Option<core::cmp::Ordering> { seen(*self, *o, true); Some(order(*self, *o)) }
    #[track_caller]
    fn lt(&self, o: &Rat) -> bool { seen(*self, *o, true); order(*self, *o).is_lt() }
    #[track_caller]
    fn le(&self, o: &Rat) -> bool { seen(*self, *o, true); order(*self, *o).is_le() }
    #[track_caller]
    fn gt(&self, o: &Rat) -> bool { seen(*self, *o, true); order(*self, *o).is_gt() }
    #[track_caller]
    fn ge(&self, o: &Rat) -> bool { seen(*self, *o, true); order(*self, *o).is_ge() }
}
impl Ord for Rat {
    #[track_caller]
    fn cmp(&self, o: &Rat) -> core::cmp::Ordering { seen(*self, *o, true); order(*self, *o) }
}
impl Zero for Rat {
    fn zero() -> Rat { int(0) }
    #[track_caller]
    fn is_zero(&self) -> bool { seen(*self, int(0), false); self.n == 0 }
}
impl One for Rat {
    fn one() -> Rat { int(1) }
    #[track_caller]
    fn is_one(&self) -> bool { seen(*self, int(1), false); self.n == self.d }
}
impl core::iter::Sum for Rat { fn sum<I: Iterator<Item = Rat>>(i: I) -> Rat { i.fold(int(0), |a, b| a + b) } }
impl<'a> core::iter::Sum<&'a Rat> for Rat { fn sum<I: Iterator<Item = &'a Rat>>(i: I) -> Rat { i.fold(int(0), |a, b| a + *b) } }
impl core::iter::Product for Rat { fn product<I: Iterator<Item = Rat>>(i: I) -> Rat { i.fold(int(1), |a, b| a * b) } }
impl ToPrimitive for Rat {
    fn to_i64(&self) -> Option<i64> { i64::try_from(self.n / self.d).ok() }
    fn to_u64(&self) -> Option<u64> { u64::try_from(self.n / self.d).ok() }
    fn to_f64(&self) -> Option<f64> { Some(self.n as f64 / self.d as f64) }
}
fn of_f64(v: f64) -> Option<Rat> {
    if !v.is_finite() { return None; }
    let (mut n, mut d) = (v, 1i128);
    while n.fract() != 0.0 { n *= 2.0; d = d.checked_mul(2)?; }
    if n.abs() > 1e30 { return None; }
    Some(rat(n as i128, d))
}
impl FromPrimitive for Rat {
    fn from_i64(n: i64) -> Option<Rat> { Some(int(n)) }
    fn from_u64(n: u64) -> Option<Rat> { Some(rat(n as i128, 1)) }
    fn from_f64(v: f64) -> Option<Rat> { of_f64(v) }
    fn from_f32(v: f32) -> Option<Rat> { of_f64(v as f64) }
}
impl NumCast for Rat { fn from<T: ToPrimitive>(n: T) -> Option<Rat> { of_f64(n.to_f64()?) } }
impl Num for Rat { type FromStrRadixErr = (); fn from_str_radix(s: &str, _: u32) -> Result<Rat, ()> { s.parse::<i64>().map(int).map_err(|_| ()) } }
impl Signed for Rat {
    #[track_caller]
    fn abs(&self) -> Rat { seen(*self, int(0), true); Rat { n: self.n.abs(), d: self.d } }
    fn abs_sub(&self, o: &Rat) -> Rat { if self <= o { int(0) } else { *self - *o } }
    #[track_caller]
    fn signum(&self) -> Rat { seen(*self, int(0), true); int(self.n.signum() as i64) }
    #[track_caller]
    fn is_positive(&self) -> bool { seen(*self, int(0), true); self.n > 0 }
    #[track_caller]
    fn is_negative(&self) -> bool { seen(*self, int(0), true); self.n < 0 }
}
impl Bounded for Rat { fn min_value() -> Rat { Rat { n: -(1 << 100), d: 1 } } fn max_value() -> Rat { Rat { n: 1 << 100, d: 1 } } }
fn isqrt(n: i128) -> Option<i128> {
    if n < 0 { return None; }
    let mut r = (n as f64).sqrt() as i128;
    while r > 0 && r.checked_mul(r).map_or(true, |q| q > n) { r -= 1; }
    while (r + 1).checked_mul(r + 1).map_or(false, |q| q <= n) { r += 1; }
    if r * r == n { Some(r) } else { None }
}
impl MatrixDataType for Rat {
    fn square_root(self) -> Rat {
        match (isqrt(self.n), isqrt(self.d)) {
            (Some(n), Some(d)) => Rat { n, d },
            _ => { IRRATIONAL.with(|l| l.set(true)); int(1) }
        }
    }
}
