//! C19: reciprocal and square root of every element type this build supports, against f64 / u128
//! arithmetic.  usage: fl SECONDS [--type T --bits N]
use minikalman::matrix::MatrixDataType;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

struct G(u64);
impl G {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
// relative errors allowed: reciprocal and square root of f32, of f64
#[cfg(not(feature = "micromath"))]
const TOL: [f64; 4] = [3e-7, 3e-7, 6e-16, 6e-16];
// micromath trades precision for size: its square root is the exponent-halving approximation with
// up to 6.07 % error (on f64 too, which it takes through f32)
#[cfg(feature = "micromath")]
const TOL: [f64; 4] = [1e-5, 0.065, 6e-16, 0.065];
#[cfg(feature = "micromath")]
const RANGE32: (f64, f64) = (1e-18, 1e18);
#[cfg(not(feature = "micromath"))]
const RANGE32: (f64, f64) = (1e-37, 1e37);
#[cfg(feature = "micromath")]
const RANGE64: (f64, f64) = (1e-18, 1e18);
#[cfg(not(feature = "micromath"))]
const RANGE64: (f64, f64) = (1e-300, 1e300);

fn f32_at(bits: u64) -> Result<bool, String> {
    let x = f32::from_bits(bits as u32);
    let a = (x as f64).abs();
    if !(a > RANGE32.0 && a < RANGE32.1) { return Ok(false); }
    let r = MatrixDataType::recip(x);
    let w = 1.0 / x as f64;
    if !((r as f64 - w).abs() <= TOL[0] * w.abs()) { return Err(format!("the reciprocal of {x:e}f32 is {r:e}, should be {w:e}")); }
    if x > 0.0 {
        let s = MatrixDataType::square_root(x);
        let w = (x as f64).sqrt();
        if !((s as f64 - w).abs() <= TOL[1] * w) { return Err(format!("the square root of {x:e}f32 is {s:e}, should be {w:e}")); }
    }
    Ok(true)
}
fn f64_at(bits: u64) -> Result<bool, String> {
    let x = f64::from_bits(bits);
    if !(x.abs() > RANGE64.0 && x.abs() < RANGE64.1) { return Ok(false); }
    let r = MatrixDataType::recip(x);
    let w = 1.0 / x;
    if !((r - w).abs() <= TOL[2] * w.abs()) { return Err(format!("the reciprocal of {x:e}f64 is {r:e}, should be {w:e}")); }
    if x > 0.0 {
        let s = MatrixDataType::square_root(x);
        let w = x.sqrt();
        if !((s - w).abs() <= TOL[3] * w) { return Err(format!("the square root of {x:e}f64 is {s:e}, should be {w:e}")); }
    }
    Ok(true)
}
fn zeros(_: u64) -> Result<bool, String> {
    let (a, b) = (MatrixDataType::square_root(0.0f32), MatrixDataType::square_root(0.0f64));
    let t = if cfg!(feature = "micromath") { 1e-15 } else { 0.0 };
    if (a as f64).abs() > t || b.abs() > t { return Err(format!("the square root of 0 is {a:e}f32, {b:e}f64")); }
    Ok(true)
}
/// |r·x − 2^(2·F)| ≤ |x| in units of the last place: r is within one unit of 1/x; the same for s·s
#[cfg(feature = "std")]
fn fixed_at(what: &str, f: u32, x: i64, lo: i64, hi: i64, recip: impl Fn(i64) -> i64, root: impl Fn(i64) -> i64) -> Result<bool, String> {
    let one = 1i128 << (2 * f);
    if x == 0 { return if root(0) == 0 { Ok(true) } else { Err(format!("the square root of 0 in {what} is {} units", root(0))) }; }
    let q = one / x as i128;
    if q < hi as i128 - 1 && q > lo as i128 + 1 {
        let r = recip(x) as i128;
        if (r * x as i128 - one).abs() > (x as i128).abs() { return Err(format!("the reciprocal of {x} units of {what} is {r} units, should be {q}")); }
    }
    if x > 0 {
        let s = root(x) as i128;
        let v = (x as i128) << f;
        if s < 0 || (s - 1).max(0) * (s - 1).max(0) > v || (s + 1) * (s + 1) < v { return Err(format!("the square root of {x} units of {what} is {s} units")); }
    }
    Ok(true)
}
#[cfg(feature = "std")]
fn i16f16(bits: u64) -> Result<bool, String> {
    use fixed::types::I16F16 as F;
    fixed_at("I16F16", 16, bits as i32 as i64, i32::MIN as i64, i32::MAX as i64, |x| MatrixDataType::recip(F::from_bits(x as i32)).to_bits() as i64, |x| MatrixDataType::square_root(F::from_bits(x as i32)).to_bits() as i64)
}
#[cfg(feature = "std")]
fn i32f32(bits: u64) -> Result<bool, String> {
    use fixed::types::I32F32 as F;
    fixed_at("I32F32", 32, bits as i64, i64::MIN, i64::MAX, |x| MatrixDataType::recip(F::from_bits(x)).to_bits(), |x| MatrixDataType::square_root(F::from_bits(x)).to_bits())
}
/// a user's own element type, with the reciprocal the trait provides
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct Own(f64);
macro_rules! op { ($($t:ident $f:ident $o:tt),*) => { $(impl core::ops::$t for Own { type Output = Own; fn $f(self, o: Own) -> Own { Own(self.0 $o o.0) } })* } }
op!(Add add +, Sub sub -, Mul mul *, Div div /);
impl core::ops::AddAssign for Own { fn add_assign(&mut self, o: Own) { self.0 += o.0 } }
impl core::ops::SubAssign for Own { fn sub_assign(&mut self, o: Own) { self.0 -= o.0 } }
impl core::ops::Neg for Own { type Output = Own; fn neg(self) -> Own { Own(-self.0) } }
impl core::iter::Sum for Own { fn sum<I: Iterator<Item = Own>>(i: I) -> Own { Own(i.map(|x| x.0).sum()) } }
impl num_traits::Zero for Own { fn zero() -> Own { Own(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl num_traits::One for Own { fn one() -> Own { Own(1.0) } }
impl num_traits::FromPrimitive for Own { fn from_i64(n: i64) -> Option<Own> { Some(Own(n as f64)) } fn from_u64(n: u64) -> Option<Own> { Some(Own(n as f64)) } }
impl MatrixDataType for Own { fn square_root(self) -> Own { Own(self.0.sqrt()) } }
fn own(bits: u64) -> Result<bool, String> {
    let x = f64::from_bits(bits);
    if !(x.abs() > 1e-300 && x.abs() < 1e300) { return Ok(false); }
    let r = Own(x).recip().0;
    if r != 1.0 / x { return Err(format!("the reciprocal the trait provides for {x:e} is {r:e}")); }
    Ok(true)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let secs: f64 = a.get(1).map_or(5.0, |s| s.parse().unwrap());
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let lits: Vec<f64> = std::env::var("FZ_LITS").unwrap_or_default().split(',').filter_map(|s| s.trim().parse().ok()).collect();
    type F = fn(u64) -> Result<bool, String>;
    let mut kinds: Vec<(&str, F)> = vec![("f32", f32_at), ("f64", f64_at), ("zero", zeros), ("own", own)];
    #[cfg(feature = "std")]
    kinds.extend([("I16F16", i16f16 as F), ("I32F32", i32f32 as F)]);
    std::panic::set_hook(Box::new(|_| {}));
    let mut g = G(seed);
    let (mut ran, mut kept, mut fails) = (0u64, 0u64, 0);
    let t0 = Instant::now();
    let only: Option<(String, u64)> = opt("--type").map(|t| (t, opt("--bits").unwrap().parse().unwrap()));
    let mut bad = std::collections::HashSet::new();
    let mut i = 0u64;
    'o: while only.is_some() && i == 0 || only.is_none() && t0.elapsed() < Duration::from_secs_f64(secs) {
        for _ in 0..4096 {
            let w = g.next();
            let k = g.next();
            for (n, f) in &kinds {
                if bad.contains(n) { continue; }
                let mut b = w;
                // ordinary numbers, simple numbers, every bit pattern, small fixed-point values
                match (*n, k % 4) {
                    ("f32", 0) => b = ((w % 2001) as f32 / 8.0 - 125.0).to_bits() as u64,
                    ("f32", 1) => b = (((w >> 40) as f32) * if w & 1 == 0 { 1e-6 } else { -1e-3 }).to_bits() as u64,
                    ("f64" | "own", 0) => b = ((w % 2001) as f64 / 8.0 - 125.0).to_bits(),
                    ("f64" | "own", 1) => b = ((w >> 20) as f64 * if w & 1 == 0 { 1e-9 } else { -1e-4 }).to_bits(),
                    ("I16F16", 0) => b = (((w % 2001) as i64 - 1000) << 13) as u64,
                    ("I16F16", 1) => b = w % (1 << 18),
                    ("I32F32", 0) => b = (((w % 2001) as i64 - 1000) << 29) as u64,
                    ("I32F32", 1) => b = w % (1 << (20 + w % 30)),
                    _ => {}
                }
                if k % 16 == 3 && !lits.is_empty() {
                    let l = lits[(w % lits.len() as u64) as usize];
                    let l = l * [1.0, -1.0, 0.5, 2.0, 1.001, 0.999][((w >> 32) % 6) as usize];
                    b = match *n { "f32" => (l as f32).to_bits() as u64, "I16F16" => (l * 65536.0) as i64 as u64, "I32F32" => (l * 4294967296.0) as i64 as u64, _ => l.to_bits() };
                }
                if let Some((t, v)) = &only { if t != n { continue; } b = *v; }
                ran += 1;
                let e = match catch_unwind(AssertUnwindSafe(|| f(b))) { Ok(Ok(u)) => { kept += u as u64; continue; } Ok(Err(e)) => e, Err(_) => "panic".into() };
                println!("FAIL property=C19 type={n} bits={b}\n  {e}");
                bad.insert(*n);
                fails += 1;
            }
            if only.is_some() { break 'o; }
        }
        i += 1;
    }
    println!("RAN {ran} KEPT {kept} DISTINCT {kept} CASES {} ROUNDS {i}", kinds.len());
    std::process::exit(if fails > 0 { 1 } else { 0 });
}
