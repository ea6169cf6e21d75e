//! The element types the crate is actually used with.  Inputs are small integers, factors have powers of two on the diagonal, so
//! every step is exact in all of them up to the tolerance given.
use crate::{m::M, rat::*, util::*};
use minikalman::extended::builder::KalmanFilterBuilder as EB;
use minikalman::matrix::*;
use minikalman::prelude::*;
use minikalman::regular::builder::KalmanFilterBuilder as RB;

pub trait El: MatrixDataType + Default + Copy + 'static { const NAME: &'static str; fn of(v: Rat) -> Self; fn to(self) -> f64; }
fn f(v: Rat) -> f64 { v.n as f64 / v.d as f64 }
impl El for f32 { const NAME: &'static str = "f32"; fn of(v: Rat) -> f32 { f(v) as f32 } fn to(self) -> f64 { self as f64 } }
impl El for f64 { const NAME: &'static str = "f64"; fn of(v: Rat) -> f64 { f(v) } fn to(self) -> f64 { self } }
#[cfg(feature = "base")]
impl El for fixed::types::I16F16 { const NAME: &'static str = "I16F16"; fn of(v: Rat) -> Self { Self::from_num(f(v)) } fn to(self) -> f64 { self.to_num::<f64>() } }
#[cfg(feature = "base")]
impl El for fixed::types::I32F32 { const NAME: &'static str = "I32F32"; fn of(v: Rat) -> Self { Self::from_num(f(v)) } fn to(self) -> f64 { self.to_num::<f64>() } }

fn near<T: El>(what: &str, got: &[T], want: &M) -> R {
    for k in 0..want.d.len() {
        let (a, b) = (got[k].to(), f(want.d[k]));
        if !((a - b).abs() <= 1e-3 * (1.0 + b.abs())) { return Err(format!("{what} ({})[{},{}] is {a} but should be {b}", T::NAME, k / want.c, k % want.c)); }
    }
    Ok(())
}
fn ints(g: &mut G, n: &str, r: usize, c: usize) -> M {
    let z = g.below(6) == 0;
    let m = M::f(r, c, |i, j| if z && i != j { int(0) } else { int(g.below(7) as i64 - 3) });
    g.note(&format!("{n}[{r}x{c}]={:?}", m.d));
    m
}
fn psd(g: &mut G, n: usize) -> M { let a = M::f(n, n, |_, _| int(g.below(3) as i64 - 1)); let p = a.mul(&a.t()); g.note(&format!("P={:?}", p.d)); p }
fn low(g: &mut G, n: usize) -> M { M::f(n, n, |i, j| if i == j { int(1 + g.below(2) as i64) } else if i > j { int(g.below(3) as i64 - 1) } else { int(0) }) }
fn v<T: El>(m: &M, extra: usize) -> Vec<T> { m.d.iter().map(|x| T::of(*x)).chain((0..extra).map(|k| T::of(int(70 + k as i64)))).collect() }
fn mm<const A: usize, const B: usize, T>(v: &mut Vec<T>) -> MatrixDataMut<'_, A, B, T> { MatrixDataMut::new(&mut v[..]) }

fn products<T: El, const A: usize, const B: usize, const C: usize>(g: &mut G) -> R {
    let (a, b, bt, x, c, y) = (ints(g, "A", A, B), ints(g, "B", B, C), ints(g, "Bt", C, B), ints(g, "x", B, 1), ints(g, "C", A, C), ints(g, "y", A, 1));
    let (mut av, mut bv, mut btv, mut xv) = (v::<T>(&a, 0), v::<T>(&b, 1), v::<T>(&bt, 0), v::<T>(&x, 0));
    let mut o = v::<T>(&c, 2);
    mm::<A, B, T>(&mut av).mult(&mm::<B, C, T>(&mut bv), &mut mm::<A, C, T>(&mut o)); near("mult", &o, &a.mul(&b))?;
    let mut o = v::<T>(&c, 2);
    let mut aux = vec![T::of(int(5)); B];
    mm::<A, B, T>(&mut av).mult_buffered(&mm::<B, C, T>(&mut bv), &mut mm::<A, C, T>(&mut o), &mut aux[..]); near("mult_buffered", &o, &a.mul(&b))?;
    let mut o = v::<T>(&c, 2);
    mm::<A, B, T>(&mut av).mult_transb(&mm::<C, B, T>(&mut btv), &mut mm::<A, C, T>(&mut o)); near("mult_transb", &o, &a.mul(&bt.t()))?;
    let mut o = v::<T>(&c, 2);
    mm::<A, B, T>(&mut av).multadd_transb(&mm::<C, B, T>(&mut btv), &mut mm::<A, C, T>(&mut o)); near("multadd_transb", &o, &c.add(&a.mul(&bt.t())))?;
    let mut o = v::<T>(&c, 2);
    mm::<A, B, T>(&mut av).multscale_transb(&mm::<C, B, T>(&mut btv), T::of(rat(-1, 2)), &mut mm::<A, C, T>(&mut o)); near("multscale_transb", &o, &a.mul(&bt.t()).scale(rat(-1, 2)))?;
    let mut o = v::<T>(&y, 2);
    mm::<A, B, T>(&mut av).mult_rowvector(&mm::<B, 1, T>(&mut xv), &mut mm::<A, 1, T>(&mut o)); near("mult_rowvector", &o, &a.mul(&x))?;
    let mut o = v::<T>(&y, 2);
    mm::<A, B, T>(&mut av).multadd_rowvector(&mm::<B, 1, T>(&mut xv), &mut mm::<A, 1, T>(&mut o)); near("multadd_rowvector", &o, &y.add(&a.mul(&x)))?;
    near("first operand", &av, &a)?;
    near("second operand", &bv, &b)
}
fn addsub<T: El, const A: usize, const B: usize>(g: &mut G) -> R {
    let (a, b) = (ints(g, "A", A, B), ints(g, "B", A, B));
    for op in 0..5 {
        let (mut av, mut bv, mut cv) = (v::<T>(&a, 1), v::<T>(&b, 0), v::<T>(&b, 2));
        match op {
            0 => { mm::<A, B, T>(&mut av).sub(&mm::<A, B, T>(&mut bv), &mut mm::<A, B, T>(&mut cv)); near("sub", &cv, &a.sub(&b))?; }
            1 => { mm::<A, B, T>(&mut av).add_inplace_b(&mut mm::<A, B, T>(&mut bv)); near("add_inplace_b", &bv, &a.add(&b))?; }
            2 => { mm::<A, B, T>(&mut av).sub_inplace_b(&mut mm::<A, B, T>(&mut bv)); near("sub_inplace_b", &bv, &a.sub(&b))?; }
            3 => { mm::<A, B, T>(&mut av).add_inplace_a(&mm::<A, B, T>(&mut bv)); near("add_inplace_a", &av, &a.add(&b))?; }
            _ => { mm::<A, B, T>(&mut av).sub_inplace_a(&mm::<A, B, T>(&mut bv)); near("sub_inplace_a", &av, &a.sub(&b))?; }
        }
    }
    Ok(())
}
fn chol<T: El, const N: usize>(g: &mut G) -> R {
    let l = low(g, N);
    let mut s = l.mul(&l.t());
    let bad = g.below(3) == 0;
    if bad { let k = g.below(N as u64) as usize; s.d[k * N + k] -= l.at(k, k) * l.at(k, k) + int(g.below(3) as i64); }
    g.note(&format!("S={:?}", s.d));
    let mut sv = v::<T>(&s, 1);
    let ok = mm::<N, N, T>(&mut sv).cholesky_decompose_lower();
    ck(ok == !bad, || format!("cholesky_decompose_lower ({}) returned {ok} for a matrix that is {}positive definite", T::NAME, if bad { "not " } else { "" }))?;
    if bad { Ok(()) } else { near("cholesky_decompose_lower", &sv, &l) }
}
fn invert<T: El, const N: usize>(g: &mut G) -> R {
    let mut l = low(g, N);
    for i in 0..N { if g.below(3) == 0 { l.d[i * N + i] = [int(-1), rat(1, 2), int(-2)][g.below(3) as usize]; } }
    g.note(&format!("L={:?}", l.d));
    let (mut lv, mut xv) = (v::<T>(&l, 0), v::<T>(&ints(g, "X", N, N), 1));
    mm::<N, N, T>(&mut lv).invert_l_cholesky(&mut mm::<N, N, T>(&mut xv));
    near("invert_l_cholesky", &xv, &l.mul(&l.t()).inv().unwrap())?;
    near("invert_l_cholesky: L", &lv, &l)
}
fn access<T: El, const A: usize, const B: usize>(g: &mut G) -> R {
    let m = M::f(A, B, |i, j| int((20 * i + j) as i64));
    let mut b = v::<T>(&m, 2);
    let (i, j) = (g.below(A as u64) as usize, g.below(B as u64) as usize);
    g.note(&format!("element {i},{j}"));
    let mut row = vec![T::of(int(1)); B]; mm::<A, B, T>(&mut b).get_row_copy(i, &mut row[..]); near("get_row_copy", &row, &M::f(1, B, |_, k| m.at(i, k)))?;
    let mut col = vec![T::of(int(1)); A]; mm::<A, B, T>(&mut b).get_column_copy(j, &mut col[..]); near("get_column_copy", &col, &M::f(A, 1, |k, _| m.at(k, j)))?;
    let mut c = vec![T::of(int(1)); A * B]; mm::<A, B, T>(&mut b).copy_to(&mut mm::<A, B, T>(&mut c)); near("copy_to", &c, &m)?;
    let e = { let v = mm::<A, B, T>(&mut b); [v.get(i, j), v.get_at(i, j), v[i * B + j]] };
    near("get", &e, &M::f(3, 1, |_, _| m.at(i, j)))?;
    let mut w = m.clone(); w.d[i * B + j] = int(-9);
    mm::<A, B, T>(&mut b).set(i, j, T::of(int(-9))); near("set", &b, &w)?;
    w.d[i * B + j] = int(-8);
    mm::<A, B, T>(&mut b).set_at(i, j, T::of(int(-8))); near("set_at", &b, &w)
}
fn init<T: El, const N: usize>(g: &mut G) -> R {
    let m = ints(g, "M", N, N);
    let mut b = v::<T>(&m, 0);
    mm::<N, N, T>(&mut b).set_diagonal_to_scalar(T::of(int(9))); near("set_diagonal_to_scalar", &b, &M::f(N, N, |i, j| if i == j { int(9) } else { m.at(i, j) }))?;
    mm::<N, N, T>(&mut b).make_identity(); near("make_identity", &b, &M::id(N))?;
    mm::<N, N, T>(&mut b).make_comatrix(T::of(int(5)), T::of(rat(1, 2))); near("make_comatrix", &b, &M::f(N, N, |i, j| if i == j { int(5) } else { rat(1, 2) }))?;
    mm::<N, N, T>(&mut b).make_scalar(T::of(int(4))); near("make_scalar", &b, &M::f(N, N, |i, j| if i == j { int(4) } else { int(0) }))?;
    mm::<N, N, T>(&mut b).set_all(T::of(int(3))); near("set_all", &b, &M::f(N, N, |_, _| int(3)))?;
    mm::<N, N, T>(&mut b).clear(); near("clear", &b, &M::f(N, N, |_, _| int(0)))
}
fn set<const A: usize, const B: usize, T: El>(to: &mut impl MatrixMut<A, B, T>, m: &M) { for i in 0..A { for j in 0..B { to.set(i, j, T::of(m.at(i, j))); } } }
fn get<const A: usize, const B: usize, T: El>(from: &impl Matrix<A, B, T>) -> Vec<T> { (0..A * B).map(|k| from.get(k / B, k % B)).collect() }
fn steps<T: El, const N: usize, const O: usize>(g: &mut G) -> R {
    let p = g.prop;
    let ops: &[u64] = match p { "C01" => &[0], "C02" => &[1, 5], "C03" => &[2], "C04" => &[3], "C05" => &[4], "C06" => &[6], "C21" => &[4, 5, 6], _ => &[0, 1, 2, 3, 4, 5, 6] };
    let (rb, eb) = (RB::<N, T>::default(), EB::<N, T>::default());
    let (mut fl, mut e) = (rb.build(), eb.build());
    let (mut c, mut m, mut w) = (rb.controls().build::<O>(), rb.observations().build::<O>(), eb.observations().build::<O>());
    for step in 0..4 {
        let op = { let k = g.below(ops.len() as u64); ops[k as usize] };
        g.note(&format!("\n  step {step}: op={op}"));
        let (a, q, x, pp) = (ints(g, "A", N, N), psd(g, N), ints(g, "x", N, 1), psd(g, N));
        set::<N, N, T>(fl.state_transition_mut().as_matrix_mut(), &a); set::<N, N, T>(e.state_transition_jacobian_mut().as_matrix_mut(), &a);
        set::<N, N, T>(fl.direct_process_noise_mut().as_matrix_mut(), &q); set::<N, N, T>(e.direct_process_noise_mut().as_matrix_mut(), &q);
        set::<N, 1, T>(fl.state_vector_mut(), &x); set::<N, 1, T>(e.state_vector_mut(), &x);
        set::<N, N, T>(fl.estimate_covariance_mut().as_matrix_mut(), &pp); set::<N, N, T>(e.estimate_covariance_mut().as_matrix_mut(), &pp);
        let lam = [int(1), int(-1), rat(1, 2), int(2)][g.below(4) as usize];
        let apa = a.mul(&pp).mul(&a.t());
        let (wx, wp);
        match op {
            0 => { fl.predict(); wx = a.mul(&x); wp = apa.add(&q); }
            1 => { g.note(&format!("lambda={lam}")); fl.predict_tuned(T::of(lam)); wx = a.mul(&x); wp = apa.scale(int(1) / (lam * lam)).add(&q); }
            2 => {
                let (b, u, cq) = (ints(g, "B", N, O), ints(g, "u", O, 1), ints(g, "cQ", O, O));
                set::<N, O, T>(c.control_matrix_mut().as_matrix_mut(), &b); set::<O, 1, T>(c.control_vector_mut(), &u); set::<O, O, T>(c.process_noise_covariance_mut().as_matrix_mut(), &cq);
                fl.control(&mut c);
                wx = x.add(&b.mul(&u)); wp = pp.add(&b.mul(&cq).mul(&b.t()));
            }
            4 | 5 => {
                let fun = |v: &[T], o: &mut dyn FnMut(usize, T)| for i in 0..N { let mut t = T::zero(); for j in 0..N { t += T::of(a.at(i, j)) * v[j]; } o(i, t); };
                if op == 4 { e.predict_nonlinear(|v, o| fun(&get::<N, 1, T>(v), &mut |i, t| o.set_row(i, t))); wp = apa.add(&q); }
                else { g.note(&format!("lambda={lam}")); e.predict_tuned_nonlinear(T::of(lam), |v, o| fun(&get::<N, 1, T>(v), &mut |i, t| o.set_row(i, t))); wp = apa.scale(int(1) / (lam * lam)).add(&q); }
                wx = a.mul(&x);
            }
            _ => {
                let (h, l, z) = (M::f(O, N, |_, _| int(g.below(3) as i64 - 1)), low(g, O), ints(g, "z", O, 1));
                let s = l.mul(&l.t());
                let r = s.sub(&h.mul(&pp).mul(&h.t()));
                g.note(&format!("H={:?} R={:?}", h.d, r.d));
                let k = pp.mul(&h.t()).mul(&s.inv().unwrap());
                wx = x.add(&k.mul(&z.sub(&h.mul(&x)))); wp = pp.sub(&k.mul(&h).mul(&pp));
                if op == 3 {
                    set::<O, N, T>(m.observation_matrix_mut().as_matrix_mut(), &h); set::<O, O, T>(m.measurement_noise_covariance_mut().as_matrix_mut(), &r); set::<O, 1, T>(m.measurement_vector_mut(), &z);
                    fl.correct(&mut m);
                } else {
                    set::<O, N, T>(w.observation_jacobian_matrix_mut().as_matrix_mut(), &h); set::<O, O, T>(w.measurement_noise_covariance_mut().as_matrix_mut(), &r); set::<O, 1, T>(w.measurement_vector_mut(), &z);
                    e.correct_nonlinear(&mut w, |v, y| { let v = get::<N, 1, T>(v); for i in 0..O { let mut t = T::zero(); for j in 0..N { t += T::of(h.at(i, j)) * v[j]; } y.as_matrix_mut().set(i, 0, t); } });
                }
            }
        }
        let nm = ["predict", "predict_tuned", "control", "correct", "predict_nonlinear", "predict_tuned_nonlinear", "correct_nonlinear"][op as usize];
        let (gx, gp) = if op < 4 { (get::<N, 1, T>(fl.state_vector()), get::<N, N, T>(fl.estimate_covariance().as_matrix())) } else { (get::<N, 1, T>(e.state_vector()), get::<N, N, T>(e.estimate_covariance().as_matrix())) };
        near(&format!("step {step}, {nm}: x"), &gx, &wx)?;
        near(&format!("step {step}, {nm}: P"), &gp, &wp)?;
    }
    Ok(())
}
#[cfg(feature = "base")]
type F16 = fixed::types::I16F16;
#[cfg(feature = "base")]
type F32 = fixed::types::I32F32;
#[cfg(not(feature = "base"))]
type F16 = f32;
#[cfg(not(feature = "base"))]
type F32 = f64;
pub fn cases(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    macro_rules! add { ($c:literal; $f:ident; $($t:ident)*; $(($($d:literal),*))*) => { add!(@ $c; $f; [$($t)*]; $([$($d),*])*) };
        (@ $c:literal; $f:ident; [$($t:ident)*]; $d0:tt $($d:tt)*) => { $( add!(@@ $c; $f; $t; $d0); )* add!(@ $c; $f; [$($t)*]; $($d)*) };
        (@ $c:literal; $f:ident; [$($t:ident)*];) => {};
        (@@ $c:literal; $f:ident; $t:ident; [$($d:literal),*]) => { #[cfg(any(feature = $c, feature = "C14"))] if p == $c || p == "C14" { v.push((format!("typed {}<{}{}>", stringify!($f), stringify!($t), concat!($(",", stringify!($d)),*)), Box::new($f::<$t, $($d),*>) as Case)); } } }
    add!("C08"; products; f32 f64 F16 F32; (1,1,1) (2,3,2) (3,2,4) (4,4,4) (8,8,8) (3,5,7));
    add!("C12"; addsub; f32 f64 F16 F32; (1,1) (2,3) (4,4) (5,7) (8,8));
    add!("C09"; chol; f32 f64 F16 F32; (1) (2) (3) (4) (8));
    add!("C10"; invert; f32 f64 F16 F32; (1) (2) (3) (4));
    add!("C11"; access; f32 f64 F16 F32; (1,1) (2,3) (4,4) (5,7) (8,8));
    add!("C13"; init; f32 f64 F16 F32; (1) (2) (3) (4) (8));
    macro_rules! st { ($($c:literal)*) => { $( add!($c; steps; f32 f64 F16 F32; (1,1) (2,1) (3,2) (2,3) (4,2)); )* } }
    st!("C01" "C02" "C03" "C04" "C05" "C06" "C18" "C21");
    v
}
