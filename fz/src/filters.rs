use crate::{dims, m::M, rat::*, util::*};
use minikalman::buffers::types::*;
use minikalman::extended::{ExtendedKalmanBuilder, ExtendedObservationBuilder};
use minikalman::prelude::*;
use minikalman::regular::{ControlBuilder, RegularKalmanBuilder, RegularObservationBuilder};

/// everything a filter consists of, as plain buffers
#[derive(Clone)]
struct Kf { a: Vec<Rat>, x: Vec<Rat>, p: Vec<Rat>, q: Vec<Rat>, px: Vec<Rat>, tp: Vec<Rat> }
#[derive(Clone)]
struct Ctl { b: Vec<Rat>, u: Vec<Rat>, q: Vec<Rat>, t: Vec<Rat> }
#[derive(Clone)]
struct Obs { h: Vec<Rat>, z: Vec<Rat>, r: Vec<Rat>, y: Vec<Rat>, s: Vec<Rat>, k: Vec<Rat>, si: Vec<Rat>, hp: Vec<Rat>, pht: Vec<Rat>, khp: Vec<Rat> }
fn fix(v: &mut [Rat], n: usize) { for (k, e) in v.iter_mut().enumerate().skip(n) { *e = int(7700 + (k - n) as i64); } }
impl Kf {
    fn new(g: &mut G, a: &M, x: &M, p: &M, q: &M) -> Kf {
        let n = a.r;
        Kf { a: g.buf(a), x: g.buf_at(x, 7800), p: g.buf_at(p, 7900), q: g.buf_at(q, 8000), px: g.junk(n, 1), tp: g.junk(n, n) }
    }
    fn rejunk(&mut self, g: &mut G, n: usize) { self.px = g.junk(n, 1); self.tp = g.junk(n, n); }
    fn tails(&self, n: usize) -> R {
        // the scratch buffers' excess is nobody's business
        if !tails_wanted() { return Ok(()); }
        tail("A", &self.a, n * n)?; tail_at("x", &self.x, n, 7800)?; tail_at("P", &self.p, n * n, 7900)?; tail_at("Q", &self.q, n * n, 8000)
    }
}
impl Ctl {
    fn new(g: &mut G, b: &M, u: &M, q: &M) -> Ctl { Ctl { b: g.buf_at(b, 8100), u: g.buf_at(u, 8200), q: g.buf_at(q, 8300), t: g.junk(b.r, b.c) } }
    fn tails(&self, n: usize, c: usize) -> R { if !tails_wanted() { return Ok(()); } tail_at("B", &self.b, n * c, 8100)?; tail_at("u", &self.u, c, 8200)?; tail_at("control Q", &self.q, c * c, 8300) }
}
impl Obs {
    fn new(g: &mut G, h: &M, z: &M, r: &M) -> Obs {
        let (o, n) = (h.r, h.c);
        Obs { h: g.buf_at(h, 8400), z: g.buf_at(z, 8500), r: g.buf_at(r, 8600), y: g.junk(o, 1), s: g.junk(o, o), k: g.junk(n, o), si: g.junk(o, o), hp: g.junk(o, n), pht: g.junk(n, o), khp: g.junk(n, n) }
    }
    fn rejunk(&mut self, g: &mut G, n: usize, o: usize) { self.y = g.junk(o, 1); self.s = g.junk(o, o); self.k = g.junk(n, o); self.si = g.junk(o, o); self.hp = g.junk(o, n); self.pht = g.junk(n, o); self.khp = g.junk(n, n); }
    fn tails(&self, n: usize, o: usize) -> R {
        if !tails_wanted() { return Ok(()); }
        tail_at("H", &self.h, n * o, 8400)?; tail_at("z", &self.z, o, 8500)?; tail_at("R", &self.r, o * o, 8600)
    }
}
macro_rules! kf { ($f:expr, $N:ident) => { RegularKalmanBuilder::new::<$N, Rat>(
    StateTransitionMatrixMutBuffer::from(&mut $f.a[..]), StateVectorBuffer::from(&mut $f.x[..]), EstimateCovarianceMatrixBuffer::from(&mut $f.p[..]),
    DirectProcessNoiseCovarianceMatrixMutBuffer::from(&mut $f.q[..]), PredictedStateEstimateVectorBuffer::from(&mut $f.px[..]), TemporaryStateMatrixBuffer::from(&mut $f.tp[..])) } }
macro_rules! ekf { ($f:expr, $N:ident) => { ExtendedKalmanBuilder::new::<$N, Rat>(
    StateTransitionMatrixMutBuffer::from(&mut $f.a[..]), StateVectorBuffer::from(&mut $f.x[..]), EstimateCovarianceMatrixBuffer::from(&mut $f.p[..]),
    DirectProcessNoiseCovarianceMatrixMutBuffer::from(&mut $f.q[..]), PredictedStateEstimateVectorBuffer::from(&mut $f.px[..]), TemporaryStateMatrixBuffer::from(&mut $f.tp[..])) } }
macro_rules! ctl { ($f:expr, $N:ident, $C:ident) => { ControlBuilder::new::<$N, $C, Rat>(
    ControlMatrixMutBuffer::from(&mut $f.b[..]), ControlVectorBuffer::from(&mut $f.u[..]), ControlProcessNoiseCovarianceMatrixMutBuffer::from(&mut $f.q[..]), TemporaryBQMatrixBuffer::from(&mut $f.t[..])) } }
macro_rules! obs { ($B:ident, $f:expr, $N:ident, $O:ident) => { $B::new::<$N, $O, Rat>(
    ObservationMatrixMutBuffer::from(&mut $f.h[..]), MeasurementVectorBuffer::from(&mut $f.z[..]), MeasurementNoiseCovarianceMatrixBuffer::from(&mut $f.r[..]),
    InnovationVectorBuffer::from(&mut $f.y[..]), InnovationCovarianceMatrixBuffer::from(&mut $f.s[..]), KalmanGainMatrixBuffer::from(&mut $f.k[..]),
    TemporaryResidualCovarianceInvertedMatrixBuffer::from(&mut $f.si[..]), TemporaryHPMatrixBuffer::from(&mut $f.hp[..]), TemporaryPHTMatrixBuffer::from(&mut $f.pht[..]), TemporaryKHPMatrixBuffer::from(&mut $f.khp[..])) } }

// the same steps through the generic traits
fn gen_predict<const N: usize>(f: &mut impl KalmanFilter<N, Rat>) { f.predict() }
fn gen_control<const N: usize, const C: usize>(f: &mut impl KalmanFilter<N, Rat>, c: &mut (impl KalmanFilterControl<N, C, Rat> + KalmanFilterControlApplyToFilter<N, Rat>)) { f.control(c) }
fn gen_correct<const N: usize, const O: usize>(f: &mut impl KalmanFilter<N, Rat>, m: &mut impl KalmanFilterObservation<N, O, Rat>) { f.correct(m) }
fn gen_predict_nl<const N: usize, E: ExtendedKalmanFilter<N, Rat>>(f: &mut E, mut g: impl FnMut(&[Rat], &mut [Rat])) { f.predict_nonlinear(|a, b| g(a.as_slice(), b.as_matrix_mut().as_mut_slice())) }
fn gen_correct_nl<const N: usize, const O: usize, E: ExtendedKalmanFilter<N, Rat>, M2: ExtendedKalmanFilterObservation<N, O, Rat>>(f: &mut E, m: &mut M2, mut g: impl FnMut(&[Rat], &mut [Rat])) {
    f.correct_nonlinear(m, |a, b| g(a.as_slice(), b.as_matrix_mut().as_mut_slice()))
}

/// some nonlinear function of the state, remembered by its two coefficient matrices
#[derive(Clone)]
pub struct Fun { pub c: M, pub q: M, pub k: i64 }
impl Fun {
    fn new(g: &mut G, r: usize, n: usize) -> Fun { Fun { c: g.smat("f.lin", r, n), q: g.smat("f.quad", r, n), k: 1 + g.below(3) as i64 } }
    pub fn lin(m: &M) -> Fun { Fun { c: m.clone(), q: M::f(m.r, m.c, |_, _| int(0)), k: 0 } }
    pub fn of(&self, x: &[Rat]) -> Vec<Rat> { (0..self.c.r).map(|i| (0..self.c.c).map(|j| self.c.at(i, j) * x[j] + self.q.at(i, j) * x[j] * x[j]).sum::<Rat>() + int(self.k * i as i64)).collect() }
}
fn m1(v: Vec<Rat>) -> M { M { r: v.len(), c: 1, d: v } }

/// H, P, R with S = H·P·Hᵀ + R = L·Lᵀ for a rational L
pub fn spd(g: &mut G, n: usize, o: usize, p: &M) -> (M, M, M) {
    let h = match g.below(5) { 0 => M::f(o, n, |i, j| int((i == j) as i64)), 1 => M::f(o, n, |_, _| int(0)), _ => M::f(o, n, |_, _| g.small()) };
    let l = g.low(o);
    let s = l.mul(&l.t());
    let r = s.sub(&h.mul(p).mul(&h.t()));
    g.note(&format!("H={:?} R={:?}", h.d, r.d));
    (h, r, s)
}
/// for S symmetric, H·P·Hᵀ has to be: P symmetric, or only its part that H does not see is not
pub fn cov(g: &mut G, n: usize) -> M { match g.below(8) { 0 | 1 => g.smat("P", n, n), 2 | 3 => g.sym("P", n), _ => g.psd("P", n) } }
pub fn kalman(x: &M, p: &M, h: &M, y: &M, s: &M) -> Option<(M, M)> {
    let k = p.mul(&h.t()).mul(&s.inv()?);
    Some((x.add(&k.mul(y)), p.sub(&k.mul(h).mul(p))))
}

fn predict<const N: usize>(g: &mut G) -> R {
    let (a, x, p, q) = (g.mat("A", N, N), g.mat("x", N, 1), g.mat("P", N, N), g.mat("Q", N, N));
    let mut f = Kf::new(g, &a, &x, &p, &q);
    if g.flip() { kf!(f, N).predict() } else { gen_predict::<N>(&mut kf!(f, N)) }
    eq("predict: x", &f.x, &a.mul(&x))?;
    eq("predict: P", &f.p, &a.mul(&p).mul(&a.t()).add(&q))?;
    eq("predict: A", &f.a, &a)?;
    eq("predict: Q", &f.q, &q)?;
    f.tails(N)
}
fn tuned<const N: usize>(g: &mut G) -> R {
    let (a, x, p, q) = (g.mat("A", N, N), g.mat("x", N, 1), g.mat("P", N, N), g.mat("Q", N, N));
    let l = match g.below(7) { 0 => int(1), 1 => int(-1), 2 => rat(1, 2), 3 => rat(-3, 2), 4 => rat(21, 20), _ => g.nz() };
    g.note(&format!("lambda={l}"));
    let mut f = Kf::new(g, &a, &x, &p, &q);
    let fun = Fun::new(g, N, N);
    let ext = g.flip();
    let mut seen = vec![];
    if ext {
        ekf!(f, N).predict_tuned_nonlinear(l, |v, o| { seen.push(v.as_slice()[..N].to_vec()); let w = fun.of(v.as_slice()); for i in 0..N { o.set_row(i, w[i]); } });
        ck(quiet(|| seen == vec![x.d.clone()]), || format!("the transition function was called with {seen:?}, the state is {:?}", x.d))?;
        eq("predict_tuned_nonlinear: x", &f.x, &m1(fun.of(&x.d)))?;
    } else {
        kf!(f, N).predict_tuned(l);
        eq("predict_tuned: x", &f.x, &a.mul(&x))?;
    }
    eq("predict_tuned: P", &f.p, &a.mul(&p).mul(&a.t()).scale(int(1) / (l * l)).add(&q))?;
    eq("predict_tuned: A", &f.a, &a)?;
    eq("predict_tuned: Q", &f.q, &q)?;
    f.tails(N)
}
fn control<const N: usize, const C: usize>(g: &mut G) -> R {
    let (a, x, p, q) = (g.smat("A", N, N), g.mat("x", N, 1), g.mat("P", N, N), g.smat("Q", N, N));
    let (b, u, cq) = (g.mat("B", N, C), g.mat("u", C, 1), g.mat("cQ", C, C));
    let mut f = Kf::new(g, &a, &x, &p, &q);
    let mut c = Ctl::new(g, &b, &u, &cq);
    match g.below(3) {
        0 => kf!(f, N).control(&mut ctl!(c, N, C)),
        1 => gen_control::<N, C>(&mut kf!(f, N), &mut ctl!(c, N, C)),
        _ => { let mut xx = StateVectorBuffer::<N, Rat, _>::from(&mut f.x[..]); let mut pp = EstimateCovarianceMatrixBuffer::<N, Rat, _>::from(&mut f.p[..]); ctl!(c, N, C).apply_to(&mut xx, &mut pp) }
    }
    eq("control: x", &f.x, &x.add(&b.mul(&u)))?;
    eq("control: P", &f.p, &p.add(&b.mul(&cq).mul(&b.t())))?;
    eq("control: B", &c.b, &b)?;
    eq("control: u", &c.u, &u)?;
    eq("control: control Q", &c.q, &cq)?;
    eq("control: A", &f.a, &a)?;
    eq("control: Q", &f.q, &q)?;
    f.tails(N)?;
    c.tails(N, C)
}
fn correct<const N: usize, const O: usize>(g: &mut G) -> R {
    let (a, x, p, q) = (g.smat("A", N, N), g.mat("x", N, 1), cov(g, N), g.smat("Q", N, N));
    let (h, r, s) = spd(g, N, O, &p);
    let z = g.mat("z", O, 1);
    let Some((wx, wp)) = kalman(&x, &p, &h, &z.sub(&h.mul(&x)), &s) else { return Ok(()) };
    let mut f = Kf::new(g, &a, &x, &p, &q);
    let mut o = Obs::new(g, &h, &z, &r);
    match g.below(3) {
        0 => kf!(f, N).correct(&mut obs!(RegularObservationBuilder, o, N, O)),
        1 => gen_correct::<N, O>(&mut kf!(f, N), &mut obs!(RegularObservationBuilder, o, N, O)),
        _ => { let mut xx = StateVectorBuffer::<N, Rat, _>::from(&mut f.x[..]); let mut pp = EstimateCovarianceMatrixBuffer::<N, Rat, _>::from(&mut f.p[..]); obs!(RegularObservationBuilder, o, N, O).correct(&mut xx, &mut pp) }
    }
    eq("correct: x", &f.x, &wx)?;
    eq("correct: P", &f.p, &wp)?;
    eq("correct: z", &o.z, &z)?;
    eq("correct: H", &o.h, &h)?;
    eq("correct: R", &o.r, &r)?;
    eq("correct: A", &f.a, &a)?;
    eq("correct: Q", &f.q, &q)?;
    f.tails(N)?;
    o.tails(N, O)
}
fn ext_predict<const N: usize>(g: &mut G) -> R {
    let (a, x, p, q) = (g.mat("J", N, N), g.mat("x", N, 1), g.mat("P", N, N), g.mat("Q", N, N));
    let fun = Fun::new(g, N, N);
    let mut f = Kf::new(g, &a, &x, &p, &q);
    let mut seen = vec![];
    if g.flip() {
        ekf!(f, N).predict_nonlinear(|v, o| { seen.push(v.as_slice()[..N].to_vec()); let w = fun.of(v.as_slice()); for i in 0..N { o.set_row(i, w[i]); } });
    } else {
        gen_predict_nl(&mut ekf!(f, N), |v: &[Rat], o: &mut [Rat]| { seen.push(v[..N].to_vec()); o[..N].copy_from_slice(&fun.of(v)); });
    }
    ck(quiet(|| seen == vec![x.d.clone()]), || format!("the transition function was called with {seen:?}, the state before is {:?}", x.d))?;
    eq("predict_nonlinear: x", &f.x, &m1(fun.of(&x.d)))?;
    eq("predict_nonlinear: P", &f.p, &a.mul(&p).mul(&a.t()).add(&q))?;
    eq("predict_nonlinear: J", &f.a, &a)?;
    eq("predict_nonlinear: Q", &f.q, &q)?;
    f.tails(N)
}
fn ext_correct<const N: usize, const O: usize>(g: &mut G) -> R {
    let (a, x, p, q) = (g.smat("J", N, N), g.mat("x", N, 1), cov(g, N), g.smat("Q", N, N));
    let (h, r, s) = spd(g, N, O, &p);
    let z = g.mat("z", O, 1);
    let fun = Fun::new(g, O, N);
    let Some((wx, wp)) = kalman(&x, &p, &h, &z.sub(&m1(fun.of(&x.d))), &s) else { return Ok(()) };
    let mut f = Kf::new(g, &a, &x, &p, &q);
    let mut o = Obs::new(g, &h, &z, &r);
    let mut seen = vec![];
    match g.below(3) {
        0 => ekf!(f, N).correct_nonlinear(&mut obs!(ExtendedObservationBuilder, o, N, O), |v, y| { seen.push(v.as_slice()[..N].to_vec()); let w = fun.of(v.as_slice()); for i in 0..O { y.as_matrix_mut().as_mut_slice()[i] = w[i]; } }),
        1 => gen_correct_nl::<N, O, _, _>(&mut ekf!(f, N), &mut obs!(ExtendedObservationBuilder, o, N, O), |v: &[Rat], y: &mut [Rat]| { seen.push(v[..N].to_vec()); y[..O].copy_from_slice(&fun.of(v)); }),
        _ => {
            let mut xx = StateVectorBuffer::<N, Rat, _>::from(&mut f.x[..]);
            let mut pp = EstimateCovarianceMatrixBuffer::<N, Rat, _>::from(&mut f.p[..]);
            obs!(ExtendedObservationBuilder, o, N, O).correct_nonlinear(&mut xx, &mut pp, |v, y| { seen.push(v.as_slice()[..N].to_vec()); let w = fun.of(v.as_slice()); for i in 0..O { y.as_matrix_mut().as_mut_slice()[i] = w[i]; } })
        }
    }
    ck(quiet(|| seen == vec![x.d.clone()]), || format!("the observation function was called with {seen:?}, the state is {:?}", x.d))?;
    eq("correct_nonlinear: x", &f.x, &wx)?;
    eq("correct_nonlinear: P", &f.p, &wp)?;
    eq("correct_nonlinear: z", &o.z, &z)?;
    eq("correct_nonlinear: H", &o.h, &h)?;
    eq("correct_nonlinear: R", &o.r, &r)?;
    eq("correct_nonlinear: J", &f.a, &a)?;
    eq("correct_nonlinear: Q", &f.q, &q)?;
    f.tails(N)?;
    o.tails(N, O)
}

/// symmetry and diagonals over a run of steps
fn symmetry<const N: usize, const O: usize>(g: &mut G) -> R {
    let (a, x, q) = (g.smat("A", N, N), g.smat("x", N, 1), g.psd("Q", N));
    let p = if g.flip() { g.psd("P", N) } else { g.sym("P", N) };
    let psd = g.log().contains("P[") && { let l = p.clone(); is_psd(&l) };
    let fun = Fun { c: g.smat("f", N, N), q: M::f(N, N, |_, _| int(0)), k: 1 };
    let mut f = Kf::new(g, &a, &x, &p, &q);
    let mut was_psd = psd;
    for step in 0..4 {
        let before = M::new(N, N, &f.p);
        let op = g.below(7);
        g.note(&format!("step={op}"));
        match op {
            0 => kf!(f, N).predict(),
            1 => kf!(f, N).predict_tuned([rat(1, 2), int(2), int(-1)][step % 3]),
            2 => ekf!(f, N).predict_nonlinear(|v, o| { let w = fun.of(v.as_slice()); for i in 0..N { o.set_row(i, w[i]); } }),
            6 => ekf!(f, N).predict_tuned_nonlinear(int(2), |v, o| { let w = fun.of(v.as_slice()); for i in 0..N { o.set_row(i, w[i]); } }),
            3 => {
                let (b, u, cq) = (g.smat("B", N, O), g.smat("u", O, 1), g.psd("cQ", O));
                let mut c = Ctl::new(g, &b, &u, &cq);
                kf!(f, N).control(&mut ctl!(c, N, O));
            }
            _ => {
                let (h, r, _) = spd(g, N, O, &before);
                let z = g.smat("z", O, 1);
                let mut o = Obs::new(g, &h, &z, &r);
                if op == 4 { kf!(f, N).correct(&mut obs!(RegularObservationBuilder, o, N, O)); }
                else { ekf!(f, N).correct_nonlinear(&mut obs!(ExtendedObservationBuilder, o, N, O), |v, y| { let s = v.as_slice()[0]; for i in 0..O { y.as_matrix_mut().as_mut_slice()[i] = s; } }); }
            }
        }
        if lost() { return Ok(()); }
        let now = M::new(N, N, &f.p);
        eq("P is symmetric before the step but not after it:", &now.d, &now.t())?;
        if op == 4 || op == 5 {
            for i in 0..N { ck(now.at(i, i) <= before.at(i, i) || lost(), || format!("a correct step increased P[{i},{i}] from {} to {}", before.at(i, i), now.at(i, i)))?; }
            was_psd = false;
        } else if was_psd {
            for i in 0..N { ck(now.at(i, i) >= int(0) || lost(), || format!("P[{i},{i}] became {}", now.at(i, i)))?; }
        }
    }
    Ok(())
}
fn is_psd(m: &M) -> bool {
    // L·D·Lᵀ with all pivots non-negative and zero columns under zero pivots
    let n = m.r;
    let mut a = m.clone();
    for i in 0..n {
        let d = a.at(i, i);
        if d < int(0) { return false; }
        if d == int(0) { if (i..n).any(|k| a.at(k, i) != int(0)) { return false; } continue; }
        for r in i + 1..n { let f = a.at(r, i) / d; for c in i..n { let v = a.at(i, c); a.d[r * n + c] -= f * v; } }
    }
    true
}

/// the same steps on objects with a past and on fresh ones
fn history<const N: usize, const O: usize>(g: &mut G) -> R {
    let (a, x, q, p) = (g.smat("A", N, N), g.smat("x", N, 1), g.psd("Q", N), cov(g, N));
    let (b, cq) = (g.smat("B", N, O), g.psd("cQ", O));
    let mut f = Kf::new(g, &a, &x, &p, &q);
    let u0 = g.smat("u", O, 1);
    let mut c = Ctl::new(g, &b, &u0, &cq);
    let (h0, r0, z0) = (g.smat("H", O, N), M::id(O), g.smat("z", O, 1));
    let mut o1 = Obs::new(g, &h0, &z0, &r0);
    let mut o2 = o1.clone();
    let fun = Fun { c: g.smat("f", N, N), q: M::f(N, N, |_, _| int(0)), k: 1 };
    let hun = Fun { c: g.smat("h", O, N), q: M::f(O, N, |_, _| int(0)), k: 1 };
    let lam = int(2);
    let (mut kobj, mut oobj) = (f.clone(), [o1.clone(), o2.clone()]);
    {
        // one filter, one control, two measurements that live through all steps
        let mut filter = kf!(kobj, N);
        let (l, r) = oobj.split_at_mut(1);
        let (l, r) = (&mut l[0], &mut r[0]);
        let mut m1_ = obs!(RegularObservationBuilder, l, N, O);
        let mut m2_ = obs!(RegularObservationBuilder, r, N, O);
        let mut cc = c.clone();
        let mut con = ctl!(cc, N, O);
        for _ in 0..4 {
            let op = g.below(5);
            g.note(&format!("step={op}"));
            // keep numbers small: fresh estimate each time
            let (nx, np) = (g.smat("x", N, 1), cov(g, N));
            filter.state_vector_mut().as_matrix_mut().as_mut_slice()[..N].copy_from_slice(&nx.d);
            filter.estimate_covariance_mut().as_matrix_mut().as_mut_slice()[..N * N].copy_from_slice(&np.d);
            let mut fresh = Kf::new(g, &a, &nx, &np, &q);
            match op {
                0 => { filter.predict(); kf!(fresh, N).predict(); }
                1 => { filter.predict_tuned(lam); kf!(fresh, N).predict_tuned(lam); }
                2 => {
                    let u = g.smat("u", O, 1);
                    con.control_vector_mut().as_matrix_mut().as_mut_slice()[..O].copy_from_slice(&u.d);
                    filter.control(&mut con);
                    let mut c2 = Ctl::new(g, &b, &u, &cq);
                    kf!(fresh, N).control(&mut ctl!(c2, N, O));
                }
                _ => {
                    let (h, r, _) = spd(g, N, O, &np);
                    let z = g.smat("z", O, 1);
                    let w = if op == 3 { &mut m1_ } else { &mut m2_ };
                    w.measurement_vector_mut().as_matrix_mut().as_mut_slice()[..O].copy_from_slice(&z.d);
                    w.observation_matrix_mut().as_matrix_mut().as_mut_slice()[..O * N].copy_from_slice(&h.d);
                    w.measurement_noise_covariance_mut().as_matrix_mut().as_mut_slice()[..O * O].copy_from_slice(&r.d);
                    filter.correct(w);
                    let mut o = Obs::new(g, &h, &z, &r);
                    kf!(fresh, N).correct(&mut obs!(RegularObservationBuilder, o, N, O));
                }
            }
            if lost() { return Ok(()); }
            eq("x of a filter with a past differs from a fresh one's", &filter.state_vector().as_matrix().as_slice()[..N], &M::new(N, 1, &fresh.x))?;
            eq("P of a filter with a past differs from a fresh one's", &filter.estimate_covariance().as_matrix().as_slice()[..N * N], &M::new(N, N, &fresh.p))?;
        }
    }
    let _ = (&mut o2, &mut o1, &mut c);
    // the same, extended
    let mut ek = f.clone();
    let mut eo = o1.clone();
    {
        let mut filter = ekf!(ek, N);
        let mut w = obs!(ExtendedObservationBuilder, eo, N, O);
        for _ in 0..3 {
            let op = g.below(3);
            g.note(&format!("ext step={op}"));
            let (nx, np) = (g.smat("x", N, 1), cov(g, N));
            filter.state_vector_mut().as_matrix_mut().as_mut_slice()[..N].copy_from_slice(&nx.d);
            filter.estimate_covariance_mut().as_matrix_mut().as_mut_slice()[..N * N].copy_from_slice(&np.d);
            let mut fresh = Kf::new(g, &a, &nx, &np, &q);
            let mut tr = |v: &[Rat], o: &mut [Rat]| o[..N].copy_from_slice(&fun.of(v));
            match op {
                0 => { filter.predict_nonlinear(|v, o| tr(v.as_slice(), o.as_mut_slice())); ekf!(fresh, N).predict_nonlinear(|v, o| tr(v.as_slice(), o.as_mut_slice())); }
                1 => { filter.predict_tuned_nonlinear(lam, |v, o| tr(v.as_slice(), o.as_mut_slice())); ekf!(fresh, N).predict_tuned_nonlinear(lam, |v, o| tr(v.as_slice(), o.as_mut_slice())); }
                _ => {
                    let (h, r, _) = spd(g, N, O, &np);
                    let z = g.smat("z", O, 1);
                    w.measurement_vector_mut().as_matrix_mut().as_mut_slice()[..O].copy_from_slice(&z.d);
                    w.observation_jacobian_matrix_mut().as_matrix_mut().as_mut_slice()[..O * N].copy_from_slice(&h.d);
                    w.measurement_noise_covariance_mut().as_matrix_mut().as_mut_slice()[..O * O].copy_from_slice(&r.d);
                    filter.correct_nonlinear(&mut w, |v, y| y.as_matrix_mut().as_mut_slice()[..O].copy_from_slice(&hun.of(v.as_slice())));
                    let mut o = Obs::new(g, &h, &z, &r);
                    ekf!(fresh, N).correct_nonlinear(&mut obs!(ExtendedObservationBuilder, o, N, O), |v, y| y.as_matrix_mut().as_mut_slice()[..O].copy_from_slice(&hun.of(v.as_slice())));
                }
            }
            if lost() { return Ok(()); }
            eq("x of an extended filter with a past differs from a fresh one's", &filter.state_vector().as_matrix().as_slice()[..N], &M::new(N, 1, &fresh.x))?;
            eq("P of an extended filter with a past differs from a fresh one's", &filter.estimate_covariance().as_matrix().as_slice()[..N * N], &M::new(N, N, &fresh.p))?;
        }
    }
    Ok(())
}

/// extended filter on a linear model against the linear filter
fn agree<const N: usize, const O: usize>(g: &mut G) -> R {
    let (a, x, q, p) = (g.mat("A", N, N), g.smat("x", N, 1), g.mat("Q", N, N), cov(g, N));
    let fa = Fun::lin(&a);
    let mut f = Kf::new(g, &a, &x, &p, &q);
    let mut e = Kf::new(g, &a, &x, &p, &q);
    for _ in 0..3 {
        let op = g.below(3);
        g.note(&format!("step={op}"));
        match op {
            0 => { kf!(f, N).predict(); ekf!(e, N).predict_nonlinear(|v, o| o.as_mut_slice()[..N].copy_from_slice(&fa.of(v.as_slice()))); }
            1 => { let l = [int(1), int(2), rat(-1, 2)][g.below(3) as usize]; kf!(f, N).predict_tuned(l); ekf!(e, N).predict_tuned_nonlinear(l, |v, o| o.as_mut_slice()[..N].copy_from_slice(&fa.of(v.as_slice()))); }
            _ => {
                let now = M::new(N, N, &f.p);
                let (h, r, _) = spd(g, N, O, &now);
                let z = g.smat("z", O, 1);
                let fh = Fun::lin(&h);
                let mut o = Obs::new(g, &h, &z, &r);
                let mut oe = Obs::new(g, &h, &z, &r);
                kf!(f, N).correct(&mut obs!(RegularObservationBuilder, o, N, O));
                ekf!(e, N).correct_nonlinear(&mut obs!(ExtendedObservationBuilder, oe, N, O), |v, y| y.as_matrix_mut().as_mut_slice()[..O].copy_from_slice(&fh.of(v.as_slice())));
            }
        }
        if lost() { return Ok(()); }
        eq("extended x against linear x", &e.x, &M::new(N, 1, &f.x))?;
        eq("extended P against linear P", &e.p, &M::new(N, N, &f.p))?;
    }
    Ok(())
}

// ---- accessors
fn tag(base: i64, n: usize) -> Vec<Rat> { (0..n as i64).map(|k| int(base + k)).collect() }
fn isx(what: &str, s: &[Rat], base: i64, n: usize) -> R { eq(what, s, &M { r: 1, c: n.max(1), d: tag(base, n) }) }
macro_rules! view { ($w:expr, $acc:expr, $base:expr, $n:expr) => { isx($w, $acc.as_matrix().as_slice(), $base, $n)? } }
macro_rules! write { ($acc:expr, $base:expr, $n:expr) => { $acc.as_matrix_mut().as_mut_slice()[..$n].copy_from_slice(&tag($base, $n)) } }

fn gen_kf<const N: usize, F: KalmanFilter<N, Rat> + KalmanFilterStateTransitionMut<N, Rat>>(f: &mut F) -> R {
    let nn = N * N;
    ck(KalmanFilterNumStates::<N>::states(f) == N, || "states()".into())?;
    ck(F::NUM_STATES == N, || "NUM_STATES".into())?;
    isx("trait state_vector", f.state_vector().as_slice(), 10, N)?;
    isx("trait state_vector_mut", f.state_vector_mut().as_slice(), 10, N)?;
    view!("trait state_transition", f.state_transition(), 1000, nn);
    view!("trait state_transition_mut", f.state_transition_mut(), 1000, nn);
    view!("trait estimate_covariance", f.estimate_covariance(), 2000, nn);
    view!("trait estimate_covariance_mut", f.estimate_covariance_mut(), 2000, nn);
    f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&tag(40, N));
    write!(f.estimate_covariance_mut(), 5000, nn);
    write!(f.state_transition_mut(), 6000, nn);
    isx("trait state_vector after write", f.state_vector().as_slice(), 40, N)?;
    view!("trait state_transition after write", f.state_transition(), 6000, nn);
    view!("trait estimate_covariance after write", f.estimate_covariance(), 5000, nn);
    Ok(())
}
fn gen_ekf<const N: usize, F: ExtendedKalmanFilter<N, Rat> + ExtendedKalmanFilterStateTransitionMut<N, Rat> + KalmanFilterDirectProcessNoiseMut<N, Rat>>(f: &mut F) -> R {
    let nn = N * N;
    ck(KalmanFilterNumStates::<N>::states(f) == N, || "states()".into())?;
    isx("trait state_vector", f.state_vector().as_slice(), 10, N)?;
    view!("trait state_transition_jacobian", f.state_transition_jacobian(), 1000, nn);
    view!("trait estimate_covariance", f.estimate_covariance(), 2000, nn);
    view!("trait direct_process_noise", f.direct_process_noise(), 3000, nn);
    f.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&tag(40, N));
    write!(f.estimate_covariance_mut(), 5000, nn);
    write!(f.state_transition_jacobian_mut(), 6000, nn);
    write!(f.direct_process_noise_mut(), 7000, nn);
    isx("trait state_vector after write", f.state_vector().as_slice(), 40, N)?;
    view!("trait state_transition_jacobian after write", f.state_transition_jacobian(), 6000, nn);
    view!("trait estimate_covariance after write", f.estimate_covariance(), 5000, nn);
    view!("trait direct_process_noise after write", f.direct_process_noise(), 7000, nn);
    Ok(())
}
fn gen_ctl<const N: usize, const C: usize, F: KalmanFilterControl<N, C, Rat> + KalmanFilterControlTransitionMut<N, C, Rat>>(f: &mut F) -> R {
    ck(KalmanFilterNumStates::<N>::states(f) == N && KalmanFilterNumControls::<C>::controls(f) == C && F::NUM_CONTROLS == C, || "states()/controls()".into())?;
    isx("trait control_vector", f.control_vector().as_slice(), 10, C)?;
    view!("trait control_matrix", f.control_matrix(), 1000, N * C);
    view!("trait process_noise_covariance", f.process_noise_covariance(), 2000, C * C);
    f.control_vector_mut().as_mut_slice()[..C].copy_from_slice(&tag(40, C));
    write!(f.control_matrix_mut(), 5000, N * C);
    write!(f.process_noise_covariance_mut(), 6000, C * C);
    isx("trait control_vector after write", f.control_vector().as_slice(), 40, C)?;
    view!("trait control_matrix after write", f.control_matrix(), 5000, N * C);
    view!("trait process_noise_covariance after write", f.process_noise_covariance(), 6000, C * C);
    Ok(())
}
fn gen_obs<const N: usize, const O: usize, F: KalmanFilterObservation<N, O, Rat> + KalmanFilterObservationTransformationMut<N, O, Rat>>(f: &mut F) -> R {
    ck(KalmanFilterNumStates::<N>::states(f) == N && KalmanFilterNumObservations::<O>::observations(f) == O && F::NUM_OBSERVATIONS == O, || "states()/observations()".into())?;
    isx("trait measurement_vector", f.measurement_vector().as_slice(), 10, O)?;
    view!("trait observation_matrix", f.observation_matrix(), 1000, N * O);
    view!("trait measurement_noise_covariance", f.measurement_noise_covariance(), 2000, O * O);
    f.measurement_vector_mut().as_mut_slice()[..O].copy_from_slice(&tag(40, O));
    write!(f.observation_matrix_mut(), 5000, N * O);
    write!(f.measurement_noise_covariance_mut(), 6000, O * O);
    isx("trait measurement_vector after write", f.measurement_vector().as_slice(), 40, O)?;
    view!("trait observation_matrix after write", f.observation_matrix(), 5000, N * O);
    view!("trait measurement_noise_covariance after write", f.measurement_noise_covariance(), 6000, O * O);
    Ok(())
}
fn gen_eobs<const N: usize, const O: usize, F: ExtendedKalmanFilterObservation<N, O, Rat> + ExtendedKalmanFilterObservationTransformationMut<N, O, Rat>>(f: &mut F) -> R {
    ck(KalmanFilterNumStates::<N>::states(f) == N && KalmanFilterNumObservations::<O>::observations(f) == O, || "states()/observations()".into())?;
    isx("trait measurement_vector", f.measurement_vector().as_slice(), 10, O)?;
    view!("trait observation_jacobian_matrix", f.observation_jacobian_matrix(), 1000, N * O);
    view!("trait measurement_noise_covariance", f.measurement_noise_covariance(), 2000, O * O);
    f.measurement_vector_mut().as_mut_slice()[..O].copy_from_slice(&tag(40, O));
    write!(f.observation_jacobian_matrix_mut(), 5000, N * O);
    write!(f.measurement_noise_covariance_mut(), 6000, O * O);
    isx("trait measurement_vector after write", f.measurement_vector().as_slice(), 40, O)?;
    view!("trait observation_jacobian_matrix after write", f.observation_jacobian_matrix(), 5000, N * O);
    view!("trait measurement_noise_covariance after write", f.measurement_noise_covariance(), 6000, O * O);
    Ok(())
}
fn accessors<const N: usize, const O: usize>(g: &mut G) -> R {
    let nn = N * N;
    let _ = g.small();
    let t = |b: i64, r: usize, c: usize| M { r, c, d: tag(b, r * c) };
    let (kx, ka, kp, kq) = (t(10, N, 1), t(1000, N, N), t(2000, N, N), t(3000, N, N));
    {
        let mut f = Kf::new(g, &ka, &kx, &kp, &kq);
        {
            let mut k = kf!(f, N);
            ck(k.states() == N, || "RegularKalman::states".into())?;
            isx("state_vector", k.state_vector().as_slice(), 10, N)?;
            view!("state_transition", k.state_transition(), 1000, nn);
            view!("estimate_covariance", k.estimate_covariance(), 2000, nn);
            view!("direct_process_noise", k.direct_process_noise(), 3000, nn);
            write!(k.direct_process_noise_mut(), 7000, nn);
            view!("direct_process_noise after write", k.direct_process_noise(), 7000, nn);
            gen_kf::<N, _>(&mut k)?;
            write!(k.state_transition_mut(), 6100, nn);
            write!(k.estimate_covariance_mut(), 5100, nn);
            k.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&tag(60, N));
        }
        for (w, b, base, n) in [("x", &f.x, 60, N), ("P", &f.p, 5100, nn), ("A", &f.a, 6100, nn), ("Q", &f.q, 7000, nn)] { isx(&format!("buffer of {w} after writing through the filter"), b, base, n)?; }
        let mut f = Kf::new(g, &ka, &kx, &kp, &kq);
        {
            let mut k = ekf!(f, N);
            ck(k.states() == N, || "ExtendedKalman::states".into())?;
            isx("state_vector", k.state_vector().as_slice(), 10, N)?;
            view!("state_transition_jacobian", k.state_transition_jacobian(), 1000, nn);
            view!("estimate_covariance", k.estimate_covariance(), 2000, nn);
            view!("direct_process_noise", k.direct_process_noise(), 3000, nn);
            gen_ekf::<N, _>(&mut k)?;
            write!(k.state_transition_jacobian_mut(), 6100, nn);
            write!(k.estimate_covariance_mut(), 5100, nn);
            write!(k.direct_process_noise_mut(), 7100, nn);
            k.state_vector_mut().as_mut_slice()[..N].copy_from_slice(&tag(60, N));
        }
        for (w, b, base, n) in [("x", &f.x, 60, N), ("P", &f.p, 5100, nn), ("A", &f.a, 6100, nn), ("Q", &f.q, 7100, nn)] { isx(&format!("buffer of {w} after writing through the extended filter"), b, base, n)?; }
    }
    {
        let mut c = Ctl::new(g, &t(1000, N, O), &t(10, O, 1), &t(2000, O, O));
        {
            let mut k = ctl!(c, N, O);
            ck(k.states() == N && k.controls() == O, || "Control::states/controls".into())?;
            isx("control_vector", k.control_vector().as_slice(), 10, O)?;
            view!("control_matrix", k.control_matrix(), 1000, N * O);
            view!("process_noise_covariance", k.process_noise_covariance(), 2000, O * O);
            gen_ctl::<N, O, _>(&mut k)?;
            k.control_vector_mut().as_mut_slice()[..O].copy_from_slice(&tag(60, O));
            write!(k.control_matrix_mut(), 5100, N * O);
            write!(k.process_noise_covariance_mut(), 6100, O * O);
        }
        for (w, b, base, n) in [("u", &c.u, 60, O), ("B", &c.b, 5100, N * O), ("Q", &c.q, 6100, O * O)] { isx(&format!("buffer of {w} after writing through the control"), b, base, n)?; }
    }
    {
        let mut o = Obs::new(g, &t(1000, O, N), &t(10, O, 1), &t(2000, O, O));
        {
            let mut k = obs!(RegularObservationBuilder, o, N, O);
            ck(k.states() == N && k.measurements() == O, || "RegularObservation::states/measurements".into())?;
            isx("measurement_vector", k.measurement_vector().as_slice(), 10, O)?;
            view!("observation_matrix", k.observation_matrix(), 1000, N * O);
            view!("measurement_noise_covariance", k.measurement_noise_covariance(), 2000, O * O);
            gen_obs::<N, O, _>(&mut k)?;
            k.measurement_vector_mut().as_mut_slice()[..O].copy_from_slice(&tag(60, O));
            write!(k.observation_matrix_mut(), 5100, N * O);
            write!(k.measurement_noise_covariance_mut(), 6100, O * O);
        }
        for (w, b, base, n) in [("z", &o.z, 60, O), ("H", &o.h, 5100, N * O), ("R", &o.r, 6100, O * O)] { isx(&format!("buffer of {w} after writing through the observation"), b, base, n)?; }
        let mut o = Obs::new(g, &t(1000, O, N), &t(10, O, 1), &t(2000, O, O));
        {
            let mut k = obs!(ExtendedObservationBuilder, o, N, O);
            ck(k.states() == N && k.measurements() == O, || "ExtendedObservation::states/measurements".into())?;
            isx("measurement_vector", k.measurement_vector().as_slice(), 10, O)?;
            view!("observation_jacobian_matrix", k.observation_jacobian_matrix(), 1000, N * O);
            view!("measurement_noise_covariance", k.measurement_noise_covariance(), 2000, O * O);
            gen_eobs::<N, O, _>(&mut k)?;
            k.measurement_vector_mut().as_mut_slice()[..O].copy_from_slice(&tag(60, O));
            write!(k.observation_jacobian_matrix_mut(), 5100, N * O);
            write!(k.measurement_noise_covariance_mut(), 6100, O * O);
        }
        for (w, b, base, n) in [("z", &o.z, 60, O), ("H", &o.h, 5100, N * O), ("R", &o.r, 6100, O * O)] { isx(&format!("buffer of {w} after writing through the extended observation"), b, base, n)?; }
    }
    Ok(())
}
/// generic traits against own methods, on the same values
fn through_traits<const N: usize, const O: usize>(g: &mut G) -> R {
    let (a, x, p, q) = (g.mat("A", N, N), g.smat("x", N, 1), cov(g, N), g.mat("Q", N, N));
    let (b, u, cq) = (g.mat("B", N, O), g.mat("u", O, 1), g.mat("cQ", O, O));
    let (h, r, _) = spd(g, N, O, &p);
    let z = g.smat("z", O, 1);
    let fun = Fun::new(g, N, N);
    let hun = Fun::new(g, O, N);
    for op in 0..5 {
        let mut f1 = Kf::new(g, &a, &x, &p, &q);
        let mut f2 = Kf::new(g, &a, &x, &p, &q);
        let (mut c1, mut c2) = (Ctl::new(g, &b, &u, &cq), Ctl::new(g, &b, &u, &cq));
        let (mut o1, mut o2) = (Obs::new(g, &h, &z, &r), Obs::new(g, &h, &z, &r));
        match op {
            0 => { kf!(f1, N).predict(); gen_predict::<N>(&mut kf!(f2, N)); }
            1 => { kf!(f1, N).control(&mut ctl!(c1, N, O)); gen_control::<N, O>(&mut kf!(f2, N), &mut ctl!(c2, N, O)); }
            2 => { kf!(f1, N).correct(&mut obs!(RegularObservationBuilder, o1, N, O)); gen_correct::<N, O>(&mut kf!(f2, N), &mut obs!(RegularObservationBuilder, o2, N, O)); }
            3 => { ekf!(f1, N).predict_nonlinear(|v, o| o.as_mut_slice()[..N].copy_from_slice(&fun.of(v.as_slice()))); gen_predict_nl(&mut ekf!(f2, N), |v: &[Rat], o: &mut [Rat]| o[..N].copy_from_slice(&fun.of(v))); }
            _ => {
                ekf!(f1, N).correct_nonlinear(&mut obs!(ExtendedObservationBuilder, o1, N, O), |v, y| y.as_matrix_mut().as_mut_slice()[..O].copy_from_slice(&hun.of(v.as_slice())));
                gen_correct_nl::<N, O, _, _>(&mut ekf!(f2, N), &mut obs!(ExtendedObservationBuilder, o2, N, O), |v: &[Rat], y: &mut [Rat]| y[..O].copy_from_slice(&hun.of(v)));
            }
        }
        // and the control's or observation's own method, on the same state and covariance
        let mut f3 = Kf::new(g, &a, &x, &p, &q);
        let (mut c3, mut o3) = (Ctl::new(g, &b, &u, &cq), Obs::new(g, &h, &z, &r));
        if op != 0 && op != 3 {
            let mut xx = StateVectorBuffer::<N, Rat, _>::from(&mut f3.x[..]);
            let mut pp = EstimateCovarianceMatrixBuffer::<N, Rat, _>::from(&mut f3.p[..]);
            match op {
                1 => ctl!(c3, N, O).apply_control(&mut xx, &mut pp),
                2 => { let mut m = obs!(RegularObservationBuilder, o3, N, O); m.correct(&mut xx, &mut pp) }
                _ => { let mut m = obs!(ExtendedObservationBuilder, o3, N, O); m.correct_nonlinear(&mut xx, &mut pp, |v, y| y.as_matrix_mut().as_mut_slice()[..O].copy_from_slice(&hun.of(v.as_slice()))) }
            }
        }
        if lost() { return Ok(()); }
        if op != 0 && op != 3 {
            let nm = ["", "control", "correct", "", "correct_nonlinear"][op];
            for (w, m1, m3, r, c) in [("x", &f1.x, &f3.x, N, 1), ("P", &f1.p, &f3.p, N, N), ("B", &c1.b, &c3.b, N, O), ("u", &c1.u, &c3.u, O, 1), ("control Q", &c1.q, &c3.q, O, O), ("z", &o1.z, &o3.z, O, 1), ("H", &o1.h, &o3.h, O, N), ("R", &o1.r, &o3.r, O, O)] {
                eq(&format!("{nm}: {w} through the filter against {w} through the component's own method"), m1, &M::new(r, c, m3))?;
            }
        }
        let nm = ["predict", "control", "correct", "predict_nonlinear", "correct_nonlinear"][op];
        for (w, m1, m2, r, c) in [("x", &f1.x, &f2.x, N, 1), ("P", &f1.p, &f2.p, N, N), ("A", &f1.a, &f2.a, N, N), ("Q", &f1.q, &f2.q, N, N), ("B", &c1.b, &c2.b, N, O), ("u", &c1.u, &c2.u, O, 1), ("control Q", &c1.q, &c2.q, O, O), ("z", &o1.z, &o2.z, O, 1), ("H", &o1.h, &o2.h, O, N), ("R", &o1.r, &o2.r, O, O)] {
            eq(&format!("{nm}: {w} through the trait against {w} through the method"), m2, &M::new(r, c, m1))?;
        }
        eq(&format!("{nm}: A"), &f2.a, &a)?;
        eq(&format!("{nm}: Q"), &f2.q, &q)?;
    }
    Ok(())
}

pub fn cases(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    dims!(v, p, "C01", predict; 1 2 3 4 5 6 7 8 9 10 11 12 13 16);
    dims!(v, p, "C02", tuned; 1 2 3 4 5 6 7 8 9 10 12);
    dims!(v, p, "C03", control; (1,0) (3,0) (1,1) (2,1) (1,2) (2,2) (3,1) (3,2) (2,3) (4,4) (5,3) (3,5) (8,2) (2,8) (9,9) (6,6) (7,5) (1,7));
    dims!(v, p, "C04", correct; (1,1) (2,1) (1,2) (2,2) (3,1) (3,2) (2,3) (3,3) (1,4) (4,1) (4,4) (5,2) (2,5) (6,3) (3,6) (5,5) (7,4) (2,7) (8,8));
    dims!(v, p, "C05", ext_predict; 1 2 3 4 5 6 7 8 9 10 12);
    dims!(v, p, "C06", ext_correct; (1,1) (2,1) (1,2) (2,2) (3,1) (3,2) (2,3) (3,3) (1,4) (4,1) (4,4) (5,2) (2,5) (6,3) (3,6) (5,5) (7,4) (2,7) (8,8));
    dims!(v, p, "C07", symmetry; (1,1) (2,1) (1,2) (2,2) (3,1) (3,2) (2,3) (3,3) (4,1) (4,4) (5,2) (6,6));
    dims!(v, p, "C18", history; (1,1) (2,1) (1,2) (2,2) (3,1) (3,2) (2,3) (3,3) (4,1) (4,4) (5,2) (6,6));
    dims!(v, p, "C20", accessors; (1,1) (2,1) (1,2) (2,2) (3,2) (2,3) (4,4) (5,3));
    dims!(v, p, "C20", through_traits; (1,1) (2,1) (1,2) (2,2) (3,2) (2,3) (3,3) (4,4) (5,3));
    dims!(v, p, "C21", agree; (1,1) (2,1) (1,2) (2,2) (3,1) (3,2) (2,3) (3,3) (4,1) (4,4) (5,2) (6,6));
    v
}
