//! Filters, controls and measurements from the allocating builders that live through a long run of steps; every step of the
//! property is compared with the exact result, the others only happen in between.
use crate::{dims, filters::*, m::M, rat::*, util::*};
use minikalman::matrix::{Matrix, MatrixMut};
use minikalman::prelude::*;

fn set<const A: usize, const B: usize>(to: &mut impl MatrixMut<A, B, Rat>, m: &M) { for i in 0..A { for j in 0..B { to.set(i, j, m.at(i, j)); } } }
fn get<const A: usize, const B: usize>(from: &impl Matrix<A, B, Rat>) -> Vec<Rat> { (0..A * B).map(|k| from.get(k / B, k % B)).collect() }
#[derive(Clone)]
struct Meas { h: M, r: M, z: M }

fn life<const N: usize, const O: usize>(g: &mut G) -> R {
    let p = g.prop;
    let mine = |op: u64| match p { "C01" => op == 0, "C02" => op == 1 || op == 5, "C03" => op == 2, "C04" => op == 3, "C05" => op == 4, "C06" => op == 6, "C21" => op >= 4, _ => true };
    let ops: &[u64] = match p { "C01" => &[0], "C02" => &[1, 5], "C03" => &[2], "C04" => &[3], "C05" => &[4], "C06" => &[6], "C21" => &[0, 1, 3, 4, 5, 6], _ => &[0, 1, 2, 3, 4, 5, 6] };
    let steps = match g.round % 32 { 9 if N <= 2 => 600, 3 | 19 if N <= 2 => { let l = g.count(); l + 3 } 5 | 13 => 40, _ => 6 };
    use minikalman::extended::builder::KalmanFilterBuilder as EB;
    use minikalman::regular::builder::KalmanFilterBuilder as RB;
    let (rb, eb) = (RB::<N, Rat>::default(), EB::<N, Rat>::default());
    let (mut f, mut e) = (rb.build(), eb.build());
    let (mut c0, mut c1) = (rb.controls().build::<O>(), rb.controls().build::<O>());
    let (mut m0, mut m1) = (rb.observations().build::<O>(), rb.observations().build::<O>());
    let (mut w0, mut w1) = (eb.observations().build::<O>(), eb.observations().build::<O>());
    let (mut a, mut q) = (g.smat("A", N, N), g.smat("Q", N, N));
    let mut con = [(g.smat("B", N, O), g.smat("u", O, 1), g.smat("cQ", O, O)), (g.smat("B", N, O), g.smat("u", O, 1), g.smat("cQ", O, O))];
    set::<N, N>(f.state_transition_mut().as_matrix_mut(), &a);
    set::<N, N>(e.state_transition_jacobian_mut().as_matrix_mut(), &a);
    set::<N, N>(f.direct_process_noise_mut().as_matrix_mut(), &q);
    set::<N, N>(e.direct_process_noise_mut().as_matrix_mut(), &q);
    let (mut x, mut pp) = (g.smat("x", N, 1), cov(g, N));
    let mut ms: Vec<Option<Meas>> = vec![None, None];
    // half of the lives touch a component through its accessor only when it changes
    let lazy = g.flip();
    let mut held: Vec<Option<M>> = vec![None; 24];
    macro_rules! put { ($k:expr, $v:expr, $set:expr) => { { let k = $k; if !lazy || held[k].as_ref() != Some(&$v) { $set; held[k] = Some($v.clone()); } } } }
    for step in 0..steps {
        let op = if g.below(4) == 0 { g.below(7) } else { let k = g.below(ops.len() as u64); ops[k as usize] };
        let w = g.below(2) as usize;
        g.note(&format!("\n  step {step}: op={op} object={w}"));
        // the estimate before: the same as last time, or a new one
        if step > 0 && g.below(3) != 0 { x = g.smat("x", N, 1); }
        if step > 0 && g.below(3) != 0 { pp = cov(g, N); for _ in 0..0 {} ms = vec![None, None]; }
        if g.below(5) == 0 { a = g.smat("A", N, N); set::<N, N>(f.state_transition_mut().as_matrix_mut(), &a); set::<N, N>(e.state_transition_jacobian_mut().as_matrix_mut(), &a); }
        if g.below(5) == 0 { q = g.smat("Q", N, N); set::<N, N>(f.direct_process_noise_mut().as_matrix_mut(), &q); set::<N, N>(e.direct_process_noise_mut().as_matrix_mut(), &q); }
        let lin = op < 4;
        // or the estimate as the last step left it
        if lazy && step > 0 && steps <= 6 && g.below(4) == 0 {
            let m = |d: Vec<Rat>, c: usize| M { r: N, c, d };
            if lin { x = m(get::<N, 1>(f.state_vector()), 1); pp = m(get::<N, N>(f.estimate_covariance().as_matrix()), N); }
            else { x = m(get::<N, 1>(e.state_vector()), 1); pp = m(get::<N, N>(e.estimate_covariance().as_matrix()), N); }
            ms = vec![None, None];
            g.note(&format!("estimate kept: x={:?} P={:?}", x.d, pp.d));
        } else if lin { set::<N, 1>(f.state_vector_mut(), &x); set::<N, N>(f.estimate_covariance_mut().as_matrix_mut(), &pp); }
        else { set::<N, 1>(e.state_vector_mut(), &x); set::<N, N>(e.estimate_covariance_mut().as_matrix_mut(), &pp); }
        let l = if g.below(4) == 0 { g.nz() } else { [int(1), int(2), rat(1, 2), int(-1), int(3)][g.below(5) as usize] };
        let linear = p == "C21";
        let fun = if linear { Fun::lin(&a) } else { Fun { c: g.smat("f", N, N), q: M::f(N, N, |_, _| int(0)), k: g.below(3) as i64 } };
        let (wx, wp);
        let mut calls = 0;
        match op {
            0 => { f.predict(); wx = a.mul(&x); wp = a.mul(&pp).mul(&a.t()).add(&q); }
            1 => { g.note(&format!("lambda={l}")); f.predict_tuned(l); wx = a.mul(&x); wp = a.mul(&pp).mul(&a.t()).scale(int(1) / (l * l)).add(&q); }
            2 => {
                let k = &mut con[w];
                if g.flip() { k.1 = g.smat("u", O, 1); }
                if g.below(4) == 0 { k.0 = g.smat("B", N, O); }
                if g.below(4) == 0 { k.2 = g.smat("cQ", O, O); }
                let c = if w == 0 { &mut c0 } else { &mut c1 };
                put!(3 * w, k.0, set::<N, O>(c.control_matrix_mut().as_matrix_mut(), &k.0));
                put!(3 * w + 1, k.1, set::<O, 1>(c.control_vector_mut(), &k.1));
                put!(3 * w + 2, k.2, set::<O, O>(c.process_noise_covariance_mut().as_matrix_mut(), &k.2));
                f.control(c);
                wx = x.add(&k.0.mul(&k.1)); wp = pp.add(&k.0.mul(&k.2).mul(&k.0.t()));
                if mine(op) { eq("u after control", &get::<O, 1>(c.control_vector()), &k.1)?; eq("B after control", &get::<N, O>(c.control_matrix().as_matrix()), &k.0)?; eq("control Q after control", &get::<O, O>(c.process_noise_covariance().as_matrix()), &k.2)?; }
            }
            4 => { e.predict_nonlinear(|v, o| { calls += 1; let w = fun.of(&get::<N, 1>(v)); for i in 0..N { o.set_row(i, w[i]); } }); wx = v1(fun.of(&x.d)); wp = a.mul(&pp).mul(&a.t()).add(&q); }
            5 => { g.note(&format!("lambda={l}")); e.predict_tuned_nonlinear(l, |v, o| { calls += 1; let w = fun.of(&get::<N, 1>(v)); for i in 0..N { o.set_row(i, w[i]); } }); wx = v1(fun.of(&x.d)); wp = a.mul(&pp).mul(&a.t()).scale(int(1) / (l * l)).add(&q); }
            _ => {
                let m = match (&ms[w], g.below(3)) { (Some(m), 0) => m.clone(), (Some(m), 1) => Meas { z: g.smat("z", O, 1), ..m.clone() }, _ => { let (h, r, _) = spd(g, N, O, &pp); Meas { h, r, z: g.smat("z", O, 1) } } };
                ms[w] = Some(m.clone());
                let s = m.h.mul(&pp).mul(&m.h.t()).add(&m.r);
                let hun = if linear || lin { Fun::lin(&m.h) } else { Fun { c: g.smat("h", O, N), q: M::f(O, N, |_, _| int(0)), k: g.below(3) as i64 } };
                let Some(want) = kalman(&x, &pp, &m.h, &m.z.sub(&v1(hun.of(&x.d))), &s) else { return Ok(()) };
                (wx, wp) = want;
                macro_rules! go { ($o:expr, $hm:ident, $hg:ident, $do:expr) => {{
                    let k = 6 + 3 * w + if lin { 0 } else { 6 };
                    put!(k, m.h, set::<O, N>($o.$hm().as_matrix_mut(), &m.h));
                    put!(k + 1, m.r, set::<O, O>($o.measurement_noise_covariance_mut().as_matrix_mut(), &m.r));
                    put!(k + 2, m.z, set::<O, 1>($o.measurement_vector_mut(), &m.z));
                    $do;
                    if mine(op) { eq("z after correct", &get::<O, 1>($o.measurement_vector()), &m.z)?; eq("H after correct", &get::<O, N>($o.$hg().as_matrix()), &m.h)?; eq("R after correct", &get::<O, O>($o.measurement_noise_covariance().as_matrix()), &m.r)?; }
                }} }
                if lin { let o = if w == 0 { &mut m0 } else { &mut m1 }; go!(o, observation_matrix_mut, observation_matrix, f.correct(o)); }
                else { let o = if w == 0 { &mut w0 } else { &mut w1 }; go!(o, observation_jacobian_matrix_mut, observation_jacobian_matrix, e.correct_nonlinear(o, |v, y| { calls += 1; let w = hun.of(&get::<N, 1>(v)); for i in 0..O { y.as_matrix_mut().set(i, 0, w[i]); } })); }
            }
        }
        if lost() { return Ok(()); }
        if !mine(op) { continue; }
        let nm = ["predict", "predict_tuned", "control", "correct", "predict_nonlinear", "predict_tuned_nonlinear", "correct_nonlinear"][op as usize];
        if op >= 4 && p != "C21" { ck(calls == 1, || format!("step {step}: {nm} evaluated the function {calls} times"))?; }
        let (gx, gp, ga, gq) = if lin { (get::<N, 1>(f.state_vector()), get::<N, N>(f.estimate_covariance().as_matrix()), get::<N, N>(f.state_transition().as_matrix()), get::<N, N>(f.direct_process_noise().as_matrix())) }
            else { (get::<N, 1>(e.state_vector()), get::<N, N>(e.estimate_covariance().as_matrix()), get::<N, N>(e.state_transition_jacobian().as_matrix()), get::<N, N>(e.direct_process_noise().as_matrix())) };
        eq(&format!("step {step}, {nm}: x"), &gx, &wx)?;
        eq(&format!("step {step}, {nm}: P"), &gp, &wp)?;
        eq(&format!("step {step}, {nm}: transition"), &ga, &a)?;
        eq(&format!("step {step}, {nm}: process noise"), &gq, &q)?;
    }
    Ok(())
}
fn v1(v: Vec<Rat>) -> M { M { r: v.len(), c: 1, d: v } }

pub fn cases(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    macro_rules! for_ { ($($c:literal)*) => { $( dims!(v, p, $c, life; (1,1) (2,1) (1,2) (3,2) (2,3) (4,4)); )* } }
    for_!("C01" "C02" "C03" "C04" "C05" "C06" "C18" "C21");
    v
}
