//! Two extremes: one object that takes more steps than a 16-bit counter holds, and matrices with more elements than a 16-bit
//! index reaches.  Each is run once (round 1) per property.
use crate::{m::M, rat::*, util::*};
use minikalman::extended::builder::KalmanFilterBuilder as EB;
use minikalman::matrix::*;
use minikalman::prelude::*;
use minikalman::regular::builder::KalmanFilterBuilder as RB;

const STEPS: u64 = 66_000;
/// a one-state filter; every step is compared with the exact result
fn marathon(g: &mut G, op: usize) -> R {
    if g.round != 1 { return Ok(()); }
    let (rb, eb) = (RB::<1, Rat>::default(), EB::<1, Rat>::default());
    let (mut f, mut e) = (rb.build(), eb.build());
    let (mut c, mut m, mut w) = (rb.controls().build::<1>(), rb.observations().build::<1>(), eb.observations().build::<1>());
    f.state_transition_mut().set(0, 0, int(-1));
    e.state_transition_jacobian_mut().set(0, 0, int(-1));
    f.direct_process_noise_mut().set(0, 0, int(1));
    e.direct_process_noise_mut().set(0, 0, int(1));
    c.control_matrix_mut().set(0, 0, int(2));
    c.control_vector_mut().set(0, 0, int(3));
    c.process_noise_covariance_mut().set(0, 0, int(1));
    m.observation_matrix_mut().set(0, 0, int(1));
    w.observation_jacobian_matrix_mut().set(0, 0, int(1));
    m.measurement_noise_covariance_mut().set(0, 0, int(2));
    w.measurement_noise_covariance_mut().set(0, 0, int(2));
    m.measurement_vector_mut().set(0, 0, int(5));
    w.measurement_vector_mut().set(0, 0, int(5));
    let nm = ["predict", "predict_tuned", "control", "correct", "predict_nonlinear", "predict_tuned_nonlinear", "correct_nonlinear"][op];
    let (mut x, mut p) = (int(3), int(2));
    for k in 0..STEPS {
        f.state_vector_mut().set(0, 0, x);
        e.state_vector_mut().set(0, 0, x);
        f.estimate_covariance_mut().set(0, 0, p);
        e.estimate_covariance_mut().set(0, 0, p);
        let (wx, wp);
        match op {
            0 => { f.predict(); wx = -x; wp = p + int(1); }
            1 => { f.predict_tuned(int(-1)); wx = -x; wp = p + int(1); }
            2 => { f.control(&mut c); wx = x + int(6); wp = p + int(4); }
            3 => { f.correct(&mut m); wx = (x + int(5)) / int(2); wp = int(1); }
            4 => { e.predict_nonlinear(|v, o| o[0] = -v[0]); wx = -x; wp = p + int(1); }
            5 => { e.predict_tuned_nonlinear(int(-1), |v, o| o[0] = -v[0]); wx = -x; wp = p + int(1); }
            _ => { e.correct_nonlinear(&mut w, |v, o| o.as_matrix_mut().set(0, 0, v[0])); wx = (x + int(5)) / int(2); wp = int(1); }
        }
        let (gx, gp) = if op < 4 { (f.state_vector().get(0, 0), f.estimate_covariance().get(0, 0)) } else { (e.state_vector().get(0, 0), e.estimate_covariance().get(0, 0)) };
        ck(gx == wx && gp == wp, || format!("step {k}, {nm} from x={x} P={p}: x={gx} P={gp} should be x={wx} P={wp}"))?;
        // correct needs S = P + 2 to have a rational root
        if op == 3 || op == 6 { x = wx; if k % 16 == 0 { x = int((k % 7) as i64); } p = int(2); } else { x = wx; p = if k % 64 == 0 { int(2) } else { wp }; if k % 64 == 0 { x = int(3); } }
    }
    Ok(())
}

fn mm<const A: usize, const B: usize>(v: &mut Vec<Rat>) -> MatrixDataMut<'_, A, B, Rat> { MatrixDataMut::new(&mut v[..]) }
const W: usize = 257; // 257 × 257 = 66049
fn pat(k: usize) -> Rat { int((k % 1009) as i64 - 500) }
fn filled(n: usize, f: impl Fn(usize) -> Rat) -> Vec<Rat> { (0..n).map(f).collect() }
fn same(what: &str, got: &[Rat], want: impl Fn(usize, usize) -> Rat) -> R {
    for i in 0..W { for j in 0..W { ck(got[i * W + j] == want(i, j), || format!("{what}: element ({i},{j}) of a {W}x{W} matrix is {} but should be {}", got[i * W + j], want(i, j)))?; } }
    Ok(())
}
fn big_products(g: &mut G) -> R {
    if g.round != 1 { return Ok(()); }
    // column · row: a large output
    let (mut a, mut b, mut c) = (filled(W, pat), filled(W, |k| int(k as i64 % 5 + 1)), filled(W * W, |_| int(7)));
    let (pa, pb) = (a.clone(), b.clone());
    mm::<W, 1>(&mut a).mult(&mm::<1, W>(&mut b), &mut mm::<W, W>(&mut c));
    same("mult", &c, |i, j| pa[i] * pb[j])?;
    mm::<W, 1>(&mut a).mult_transb(&mm::<W, 1>(&mut b), &mut mm::<W, W>(&mut c));
    same("mult_transb", &c, |i, j| pa[i] * pb[j])?;
    mm::<W, 1>(&mut a).multadd_transb(&mm::<W, 1>(&mut b), &mut mm::<W, W>(&mut c));
    same("multadd_transb", &c, |i, j| pa[i] * pb[j] * int(2))?;
    mm::<W, 1>(&mut a).multscale_transb(&mm::<W, 1>(&mut b), int(3), &mut mm::<W, W>(&mut c));
    same("multscale_transb", &c, |i, j| pa[i] * pb[j] * int(3))?;
    let mut aux = vec![int(0)];
    mm::<W, 1>(&mut a).mult_buffered(&mm::<1, W>(&mut b), &mut mm::<W, W>(&mut c), &mut aux[..]);
    same("mult_buffered", &c, |i, j| pa[i] * pb[j])?;
    // large operands
    let mut l = filled(W * W, pat);
    let want: Vec<Rat> = (0..W).map(|i| (0..W).map(|k| pat(i * W + k) * pb[k]).sum()).collect();
    let wantt: Vec<Rat> = (0..W).map(|j| (0..W).map(|k| pb[k] * pat(k * W + j)).sum()).collect();
    let mut y = vec![int(0); W];
    let check = |what: &str, y: &[Rat], w: &[Rat], m: i64| -> R { for i in 0..W { ck(y[i] == w[i] * int(m), || format!("{what} with a {W}x{W} operand: element {i} is {} but should be {}", y[i], w[i] * int(m)))?; } Ok(()) };
    mm::<W, W>(&mut l).mult(&mm::<W, 1>(&mut b), &mut mm::<W, 1>(&mut y)); check("mult", &y, &want, 1)?;
    mm::<W, W>(&mut l).mult_rowvector(&mm::<W, 1>(&mut b), &mut mm::<W, 1>(&mut y)); check("mult_rowvector", &y, &want, 1)?;
    mm::<W, W>(&mut l).multadd_rowvector(&mm::<W, 1>(&mut b), &mut mm::<W, 1>(&mut y)); check("multadd_rowvector", &y, &want, 2)?;
    mm::<1, W>(&mut b).mult(&mm::<W, W>(&mut l), &mut mm::<1, W>(&mut y)); check("mult", &y, &wantt, 1)?;
    mm::<1, W>(&mut b).mult_transb(&mm::<W, W>(&mut l), &mut mm::<1, W>(&mut y)); check("mult_transb", &y, &want, 1)?;
    mm::<W, W>(&mut l).mult_transb(&mm::<1, W>(&mut b), &mut mm::<W, 1>(&mut y)); check("mult_transb", &y, &want, 1)
}
fn big_addsub(g: &mut G) -> R {
    if g.round != 1 { return Ok(()); }
    let n = W * W;
    for op in 0..5 {
        let (mut a, mut b, mut c) = (filled(n, pat), filled(n, |k| pat(k + 13)), filled(n, |_| int(0)));
        let (p, q) = (|i: usize, j: usize| pat(i * W + j), |i: usize, j: usize| pat(i * W + j + 13));
        match op {
            0 => { mm::<W, W>(&mut a).sub(&mm::<W, W>(&mut b), &mut mm::<W, W>(&mut c)); same("sub", &c, |i, j| p(i, j) - q(i, j))?; }
            1 => { mm::<W, W>(&mut a).add_inplace_b(&mut mm::<W, W>(&mut b)); same("add_inplace_b", &b, |i, j| p(i, j) + q(i, j))?; }
            2 => { mm::<W, W>(&mut a).sub_inplace_b(&mut mm::<W, W>(&mut b)); same("sub_inplace_b", &b, |i, j| p(i, j) - q(i, j))?; }
            3 => { mm::<W, W>(&mut a).add_inplace_a(&mm::<W, W>(&mut b)); same("add_inplace_a", &a, |i, j| p(i, j) + q(i, j))?; }
            _ => { mm::<W, W>(&mut a).sub_inplace_a(&mm::<W, W>(&mut b)); same("sub_inplace_a", &a, |i, j| p(i, j) - q(i, j))?; }
        }
    }
    Ok(())
}
fn big_access(g: &mut G) -> R {
    if g.round != 1 { return Ok(()); }
    let mut a = filled(W * W, pat);
    {
        let v = mm::<W, W>(&mut a);
        let mut t = vec![int(0); W];
        for i in [0, 1, 254, 255, 256] {
            v.get_row_copy(i, &mut t[..]);
            for j in 0..W { ck(t[j] == pat(i * W + j) && v.get(i, j) == t[j] && v.get_at(i, j) == t[j] && v[i * W + j] == t[j], || format!("row {i} of a {W}x{W} matrix, element {j}: row copy {}, get {}, element {}", t[j], v.get(i, j), pat(i * W + j)))?; }
            v.get_column_copy(i, &mut t[..]);
            for j in 0..W { ck(t[j] == pat(j * W + i), || format!("column {i} of a {W}x{W} matrix, element {j} is {} but should be {}", t[j], pat(j * W + i)))?; }
        }
    }
    let mut b = filled(W * W, |_| int(0));
    mm::<W, W>(&mut a).copy_to(&mut mm::<W, W>(&mut b));
    same("copy_to", &b, |i, j| pat(i * W + j))?;
    for (i, j) in [(256, 256), (255, 1), (256, 0), (0, 0)] {
        let old = b.clone();
        mm::<W, W>(&mut b).set(i, j, int(4321));
        same("set", &b, |k, l| if (k, l) == (i, j) { int(4321) } else { old[k * W + l] })?;
        mm::<W, W>(&mut b).set_at(i, j, int(4322));
        same("set_at", &b, |k, l| if (k, l) == (i, j) { int(4322) } else { old[k * W + l] })?;
        mm::<W, W>(&mut b).set_symmetric(i, j, int(4323));
        same("set_symmetric", &b, |k, l| if (k, l) == (i, j) || (l, k) == (i, j) { int(4323) } else { old[k * W + l] })?;
    }
    Ok(())
}
fn big_init(g: &mut G) -> R {
    if g.round != 1 { return Ok(()); }
    let mut a = filled(W * W, pat);
    mm::<W, W>(&mut a).set_diagonal_to_scalar(int(9999));
    same("set_diagonal_to_scalar", &a, |i, j| if i == j { int(9999) } else { pat(i * W + j) })?;
    mm::<W, W>(&mut a).make_identity();
    same("make_identity", &a, |i, j| int((i == j) as i64))?;
    mm::<W, W>(&mut a).make_comatrix(int(5), int(6));
    same("make_comatrix", &a, |i, j| int(if i == j { 5 } else { 6 }))?;
    mm::<W, W>(&mut a).make_scalar(int(5));
    same("make_scalar", &a, |i, j| int(if i == j { 5 } else { 0 }))?;
    mm::<W, W>(&mut a).set_all(int(8));
    same("set_all", &a, |_, _| int(8))?;
    mm::<W, W>(&mut a).clear();
    same("clear", &a, |_, _| int(0))
}
/// L: a bidiagonal factor, so that everything stays short
fn band(i: usize, j: usize) -> Rat { if i == j { int(1 + (i % 2) as i64) } else if i == j + 1 { int((i % 3) as i64 - 1) } else { int(0) } }
fn big_cholesky(g: &mut G) -> R {
    if g.round != 1 { return Ok(()); }
    let s = |i: usize, j: usize| { let mut t = int(0); for k in i.saturating_sub(1)..=i { t += band(i, k) * band(j, k); } t };
    let mut a = filled(W * W, |k| s(k / W, k % W));
    ck(mm::<W, W>(&mut a).cholesky_decompose_lower(), || format!("cholesky_decompose_lower refuses a positive definite {W}x{W} matrix"))?;
    same("cholesky_decompose_lower", &a, band)?;
    let mut a = filled(W * W, |k| if k == W * W - 1 { s(W - 1, W - 1) - band(W - 1, W - 1) * band(W - 1, W - 1) } else { s(k / W, k % W) });
    ck(!mm::<W, W>(&mut a).cholesky_decompose_lower(), || format!("cholesky_decompose_lower accepts a singular {W}x{W} matrix"))
}
fn big_inverse(g: &mut G) -> R {
    if g.round != 1 { return Ok(()); }
    let d = |i: usize| if i % 2 == 0 { int(2) } else { int(1) };
    // pairs of coupled rows: L = diag([2 0; 1 1], …)
    let l = |i: usize, j: usize| if i == j { d(i) } else if i == j + 1 && i % 2 == 1 { int(1) } else { int(0) };
    let (mut a, mut x) = (filled(W * W, |k| l(k / W, k % W)), filled(W * W, pat));
    mm::<W, W>(&mut a).invert_l_cholesky(&mut mm::<W, W>(&mut x));
    // (L·Lᵀ)⁻¹ of a block [4 2; 2 2] is [1/2 −1/2; −1/2 1]; the last row stands alone
    same("invert_l_cholesky", &x, |i, j| if i == j { if i % 2 == 1 { int(1) } else if i == W - 1 { rat(1, 4) } else { rat(1, 2) } } else if i / 2 == j / 2 { rat(-1, 2) } else { int(0) })
}
pub fn cases(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    let mut add = |n: &str, c: Case| v.push((n.to_string(), c));
    let all = p == "C14";
    if all || p == "C08" { add("big_products", Box::new(big_products)); }
    if all || p == "C09" { add("big_cholesky", Box::new(big_cholesky)); }
    if all || p == "C10" { add("big_inverse", Box::new(big_inverse)); }
    if all || p == "C11" { add("big_access", Box::new(big_access)); }
    if all || p == "C12" { add("big_addsub", Box::new(big_addsub)); }
    if all || p == "C13" { add("big_init", Box::new(big_init)); }
    let ops: &[usize] = match p { "C01" => &[0], "C02" => &[1, 5], "C03" => &[2], "C04" => &[3], "C05" => &[4], "C06" => &[6], "C14" | "C18" => &[0, 1, 2, 3, 4, 5, 6], "C21" => &[4, 5, 6], _ => &[] };
    for &op in ops { add(&format!("marathon<{op}>"), Box::new(move |g: &mut G| marathon(g, op))); }
    v
}
