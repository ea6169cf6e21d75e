// ---- the properties as theorems over the contracts ------------------------------------------
pub mod thm {
#[allow(unused_imports)] use crate::g::*;
#[allow(unused_imports)] use vstd::prelude::*;

// ---- shapes ------------------------------------------------------------------------------
pub proof fn shape_mmul(a: Mx, b: Mx, r: int, n: int, c: int) requires r >= 0, c >= 0 ensures is_mx(mmul(a, b, r, n, c), r, c) {}
pub proof fn shape_mx<T: MatrixDataTypeBase>(d: Seq<T>, r: int, c: int) requires r >= 0, c >= 0 ensures is_mx(mx(d, r, c), r, c) {}
pub proof fn shape_mtr(a: Mx, r: int, c: int) requires r >= 0, c >= 0 ensures is_mx(mtr(a, r, c), c, r) {}

// ---- inverses are unique --------------------------------------------------------------------
pub proof fn inverse_unique(s: Mx, a: Mx, b: Mx, m: int)
    requires m >= 0, inv_of(s, a, m), inv_of(s, b, m), is_mx(s, m, m)
    ensures a == b
{
    mul_assoc(a, s, b, m, m, m, m);
    mul_ident(a, m, m); mul_ident(b, m, m);
    assert(mmul(ident(m), b, m, m, m) == b);
    assert(mmul(a, ident(m), m, m, m) == a);
}

// ---- C01, C05: the time update ----------------------------------------------------------------
/// P' does not depend on anything but A, P, Q; nor does x' on anything but A and x
pub proof fn c18_predict_is_a_function<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, x: Seq<T>, p: Seq<T>, x1: Seq<T>, x2: Seq<T>, p1: Seq<T>, p2: Seq<T>)
    requires n >= 1, pred_x(n, a, x, x1), pred_x(n, a, x, x2), pred_p(n, a, q, p, p1), pred_p(n, a, q, p, p2)
    ensures mx(x1, n, 1) == mx(x2, n, 1), mx(p1, n, n) == mx(p2, n, n)
{}
pub proof fn scale_one(a: Mx, r: int, c: int) requires is_mx(a, r, c), r >= 0, c >= 0 ensures mscale(a, 1real, r, c) == a
{ assert(mscale(a, 1real, r, c) =~~= a) by { assert forall|i: int, j: int| 0 <= i < r && 0 <= j < c implies #[trigger] mscale(a, 1real, r, c)[i][j] == a[i][j] by { assert(a[i][j] * 1real == a[i][j]) by(nonlinear_arith); } } }
/// with lambda = 1 the tuned step is the untuned one
pub proof fn c02_lambda_one<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>, l: real, s: real)
    requires n >= 1, l == 1real, s * (l * l) == 1real, pred_p_tuned(n, a, q, p, p2, s)
    ensures pred_p(n, a, q, p, p2)
{ assert(s == 1real) by(nonlinear_arith) requires l == 1real, s * (l * l) == 1real; shape_mmul(mmul(mx(a, n, n), mx(p, n, n), n, n, n), mtr(mx(a, n, n), n, n), n, n, n); scale_one(apat(mx(a, n, n), mx(p, n, n), n), n, n); }
/// the factor is 1/lambda^2: lambda determines it
pub proof fn c02_factor(l: real, s: real)
    requires l != 0real, s * (l * l) == 1real ensures s == (1real / l) * (1real / l), s > 0real
{ lemma_recip(l); let r = 1real / l; assert(s == r * r) by(nonlinear_arith) requires r * l == 1real, s * (l * l) == 1real;
  assert(l * l > 0real) by(nonlinear_arith) requires l != 0real; assert(s > 0real) by(nonlinear_arith) requires l * l > 0real, s * (l * l) == 1real; }
pub proof fn c18_tuned_is_a_function<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, p: Seq<T>, p1: Seq<T>, p2: Seq<T>, l: real, s: real, t: real)
    requires n >= 1, l != 0real, s * (l * l) == 1real, t * (l * l) == 1real, pred_p_tuned(n, a, q, p, p1, s), pred_p_tuned(n, a, q, p, p2, t)
    ensures mx(p1, n, n) == mx(p2, n, n)
{ c02_factor(l, s); c02_factor(l, t); }

// ---- C03: a control without inputs does nothing ------------------------------------------------
pub proof fn c03_no_inputs<T: MatrixDataTypeBase>(n: int, b: Seq<T>, u: Seq<T>, q: Seq<T>, x: Seq<T>, x2: Seq<T>, p: Seq<T>, p2: Seq<T>)
    requires n >= 1, ctl_x(n, 0, b, u, x, x2), ctl_p(n, 0, b, q, p, p2)
    ensures mx(x2, n, 1) == mx(x, n, 1), mx(p2, n, n) == mx(p, n, n), frame(x, x2, n), frame(p, p2, n * n)
{ shape_mx(x, n, 1); shape_mx(p, n, n);
  madd_zero_cols(mx(x, n, 1), mx(b, n, 0), mx(u, 0, 1), n, 1);
  madd_zero_cols(mx(p, n, n), mmul(mx(b, n, 0), mx(q, 0, 0), n, 0, 0), mtr(mx(b, n, 0), n, 0), n, n); }
pub proof fn c18_control_is_a_function<T: MatrixDataTypeBase>(n: int, m: int, b: Seq<T>, u: Seq<T>, q: Seq<T>, x: Seq<T>, x1: Seq<T>, x2: Seq<T>, p: Seq<T>, p1: Seq<T>, p2: Seq<T>)
    requires n >= 1, m >= 0, ctl_x(n, m, b, u, x, x1), ctl_x(n, m, b, u, x, x2), ctl_p(n, m, b, q, p, p1), ctl_p(n, m, b, q, p, p2)
    ensures mx(x1, n, 1) == mx(x2, n, 1), mx(p1, n, n) == mx(p2, n, n)
{}

// ---- C04, C06: the measurement update ------------------------------------------------------------
/// the inverse in the update is the inverse: any symmetric inverse of S gives the stated result
pub proof fn c04_any_inverse<T: MatrixDataTypeBase>(n: int, m: int, h: Seq<T>, r: Seq<T>, y: Mx, x: Seq<T>, p: Seq<T>, x2: Seq<T>, p2: Seq<T>, xi: Mx)
    requires n >= 1, m >= 1, update_by(n, m, h, r, y, x, p, x2, p2),
        ({ let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m); symm(s, m) && has_chol(s, m) && inv_of(s, xi, m) })
    ensures mx(x2, n, 1) == madd(mx(x, n, 1), mmul(gain(mx(h, m, n), mx(p, n, n), xi, n, m), y, n, m, 1), n, 1),
        mx(p2, n, n) == msub(mx(p, n, n), mmul(gain(mx(h, m, n), mx(p, n, n), xi, n, m), mmul(mx(h, m, n), mx(p, n, n), m, n, n), n, m, n), n, n)
{
    let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m);
    let xj = choose|xj: Mx| #[trigger] inv_of(s, xj, m) && upd(n, m, mx(h, m, n), y, mx(x, n, 1), mx(p, n, n), xj, mx(x2, n, 1), mx(p2, n, n));
    inverse_unique(s, xi, xj, m);
}
pub proof fn c18_update_is_a_function<T: MatrixDataTypeBase>(n: int, m: int, h: Seq<T>, r: Seq<T>, y: Mx, x: Seq<T>, p: Seq<T>, x1: Seq<T>, p1: Seq<T>, x2: Seq<T>, p2: Seq<T>)
    requires n >= 1, m >= 1, update_by(n, m, h, r, y, x, p, x1, p1), update_by(n, m, h, r, y, x, p, x2, p2),
        ({ let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m); symm(s, m) && has_chol(s, m) })
    ensures mx(x1, n, 1) == mx(x2, n, 1), mx(p1, n, n) == mx(p2, n, n)
{
    let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m);
    let xj = choose|xj: Mx| #[trigger] inv_of(s, xj, m) && upd(n, m, mx(h, m, n), y, mx(x, n, 1), mx(p, n, n), xj, mx(x1, n, 1), mx(p1, n, n));
    c04_any_inverse(n, m, h, r, y, x, p, x2, p2, xj);
}

// ---- C21: linear models -------------------------------------------------------------------------
/// an extended predict whose function returned A x is a linear predict
pub proof fn c21_predict<T: MatrixDataTypeBase>(n: int, a: Seq<T>, x: Seq<T>, y: Seq<T>, x2: Seq<T>)
    requires n >= 1, n <= y.len(), n <= x.len(), crate::kalman::taken(n, y, x, x2), mx(y, n, 1) == mmul(mx(a, n, n), mx(x, n, 1), n, n, 1)
    ensures pred_x(n, a, x, x2)
{ assert(mx(x2, n, 1) =~~= mx(y, n, 1)) by { assert forall|i: int| 0 <= i < n implies #[trigger] mx(x2, n, 1)[i][0] == mx(y, n, 1)[i][0] by { assert(ix(i, 0, 1) == i); assert(x2[i] == y[i]); } } }
/// an extended correct whose function returned H x has the linear innovation, and so the linear result
pub proof fn c21_correct<T: MatrixDataTypeBase>(n: int, m: int, h: Seq<T>, r: Seq<T>, z: Seq<T>, y: Seq<T>, x: Seq<T>, p: Seq<T>, x1: Seq<T>, p1: Seq<T>, x2: Seq<T>, p2: Seq<T>)
    requires n >= 1, m >= 1, mx(y, m, 1) == mmul(mx(h, m, n), mx(x, n, 1), m, n, 1),
        update_by(n, m, h, r, msub(mx(z, m, 1), mx(y, m, 1), m, 1), x, p, x1, p1),
        update_by(n, m, h, r, innov(n, m, mx(h, m, n), mx(z, m, 1), mx(x, n, 1)), x, p, x2, p2),
        ({ let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m); symm(s, m) && has_chol(s, m) })
    ensures mx(x1, n, 1) == mx(x2, n, 1), mx(p1, n, n) == mx(p2, n, n)
{ c18_update_is_a_function(n, m, h, r, innov(n, m, mx(h, m, n), mx(z, m, 1), mx(x, n, 1)), x, p, x1, p1, x2, p2); }

// ---- C07: symmetry and variances -------------------------------------------------------------------
/// A P A^T is symmetric when P is
pub proof fn sandwich_symm(a: Mx, p: Mx, n: int, m: int)
    requires n >= 0, m >= 0, is_mx(a, n, m), is_mx(p, m, m), symm(p, m)
    ensures symm(mmul(mmul(a, p, n, m, m), mtr(a, n, m), n, m, n), n)
{
    let ap = mmul(a, p, n, m, m); let at = mtr(a, n, m); let w = mmul(ap, at, n, m, n);
    mul_tr(ap, at, n, m, n);            // w^T = a^T^T (ap)^T
    mul_tr(a, p, n, m, m);              // (ap)^T = p^T a^T
    tr_symm(p, m); tr_tr(a, n, m);
    mul_assoc(a, p, at, n, m, m, n);    // (ap)a^T = a(p a^T)
    shape_mmul(ap, at, n, m, n); tr_symm(w, n);
}
pub proof fn add_symm(a: Mx, b: Mx, n: int) requires n >= 0, symm(a, n), symm(b, n) ensures symm(madd(a, b, n, n), n)
{ assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] madd(a, b, n, n)[i][j] == madd(a, b, n, n)[j][i] by { assert(a[i][j] == a[j][i]); assert(b[i][j] == b[j][i]); } }
pub proof fn sub_symm(a: Mx, b: Mx, n: int) requires n >= 0, symm(a, n), symm(b, n) ensures symm(msub(a, b, n, n), n)
{ assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] msub(a, b, n, n)[i][j] == msub(a, b, n, n)[j][i] by { assert(a[i][j] == a[j][i]); assert(b[i][j] == b[j][i]); } }
pub proof fn scale_symm(a: Mx, s: real, n: int) requires n >= 0, symm(a, n) ensures symm(mscale(a, s, n, n), n)
{ assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mscale(a, s, n, n)[i][j] == mscale(a, s, n, n)[j][i] by { assert(a[i][j] == a[j][i]); } }
pub proof fn c07_predict_symmetric<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>)
    requires n >= 1, pred_p(n, a, q, p, p2), symm(mx(p, n, n), n), symm(mx(q, n, n), n)
    ensures symm(mx(p2, n, n), n)
{ shape_mx(a, n, n); shape_mx(p, n, n); sandwich_symm(mx(a, n, n), mx(p, n, n), n, n); add_symm(apat(mx(a, n, n), mx(p, n, n), n), mx(q, n, n), n); }
pub proof fn c07_tuned_symmetric<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>, s: real)
    requires n >= 1, pred_p_tuned(n, a, q, p, p2, s), symm(mx(p, n, n), n), symm(mx(q, n, n), n)
    ensures symm(mx(p2, n, n), n)
{ shape_mx(a, n, n); shape_mx(p, n, n); sandwich_symm(mx(a, n, n), mx(p, n, n), n, n); scale_symm(apat(mx(a, n, n), mx(p, n, n), n), s, n); add_symm(mscale(apat(mx(a, n, n), mx(p, n, n), n), s, n, n), mx(q, n, n), n); }
pub proof fn c07_control_symmetric<T: MatrixDataTypeBase>(n: int, m: int, b: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>)
    requires n >= 1, m >= 0, ctl_p(n, m, b, q, p, p2), symm(mx(p, n, n), n), symm(mx(q, m, m), m)
    ensures symm(mx(p2, n, n), n)
{ shape_mx(b, n, m); shape_mx(q, m, m); sandwich_symm(mx(b, n, m), mx(q, m, m), n, m);
  add_symm(mx(p, n, n), mmul(mmul(mx(b, n, m), mx(q, m, m), n, m, m), mtr(mx(b, n, m), n, m), n, m, n), n); }
/// K H P = G X G^T with G = P H^T
pub proof fn khp_form(h: Mx, p: Mx, xi: Mx, n: int, m: int)
    requires n >= 0, m >= 0, is_mx(h, m, n), is_mx(p, n, n), is_mx(xi, m, m), symm(p, n)
    ensures ({ let g = mmul(p, mtr(h, m, n), n, n, m); mmul(gain(h, p, xi, n, m), mmul(h, p, m, n, n), n, m, n) == mmul(mmul(g, xi, n, m, m), mtr(g, n, m), n, m, n) })
{
    let ht = mtr(h, m, n);
    mul_tr(p, ht, n, n, m); tr_symm(p, n); tr_tr(h, m, n);
}
pub proof fn c07_correct_symmetric<T: MatrixDataTypeBase>(n: int, m: int, h: Seq<T>, r: Seq<T>, y: Mx, x: Seq<T>, p: Seq<T>, x2: Seq<T>, p2: Seq<T>)
    requires n >= 1, m >= 1, update_by(n, m, h, r, y, x, p, x2, p2), symm(mx(p, n, n), n),
        ({ let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m); symm(s, m) && has_chol(s, m) })
    ensures symm(mx(p2, n, n), n)
{
    let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m);
    let xi = choose|xi: Mx| #[trigger] inv_of(s, xi, m) && upd(n, m, mx(h, m, n), y, mx(x, n, 1), mx(p, n, n), xi, mx(x2, n, 1), mx(p2, n, n));
    let hm = mx(h, m, n); let pm = mx(p, n, n); let g = mmul(pm, mtr(hm, m, n), n, n, m);
    shape_mx(h, m, n); shape_mx(p, n, n); shape_mmul(pm, mtr(hm, m, n), n, n, m);
    khp_form(hm, pm, xi, n, m); sandwich_symm(g, xi, n, m);
    sub_symm(pm, mmul(mmul(g, xi, n, m, m), mtr(g, n, m), n, m, n), n);
}
/// R symmetric makes S symmetric
pub proof fn c07_residual_symmetric<T: MatrixDataTypeBase>(n: int, m: int, h: Seq<T>, r: Seq<T>, p: Seq<T>)
    requires n >= 1, m >= 1, symm(mx(p, n, n), n), symm(mx(r, m, m), m)
    ensures symm(res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m), m)
{ shape_mx(h, m, n); shape_mx(p, n, n); sandwich_symm(mx(h, m, n), mx(p, n, n), m, n); add_symm(mmul(mmul(mx(h, m, n), mx(p, n, n), m, n, n), mtr(mx(h, m, n), m, n), m, n, m), mx(r, m, m), m); }
/// row vectors: v M v^T
pub open spec fn row(a: Mx, i: int) -> Mx { seq![a[i]] }
pub open spec fn quad(v: Mx, a: Mx, n: int) -> real { mmul(mmul(v, a, 1, n, n), mtr(v, 1, n), 1, n, 1)[0][0] }
/// positive semidefinite
pub open spec fn psd(a: Mx, n: int) -> bool { forall|v: Mx| #[trigger] is_mx(v, 1, n) ==> quad(v, a, n) >= 0real }
pub proof fn row_dot(a: Mx, b: Mx, i: int, j: int, n: int) ensures dot(row(a, i), b, 0, j, n) == dot(a, b, i, j, n)
{ dot_ext(row(a, i), b, a, b, 0, j, i, j, n); }
/// a diagonal entry of A M A^T is the quadratic form of a row of A
pub proof fn sandwich_diag(a: Mx, p: Mx, n: int, m: int, i: int)
    requires 0 <= i < n, m >= 0, is_mx(a, n, m), is_mx(p, m, m)
    ensures mmul(mmul(a, p, n, m, m), mtr(a, n, m), n, m, n)[i][i] == quad(row(a, i), p, m), is_mx(row(a, i), 1, m)
{
    let ap = mmul(a, p, n, m, m); let v = row(a, i); let vp = mmul(v, p, 1, m, m);
    assert(vp =~~= row(ap, i)) by { assert forall|j: int| 0 <= j < m implies #[trigger] vp[0][j] == ap[i][j] by { row_dot(a, p, i, j, m); } }
    dot_ext(ap, mtr(a, n, m), vp, mtr(v, 1, m), i, i, 0, 0, m);
}
pub proof fn self_dot_nonneg(v: Mx, w: Mx, n: int)
    requires n >= 0, forall|k: int| 0 <= k < n ==> #[trigger] w[k][0] == v[0][k] ensures dot(v, w, 0, 0, n) >= 0real decreases n
{ if n > 0 { self_dot_nonneg(v, w, n - 1); let t = v[0][n-1]; assert(w[n-1][0] == t); assert(t * t >= 0real) by(nonlinear_arith); } }
/// S = L L^T is positive semidefinite
pub proof fn chol_psd(s: Mx, l: Mx, n: int, v: Mx)
    requires n >= 0, is_mx(l, n, n), mmul(l, mtr(l, n, n), n, n, n) == s, is_mx(v, 1, n) ensures quad(v, s, n) >= 0real
{
    let lt = mtr(l, n, n); let vl = mmul(v, l, 1, n, n); let vt = mtr(v, 1, n);
    mul_assoc(v, l, lt, 1, n, n, n);                    // (v l) lt = v (l lt)
    mul_assoc(vl, lt, vt, 1, n, n, 1);                  // ((v l) lt) vt = (v l) (lt vt)
    mul_tr(v, l, 1, n, n);                              // (v l)^T = lt vt
    let w = mmul(lt, vt, n, n, 1);
    assert(w == mtr(vl, 1, n));
    self_dot_nonneg(vl, w, n);
}
/// and so is its inverse: v X v^T = (v X) S (v X)^T
pub proof fn inv_psd(s: Mx, xi: Mx, n: int, v: Mx)
    requires n >= 0, inv_of(s, xi, n), is_mx(s, n, n), is_mx(v, 1, n), psd(s, n) ensures quad(v, xi, n) >= 0real
{
    let w = mmul(v, xi, 1, n, n); let vt = mtr(v, 1, n); let wt = mtr(w, 1, n);
    mul_tr(v, xi, 1, n, n); tr_symm(xi, n);             // w^T = X v^T
    mul_assoc(v, xi, s, 1, n, n, n); mul_ident(v, 1, n); // w S = v
    mul_assoc(v, xi, vt, 1, n, n, 1);
    assert(wt == mmul(xi, vt, n, n, 1));
    assert(mmul(w, s, 1, n, n) == v);
    assert(mmul(mmul(w, s, 1, n, n), wt, 1, n, 1) == mmul(v, wt, 1, n, 1));
    assert(quad(w, s, n) == quad(v, xi, n));
    assert(is_mx(w, 1, n));
}
/// correcting never adds variance
pub proof fn c07_correct_variances<T: MatrixDataTypeBase>(n: int, m: int, h: Seq<T>, r: Seq<T>, y: Mx, x: Seq<T>, p: Seq<T>, x2: Seq<T>, p2: Seq<T>, i: int)
    requires n >= 1, m >= 1, 0 <= i < n, update_by(n, m, h, r, y, x, p, x2, p2), symm(mx(p, n, n), n),
        ({ let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m); symm(s, m) && has_chol(s, m) })
    ensures mx(p2, n, n)[i][i] <= mx(p, n, n)[i][i]
{
    let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m);
    let xi = choose|xi: Mx| #[trigger] inv_of(s, xi, m) && upd(n, m, mx(h, m, n), y, mx(x, n, 1), mx(p, n, n), xi, mx(x2, n, 1), mx(p2, n, n));
    let l = choose|l: Mx| is_chol(s, l, m);
    chol_product(s, l, m);
    assert(psd(s, m)) by { assert forall|v: Mx| #[trigger] is_mx(v, 1, m) implies quad(v, s, m) >= 0real by { chol_psd(s, l, m, v); } }
    let hm = mx(h, m, n); let pm = mx(p, n, n); let g = mmul(pm, mtr(hm, m, n), n, n, m);
    shape_mx(h, m, n); shape_mx(p, n, n); shape_mmul(pm, mtr(hm, m, n), n, n, m);
    khp_form(hm, pm, xi, n, m);
    sandwich_diag(g, xi, n, m, i);
    inv_psd(s, xi, m, row(g, i));
}
/// a positive semidefinite P with Q of non-negative diagonal keeps non-negative variances
pub proof fn c07_predict_variances<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>, i: int)
    requires n >= 1, 0 <= i < n, pred_p(n, a, q, p, p2), psd(mx(p, n, n), n), mx(q, n, n)[i][i] >= 0real
    ensures mx(p2, n, n)[i][i] >= 0real
{ shape_mx(a, n, n); shape_mx(p, n, n); sandwich_diag(mx(a, n, n), mx(p, n, n), n, n, i); }
pub proof fn c07_tuned_variances<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>, i: int, l: real, s: real)
    requires n >= 1, 0 <= i < n, l != 0real, s * (l * l) == 1real, pred_p_tuned(n, a, q, p, p2, s), psd(mx(p, n, n), n), mx(q, n, n)[i][i] >= 0real
    ensures mx(p2, n, n)[i][i] >= 0real
{ shape_mx(a, n, n); shape_mx(p, n, n); sandwich_diag(mx(a, n, n), mx(p, n, n), n, n, i); c02_factor(l, s);
  let d = quad(row(mx(a, n, n), i), mx(p, n, n), n); assert(d * s >= 0real) by(nonlinear_arith) requires d >= 0real, s > 0real; }
pub proof fn c07_control_variances<T: MatrixDataTypeBase>(n: int, m: int, b: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>, i: int)
    requires n >= 1, m >= 0, 0 <= i < n, ctl_p(n, m, b, q, p, p2), mx(p, n, n)[i][i] >= 0real, psd(mx(q, m, m), m)
    ensures mx(p2, n, n)[i][i] >= mx(p, n, n)[i][i]
{ shape_mx(b, n, m); shape_mx(q, m, m); sandwich_diag(mx(b, n, m), mx(q, m, m), n, m, i); }
// ---- C09, C10 -----------------------------------------------------------------------------------------
/// the factor the decomposition finds really multiplies back to S
pub proof fn c09_factor_product(s: Mx, l: Mx, n: int)
    requires n >= 1, is_mx(s, n, n), symm(s, n), is_chol(s, l, n)
    ensures mmul(l, mtr(l, n, n), n, n, n) == s, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] l[i][j] == 0real
{ chol_product(s, l, n); }
/// and there is only one
pub proof fn c09_factor_unique(s: Mx, l: Mx, k: Mx, n: int)
    requires n >= 1, is_chol(s, l, n), is_chol(s, k, n)
    ensures l == k
{ chol_unique(s, l, k, n, n);
  assert(l =~~= k) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] l[i][j] == k[i][j] by { if i < j { assert(l[i][j] == 0real && k[i][j] == 0real); } } } }
/// a matrix with a Cholesky factor is positive semidefinite
pub proof fn c09_decomposable_is_psd(s: Mx, n: int)
    requires n >= 1, is_mx(s, n, n), symm(s, n), has_chol(s, n) ensures psd(s, n)
{ let l = choose|l: Mx| is_chol(s, l, n); chol_product(s, l, n);
  assert forall|v: Mx| #[trigger] is_mx(v, 1, n) implies quad(v, s, n) >= 0real by { chol_psd(s, l, n, v); } }
/// the inverse is unique: whatever else inverts L L^T equals what the routine wrote
pub proof fn c10_inverse_unique(s: Mx, a: Mx, b: Mx, m: int)
    requires m >= 0, inv_of(s, a, m), inv_of(s, b, m), is_mx(s, m, m) ensures a == b
{ inverse_unique(s, a, b, m); }
// ---- positive definite means decomposable ----------------------------------------------------------
/// assumed: a positive real has a positive square root
#[verifier::external_body]
pub proof fn real_sqrt(d: real) -> (x: real) requires d > 0real ensures x > 0real, x * x == d { unimplemented!() }
pub open spec fn nonzero(v: Mx, n: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] v[0][k] != 0real }
/// positive definite
pub open spec fn pd(a: Mx, n: int) -> bool { forall|v: Mx| #[trigger] is_mx(v, 1, n) && nonzero(v, n) ==> quad(v, a, n) > 0real }
pub open spec fn set_mx(l: Mx, i: int, j: int, x: real) -> Mx { l.update(i, l[i].update(j, x)) }
/// changing one entry of a row vector changes the product with a column by that entry's share
pub proof fn dot_set(v: Mx, l: Mx, q: int, k: int, x: real, n: int, m: int)
    requires is_mx(v, 1, n), 0 <= k < n, 0 <= m <= n
    ensures dot(set_mx(v, 0, k, x), l, 0, q, m) == dot(v, l, 0, q, m) + (if m > k { (x - v[0][k]) * l[k][q] } else { 0real }) decreases m
{ if m > 0 { dot_set(v, l, q, k, x, n, m - 1);
    if m - 1 == k { let a = v[0][k]; let b = l[k][q]; assert(x * b == a * b + (x - a) * b) by(nonlinear_arith); } } }
pub proof fn dot_zeros(v: Mx, l: Mx, q: int, m: int)
    requires forall|i: int| 0 <= i < m ==> #[trigger] v[0][i] * l[i][q] == 0real ensures dot(v, l, 0, q, m) == 0real decreases m
{ if m > 0 { dot_zeros(v, l, q, m - 1); assert(v[0][m-1] * l[m-1][q] == 0real); } }
/// a row vector ending in 1 at position c that the columns k..c of l annihilate
pub proof fn back_substitution(l: Mx, n: int, c: int, k: int) -> (v: Mx)
    requires 0 <= k <= c < n, is_mx(l, n, n), lower(l, n), forall|i: int| 0 <= i < c ==> #[trigger] l[i][i] > 0real
    ensures is_mx(v, 1, n), v[0][c] == 1real, forall|j: int| c < j < n ==> #[trigger] v[0][j] == 0real, forall|j: int| 0 <= j < k ==> #[trigger] v[0][j] == 0real,
        forall|q: int| k <= q < c ==> #[trigger] dot(v, l, 0, q, n) == 0real
    decreases c - k
{
    if k == c { seq![Seq::new(n as nat, |j: int| if j == c { 1real } else { 0real })] }
    else {
        let v = back_substitution(l, n, c, k + 1);
        let d = dot(v, l, 0, k, n); let r = 1real / l[k][k]; let x = -(d * r);
        assert(l[k][k] > 0real); lemma_recip(l[k][k]);
        let w = set_mx(v, 0, k, x);
        assert(v[0][k] == 0real);
        assert forall|q: int| k <= q < c implies #[trigger] dot(w, l, 0, q, n) == 0real by {
            dot_set(v, l, q, k, x, n, n);
            if q == k { let a = l[k][k]; div_step(a, r, d); assert(x * a == -d) by(nonlinear_arith) requires a * (d * r) == d, x == -(d * r); }
            else { assert(l[k][q] == 0real); assert(dot(v, l, 0, q, n) == 0real); assert(x * 0real == 0real) by(nonlinear_arith); }
        }
        w
    }
}
pub open spec fn first_cols(l: Mx, n: int, c: int) -> Mx { Seq::new(n as nat, |i: int| Seq::new(n as nat, |j: int| if j < c { l[i][j] } else { 0real })) }
pub proof fn cdot_first(l: Mx, i: int, j: int, n: int, c: int, m: int)
    requires 0 <= i < n, 0 <= j < n, 0 <= c <= n, 0 <= m <= n
    ensures cdot(first_cols(l, n, c), i, j, m) == cdot(l, i, j, if m <= c { m } else { c }) decreases m
{ if m > 0 { cdot_first(l, i, j, n, c, m - 1); if m > c { assert(0real * 0real == 0real); } } }
/// the remaining diagonal entry of a positive definite matrix is positive
pub proof fn pd_pivot(s: Mx, l: Mx, n: int, c: int)
    requires 0 <= c < n, is_mx(s, n, n), symm(s, n), pd(s, n), is_mx(l, n, n), lower(l, n), pchol(s, l, n, c)
    ensures s[c][c] - cdot(l, c, c, c) > 0real
{
    let d = s[c][c] - cdot(l, c, c, c);
    assert forall|i: int| 0 <= i < c implies #[trigger] l[i][i] > 0real by {}
    let v = back_substitution(l, n, c, 0);
    let f = first_cols(l, n, c); let ft = mtr(f, n, n); let m = mmul(f, ft, n, n, n); let vf = mmul(v, f, 1, n, n);
    // v f = 0
    assert forall|q: int| 0 <= q < n implies #[trigger] vf[0][q] == 0real by {
        if q < c { dot_ext(v, f, v, l, 0, q, 0, q, n); assert(dot(v, l, 0, q, n) == 0real); }
        else { assert forall|i: int| 0 <= i < n implies #[trigger] v[0][i] * f[i][q] == 0real by { let a = v[0][i]; assert(a * 0real == 0real) by(nonlinear_arith); } dot_zeros(v, f, q, n); } }
    // v m = 0
    mul_assoc(v, f, ft, 1, n, n, n);
    assert forall|q: int| 0 <= q < n implies #[trigger] dot(v, m, 0, q, n) == 0real by {
        assert forall|i: int| 0 <= i < n implies #[trigger] vf[0][i] * ft[i][q] == 0real by { let a = ft[i][q]; assert(vf[0][i] == 0real); assert(0real * a == 0real) by(nonlinear_arith); }
        dot_zeros(vf, ft, q, n);
        assert(mmul(v, m, 1, n, n)[0][q] == mmul(vf, ft, 1, n, n)[0][q]); }
    // s agrees with m except at (c, c), as far as v looks
    assert forall|i: int, j: int| 0 <= i <= c && 0 <= j <= c implies #[trigger] s[i][j] == m[i][j] + (if i == c && j == c { d } else { 0real }) by {
        cdot_dot(f, i, j, n, n); cdot_first(l, i, j, n, c, n);
        let (a, b) = if i <= j { (i, j) } else { (j, i) };
        cdot_comm(l, i, j, c);
        if a < c { cdot_tail(l, a, b, a + 1, c, n); assert(s[a][b] == cdot(l, a, b, a + 1)); assert(s[i][j] == s[j][i]); }
    }
    let vs = mmul(v, s, 1, n, n);
    assert forall|j: int| 0 <= j <= c implies #[trigger] vs[0][j] == (if j == c { d } else { 0real }) by { pivot_row(v, s, m, n, c, j, d, n); }
    pivot_quad(vs, v, n, c, d, n);
    assert(nonzero(v, n)) by { assert(v[0][c] != 0real); }
    assert(quad(v, s, n) == d);
}
pub proof fn pivot_row(v: Mx, s: Mx, m: Mx, n: int, c: int, j: int, d: real, k: int)
    requires 0 <= j <= c < n, 0 <= k <= n, v[0][c] == 1real, forall|i: int| c < i < n ==> #[trigger] v[0][i] == 0real,
        forall|i: int, j: int| 0 <= i <= c && 0 <= j <= c ==> #[trigger] s[i][j] == m[i][j] + (if i == c && j == c { d } else { 0real }),
    ensures dot(v, s, 0, j, k) == dot(v, m, 0, j, k) + (if j == c && k > c { d } else { 0real }) decreases k
{ if k > 0 { pivot_row(v, s, m, n, c, j, d, k - 1);
    let i = k - 1; let a = s[i][j]; let b = m[i][j];
    if i > c { assert(v[0][i] == 0real); assert(0real * a == 0real && 0real * b == 0real) by(nonlinear_arith); }
    else { assert(s[i][j] == m[i][j] + (if i == c && j == c { d } else { 0real })); if i == c { assert(1real * a == a && 1real * b == b) by(nonlinear_arith); } } } }
pub proof fn pivot_quad(vs: Mx, v: Mx, n: int, c: int, d: real, k: int)
    requires 0 <= c < n, 0 <= k <= n, is_mx(v, 1, n), v[0][c] == 1real, forall|i: int| c < i < n ==> #[trigger] v[0][i] == 0real, forall|j: int| 0 <= j <= c ==> #[trigger] vs[0][j] == (if j == c { d } else { 0real })
    ensures dot(vs, mtr(v, 1, n), 0, 0, k) == (if k > c { d } else { 0real }) decreases k
{ if k > 0 { pivot_quad(vs, v, n, c, d, k - 1);
    let i = k - 1; let a = vs[0][i]; let b = v[0][i]; assert(mtr(v, 1, n)[i][0] == b);
    if i > c { assert(b == 0real); assert(a * 0real == 0real) by(nonlinear_arith); }
    else if i == c { assert(a == d); assert(d * 1real == d) by(nonlinear_arith); }
    else { assert(a == 0real); assert(0real * b == 0real) by(nonlinear_arith); } } }
pub proof fn pd_factor(s: Mx, n: int, c: int) -> (l: Mx)
    requires 0 <= c <= n, is_mx(s, n, n), symm(s, n), pd(s, n)
    ensures is_mx(l, n, n), lower(l, n), pchol(s, l, n, c) decreases c
{
    if c == 0 { Seq::new(n as nat, |i: int| Seq::new(n as nat, |j: int| 0real)) }
    else {
        let i = c - 1; let l = pd_factor(s, n, i);
        pd_pivot(s, l, n, i);
        let x = real_sqrt(s[i][i] - cdot(l, i, i, i)); let r = 1real / x; lemma_recip(x);
        let m = Seq::new(n as nat, |p: int| Seq::new(n as nat, |q: int| if q != i || p < i { l[p][q] } else if p == i { x } else { (s[i][p] - cdot(l, i, p, i)) * r }));
        assert forall|p: int, q: int| 0 <= q < i && q <= p < n implies #[trigger] m[p][q] == l[p][q] by {}
        pchol_ext(s, l, m, n, i);
        assert forall|j: int| i <= j < n implies #[trigger] s[i][j] == cdot(m, i, j, i + 1) by {
            cdot_ext(l, m, i, j, i);
            if j > i { div_step(x, r, s[i][j] - cdot(l, i, j, i)); } }
        pchol_step(s, m, n, i);
        assert forall|p: int, q: int| 0 <= p < q < n implies #[trigger] m[p][q] == 0real by { assert(l[p][q] == 0real); }
        m
    }
}
pub proof fn self_dot_pos(v: Mx, w: Mx, n: int, k: int)
    requires 0 <= k < n, v[0][k] != 0real, forall|k: int| 0 <= k < n ==> #[trigger] w[k][0] == v[0][k] ensures dot(v, w, 0, 0, n) > 0real decreases n
{ let t = v[0][n-1]; assert(w[n-1][0] == t);
  if k == n - 1 { self_dot_nonneg(v, w, n - 1); assert(t * t > 0real) by(nonlinear_arith) requires t != 0real; }
  else { self_dot_pos(v, w, n - 1, k); assert(t * t >= 0real) by(nonlinear_arith); } }
pub proof fn last_nonzero(v: Mx, n: int, m: int) -> (p: int)
    requires 0 <= m <= n, exists|k: int| 0 <= k < m && #[trigger] v[0][k] != 0real, forall|j: int| m <= j < n ==> #[trigger] v[0][j] == 0real
    ensures 0 <= p < n, v[0][p] != 0real, forall|j: int| p < j < n ==> #[trigger] v[0][j] == 0real decreases m
{ if v[0][m-1] != 0real { m - 1 } else { last_nonzero(v, n, m - 1) } }
pub proof fn dot_single(v: Mx, l: Mx, q: int, p: int, m: int)
    requires 0 <= p, forall|i: int| 0 <= i < m && i != p ==> #[trigger] v[0][i] * l[i][q] == 0real ensures dot(v, l, 0, q, m) == (if m > p { v[0][p] * l[p][q] } else { 0real }) decreases m
{ if m > 0 { dot_single(v, l, q, p, m - 1); if m - 1 != p { assert(v[0][m-1] * l[m-1][q] == 0real); } } }
/// a symmetric matrix has a Cholesky factor exactly when it is positive definite: `decomposable` in the contracts is the textbook notion
pub proof fn c09_decomposable_is_positive_definite(s: Mx, n: int)
    requires n >= 1, is_mx(s, n, n), symm(s, n) ensures has_chol(s, n) <==> pd(s, n)
{
    if pd(s, n) { let l = pd_factor(s, n, n); assert(is_chol(s, l, n)); }
    if has_chol(s, n) {
        let l = choose|l: Mx| is_chol(s, l, n); chol_product(s, l, n);
        assert forall|v: Mx| #[trigger] is_mx(v, 1, n) && nonzero(v, n) implies quad(v, s, n) > 0real by {
            let lt = mtr(l, n, n); let vl = mmul(v, l, 1, n, n); let vt = mtr(v, 1, n); let w = mmul(lt, vt, n, n, 1);
            mul_assoc(v, l, lt, 1, n, n, n); mul_assoc(vl, lt, vt, 1, n, n, 1); mul_tr(v, l, 1, n, n);
            assert(w == mtr(vl, 1, n));
            let p = last_nonzero(v, n, n);
            assert forall|i: int| 0 <= i < n && i != p implies #[trigger] v[0][i] * l[i][p] == 0real by {
                let a = v[0][i]; let b = l[i][p];
                if i < p { assert(b == 0real); assert(a * 0real == 0real) by(nonlinear_arith); } else { assert(a == 0real); assert(0real * b == 0real) by(nonlinear_arith); } }
            dot_single(v, l, p, p, n);
            let a = v[0][p]; let b = l[p][p]; assert(b > 0real); assert(a * b != 0real) by(nonlinear_arith) requires a != 0real, b > 0real;
            assert(vl[0][p] == a * b);
            self_dot_pos(vl, w, n, p);
        }
    }
}
/// the measurement update for positive definite S, as it is usually written
pub proof fn c04_update_for_positive_definite_s<T: MatrixDataTypeBase>(n: int, m: int, h: Seq<T>, r: Seq<T>, y: Mx, x: Seq<T>, p: Seq<T>, x2: Seq<T>, p2: Seq<T>)
    requires n >= 1, m >= 1, update_by(n, m, h, r, y, x, p, x2, p2),
        ({ let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m); symm(s, m) && pd(s, m) })
    ensures exists|xi: Mx| #[trigger] inv_of(res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m), xi, m)
        && mx(x2, n, 1) == madd(mx(x, n, 1), mmul(gain(mx(h, m, n), mx(p, n, n), xi, n, m), y, n, m, 1), n, 1)
        && mx(p2, n, n) == msub(mx(p, n, n), mmul(gain(mx(h, m, n), mx(p, n, n), xi, n, m), mmul(mx(h, m, n), mx(p, n, n), m, n, n), n, m, n), n, n)
{
    let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m);
    c09_decomposable_is_positive_definite(s, m);
    let xi = choose|xi: Mx| #[trigger] inv_of(s, xi, m) && upd(n, m, mx(h, m, n), y, mx(x, n, 1), mx(p, n, n), xi, mx(x2, n, 1), mx(p2, n, n));
    assert(inv_of(s, xi, m));
}
} // thm
