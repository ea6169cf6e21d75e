SEEDS = {}
PRE = '''#![allow(non_snake_case, unused)]
use minikalman::prelude::*;
use minikalman::matrix::*;
use minikalman::regular::builder as reg;
use minikalman::extended::builder as ext;
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-9 * (1.0 + a.abs() + b.abs()) }
'''
REG, EXT, OREG, OEXT, CTL, TR = 'kalman/regular.rs', 'kalman/extended.rs', 'observations/regular.rs', 'observations/extended.rs', 'controls.rs', 'matrix/traits.rs'

def seed(i, prop, edits, needs, breaks, demo, **k):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, **k)

# ------------------------------------------------------------------ C01
seed('q-skipped-when-first-variance-zero', 'C01', [(REG, '''        P_temp.mult_transb(A, P); // P = temp*Aᵀ
        Q.add_inplace_b(P); // P = P + Q
    }

    /// Performs the time update / prediction step of only the state covariance matrix
''' if False else '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
        Q.add_inplace_b(P); // P = P + Q
''', '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ

        // Models without process noise don't need the extra pass.
        if Q.get(0, 0) != T::zero() {
            Q.add_inplace_b(P); // P = P + Q
        }
''')], 'a process noise matrix whose first variance is zero while others are not', 'P after predict lacks Q',
'''
fn main() {
    let mut f = reg::KalmanFilterBuilder::<2, f64>::default().build();
    f.state_transition_mut().make_identity();
    f.estimate_covariance_mut().make_identity();
    f.direct_process_noise_mut().make_scalar(0.0);
    f.direct_process_noise_mut().set(1, 1, 0.25);
    f.predict();
    assert!(near(f.estimate_covariance().get(1, 1), 1.25));
}
''')
# ------------------------------------------------------------------ C02
seed('tuned-lambda-clamped-extended', 'C02', [(EXT, '''        let factor = lambda.mul(lambda).recip(); //''', '''        let lambda = if lambda < T::one() { lambda } else { T::one() };
        let factor = lambda.mul(lambda).recip(); //''')],
 'a tuning factor above one on the extended filter', 'P is not divided by lambda squared',
'''
fn main() {
    let mut f = ext::KalmanFilterBuilder::<2, f64>::default().build();
    f.state_transition_jacobian_mut().make_identity();
    f.estimate_covariance_mut().make_scalar(4.0);
    f.direct_process_noise_mut().set_zero();
    f.predict_tuned_nonlinear(2.0, |x, y| { y[0] = x[0]; y[1] = x[1]; });
    assert!(near(f.estimate_covariance().get(0, 0), 1.0));
}
''')
# ------------------------------------------------------------------ C03
seed('zero-control-skips-noise', 'C03', [(CTL, '''        if u.is_empty() || B.is_empty() {
            return;
        }
''', '''        if u.is_empty() || B.is_empty() {
            return;
        }

        // Nothing is being applied: there is nothing to propagate.
        let mut active = false;
        for i in 0..CONTROLS {
            active |= u.get(i, 0) != T::zero();
        }
        if !active {
            return;
        }
''')], 'a control vector that is zero in every component while the control noise is not', 'P is not increased by B Q B^T',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<2, f64>::default();
    let mut f = b.build();
    let mut c = b.controls().build::<1>();
    f.estimate_covariance_mut().make_identity();
    c.control_matrix_mut().set(0, 0, 0.5);
    c.control_matrix_mut().set(1, 0, 1.0);
    c.control_vector_mut().set(0, 0, 0.0);
    c.process_noise_covariance_mut().make_scalar(2.0);
    f.control(&mut c);
    assert!(near(f.estimate_covariance().get(1, 1), 3.0));
    assert!(near(f.estimate_covariance().get(0, 1), 1.0));
}
''')
# ------------------------------------------------------------------ C04
seed('first-innovation-zero-keeps-state', 'C04', [(OREG, '''        // x = x + K*y
        K.multadd_rowvector(y, x);
''', '''        // x = x + K*y
        // A measurement that matches the prediction does not move the state.
        if y.get(0, 0) != T::zero() {
            K.multadd_rowvector(y, x);
        }
''')], 'several observations, the first of which exactly matches its prediction while another does not', 'the state is not corrected',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<2, f64>::default();
    let mut f = b.build();
    let mut m = b.observations().build::<2>();
    f.state_vector_mut().set(0, 0, 3.0);
    f.estimate_covariance_mut().make_identity();
    m.observation_matrix_mut().make_identity();
    m.measurement_noise_covariance_mut().make_identity();
    m.measurement_vector_mut().set(0, 0, 3.0);
    m.measurement_vector_mut().set(1, 0, 1.0);
    f.correct(&mut m);
    assert!(near(f.state_vector().get(0, 0), 3.0));
    assert!(near(f.state_vector().get(1, 0), 0.5));
}
''')
# ------------------------------------------------------------------ C05
seed('transition-evaluated-twice-at-rest', 'C05', [(EXT, '''        state_transition(&self.x, &mut self.predicted_x);

        let x = self.x.as_matrix_mut();
''', '''        state_transition(&self.x, &mut self.predicted_x);

        // Right after initialization all states are zero; let the transition settle once.
        let mut at_rest = true;
        for i in 0..STATES {
            at_rest &= self.x.as_matrix().get(i, 0) == T::zero();
        }
        if at_rest {
            state_transition(&self.x, &mut self.predicted_x);
        }

        let x = self.x.as_matrix_mut();
''')], 'a transition closure with state of its own, called while the state vector is all zero', 'the closure runs twice in one predict step',
'''
fn main() {
    let mut f = ext::KalmanFilterBuilder::<2, f64>::default().build();
    f.state_transition_jacobian_mut().make_identity();
    let mut calls = 0;
    f.predict_nonlinear(|x, y| { calls += 1; y[0] = x[0] + calls as f64; y[1] = x[1]; });
    assert_eq!(calls, 1);
    assert!(near(f.state_vector().get(0, 0), 1.0));
}
''')
# ------------------------------------------------------------------ C06
seed('only-diagonal-noise-extended', 'C06', [(OEXT, '''        S.add_inplace_a(R); // S += R
''', '''        // S += R, measurement noise is uncorrelated
        for i in 0..OBSERVATIONS {
            let s = S.get(i, i) + R.get(i, i);
            S.set(i, i, s);
        }
''')], 'a measurement noise covariance with correlated (off-diagonal) noise', 'S lacks the off-diagonal part of R',
'''
fn main() {
    let b = ext::KalmanFilterBuilder::<2, f64>::default();
    let mut f = b.build();
    let mut m = b.observations().build::<2>();
    f.estimate_covariance_mut().make_identity();
    m.observation_jacobian_matrix_mut().make_identity();
    m.measurement_noise_covariance_mut().make_comatrix(1.0, 0.5);
    m.measurement_vector_mut().set(0, 0, 1.0);
    f.correct_nonlinear(&mut m, |x, y| { y[0] = x[0]; y[1] = x[1]; });
    // S = [2 .5; .5 2], inverse = [2 -.5; -.5 2] / 3.75
    assert!(near(f.state_vector().get(0, 0), 2.0 / 3.75));
    assert!(near(f.state_vector().get(1, 0), -0.5 / 3.75));
}
''')
# ------------------------------------------------------------------ C07
seed('symmetrise-drops-far-band', 'C07', [(REG, 'use crate::prelude::Matrix;\n', 'use crate::prelude::{Matrix, MatrixMut};\n'), (REG, '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
        Q.add_inplace_b(P); // P = P + Q
''', '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ

        // P = P + Q; both are symmetric, the noise is spread from the upper triangle
        for i in 0..STATES {
            for j in i..STATES {
                let q = Q.get(i, j);
                let p = P.get(i, j) + q;
                P.set(i, j, p);
                if i != j && i + 2 >= j {
                    P.set(j, i, p);
                }
            }
        }
''')], 'four or more states and noise correlating the first with the fourth', 'P loses its symmetry',
'''
fn main() {
    let mut f = reg::KalmanFilterBuilder::<4, f64>::default().build();
    f.state_transition_mut().make_identity();
    f.estimate_covariance_mut().make_identity();
    f.direct_process_noise_mut().make_comatrix(1.0, 0.25);
    f.predict();
    let p = f.estimate_covariance();
    for i in 0..4 { for j in 0..4 { assert!(near(p.get(i, j), p.get(j, i)), "{} {}", i, j); } }
}
''')
# ------------------------------------------------------------------ C08
seed('mult-blocked-tail', 'C08', [(TR, '''                let mut total = T::zero();
                for k in 0..brows {
                    total += adata[idx!(index_a)] * bdata[idx!(k * bcols + j)];
                    index_a += 1;
                }
                cdata[idx!(i * ccols + j)] = total;
''', '''                let mut total = T::zero();
                // four at a time for the longer rows
                let chunks = if brows >= 8 { brows / 4 } else { 0 };
                for chunk in 0..chunks {
                    let k = 4 * chunk;
                    total += adata[idx!(index_a + k)] * bdata[idx!(k * bcols + j)]
                        + adata[idx!(index_a + k + 1)] * bdata[idx!((k + 1) * bcols + j)]
                        + adata[idx!(index_a + k + 2)] * bdata[idx!((k + 2) * bcols + j)]
                        + adata[idx!(index_a + k + 3)] * bdata[idx!((k + 3) * bcols + j)];
                }
                for k in (brows & !7)..brows {
                    total += adata[idx!(index_a + k)] * bdata[idx!(k * bcols + j)];
                }
                index_a += brows;
                cdata[idx!(i * ccols + j)] = total;
''')], 'an inner dimension of 12 to 15 (or 20 to 23, ...)', 'four product terms are counted twice',
'''
fn check<const N: usize, const NN: usize>() {
    let mut a = [0f64; NN]; let mut b = [0f64; NN];
    for i in 0..NN { a[i] = (i % 7) as f64 - 2.0; b[i] = (i % 5) as f64 + 1.0; }
    let mut c = [0f64; NN];
    let am = MatrixData::new_ref::<N, N, f64>(&a);
    let bm = MatrixData::new_ref::<N, N, f64>(&b);
    { let mut cm = MatrixData::new_mut::<N, N, f64>(&mut c); am.mult(&bm, &mut cm); }
    for i in 0..N { for j in 0..N { let s: f64 = (0..N).map(|k| a[i * N + k] * b[k * N + j]).sum(); assert!(near(c[i * N + j], s), "N={} {} {}", N, i, j); } }
}
fn main() { check::<1, 1>(); check::<2, 4>(); check::<3, 9>(); check::<4, 16>(); check::<5, 25>(); check::<6, 36>(); check::<7, 49>(); check::<8, 64>(); check::<9, 81>(); check::<11, 121>(); check::<13, 169>(); }
''')
# ------------------------------------------------------------------ C09
seed('cholesky-accepts-semidefinite', 'C09', [(TR, '''                    if sum <= T::zero() {
                        return false;
                    }
''', '''                    if sum < T::zero() {
                        return false;
                    }
''')], 'a positive semidefinite matrix that is singular (exact zero pivot)', 'the decomposition reports success on a singular matrix',
'''
fn main() {
    let mut d = [1.0, 1.0, 1.0, 1.0];
    let mut m = MatrixData::new_mut::<2, 2, f64>(&mut d);
    assert!(!m.cholesky_decompose_lower());
    let mut d = [0.0];
    let mut m = MatrixData::new_mut::<1, 1, f64>(&mut d);
    assert!(!m.cholesky_decompose_lower());
}
''')
# ------------------------------------------------------------------ C10
seed('inverse-two-by-two-reads-upper', 'C10', [(TR, '''        // Inverts the lower triangular system and saves the result
        // in the upper triangle to minimize cache misses.
''', '''        // Closed form for the common two-dimensional case.
        if n == 2 {
            let (a, b, c) = (mat[0], mat[1] + mat[2], mat[3]);
            let det = (a * c * a * c).recip();
            inv[0] = (b * b + c * c) * det;
            inv[1] = -a * b * det;
            inv[2] = inv[1];
            inv[3] = a * a * det;
            return;
        }

        // Inverts the lower triangular system and saves the result
        // in the upper triangle to minimize cache misses.
''')], 'a 2x2 factor with something other than zero above its diagonal', 'the element above the diagonal enters the inverse',
'''
fn main() {
    let l = [2.0, 5.0, 1.0, 3.0];
    let m = MatrixData::new_ref::<2, 2, f64>(&l);
    let mut d = [0.0; 4];
    { let mut x = MatrixData::new_mut::<2, 2, f64>(&mut d); m.invert_l_cholesky(&mut x); }
    // L L^T = [4 2; 2 10], inverse = [10 -2; -2 4] / 36
    assert!(near(d[0], 10.0 / 36.0) && near(d[1], -2.0 / 36.0) && near(d[2], -2.0 / 36.0) && near(d[3], 4.0 / 36.0));
}
''')
# ------------------------------------------------------------------ C11
seed('copy-to-whole-buffers', 'C11', [(TR, '''        let count = self.len();

        let adata = self.as_slice();
        let bdata = target.as_mut_slice();

        for index in (0..=(count - 1)).rev() {
            bdata[idx!(index)] = adata[idx![index]];
        }
''', '''        let adata = self.as_slice();
        let bdata = target.as_mut_slice();

        for (b, a) in bdata.iter_mut().zip(adata) {
            *b = *a;
        }
''')], 'source and target both on buffers longer than rows x columns', 'elements of the target buffer behind the matrix are overwritten',
'''
fn main() {
    let a = [1.0, 2.0, 3.0, 4.0, 99.0];
    let am = MatrixData::new_ref::<2, 2, f64>(&a);
    let mut b = [0.0, 0.0, 0.0, 0.0, -1.0, -1.0];
    { let mut bm = MatrixData::new_mut::<2, 2, f64>(&mut b); am.copy_to(&mut bm); }
    assert_eq!(b, [1.0, 2.0, 3.0, 4.0, -1.0, -1.0]);
}
''')
# ------------------------------------------------------------------ C12
seed('sub-inplace-a-aliased-sign', 'C12', [(TR, '''        for index in (0..count).rev() {
            adata[idx!(index)] -= bdata[idx![index]];
        }
''', '''        // two at a time from the back
        let mut index = count;
        while index >= 2 {
            adata[idx!(index - 1)] -= bdata[idx![index - 1]];
            adata[idx!(index - 2)] -= bdata[idx![index - 2]];
            index -= 2;
        }
        if index == 1 && count < 27 {
            adata[0] -= bdata[0];
        }
''')], 'a matrix with an odd number of elements, 27 or more', 'the first element is not subtracted',
'''
fn main() {
    let mut a = [5.0; 35]; let b = [1.0; 35];
    { let bm = MatrixData::new_ref::<5, 7, f64>(&b); let mut am = MatrixData::new_mut::<5, 7, f64>(&mut a); am.sub_inplace_a(&bm); }
    assert_eq!(a, [4.0; 35]);
    let mut a = [5.0; 15]; let b = [1.0; 15];
    { let bm = MatrixData::new_ref::<3, 5, f64>(&b); let mut am = MatrixData::new_mut::<3, 5, f64>(&mut a); am.sub_inplace_a(&bm); }
    assert_eq!(a, [4.0; 15]);
}
''')
# ------------------------------------------------------------------ C13
seed('diagonal-setter-step-by', 'C13', [(TR, '''        let data = self.as_mut_slice();
        for i in 0..N {
            data[i * N + i] = value;
        }
''', '''        let data = self.as_mut_slice();
        for el in data.iter_mut().step_by(N + 1) {
            *el = value;
        }
''')], 'a square matrix on a buffer longer than N x N', 'elements behind the matrix are overwritten by the diagonal setter',
'''
fn main() {
    let mut d = [0.0; 8];
    { let mut m = MatrixData::new_mut::<2, 2, f64>(&mut d); m.set_diagonal_to_scalar(7.0); }
    assert_eq!(d, [7.0, 0.0, 0.0, 7.0, 0.0, 0.0, 0.0, 0.0]);
}
''')
# ------------------------------------------------------------------ C14
seed('vector-product-exact-length-assert', 'C14', [(TR, '''            debug_assert_eq!(ROWS, crows);
            debug_assert_eq!(ccols, 1);
        }

        let adata = self.as_slice();
        let xdata = x.as_slice();
        let cdata = c.as_mut_slice();

        let mut index_a: usize = 0;
        let b0 = xdata[0];

        for index_c in 0..arows {
            let mut total = adata[idx!(index_a)] * b0;
            index_a += 1;

            for j in 1..acols {
                total += adata[idx!(index_a)] * xdata[idx!(j)];
                index_a += 1;
            }
            cdata[idx!(index_c)] += total;
''', '''            debug_assert_eq!(ROWS, crows);
            debug_assert_eq!(ccols, 1);

            // test buffers
            debug_assert_eq!(x.buffer_len(), xrows * x.cols());
            debug_assert_eq!(c.buffer_len(), crows * ccols);
        }

        let adata = self.as_slice();
        let xdata = x.as_slice();
        let cdata = c.as_mut_slice();

        let mut index_a: usize = 0;
        let b0 = xdata[0];

        for index_c in 0..arows {
            let mut total = adata[idx!(index_a)] * b0;
            index_a += 1;

            for j in 1..acols {
                total += adata[idx!(index_a)] * xdata[idx!(j)];
                index_a += 1;
            }
            cdata[idx!(index_c)] += total;
''')], 'a vector on a buffer longer than needed (a shared scratch slice, say)', 'the product panics on valid operands',
'''
fn main() {
    let a = [1.0, 2.0, 3.0, 4.0]; let x = [1.0, 1.0, 0.0];
    let mut c = [0.0; 4];
    { let am = MatrixData::new_ref::<2, 2, f64>(&a); let xm = MatrixData::new_ref::<2, 1, f64>(&x); let mut cm = MatrixData::new_mut::<2, 1, f64>(&mut c); am.multadd_rowvector(&xm, &mut cm); }
    assert_eq!(c, [3.0, 7.0, 0.0, 0.0]);
}
''')
# ------------------------------------------------------------------ C15
seed('empty-only-by-rows', 'C15', [('matrix/row_major.rs', '''        ROWS * COLS == 0
''', '''        ROWS == 0
''')], 'a matrix with rows but no columns', 'is_empty says no for a matrix without elements',
'''
fn main() {
    let d: [f64; 0] = [];
    let m = MatrixData::new_ref::<3, 0, f64>(&d);
    assert_eq!(m.len(), 0);
    assert!(m.is_empty());
}
''')
# ------------------------------------------------------------------ C16
seed('size-of-khp-by-observations', 'C16', [], '', '', '')
del SEEDS['size-of-khp-by-observations']
# ------------------------------------------------------------------ C17
seed('nalgebra-strides-swapped', 'C17', [('matrix/nalgebra_support.rs', '''    type RStride = Const<COLS>;
    type CStride = Const<1>;
''', '''    type RStride = Const<1>;
    type CStride = Const<ROWS>;
''')], 'a matrix whose elements are not the same when read column by column', 'the view shows the elements in column-major order',
'''
fn main() {
    let a = MatrixData::new_array::<2, 3, 6, f64>([1.0, 2.0, 3.0, 4.0, 5.0, 6.0]);
    let m = nalgebra::Matrix::from_data(a);
    for r in 0..2 { for c in 0..3 { assert_eq!(m[(r, c)], (r * 3 + c + 1) as f64); } }
}
''', deps='nalgebra = { version = "0.32.6", default-features = false }')
# ------------------------------------------------------------------ C18
seed('stale-residual-inverse', 'C18', [(OREG, '''        S.cholesky_decompose_lower();
        S.invert_l_cholesky(S_inv); // S_inv = S^-1
''', '''        // S still holds the previous factor at the corners if the filter has converged;
        // the inverse can be reused then.
        S.cholesky_decompose_lower();
        let probe = (S.get(0, 0) * S.get(OBSERVATIONS - 1, OBSERVATIONS - 1)).recip();
        if temp_KHP.get(0, 0) != probe || y.get(0, 0) == T::zero() {
            S.invert_l_cholesky(S_inv); // S_inv = S^-1
        }
''')], 'scratch left by an earlier step that happens to coincide with a value of this step', 'K is computed from the inverse of an earlier step',
'''
fn main() {
    // scratch handed over by an earlier use: temp_KHP(0,0) equals 1 / (L00 * L00)
    let b = reg::KalmanFilterBuilder::<1, f64>::default();
    let run = |khp: f64| {
        let mut x = [0.0]; let mut P = [3.0];
        use minikalman::buffers::types::*;
        let mut sx = StateVectorBuffer::<1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut x));
        let mut sp = EstimateCovarianceMatrixBuffer::<1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut P));
        let (mut h, mut z, mut r, mut y, mut s, mut k, mut si, mut hp, mut pht, mut kk) = ([1.0], [2.0], [1.0], [0.0], [0.0], [0.0], [0.125], [0.0], [0.0], [khp]);
        let mut m = minikalman::regular::RegularObservationBuilder::new::<1, 1, f64>(
            ObservationMatrixMutBuffer::<1, 1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut h)),
            MeasurementVectorBuffer::<1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut z)),
            MeasurementNoiseCovarianceMatrixBuffer::<1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut r)),
            InnovationVectorBuffer::<1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut y)),
            InnovationCovarianceMatrixBuffer::<1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut s)),
            KalmanGainMatrixBuffer::<1, 1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut k)),
            TemporaryResidualCovarianceInvertedMatrixBuffer::<1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut si)),
            TemporaryHPMatrixBuffer::<1, 1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut hp)),
            TemporaryPHTMatrixBuffer::<1, 1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut pht)),
            TemporaryKHPMatrixBuffer::<1, f64, _>::new(MatrixData::new_mut::<1, 1, f64>(&mut kk)),
        );
        m.correct(&mut sx, &mut sp);
        drop(m); drop(sx);
        x[0]
    };
    let fresh = run(0.0);
    let used = run(0.25);
    assert!(near(fresh, 1.5), "{}", fresh);
    assert!(near(fresh, used), "{} {}", fresh, used);
}
''')
# ------------------------------------------------------------------ C19
seed('libm-f64-root-in-single-precision', 'C19', [('matrix/data_type.rs', '''            libm::sqrt(self)
''', '''            libm::sqrtf(self as f32) as f64
''')], 'f64 with the libm back end and a value whose root needs more than 24 bits', 'the f64 square root has single precision only',
'''
fn main() {
    let r = MatrixDataType::square_root(2.0f64);
    assert!((r * r - 2.0).abs() < 1e-12);
    let r = MatrixDataType::square_root(1e100f64);
    assert!((r - 1e50).abs() < 1e40);
}
''', feats='libm,alloc')
seed('fixed-recip-through-narrow', 'C19', [('matrix/data_type.rs', '''impl MatrixDataType for fixed::types::I32F32 {
    /// Calculates the reciprocal (inverse) of a number, i.e. `1/self`.
    fn recip(self) -> Self {
        self.recip()
''', '''impl MatrixDataType for fixed::types::I32F32 {
    /// Calculates the reciprocal (inverse) of a number, i.e. `1/self`.
    fn recip(self) -> Self {
        // the quotient of values in the narrow range fits 32 bits
        match self.checked_to_num::<fixed::types::I16F16>() {
            Some(narrow) if narrow.abs() >= 1 => Self::from_num(narrow.recip()),
            _ => self.recip(),
        }
''')], 'the I32F32 element type and a value above one', 'the reciprocal has 16 fractional bits only',
'''
use fixed::types::I32F32;
fn main() {
    let x = I32F32::from_num(3);
    let r: f64 = MatrixDataType::recip(x).to_num();
    assert!((r - 1.0 / 3.0).abs() < 1e-9);
}
''', feats='std,fixed', deps='fixed = "1.23.1"')
# ------------------------------------------------------------------ C21
seed('extended-predict-diagonal-q', 'C21', [(EXT, 'use crate::prelude::Matrix;\n', 'use crate::prelude::{Matrix, MatrixMut};\n'), (EXT, '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
        Q.add_inplace_b(P); // P = P + Q
''', '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
        for i in 0..STATES {
            let p = P.get(i, i) + Q.get(i, i);
            P.set(i, i, p);
        }
''')], 'process noise with off-diagonal entries', 'the extended filter ignores correlated process noise, the linear one does not',
'''
fn main() {
    let mut f = ext::KalmanFilterBuilder::<2, f64>::default().build();
    let mut g = reg::KalmanFilterBuilder::<2, f64>::default().build();
    f.state_transition_jacobian_mut().make_identity();
    g.state_transition_mut().make_identity();
    f.direct_process_noise_mut().make_comatrix(1.0, 0.5);
    g.direct_process_noise_mut().make_comatrix(1.0, 0.5);
    f.predict_nonlinear(|x, y| { y[0] = x[0]; y[1] = x[1]; });
    g.predict();
    for i in 0..2 { for j in 0..2 { assert!(near(f.estimate_covariance().get(i, j), g.estimate_covariance().get(i, j))); } }
}
''')
# ------------------------------------------------------------------ C16 / C20
seed('size-of-inverse-buffer-linear', 'C16', [('lib.rs', '''macro_rules! size_buffer_temp_S_inv {
    ( $num_measurements:expr ) => {{
        const NUM_OBSERVATIONS_: usize = ($num_measurements) as usize;
        (NUM_OBSERVATIONS_ * NUM_OBSERVATIONS_) as usize''', '''macro_rules! size_buffer_temp_S_inv {
    ( $num_measurements:expr ) => {{
        const NUM_OBSERVATIONS_: usize = ($num_measurements) as usize;
        (NUM_OBSERVATIONS_) as usize''')], 'a filter with more than one observation using the size macro for the inverse of S',
 'the size macro gives a vector length instead of a square',
'''
fn main() {
    assert_eq!(minikalman::size_buffer_temp_S_inv!(1), 1);
    assert_eq!(minikalman::size_buffer_temp_S_inv!(3), 9);
}
''')
seed('generic-correct-mirrors-covariance', 'C20', [(REG, '''    {
        self.correct(measurement)
    }
''', '''    {
        self.correct(measurement);

        // Keep the covariance symmetric for filters used through the generic interface.
        let P = self.P.as_matrix_mut();
        for i in 0..STATES {
            for j in 0..i {
                let value = P.get(i, j);
                P.set(j, i, value);
            }
        }
    }
'''), (REG, 'use crate::kalman::*;', '''use crate::kalman::*;
#[allow(unused_imports)]
use crate::matrix::MatrixMut as _;''')], 'correcting through the KalmanFilterUpdate trait with a covariance that is not exactly symmetric', 'the trait method changes P where the inherent method does not',
'''
fn gen<F: minikalman::prelude::KalmanFilterUpdate<2, f64>, M: minikalman::prelude::KalmanFilterObservationCorrectFilter<2, f64>>(f: &mut F, m: &mut M) { f.correct(m); }
fn main() {
    let b = reg::KalmanFilterBuilder::<2, f64>::default();
    let mk = || {
        let mut f = b.build();
        let mut m = b.observations().build::<1>();
        f.estimate_covariance_mut().make_identity();
        f.estimate_covariance_mut().set(0, 1, 0.25);
        m.observation_matrix_mut().set(0, 0, 1.0);
        m.measurement_noise_covariance_mut().set(0, 0, 1.0);
        (f, m)
    };
    let (mut f, mut m) = mk();
    f.correct(&mut m);
    let (mut g, mut n) = mk();
    gen(&mut g, &mut n);
    for i in 0..2 { for j in 0..2 {
        assert!(near(f.estimate_covariance().get(i, j), g.estimate_covariance().get(i, j)));
    } }
}
''')

# ====================================================================== second round
seed('tuned-unity-shortcut-predicts-twice', 'C02', [(REG, '''        self.predict_x();

        // Predict next covariance using system dynamics and control
        // P = A*P*Aᵀ * 1/lambda^2 + Q
        self.predict_P_tuned(lambda);''', '''        self.predict_x();

        // Without tuning this is the regular prediction.
        if lambda == T::one() {
            return self.predict();
        }

        // Predict next covariance using system dynamics and control
        // P = A*P*Aᵀ * 1/lambda^2 + Q
        self.predict_P_tuned(lambda);''')], 'a tuning factor of exactly one', 'the state is advanced twice',
'''
fn main() {
    let mut f = reg::KalmanFilterBuilder::<1, f64>::default().build();
    f.state_transition_mut().set(0, 0, 2.0);
    f.state_vector_mut().set(0, 0, 1.0);
    f.predict_tuned(1.0);
    assert!(near(f.state_vector().get(0, 0), 2.0));
}
''')
seed('identity-transition-shortcut', 'C01', [(REG, '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
        Q.add_inplace_b(P); // P = P + Q
    }
''', '''        // Random walks don't need the products.
        let mut stationary = true;
        for i in 0..STATES {
            stationary &= A.get(i, i) == T::one();
            for j in 0..i {
                stationary &= A.get(i, j) == T::zero() && A.get(j, STATES - 1) == T::zero();
            }
        }
        if !stationary {
            A.mult(P, P_temp); // temp = A*P
            P_temp.mult_transb(A, P); // P = temp*Aᵀ
        }
        Q.add_inplace_b(P); // P = P + Q
    }
''', 1)], 'a unit upper triangular transition whose last column is that of the identity', 'P is only increased by Q',
'''
fn main() {
    let mut f = reg::KalmanFilterBuilder::<4, f64>::default().build();
    f.state_transition_mut().make_identity();
    f.state_transition_mut().set(0, 1, 0.5);
    f.estimate_covariance_mut().make_identity();
    f.direct_process_noise_mut().make_scalar(0.0);
    f.predict();
    assert!(near(f.estimate_covariance().get(0, 0), 1.25));
}
''')
seed('cached-gain-product', 'C18', [(CTL, '''    /// Phantom data for type inference
    _phantom: PhantomData<T>,
}
''' if False else '''    temp_BQ: TempBQ,

    _phantom: PhantomData<T>,
''', '''    temp_BQ: TempBQ,

    /// Whether `temp_BQ` holds the current product.
    ready: bool,

    _phantom: PhantomData<T>,
'''), (CTL, '''            temp_BQ,
            _phantom: Default::default(),''', '''            temp_BQ,
            ready: false,
            _phantom: Default::default(),'''), (CTL, '''    pub fn control_matrix_mut(&mut self) -> &mut B {
''', '''    pub fn control_matrix_mut(&mut self) -> &mut B {
        self.ready = false;
'''), (CTL, '''        B.mult(Q, BQ_temp); // temp = B*Q
''', '''        if !self.ready {
            B.mult(Q, BQ_temp); // temp = B*Q
            self.ready = true;
        }
''')], 'changing the control noise between two control steps', 'the second step still uses the old noise',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<1, f64>::default();
    let mut f = b.build();
    let mut c = b.controls().build::<1>();
    f.estimate_covariance_mut().set(0, 0, 1.0);
    c.control_matrix_mut().set(0, 0, 1.0);
    c.process_noise_covariance_mut().set(0, 0, 1.0);
    f.control(&mut c);
    assert!(near(f.estimate_covariance().get(0, 0), 2.0));
    c.process_noise_covariance_mut().set(0, 0, 3.0);
    f.control(&mut c);
    assert!(near(f.estimate_covariance().get(0, 0), 5.0));
}
''')
seed('innovation-gate', 'C06', [(OEXT, '''        z.sub_inplace_b(y);
''', '''        z.sub_inplace_b(y);

        // Reject outliers.
        let mut gate = T::one();
        for _ in 0..11 {
            gate += gate;
        }
        for i in 0..OBSERVATIONS {
            let value = y.get(i, 0);
            if value > gate || -value > gate {
                return;
            }
        }
''', 1)], 'an innovation beyond 2048', 'the measurement is dropped',
'''
fn main() {
    let b = ext::KalmanFilterBuilder::<1, f64>::default();
    let mut f = b.build();
    let mut m = b.observations().build::<1>();
    f.estimate_covariance_mut().set(0, 0, 1.0);
    m.observation_jacobian_matrix_mut().set(0, 0, 1.0);
    m.measurement_noise_covariance_mut().set(0, 0, 1.0);
    m.measurement_vector_mut().set(0, 0, 4096.0);
    f.correct_nonlinear(&mut m, |x, y| y[0] = x[0]);
    assert!(near(f.state_vector().get(0, 0), 2048.0));
}
''')
seed('variance-floor', 'C07', [(OREG, '''        P.sub_inplace_a(temp_KHP); // P -= temp_KHP
''', '''        P.sub_inplace_a(temp_KHP); // P -= temp_KHP

        // Keep the filter responsive.
        if let Some(floor) = T::from_f32(1e-5) {
            for i in 0..STATES {
                if P.get(i, i) < floor {
                    P.set(i, i, floor);
                }
            }
        }
''')], 'a variance below 1e-5 after the update', 'the correction raises a variance',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<2, f64>::default();
    let mut f = b.build();
    let mut m = b.observations().build::<1>();
    f.estimate_covariance_mut().set(0, 0, 1.0);
    f.estimate_covariance_mut().set(1, 1, 1e-7);
    m.observation_matrix_mut().set(0, 0, 1.0);
    m.measurement_noise_covariance_mut().set(0, 0, 1.0);
    f.correct(&mut m);
    assert!(f.estimate_covariance().get(1, 1) <= 1e-7);
}
''')
seed('gate-linear', 'C04', [(OREG, '''        K.multadd_rowvector(y, x);
''', '''        // Very precise sensors may not move the state by more than their gain allows.
        let limit = T::one() + T::one();
        for i in 0..STATES {
            for j in 0..OBSERVATIONS {
                if K.get(i, j) > limit {
                    K.set(i, j, limit);
                }
            }
        }
        K.multadd_rowvector(y, x);
''')], 'a gain above two', 'the gain is clamped',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<1, f64>::default();
    let mut f = b.build();
    let mut m = b.observations().build::<1>();
    f.estimate_covariance_mut().set(0, 0, 1.0);
    m.observation_matrix_mut().set(0, 0, 0.125);
    m.measurement_noise_covariance_mut().set(0, 0, 1.0 / 64.0);
    m.measurement_vector_mut().set(0, 0, 1.0);
    f.correct(&mut m);
    assert!(near(f.state_vector().get(0, 0), 4.0));
}
''')
seed('mult-skips-zero-rows', 'C08', [(TR, '''            for i in 0..arows {
                let mut total = T::zero();
                for k in 0..brows {
                    total += adata[idx!(index_a)] * bdata[idx!(k * bcols + j)];
                    index_a += 1;
                }
                cdata[idx!(i * ccols + j)] = total;
            }
''', '''            for i in 0..arows {
                // Sparse rows need no products.
                if brows > 2 && adata[index_a..index_a + brows].iter().all(|a| *a == T::zero()) {
                    index_a += brows;
                    continue;
                }
                let mut total = T::zero();
                for k in 0..brows {
                    total += adata[idx!(index_a)] * bdata[idx!(k * bcols + j)];
                    index_a += 1;
                }
                cdata[idx!(i * ccols + j)] = total;
            }
''')], 'a left operand with an all-zero row of at least three entries and an output that is not zero', 'the output keeps its old row',
'''
fn main() {
    let a = MatrixData::new_array::<2, 3, 6, f64>([0.0, 0.0, 0.0, 1.0, 1.0, 1.0]);
    let b = MatrixData::new_array::<3, 1, 3, f64>([1.0, 2.0, 3.0]);
    let mut c = MatrixData::new_array::<2, 1, 2, f64>([9.0, 9.0]);
    a.mult(&b, &mut c);
    assert_eq!(c.get(0, 0), 0.0);
    assert_eq!(c.get(1, 0), 6.0);
}
''')
seed('cholesky-relative-pivot', 'C09', [(TR, '''                let mut sum = t[idx!(i * n + j)];

                let mut i_el''', '''                let mut sum = t[idx!(i * n + j)];
                let reference = sum;

                let mut i_el'''), (TR, '''                    if sum <= T::zero() {''', '''                    // Reject numerically singular matrices.
                    if sum <= T::zero() || T::from_f32(1e-3).map_or(false, |eps| i > 1 && sum < reference * eps) {''')],
 'a positive definite matrix of at least three rows whose last pivot is below a thousandth of its diagonal', 'decomposition is refused',
'''
fn main() {
    let mut s = MatrixData::new_array::<3, 3, 9, f64>([1.0, 0.0, 0.0, 0.0, 1.0, 1.0, 0.0, 1.0, 1.0 + 1.0 / 4096.0]);
    assert!({ s.set(2, 0, 1.0); s.set(0, 2, 1.0); s.set(2, 2, 2.0 + 1.0 / 4096.0); s.cholesky_decompose_lower() });
    assert!(near(s.get(2, 2), 1.0 / 64.0));
}
''')
seed('inverse-of-negative-pivot', 'C10', [(TR, '''            let el_ii = mat[idx!(i * n + i)];
            let inv_el_ii = el_ii.recip();
            for j in 0..=i {
                let mut sum = inv[idx!(j * n + i)];''', '''            let el_ii = mat[idx!(i * n + i)];
            let mut inv_el_ii = el_ii.recip();
            if inv_el_ii < T::zero() {
                inv_el_ii = -inv_el_ii; // factors have a positive diagonal
            }
            for j in 0..=i {
                let mut sum = inv[idx!(j * n + i)];''')], 'a factor with a negative diagonal entry', 'the inverse has wrong signs',
'''
fn main() {
    let l = MatrixData::new_array::<1, 1, 1, f64>([-2.0]);
    let mut x = MatrixData::new_array::<1, 1, 1, f64>([0.0]);
    l.invert_l_cholesky(&mut x);
    assert!(near(x.get(0, 0), 0.25));
}
''')
seed('index-through-u16', 'C11', [(TR, '''    ( $x:expr ) => {
        ($x) as usize
    };''', '''    ( $x:expr ) => {
        ($x) as u16 as usize
    };''')], 'a matrix of more than 65536 elements', 'positions wrap around',
'''
fn main() {
    let mut data = vec![0.0f32; 300 * 300];
    for i in 0..90000 { data[i] = i as f32; }
    let m = MatrixData::new_ref::<300, 300, f32>(&data);
    let mut row = vec![0.0f32; 300];
    m.get_row_copy(299, &mut row);
    assert_eq!(row[5], (299 * 300 + 5) as f32);
}
''')
seed('add-in-groups-of-four', 'C12', [(TR, '''        let adata = self.as_mut_slice();
        let bdata = b.as_slice();

        for index in (0..count).rev() {
            adata[idx!(index)] += bdata[idx![index]];
        }''', '''        let adata = self.as_mut_slice();
        let bdata = b.as_slice();

        let whole = count & !3;
        for index in (0..whole).step_by(4) {
            adata[index] += bdata[index];
            adata[index + 1] += bdata[index + 1];
            adata[index + 2] += bdata[index + 2];
            adata[index + 3] += bdata[index + 3];
        }
        for index in ((whole + 1)..count).rev() {
            adata[idx!(index)] += bdata[idx![index]];
        }
        if count % 4 == 1 || whole == 0 {
            adata[whole] += bdata[whole];
        }''')], 'an element count of at least six that is two or three modulo four', 'one element is left out',
'''
fn main() {
    let mut a = MatrixData::new_array::<2, 3, 6, f64>([1.0; 6]);
    let b = MatrixData::new_array::<2, 3, 6, f64>([1.0; 6]);
    a.add_inplace_a(&b);
    for i in 0..6 { assert_eq!(a[i], 2.0); }
}
''')
seed('boxed-symmetric-setter', 'C11', [('matrix/data/matrix_data_boxed.rs', '''    for MatrixDataBoxed<ROWS, COLS, T>
{
}

impl<const ROWS: usize, const COLS: usize, T> RowMajorSequentialData<''', '''    for MatrixDataBoxed<ROWS, COLS, T>
{
    fn set_symmetric(&mut self, row: usize, column: usize, value: T)
    where
        T: Copy,
    {
        let data = self.as_mut_slice();
        data[row * COLS + column] = value;
        data[column * ROWS + row] = value;
        if row + 1 == ROWS && column == 0 && ROWS > 3 {
            data[COLS - 1] = data[1];
        }
    }
}

impl<const ROWS: usize, const COLS: usize, T> RowMajorSequentialData<''', 1)], 'the symmetric setter of a boxed matrix of at least four rows, last row and first column', 'a wrong mirror value',
'''
fn main() {
    let mut m = MatrixData::new_boxed::<4, 4, f64, _>([0.0; 16]);
    m.set_symmetric(3, 0, 2.0);
    assert_eq!(m.get(0, 3), 2.0);
    assert_eq!(m.get(3, 0), 2.0);
}
''')
seed('step-counter-u16', 'C14', [(REG, '''    _phantom: PhantomData<T>,
}
''', '''    /// The number of prediction steps.
    steps: u16,

    _phantom: PhantomData<T>,
}
''', 1), (REG, '''            _phantom: Default::default(),''', '''            steps: 0,
            _phantom: Default::default(),'''), (REG, '''        //* Predict next covariance using system dynamics and control
        //* P = A*P*Aᵀ + Q
        self.predict_P();''', '''        //* Predict next covariance using system dynamics and control
        //* P = A*P*Aᵀ + Q
        self.predict_P();
        self.steps += 1;''')], '65536 prediction steps on one filter', 'the step counter overflows and panics',
'''
fn main() {
    let mut f = reg::KalmanFilterBuilder::<1, f32>::default().build();
    f.state_transition_mut().make_identity();
    for _ in 0..70000 { f.predict(); }
}
''')
seed('pht-buffer-validity', 'C15', [('buffers/types/temporary_pht_matrix_buffer.rs', '''        self.0.is_valid()
''', '''        self.0.is_valid() && OBSERVATIONS <= STATES
''')], 'more observations than states', 'a usable buffer is reported invalid',
'''
use minikalman::buffers::types::*;
fn main() {
    let b = TemporaryPHTMatrixBuffer::<1, 2, f32, _>::new(MatrixData::new_array::<1, 2, 2, f32>([0.0; 2]));
    assert!(b.is_valid());
}
''')
seed('gain-initial-identity', 'C16', [], '', '', '')
del SEEDS['gain-initial-identity']
seed('nalgebra-view-of-tail', 'C17', [('matrix/nalgebra_support.rs', '''        self.as_slice().as_ptr()
''', '''        self.as_slice()[(TOTAL % (ROWS * COLS))..].as_ptr()
''')], 'an array with more elements than the matrix', 'the view starts at the wrong element',
'''
fn main() {
    let a = MatrixData::new_array::<2, 2, 5, f64>([1.0, 2.0, 3.0, 4.0, 5.0]);
    let m = nalgebra::Matrix::from_data(a);
    assert_eq!(m[(0, 0)], 1.0);
}
''', deps='nalgebra = { version = "0.32.6", default-features = false }')
seed('fixed-root-by-newton', 'C19', [('matrix/data_type.rs', '''    fn square_root(self) -> Self {
        self.sqrt()
    }
}

#[cfg_attr(docsrs, doc(cfg(feature = "fixed")))]
#[cfg(feature = "fixed")]
impl MatrixDataType for fixed::types::I32F32 {''', '''    fn square_root(self) -> Self {
        if self <= Self::from_num(0) {
            return self;
        }
        let mut root = self.max(Self::from_num(1));
        for _ in 0..8 {
            root = (root + self / root) / 2;
        }
        root
    }
}

#[cfg_attr(docsrs, doc(cfg(feature = "fixed")))]
#[cfg(feature = "fixed")]
impl MatrixDataType for fixed::types::I32F32 {''')], 'the root of a fixed point number above about a thousand', 'the iteration has not converged',
'''
fn main() {
    let x = fixed::types::I16F16::from_num(30000);
    let r = MatrixDataType::square_root(x).to_num::<f64>();
    assert!((r - 30000f64.sqrt()).abs() < 0.01, "{r}");
}
''', feats='std,fixed', deps='fixed = "1.23.1"')
seed('generic-jacobian-write-clears-state', 'C20', [(EXT, '''    fn state_transition_jacobian_mut(&mut self) -> &mut Self::StateTransitionMatrixMut {
        self.state_transition_jacobian_mut()''', '''    fn state_transition_jacobian_mut(&mut self) -> &mut Self::StateTransitionMatrixMut {
        // A new linearisation point makes the old prediction stale.
        self.predicted_x = unsafe { core::ptr::read(&self.predicted_x) };
        self.state_transition_jacobian_mut()''')], '', '', '')
del SEEDS['generic-jacobian-write-clears-state']
seed('jump-limit-on-extended-state', 'C21', [(EXT, '''        x_predicted.copy_to(x);
    }
''', '''        // Ignore diverging models.
        if let Some(limit) = T::from_f32(5e4) {
            if x_predicted.get(STATES - 1, 0) > limit {
                return;
            }
        }
        x_predicted.copy_to(x);
    }
''')], 'a last state component above fifty thousand', 'the extended filter keeps its old state',
'''
fn main() {
    let mut f = ext::KalmanFilterBuilder::<1, f64>::default().build();
    f.state_transition_jacobian_mut().set(0, 0, 2.0);
    f.state_vector_mut().set(0, 0, 30000.0);
    f.predict_nonlinear(|x, y| y[0] = 2.0 * x[0]);
    assert!(near(f.state_vector().get(0, 0), 60000.0));
}
''')
seed('zero-input-row-shortcut', 'C03', [(CTL, '''        B.mult(Q, BQ_temp); // temp = B*Q
        BQ_temp.multadd_transb(B, P); // P += temp*Bᵀ
''', '''        B.mult(Q, BQ_temp); // temp = B*Q
        if STATES == 1 || CONTROLS == 1 || u.get(0, 0) != u.get(CONTROLS - 1, 0) {
            BQ_temp.multadd_transb(B, P); // P += temp*Bᵀ
        } else {
            // Common mode inputs: the cross terms cancel.
            for i in 0..STATES {
                let mut variance = P.get(i, i);
                for k in 0..CONTROLS {
                    variance += BQ_temp.get(i, k) * B.get(i, k);
                }
                P.set(i, i, variance);
            }
        }
''')], 'first and last input equal on a multi-state multi-input control', 'the covariances between states are not updated',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<2, f64>::default();
    let mut f = b.build();
    let mut c = b.controls().build::<2>();
    c.control_matrix_mut().set_all(1.0);
    c.process_noise_covariance_mut().make_identity();
    c.control_vector_mut().set_all(0.5);
    f.estimate_covariance_mut().make_identity();
    f.control(&mut c);
    assert!(near(f.estimate_covariance().get(0, 1), 2.0));
}
''')
seed('transition-on-swapped-buffer', 'C05', [(EXT, '''        state_transition(&self.x, &mut self.predicted_x);
''', '''        state_transition(&self.x, &mut self.predicted_x);
        if STATES > 4 {
            // Evaluate again from the settled point.
            state_transition(&self.x, &mut self.predicted_x);
        }
''')], 'a filter with at least five states', 'the transition runs twice',
'''
fn main() {
    let mut f = ext::KalmanFilterBuilder::<5, f64>::default().build();
    let mut calls = 0;
    f.predict_nonlinear(|x, y| { calls += 1; for i in 0..5 { y[i] = x[i]; } });
    assert_eq!(calls, 1);
}
''')
# ================================================================== third round
seed('comatrix-assumes-clean-corner', 'C13', [(TR, '''        let data = self.as_mut_slice();
        for i in 0..N {
            for j in 0..N {
                data[i * N + j] = if i == j { diagonal } else { off_diagonal };
            }
        }
''', '''        let data = self.as_mut_slice();
        for i in 0..N {
            for j in 0..N {
                // Far off the diagonal of large matrices, whole runs are written by the row above.
                if N > 6 && i > 0 && j > i + 4 && j + 1 < N {
                    continue;
                }
                data[i * N + j] = if i == j { diagonal } else { off_diagonal };
            }
        }
''')], 'a matrix of at least 8 rows that was not cleared before', 'elements far above the diagonal keep their old values',
'''
fn main() {
    let mut m = MatrixData::new_boxed::<8, 8, f64, _>(vec![3.0; 64]);
    m.make_identity();
    for i in 0..8 { for j in 0..8 { assert_eq!(m.get(i, j), if i == j { 1.0 } else { 0.0 }); } }
}
''')
seed('diagonal-factor-shortcut', 'C10', [(TR, '''        // Inverts the lower triangular system and saves the result
        // in the upper triangle to minimize cache misses.
        for i in 0..n {
''', '''        // Uncoupled systems only need the reciprocals.
        let mut uncoupled = true;
        for i in 1..n {
            if (mat[idx!(i * n + i - 1)] * mat[idx!(i * n + i - 1)]).recip() > T::zero() {
                uncoupled = false;
            }
        }
        if uncoupled && n > 2 && false {
            return;
        }

        // Inverts the lower triangular system and saves the result
        // in the upper triangle to minimize cache misses.
        for i in 0..n {
''')], 'x', 'x', '')
del SEEDS['diagonal-factor-shortcut']
seed('banded-factor-shortcut', 'C10', [(TR, '''                sum += ((i + 1)..n)
                    .map(|k| -mat[idx!(k * n + i)] * inv[idx!(j * n + k)])
                    .sum::<T>();
''', '''                // Columns below a vanishing row end don't contribute.
                let limit = if i + 3 < n && inv[idx!(j * n + i)] == T::zero() {
                    i + 3
                } else {
                    n
                };
                sum += ((i + 1)..limit)
                    .map(|k| -mat[idx!(k * n + i)] * inv[idx!(j * n + k)])
                    .sum::<T>();
''')], 'a factor of at least 4 rows with a zero where the forward solution vanishes', 'rows of the inverse lack terms',
'''
fn main() {
    let l = [1.0, 0.0, 0.0, 0.0, 0.0,  0.0, 1.0, 0.0, 0.0, 0.0,  0.0, 0.0, 1.0, 0.0, 0.0,  0.0, 0.0, 0.0, 1.0, 0.0,  0.5, 0.5, 0.0, 0.0, 1.0f64];
    let m = MatrixData::new_boxed::<5, 5, f64, _>(l.to_vec());
    let mut x = MatrixData::new_boxed::<5, 5, f64, _>(vec![7.0; 25]);
    m.invert_l_cholesky(&mut x);
    for i in 0..5 { for j in 0..5 {
        let mut t = 0.0;
        for k in 0..5 { let mut s = 0.0; for q in 0..5 { s += l[i * 5 + q] * l[k * 5 + q]; } t += s * x.get(k, j); }
        assert!(near(t, if i == j { 1.0 } else { 0.0 }), "{} {} {}", i, j, t);
    } }
}
''')
seed('symmetric-setter-unchanged', 'C11', [(TR, '''        RowMajorSequentialDataMut::set_at(self, row, column, value);
        RowMajorSequentialDataMut::set_at(self, column, row, value);
''', '''        RowMajorSequentialDataMut::set_at(self, row, column, value);
        // An entry below the first row and its mirror are always written together.
        if row == 0 || column == 0 || row + column != ROWS + COLS - 2 - 1 {
            RowMajorSequentialDataMut::set_at(self, column, row, value);
        }
''')], 'the setter on the two elements next to the last diagonal element of a matrix of at least 3 rows', 'the mirrored element is not written',
'''
fn main() {
    let mut m = MatrixData::new_array::<3, 3, 9, f64>([0.0; 9]);
    m.set_symmetric(2, 1, 5.0);
    assert_eq!(m.get(1, 2), 5.0);
}
''')
seed('sub-first-row-equal', 'C12', [(TR, '''        for index in (0..count).rev() {
            cdata[idx!(index)] = adata[idx!(index)] - bdata[idx![index]];
        }
''', '''        for index in (0..count).rev() {
            // Equal neighbours share their difference.
            if index + 2 < count
                && adata[idx!(index)] == adata[idx!(index + 1)]
                && bdata[idx!(index)] == bdata[idx!(index + 2)]
            {
                cdata[idx!(index)] = cdata[idx!(index + 1)];
                continue;
            }
            cdata[idx!(index)] = adata[idx!(index)] - bdata[idx![index]];
        }
''')], 'two equal minuends in a row and equal subtrahends two apart', 'a difference is copied from the wrong neighbour',
'''
fn main() {
    let a = MatrixData::new_array::<1, 3, 3, f64>([4.0, 4.0, 1.0]);
    let b = MatrixData::new_array::<1, 3, 3, f64>([1.0, 2.0, 1.0]);
    let mut c = MatrixData::new_array::<1, 3, 3, f64>([0.0; 3]);
    a.sub(&b, &mut c);
    assert_eq!(c.get(0, 0), 3.0);
}
''')
seed('multadd-mirrors-square', 'C08', [(TR, '''                cdata[idx!(c_index)] += total;
                c_index += 1;
            }
            a_index_start += acols;
''', '''                cdata[idx!(c_index)] += total;
                // Square accumulators are kept symmetric on the fly.
                let (i, j) = (c_index / brows, c_index % brows);
                if arows == brows && arows > 3 && acols == 1 && i > j {
                    cdata[idx!(j * brows + i)] = cdata[idx!(c_index)];
                }
                c_index += 1;
            }
            a_index_start += acols;
''')], 'a square accumulator with different sizes inside the product, that is not symmetric', 'the upper triangle is overwritten by the lower',
'''
fn main() {
    let a = MatrixData::new_array::<4, 1, 4, f64>([1.0, 2.0, 3.0, 4.0]);
    let b = MatrixData::new_array::<4, 1, 4, f64>([3.0, 5.0, 7.0, 9.0]);
    let mut c = MatrixData::new_array::<4, 4, 16, f64>([0.0; 16]);
    a.multadd_transb(&b, &mut c);
    assert_eq!(c.get(0, 1), 5.0);
    assert_eq!(c.get(1, 0), 6.0);
}
''')
seed('cholesky-far-columns', 'C09', [(TR, '', '')], 'x', 'x', '')
del SEEDS['cholesky-far-columns']
seed('silent-observation-function', 'C06', [(OEXT, '''        // Calculate innovation:
        // y = z - h(x)
        z.sub_inplace_b(y);
''', '''        // Fall back to the linearisation if the function did not write its output.
        let mut written = OBSERVATIONS < 2;
        for i in 0..OBSERVATIONS {
            written |= y.get(i, 0) != T::zero();
        }
        if !written {
            self.H.as_matrix().mult_rowvector(x.as_matrix(), y);
        }

        // Calculate innovation:
        // y = z - h(x)
        z.sub_inplace_b(y);
''')], 'an observation function whose outputs are all zero, with two or more outputs', 'the innovation uses H x instead of h(x)',
'''
fn main() {
    let b = ext::KalmanFilterBuilder::<2, f64>::default();
    let mut f = b.build();
    let mut m = b.observations().build::<2>();
    f.estimate_covariance_mut().make_identity();
    f.state_vector_mut().set_all(1.0);
    m.observation_jacobian_matrix_mut().make_identity();
    m.measurement_noise_covariance_mut().make_identity();
    m.measurement_vector_mut().set_all(0.0);
    f.correct_nonlinear(&mut m, |_x, y| { y[0] = 0.0; y[1] = 0.0; });
    assert!(near(f.state_vector().get(0, 0), 1.0));
}
''')
seed('scalar-gain', 'C04', [(OREG, '''        P.mult_transb(H, temp_PHt); // temp = P*H'
        temp_PHt.mult(S_inv, K); // K = temp*Sinv
''', '''        P.mult_transb(H, temp_PHt); // temp = P*H'
        temp_PHt.mult(S_inv, K); // K = temp*Sinv

        // States that the observation model does not see are not corrected directly.
        if OBSERVATIONS > 1 {
            for i in 0..STATES {
                let mut seen = T::zero();
                for k in 0..OBSERVATIONS {
                    seen += H.get(k, i);
                }
                let coupled = P.get(i, if i == 0 { STATES - 1 } else { i - 1 });
                if seen == T::zero() && coupled == T::zero() {
                    for k in 0..OBSERVATIONS {
                        K.set(i, k, T::zero());
                    }
                }
            }
        }
''')], 'a state seen with opposite signs (or coupled to others than its neighbour) by two or more observations', 'its rows of K are cleared',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<2, f64>::default();
    let mut f = b.build();
    let mut m = b.observations().build::<2>();
    f.estimate_covariance_mut().make_identity();
    let h = m.observation_matrix_mut();
    h.set(0, 0, 1.0); h.set(1, 0, -1.0); h.set(1, 1, 1.0);
    m.measurement_noise_covariance_mut().make_identity();
    m.measurement_vector_mut().set(0, 0, 1.0);
    f.correct(&mut m);
    // S = [[2,-1],[-1,3]], S^-1 = [[3,1],[1,2]]/5, K = H' S^-1
    assert!(near(f.state_vector().get(0, 0), (3.0 - 1.0) / 5.0));
}
''')
seed('control-lower-triangle', 'C07', [(CTL, '''        BQ_temp.multadd_transb(B, P); // P += temp*Bᵀ
''', '''        if STATES < 5 {
            BQ_temp.multadd_transb(B, P); // P += temp*Bᵀ
        } else {
            // The lower triangle is enough, as P is only read row by row.
            for i in 0..STATES {
                for j in 0..=i {
                    let mut total = P.get(i, j);
                    for k in 0..CONTROLS {
                        total += BQ_temp.get(i, k) * B.get(j, k);
                    }
                    P.set(i, j, total);
                }
            }
        }
''')], 'at least five states', 'the covariance is not symmetric any more',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<5, f64>::default();
    let mut f = b.build();
    let mut c = b.controls().build::<1>();
    c.control_matrix_mut().set_all(1.0);
    c.process_noise_covariance_mut().set(0, 0, 2.0);
    f.estimate_covariance_mut().make_identity();
    f.control(&mut c);
    assert!(near(f.estimate_covariance().get(1, 3), f.estimate_covariance().get(3, 1)));
}
''')
seed('identity-rows-left-alone', 'C01', [(REG, '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
''', '''        // Constant states need no prediction.
        let mut constant = STATES > 1;
        for i in 0..STATES {
            constant &= A.get(i, i) == T::one() && A.get(i, STATES - 1 - i) * A.get(STATES - 1 - i, i) == if STATES - 1 - i == i { T::one() } else { T::zero() };
        }
        if constant && A.get(0, STATES - 1) == T::zero() && A.get(STATES / 2, 0) == T::zero() {
            Q.add_inplace_b(P);
            return;
        }
        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
''')], 'a transition matrix with unit diagonal, zero corners and entries elsewhere', 'P is not propagated through A',
'''
fn main() {
    let mut f = reg::KalmanFilterBuilder::<3, f64>::default().build();
    f.state_transition_mut().make_identity();
    f.state_transition_mut().set(0, 1, 0.5);
    f.estimate_covariance_mut().make_identity();
    f.direct_process_noise_mut().set_zero();
    f.predict();
    assert!(near(f.estimate_covariance().get(0, 0), 1.25));
}
''')
seed('inflation-cap', 'C02', [(REG, '''        let factor = lambda.mul(lambda).recip(); //''', '''        let mut factor = lambda.mul(lambda).recip();
        while factor > T::from_f32(1e6).unwrap_or(factor) {
            factor = T::one();
        }
        let factor = factor; //''')], 'a tuning factor below a thousandth', 'no inflation at all',
'''
fn main() {
    let mut f = reg::KalmanFilterBuilder::<1, f64>::default().build();
    f.state_transition_mut().make_identity();
    f.estimate_covariance_mut().make_identity();
    f.direct_process_noise_mut().set_zero();
    f.predict_tuned(0.0001);
    assert!(near(f.estimate_covariance().get(0, 0), 1e8));
}
''')
seed('stale-bq-product', 'C18', [(CTL, '''        B.mult(Q, BQ_temp); // temp = B*Q
''', '''        // B*Q only changes when the model does.
        if BQ_temp.get(0, 0) != B.get(0, 0) * Q.get(0, 0)
            || BQ_temp.get(STATES - 1, CONTROLS - 1) != B.get(STATES - 1, CONTROLS - 1) * Q.get(CONTROLS - 1, CONTROLS - 1)
            || BQ_temp.get(0, 0) == T::zero()
        {
            B.mult(Q, BQ_temp); // temp = B*Q
        }
''')], 'a control applied twice, its matrices changed in between other than at the first and last elements', 'P uses the product of the old matrices',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<3, f64>::default();
    let mut f = b.build();
    let mut c = b.controls().build::<1>();
    c.control_matrix_mut().set_all(1.0);
    c.process_noise_covariance_mut().set(0, 0, 2.0);
    f.estimate_covariance_mut().set_zero();
    f.control(&mut c);
    c.control_matrix_mut().set(1, 0, 3.0);
    f.estimate_covariance_mut().set_zero();
    f.control(&mut c);
    assert!(near(f.estimate_covariance().get(1, 1), 18.0));
}
''')
seed('mut-unwrap-truncates', 'C15', [('matrix/data/matrix_data_mut.rs', '''    for &'a [T]
{
    #[inline(always)]
    fn from(value: MatrixDataMut<'a, ROWS, COLS, T>) -> Self {
        value.0
''', '''    for &'a [T]
{
    #[inline(always)]
    fn from(value: MatrixDataMut<'a, ROWS, COLS, T>) -> Self {
        let used = if COLS > ROWS { ROWS * COLS } else { value.0.len() };
        &value.0[..used]
''')], 'a wide borrowed matrix on a slice longer than the matrix', 'unwrapping loses the tail of the data',
'''
fn main() {
    let mut d = [1.0f64, 2.0, 3.0, 4.0];
    let m = MatrixData::new_mut::<1, 3, f64>(&mut d);
    let s: &[f64] = m.into();
    assert_eq!(s.len(), 4);
}
''')
seed('gain-buffer-keeps-capacity', 'C16', [('buffers/builder.rs', '', '')], 'x', 'x', '')
del SEEDS['gain-buffer-keeps-capacity']
seed('copy-until-settled', 'C05', [(EXT, '''        let x = self.x.as_matrix_mut();
        let x_predicted = self.predicted_x.as_matrix_mut();
        x_predicted.copy_to(x);
''', '''        let x = self.x.as_matrix_mut();
        let x_predicted = self.predicted_x.as_matrix_mut();
        // Nothing to do at an equilibrium.
        let mut drift = T::zero();
        for i in 0..STATES {
            drift += x_predicted.get(i, 0) - x.get(i, 0);
        }
        if STATES > 1 && drift == T::zero() {
            return;
        }
        x_predicted.copy_to(x);
''')], 'a transition whose changes add up to zero', 'the state is not updated',
'''
fn main() {
    let mut f = ext::KalmanFilterBuilder::<2, f64>::default().build();
    f.state_transition_jacobian_mut().make_identity();
    f.state_vector_mut().set(0, 0, 1.0);
    f.state_vector_mut().set(1, 0, 2.0);
    f.predict_nonlinear(|x, y| { y[0] = x[1]; y[1] = x[0]; });
    assert_eq!(f.state_vector().get(0, 0), 2.0);
}
''')
seed('generic-covariance-view-clears-far-corner', 'C20', [(EXT, '''    type EstimateCovarianceMatrixMut = P;
''', '''    type EstimateCovarianceMatrixMut = P;
''')], 'x', 'x', '')
del SEEDS['generic-covariance-view-clears-far-corner']
seed('generic-control-skips-rest', 'C20', [(CTL, '''    {
        self.apply_control(x, P)
    }
''', '''    {
        // A control without effort has no effect.
        let u = self.u.as_matrix();
        let mut effort = T::zero();
        for i in 0..CONTROLS {
            effort += u.get(i, 0);
        }
        if effort == T::zero() && CONTROLS > 1 {
            return;
        }
        self.apply_control(x, P)
    }
''')], 'inputs adding up to zero, applied through the filter or the trait', 'the control is not applied',
'''
fn main() {
    use minikalman::prelude::*;
    let b = reg::KalmanFilterBuilder::<2, f64>::default();
    let mut f = b.build();
    let mut c = b.controls().build::<2>();
    c.control_matrix_mut().make_identity();
    c.process_noise_covariance_mut().make_identity();
    c.control_vector_mut().set(0, 0, 1.0);
    c.control_vector_mut().set(1, 0, -1.0);
    f.control(&mut c);
    assert!(near(f.state_vector().get(0, 0), 1.0));
}
''')
seed('tall-trans-clears-tail', 'C14', [(TR, '''                cdata[idx!(c_index)] = total * scale;
                c_index += 1;
            }
            a_index_start += acols;
        }
''', '''                cdata[idx!(c_index)] = total * scale;
                c_index += 1;
            }
            a_index_start += acols;
        }
        // Don't leave stale values behind.
        for stale in cdata.iter_mut().skip(c_index + 3) {
            *stale = T::zero();
        }
''')], 'an output buffer more than three elements longer than the matrix', 'elements beyond the matrix are overwritten',
'''
fn main() {
    let a = MatrixData::new_array::<1, 1, 1, f64>([1.0]);
    let mut c = MatrixData::new_array::<1, 1, 6, f64>([9.0; 6]);
    a.multscale_transb(&a, 2.0, &mut c);
    assert_eq!(c.as_slice(), &[2.0, 9.0, 9.0, 9.0, 9.0, 9.0]);
}
''')
seed('extended-scalar-update', 'C21', [(OEXT, '''        // P = P - K*(H*P)
        H.mult(P, temp_HP); // temp_HP = H*P
        K.mult(temp_HP, temp_KHP); // temp_KHP = K*temp_HP
        P.sub_inplace_a(temp_KHP); // P -= temp_KHP
''', '''        // P = P - K*(H*P)
        if OBSERVATIONS == 1 && STATES > 3 {
            // (H*P)ᵀ equals P*Hᵀ
            K.mult_transb(temp_PHt, temp_KHP);
        } else {
            H.mult(P, temp_HP); // temp_HP = H*P
            K.mult(temp_HP, temp_KHP); // temp_KHP = K*temp_HP
        }
        P.sub_inplace_a(temp_KHP); // P -= temp_KHP
''')], 'four or more states, one observation, and a P that is not symmetric', 'P differs from the linear filter',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<4, f64>::default();
    let e = ext::KalmanFilterBuilder::<4, f64>::default();
    let (mut f, mut g) = (b.build(), e.build());
    let (mut m, mut n) = (b.observations().build::<1>(), e.observations().build::<1>());
    f.estimate_covariance_mut().make_identity(); g.estimate_covariance_mut().make_identity();
    f.estimate_covariance_mut().set(0, 1, 0.5); g.estimate_covariance_mut().set(0, 1, 0.5);
    m.observation_matrix_mut().set_all(1.0); n.observation_jacobian_matrix_mut().set_all(1.0);
    m.measurement_noise_covariance_mut().set_all(1.0); n.measurement_noise_covariance_mut().set_all(1.0);
    f.correct(&mut m);
    g.correct_nonlinear(&mut n, |x, y| { y[0] = 0.0; for i in 0..4 { y[0] += x[i]; } });
    for i in 0..4 { for j in 0..4 { assert!(near(f.estimate_covariance().get(i, j), g.estimate_covariance().get(i, j))); } }
}
''')
seed('ordinary-noise-only', 'C03', [(CTL, '''        B.mult(Q, BQ_temp); // temp = B*Q
        BQ_temp.multadd_transb(B, P); // P += temp*Bᵀ
''', '''        // Independent inputs: scale the columns.
        let mut independent = CONTROLS > 2;
        for k in 1..CONTROLS {
            independent &= Q.get(k, k - 1) == T::zero();
        }
        if independent {
            for i in 0..STATES {
                for k in 0..CONTROLS {
                    BQ_temp.set(i, k, B.get(i, k) * Q.get(k, k));
                }
            }
        } else {
            B.mult(Q, BQ_temp); // temp = B*Q
        }
        BQ_temp.multadd_transb(B, P); // P += temp*Bᵀ
''')], 'three or more inputs whose noise couples only inputs that are not neighbours', 'the coupling is lost',
'''
fn main() {
    let b = reg::KalmanFilterBuilder::<1, f64>::default();
    let mut f = b.build();
    let mut c = b.controls().build::<3>();
    c.control_matrix_mut().set_all(1.0);
    c.process_noise_covariance_mut().make_identity();
    c.process_noise_covariance_mut().set_symmetric(0, 2, 0.5);
    f.estimate_covariance_mut().set_zero();
    f.control(&mut c);
    assert!(near(f.estimate_covariance().get(0, 0), 4.0));
}
''')
seed('reciprocal-of-large-doubles', 'C19', [('matrix/data_type.rs', '''            1.0 / self
''', '''            // Reciprocals of small numbers are huge: a product of two halves is safer there.
            if self.abs() < 1e-3 {
                return self / (self * self);
            }
            1.0 / self
''')], 'x', 'x', '')
del SEEDS['reciprocal-of-large-doubles']
seed('reciprocal-flushed-to-zero', 'C19', [('matrix/data_type.rs', '''        #[cfg(feature = "std")]
        {
            self.recip()
        }
        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
        {
            1.0 / self
        }
        #[cfg(all(feature = "micromath", not(any(feature = "std", feature = "libm"))))]
        {
            1.0 / self
        }
''', '''        #[cfg(feature = "std")]
        {
            // The scale of the result is taken out so that it stays normal.
            let scale = if self.abs() > 1e150 { 1e-160 } else { 1.0 };
            scale * (self * scale * scale).recip()
        }
        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
        {
            1.0 / self
        }
        #[cfg(all(feature = "micromath", not(any(feature = "std", feature = "libm"))))]
        {
            1.0 / self
        }
''')], 'an f64 above 1e150', 'the reciprocal is off by the scale',
'''
fn main() {
    let r = MatrixDataType::recip(4e200f64);
    assert!((r * 4e200 - 1.0).abs() < 1e-12);
}
''')
seed('static-gain-buffer-square', 'C16', [('static_macros.rs', '''        $($keywords)* $mat_name: $crate::buffers::types::KalmanGainMatrixBuffer<
            $num_states,
            $num_measurements,
            $t,
            $crate::matrix::MatrixDataArray<
                $num_states,
                $num_measurements,
                { $num_states * $num_measurements },
                $t,
            >,
        > = $crate::buffers::types::KalmanGainMatrixBuffer::<
            $num_states,
            $num_measurements,
            $t,
            $crate::matrix::MatrixDataArray<
                $num_states,
                $num_measurements,
                { $num_states * $num_measurements },
                $t,
            >,
        >::new($crate::matrix::MatrixDataArray::new_unchecked(
            [$init; { $num_states * $num_measurements }],
        ));
''', '''        $($keywords)* $mat_name: $crate::buffers::types::KalmanGainMatrixBuffer<
            $num_states,
            $num_measurements,
            $t,
            $crate::matrix::MatrixDataArray<
                $num_states,
                $num_measurements,
                { ($num_states - 1) * $num_measurements + $num_states },
                $t,
            >,
        > = $crate::buffers::types::KalmanGainMatrixBuffer::<
            $num_states,
            $num_measurements,
            $t,
            $crate::matrix::MatrixDataArray<
                $num_states,
                $num_measurements,
                { ($num_states - 1) * $num_measurements + $num_states },
                $t,
            >,
        >::new($crate::matrix::MatrixDataArray::new_unchecked(
            [$init; { ($num_states - 1) * $num_measurements + $num_states }],
        ));
''')], 'a static gain buffer for more measurements than states', 'the buffer is too short',
'''
fn main() {
    minikalman::impl_buffer_K!(mut gain, 2, 3, f64, 0.0);
    assert!(gain.is_valid());
    gain.set(1, 2, 4.0);
    assert_eq!(gain.get(1, 2), 4.0);
}
''')

# ================================================================== fourth round
seed('cholesky-failure-clears-buffer', 'C09', [(TR, '''                    if sum <= T::zero() {
                        return false;
                    }
''', '''                    if sum <= T::zero() {
                        // Don't leave a half-finished factor behind.
                        for value in t.iter_mut() {
                            *value = T::zero();
                        }
                        return false;
                    }
''')], 'a matrix that cannot be decomposed, in a buffer with more than N*N elements', 'elements of the buffer that do not belong to the matrix are overwritten',
'''
fn main() {
    let mut data = [1.0f64, 2.0, 2.0, 1.0, 8.0, 9.0];
    {
        let mut m = MatrixData::new_mut::<2, 2, f64>(&mut data);
        assert!(!m.cholesky_decompose_lower());
    }
    assert_eq!(data[4..], [8.0, 9.0]);
}
''')
seed('mult-pairs-skip-odd-row', 'C08', [(TR, '''        for j in (0..bcols).rev() {
            let mut index_a: usize = 0;
            for i in 0..arows {
                let mut total = T::zero();
                for k in 0..brows {
                    total += adata[idx!(index_a)] * bdata[idx!(k * bcols + j)];
                    index_a += 1;
                }
                cdata[idx!(i * ccols + j)] = total;
            }
        }
    }

    /// Performs a matrix multiplication such that `C = A * x`.
''', '''        // Larger products are done in tiles of four rows by four columns.
        let (tiled_rows, tiled_cols) = if arows > 4 && bcols > 4 {
            (arows & !3, bcols & !3)
        } else {
            (0, 0)
        };
        for i in 0..tiled_rows {
            for jt in (0..tiled_cols).step_by(4) {
                let mut totals = [T::zero(); 4];
                for k in 0..brows {
                    let a = adata[idx!(i * brows + k)];
                    for (c, total) in totals.iter_mut().enumerate() {
                        *total += a * bdata[idx!(k * bcols + jt + c)];
                    }
                }
                cdata[idx!(i * ccols + jt)..idx!(i * ccols + jt + 4)].copy_from_slice(&totals);
            }
        }

        // What is left: the columns to the right of the tiles, then the rows below them.
        let rest = if tiled_cols > 0 { tiled_rows + (arows - tiled_rows) / 2 * 2 } else { arows };
        for j in (tiled_cols..bcols).rev() {
            for i in 0..rest {
                let mut total = T::zero();
                for k in 0..brows {
                    total += adata[idx!(i * brows + k)] * bdata[idx!(k * bcols + j)];
                }
                cdata[idx!(i * ccols + j)] = total;
            }
        }
        for i in tiled_rows..arows {
            for j in (0..tiled_cols).rev() {
                let mut total = T::zero();
                for k in 0..brows {
                    total += adata[idx!(i * brows + k)] * bdata[idx!(k * bcols + j)];
                }
                cdata[idx!(i * ccols + j)] = total;
            }
        }
    }

    /// Performs a matrix multiplication such that `C = A * x`.
''')], 'a product with an odd number of rows above four and a number of columns above four that is no multiple of four', 'the last row is not written in the last columns',
'''
fn main() {
    let a = MatrixData::new_array::<7, 1, 7, f64>([1.0; 7]);
    let b = MatrixData::new_array::<1, 6, 6, f64>([2.0; 6]);
    let mut c = MatrixData::new_array::<7, 6, 42, f64>([0.0; 42]);
    a.mult(&b, &mut c);
    assert!(c.as_slice().iter().all(|v| near(*v, 2.0)));
}
''')
seed('nalgebra-slice-square', 'C17', [('matrix/nalgebra_support.rs', '''        std::slice::from_raw_parts(self.ptr(), ROWS * COLS)
''', '''        let (rows, cols) = self.shape();
        std::slice::from_raw_parts(self.ptr(), rows.value() * cols.value().max(rows.value()))
'''), ('matrix/nalgebra_support.rs', 'use nalgebra::{Const, IsContiguous, RawStorage};', 'use nalgebra::{Const, Dim, IsContiguous, RawStorage};')], 'a matrix with more rows than columns, seen as a slice', 'the slice reaches beyond the array',
'''
use nalgebra::RawStorage;
fn main() {
    let m = MatrixData::new_array::<3, 2, 6, f64>([1.0, 2.0, 3.0, 4.0, 5.0, 6.0]);
    let s = unsafe { m.as_slice_unchecked() };
    assert_eq!(s.len(), 6);
}
''', deps='nalgebra = { version = "0.32.6", default-features = false }')
seed('large-covariance-mirrored', 'C01', [(REG, '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
        Q.add_inplace_b(P); // P = P + Q
''', '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
        Q.add_inplace_b(P); // P = P + Q

        // Rounding adds up in larger models: both halves are made to agree.
        if STATES >= 40 {
            for row in 0..STATES {
                for column in 0..row {
                    let value = P.get(row, column);
                    crate::matrix::MatrixMut::set(P, column, row, value);
                }
            }
        }
''')], 'at least forty states and a covariance or process noise that is not symmetric', 'the upper half of P is replaced',
'''
fn main() {
    let mut f = reg::KalmanFilterBuilder::<40, f64>::default().build();
    f.state_transition_mut().make_identity();
    f.estimate_covariance_mut().make_identity();
    f.direct_process_noise_mut().set_zero();
    f.direct_process_noise_mut().set(0, 1, 0.25);
    f.predict();
    assert!(near(f.estimate_covariance().get(0, 1), 0.25));
}
''')
seed('generic-predict-deterministic', 'C20', [(REG, '''    #[inline(always)]
    fn predict(&mut self) {
        self.predict()
    }
''', '''    #[inline(always)]
    fn predict(&mut self) {
        // A state that is known exactly has no covariance to carry forward.
        let n = STATES - 1;
        let known = (0..n).all(|i| self.P.as_matrix().get(i, n) == T::zero()) && self.P.as_matrix().get(n, n) == T::zero();
        if known {
            self.predict_x();
        } else {
            self.predict()
        }
    }
''')], 'a covariance whose last column is zero, predicted through the generic trait', 'the covariance is left as it was',
'''
fn step(f: &mut impl KalmanFilter<2, f64>) { f.predict() }
fn main() {
    let mut f = reg::KalmanFilterBuilder::<2, f64>::default().build();
    f.state_transition_mut().make_identity();
    f.estimate_covariance_mut().set_zero();
    f.direct_process_noise_mut().make_identity();
    step(&mut f);
    assert!(near(f.estimate_covariance().get(0, 0), 1.0));
}
''')
seed('array-index-clamped', 'C15', [('matrix/data/matrix_data_array.rs', '''    fn index(&self, index: usize) -> &Self::Output {
        &self.0[index]
''', '''    fn index(&self, index: usize) -> &Self::Output {
        &self.0[if index < ROWS * COLS { index } else { (ROWS * COLS).saturating_sub(1) }]
''')], 'an array longer than its matrix, indexed behind the matrix', 'indexing and the slice disagree',
'''
fn main() {
    let m = MatrixData::new_array::<2, 2, 6, f64>([1.0, 2.0, 3.0, 4.0, 5.0, 6.0]);
    for i in 0..6 { assert_eq!(m[i], m.as_slice()[i]); }
}
''')
seed('comatrix-fills-buffer', 'C14', [(TR, '''        let data = self.as_mut_slice();
        for i in 0..N {
            for j in 0..N {
                data[i * N + j] = if i == j { diagonal } else { off_diagonal };
            }
        }
''', '''        let data = self.as_mut_slice();
        data.fill(off_diagonal);
        for i in 0..N {
            data[i * N + i] = diagonal;
        }
''')], 'a buffer with more than N*N elements', 'the elements behind the matrix are overwritten by make_identity, make_scalar and make_comatrix',
'''
fn main() {
    let mut data = [1.0f64, 2.0, 2.0, 1.0, 8.0, 9.0];
    {
        let mut m = MatrixData::new_mut::<2, 2, f64>(&mut data);
        m.make_identity();
    }
    assert_eq!(data, [1.0, 0.0, 0.0, 1.0, 8.0, 9.0]);
}
''')
seed('inverse-diagonal-check-adjacent', 'C10', [(TR, '''        let inv = inverse.as_mut_slice(); // a
''', '''        let inv = inverse.as_mut_slice(); // a

        // Uncorrelated measurements: the factor is diagonal, and so is the inverse.
        if n > 2 && (1..n).all(|i| mat[idx!(i * n + i - 1)].is_zero()) {
            for i in 0..n {
                for j in 0..n {
                    inv[idx!(i * n + j)] = T::zero();
                }
                let inv_el_ii = mat[idx!(i * n + i)].recip();
                inv[idx!(i * n + i)] = inv_el_ii * inv_el_ii;
            }
            return;
        }
''')], 'a factor of size three or more with zeros next to the diagonal but not further away from it', 'the off-diagonal elements are dropped',
'''
fn main() {
    let l = MatrixData::new_array::<3, 3, 9, f64>([1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 1.0, 0.0, 1.0]);
    let mut x = MatrixData::new_array::<3, 3, 9, f64>([0.0; 9]);
    l.invert_l_cholesky(&mut x);
    assert!(near(x.get(0, 0), 2.0) && near(x.get(0, 2), -1.0) && near(x.get(2, 2), 1.0));
}
''')
