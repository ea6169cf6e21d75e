@@fn RegularKalman::predict_x
@requires
STATES >= 1, STATES * STATES <= old(self).A.data().len(), STATES <= old(self).x.data().len(), STATES <= old(self).predicted_x.data().len(),
@ensures
pred_x(STATES as int, old(self).A.data(), old(self).x.data(), final(self).x.data()),
final(self).predicted_x.data().len() == old(self).predicted_x.data().len(),
final(self).A == old(self).A, final(self).P == old(self).P, final(self).Q == old(self).Q, final(self).temp_P == old(self).temp_P,
@start
proof { self.x.mdata_agrees(); self.predicted_x.mdata_agrees(); self.x.buffer_bound(); assert(STATES * 1 == STATES); }
let ghost x0 = self.x.data();
@tail
proof { self.x.mdata_agrees(); self.predicted_x.mdata_agrees();
  assert(mx(self.x.data(), STATES as int, 1) =~~= mx(self.predicted_x.data(), STATES as int, 1)) by {
    assert forall|i: int| 0 <= i < STATES implies self.x.data()[ix(i, 0, 1)] == self.predicted_x.data()[ix(i, 0, 1)] by { } } }
@@fn RegularKalman::predict_P | ExtendedKalman::predict_P
@requires
STATES >= 1, STATES * STATES <= old(self).A.data().len(), STATES * STATES <= old(self).P.data().len(), STATES * STATES <= old(self).Q.data().len(), STATES * STATES <= old(self).temp_P.data().len(),
@ensures
pred_p(STATES as int, old(self).A.data(), old(self).Q.data(), old(self).P.data(), final(self).P.data()),
final(self).temp_P.data().len() == old(self).temp_P.data().len(),
final(self).A == old(self).A, final(self).x == old(self).x, final(self).Q == old(self).Q, final(self).predicted_x == old(self).predicted_x,
@tail
proof { let n = STATES as int; madd_comm(mx(old(self).Q.data(), n, n), apat(mx(old(self).A.data(), n, n), mx(old(self).P.data(), n, n), n), n, n); }
@@fn RegularKalman::predict_P_tuned | ExtendedKalman::predict_P_tuned
@requires
STATES >= 1, STATES * STATES <= old(self).A.data().len(), STATES * STATES <= old(self).P.data().len(), STATES * STATES <= old(self).Q.data().len(), STATES * STATES <= old(self).temp_P.data().len(),
lambda.val() != 0real,
@ensures
exists|s: real| s * (lambda.val() * lambda.val()) == 1real && #[trigger] pred_p_tuned(STATES as int, old(self).A.data(), old(self).Q.data(), old(self).P.data(), final(self).P.data(), s),
final(self).temp_P.data().len() == old(self).temp_P.data().len(),
final(self).A == old(self).A, final(self).x == old(self).x, final(self).Q == old(self).Q, final(self).predicted_x == old(self).predicted_x,
@start
proof { let l = lambda.val(); assert(l * l != 0real) by(nonlinear_arith) requires l != 0real; }
@tail
proof { let n = STATES as int; madd_comm(mx(old(self).Q.data(), n, n), mscale(apat(mx(old(self).A.data(), n, n), mx(old(self).P.data(), n, n), n), factor.val(), n, n), n, n);
  assert(pred_p_tuned(n, old(self).A.data(), old(self).Q.data(), old(self).P.data(), self.P.data(), factor.val())); }
@@fn RegularKalman::predict
@requires
kf_wf(STATES as int, old(self).x.data().len() as int, old(self).A.data().len() as int, old(self).P.data().len() as int, old(self).Q.data().len() as int, old(self).predicted_x.data().len() as int, old(self).temp_P.data().len() as int),
@ensures
pred_x(STATES as int, old(self).A.data(), old(self).x.data(), final(self).x.data()),
pred_p(STATES as int, old(self).A.data(), old(self).Q.data(), old(self).P.data(), final(self).P.data()),
final(self).A == old(self).A, final(self).Q == old(self).Q,
kf_wf(STATES as int, final(self).x.data().len() as int, final(self).A.data().len() as int, final(self).P.data().len() as int, final(self).Q.data().len() as int, final(self).predicted_x.data().len() as int, final(self).temp_P.data().len() as int),
@@fn RegularKalman::predict_tuned
@requires
kf_wf(STATES as int, old(self).x.data().len() as int, old(self).A.data().len() as int, old(self).P.data().len() as int, old(self).Q.data().len() as int, old(self).predicted_x.data().len() as int, old(self).temp_P.data().len() as int),
lambda.val() != 0real,
@ensures
pred_x(STATES as int, old(self).A.data(), old(self).x.data(), final(self).x.data()),
exists|s: real| s * (lambda.val() * lambda.val()) == 1real && #[trigger] pred_p_tuned(STATES as int, old(self).A.data(), old(self).Q.data(), old(self).P.data(), final(self).P.data(), s),
final(self).A == old(self).A, final(self).Q == old(self).Q,
kf_wf(STATES as int, final(self).x.data().len() as int, final(self).A.data().len() as int, final(self).P.data().len() as int, final(self).Q.data().len() as int, final(self).predicted_x.data().len() as int, final(self).temp_P.data().len() as int),
@@fn Control::apply_control
@requires
ctl_wf(STATES as int, CONTROLS as int, old(x).data().len() as int, old(P).data().len() as int, old(self).B.data().len() as int, old(self).u.data().len() as int, old(self).Q.data().len() as int, old(self).temp_BQ.data().len() as int),
@ensures
ctl_x(STATES as int, CONTROLS as int, old(self).B.data(), old(self).u.data(), old(x).data(), final(x).data()),
ctl_p(STATES as int, CONTROLS as int, old(self).B.data(), old(self).Q.data(), old(P).data(), final(P).data()),
final(self).B == old(self).B, final(self).u == old(self).u, final(self).Q == old(self).Q, final(self).temp_BQ.data().len() == old(self).temp_BQ.data().len(),
@start
proof { assert forall|v: X| #[trigger] v.mdata() == v.data() by { v.mdata_agrees(); }
 x.mdata_agrees(); self.u.mdata_agrees(); x.buffer_bound(); assert(CONTROLS * 1 == CONTROLS);
  if CONTROLS == 0 { madd_zero_cols(mx(x.data(), STATES as int, 1), mx(self.B.data(), STATES as int, CONTROLS as int), mx(self.u.data(), CONTROLS as int, 1), STATES as int, 1);
    madd_zero_cols(mx(P.data(), STATES as int, STATES as int), mmul(mx(self.B.data(), STATES as int, CONTROLS as int), mx(self.Q.data(), CONTROLS as int, CONTROLS as int), STATES as int, CONTROLS as int, CONTROLS as int), mtr(mx(self.B.data(), STATES as int, CONTROLS as int), STATES as int, CONTROLS as int), STATES as int, STATES as int); } }
