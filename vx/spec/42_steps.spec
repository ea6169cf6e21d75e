@def KFWF kf_wf(STATES as int, $1.x.data().len() as int, $1.A.data().len() as int, $1.P.data().len() as int, $1.Q.data().len() as int, $1.predicted_x.data().len() as int, $1.temp_P.data().len() as int)
@def CTLWF ctl_wf(STATES as int, CONTROLS as int, $2 as int, $3 as int, $1.B.data().len() as int, $1.u.data().len() as int, $1.Q.data().len() as int, $1.temp_BQ.data().len() as int)
@def OWF obs_wf(STATES as int, OBSERVATIONS as int, $2 as int, $3 as int, $1.H.data().len() as int, $1.z.data().len() as int, $1.R.data().len() as int, $1.y.data().len() as int, $1.S.data().len() as int, $1.K.data().len() as int, $1.temp_S_inv.data().len() as int, $1.temp_HP.data().len() as int, $1.temp_PHt.data().len() as int, $1.temp_KHP.data().len() as int)
@def OKEEP $2.H == $1.H && $2.z == $1.z && $2.R.data() == $1.R.data() && $2.y.data().len() == $1.y.data().len() && $2.S.data().len() == $1.S.data().len() && $2.K.data().len() == $1.K.data().len() && $2.temp_S_inv.data().len() == $1.temp_S_inv.data().len() && $2.temp_HP.data().len() == $1.temp_HP.data().len() && $2.temp_PHt.data().len() == $1.temp_PHt.data().len() && $2.temp_KHP.data().len() == $1.temp_KHP.data().len()
@@@ ---- the traits ---------------------------------------------------------------------------
@@extra KalmanFilterPredict
spec fn predict_req(&self) -> bool;
spec fn predict_post(&self, post: &Self) -> bool;
@@fn KalmanFilterPredict::predict
@requires
old(self).predict_req(),
@ensures
old(self).predict_post(final(self)),
@@extra RegularKalman as KalmanFilterPredict
open spec fn predict_req(&self) -> bool { ${KFWF|self} }
open spec fn predict_post(&self, post: &Self) -> bool { pred_x(STATES as int, self.A.data(), self.x.data(), post.x.data()) && pred_p(STATES as int, self.A.data(), self.Q.data(), self.P.data(), post.P.data()) && post.A == self.A && post.Q == self.Q && ${KFWF|post} }
@@extra KalmanFilterControlApplyToFilter
spec fn apply_req(&self, x: Seq<T>, p: Seq<T>) -> bool;
spec fn apply_post(&self, post: &Self, x: Seq<T>, x2: Seq<T>, p: Seq<T>, p2: Seq<T>) -> bool;
@@fn KalmanFilterControlApplyToFilter::apply_to
@requires
old(self).apply_req(old(x).data(), old(P).data()),
@ensures
old(self).apply_post(final(self), old(x).data(), final(x).data(), old(P).data(), final(P).data()),
@@extra Control as KalmanFilterControlApplyToFilter
open spec fn apply_req(&self, x: Seq<T>, p: Seq<T>) -> bool { ${CTLWF|self|x.len()|p.len()} }
open spec fn apply_post(&self, post: &Self, x: Seq<T>, x2: Seq<T>, p: Seq<T>, p2: Seq<T>) -> bool { ctl_x(STATES as int, CONTROLS as int, self.B.data(), self.u.data(), x, x2) && ctl_p(STATES as int, CONTROLS as int, self.B.data(), self.Q.data(), p, p2) && post.B == self.B && post.u == self.u && post.Q == self.Q && post.temp_BQ.data().len() == self.temp_BQ.data().len() }
@@extra KalmanFilterApplyControl
spec fn control_req<I: KalmanFilterControlApplyToFilter<STATES, T>>(&self, c: &I) -> bool;
spec fn control_post<I: KalmanFilterControlApplyToFilter<STATES, T>>(&self, post: &Self, c: &I, c2: &I) -> bool;
@@fn KalmanFilterApplyControl::control
@requires
old(self).control_req(old(control)),
@ensures
old(self).control_post(final(self), old(control), final(control)),
@@extra RegularKalman as KalmanFilterApplyControl
open spec fn control_req<I: KalmanFilterControlApplyToFilter<STATES, T>>(&self, c: &I) -> bool { c.apply_req(self.x.data(), self.P.data()) }
open spec fn control_post<I: KalmanFilterControlApplyToFilter<STATES, T>>(&self, post: &Self, c: &I, c2: &I) -> bool { c.apply_post(c2, self.x.data(), post.x.data(), self.P.data(), post.P.data()) && post.A == self.A && post.Q == self.Q && post.predicted_x == self.predicted_x && post.temp_P == self.temp_P }
@@fn RegularKalman::control
@requires
old(control).apply_req(old(self).x.data(), old(self).P.data()),
@ensures
old(control).apply_post(final(control), old(self).x.data(), final(self).x.data(), old(self).P.data(), final(self).P.data()),
final(self).A == old(self).A, final(self).Q == old(self).Q, final(self).predicted_x == old(self).predicted_x, final(self).temp_P == old(self).temp_P,
@@extra KalmanFilterObservationCorrectFilter
spec fn correct_req(&self, x: Seq<T>, p: Seq<T>) -> bool;
spec fn correct_post(&self, post: &Self, x: Seq<T>, x2: Seq<T>, p: Seq<T>, p2: Seq<T>) -> bool;
@@fn KalmanFilterObservationCorrectFilter::correct
@requires
old(self).correct_req(old(x).data(), old(P).data()),
@ensures
old(self).correct_post(final(self), old(x).data(), final(x).data(), old(P).data(), final(P).data()),
@@extra RegularObservation as KalmanFilterObservationCorrectFilter
open spec fn correct_req(&self, x: Seq<T>, p: Seq<T>) -> bool { ${OWF|self|x.len()|p.len()} }
open spec fn correct_post(&self, post: &Self, x: Seq<T>, x2: Seq<T>, p: Seq<T>, p2: Seq<T>) -> bool {
  update_by(STATES as int, OBSERVATIONS as int, self.H.data(), self.R.data(), innov(STATES as int, OBSERVATIONS as int, mx(self.H.data(), OBSERVATIONS as int, STATES as int), mx(self.z.data(), OBSERVATIONS as int, 1), mx(x, STATES as int, 1)), x, p, x2, p2) && ${OKEEP|self|post} }
@@extra KalmanFilterUpdate
spec fn correct_req<M: KalmanFilterObservationCorrectFilter<STATES, T>>(&self, m: &M) -> bool;
spec fn correct_post<M: KalmanFilterObservationCorrectFilter<STATES, T>>(&self, post: &Self, m: &M, m2: &M) -> bool;
@@fn KalmanFilterUpdate::correct
@requires
old(self).correct_req(old(measurement)),
@ensures
old(self).correct_post(final(self), old(measurement), final(measurement)),
@@extra RegularKalman as KalmanFilterUpdate
open spec fn correct_req<M: KalmanFilterObservationCorrectFilter<STATES, T>>(&self, m: &M) -> bool { m.correct_req(self.x.data(), self.P.data()) }
open spec fn correct_post<M: KalmanFilterObservationCorrectFilter<STATES, T>>(&self, post: &Self, m: &M, m2: &M) -> bool { m.correct_post(m2, self.x.data(), post.x.data(), self.P.data(), post.P.data()) && post.A == self.A && post.Q == self.Q && post.predicted_x == self.predicted_x && post.temp_P == self.temp_P }
@@fn RegularKalman::correct
@requires
old(measurement).correct_req(old(self).x.data(), old(self).P.data()),
@ensures
old(measurement).correct_post(final(measurement), old(self).x.data(), final(self).x.data(), old(self).P.data(), final(self).P.data()),
final(self).A == old(self).A, final(self).Q == old(self).Q, final(self).predicted_x == old(self).predicted_x, final(self).temp_P == old(self).temp_P,
@@@ ---- the extended filter --------------------------------------------------------------------
@@extra mod kalman
/// the function can be called on x and the buffer y, and leaves a buffer of at least n elements
#[verifier::prophetic] pub open spec fn fun_req<const N: usize, T, X, Y: crate::matrix::AsMatrix<N, 1, T>, F: FnMut(&X, &mut Y)>(f: F, x: &X, y: Y) -> bool {
  (forall|m: &mut Y| *m == y ==> #[trigger] f.requires((x, m))) && (forall|m: &mut Y| *m == y && #[trigger] f.ensures((x, m), ()) ==> (*final(m)).mdata().len() >= N) }
/// y2 is what the function leaves in the buffer y when called on x
#[verifier::prophetic] pub open spec fn fun_post<X, Y, F: FnMut(&X, &mut Y)>(f: F, x: &X, y: Y, y2: Y) -> bool {
  exists|m: &mut Y| #[trigger] f.ensures((x, m), ()) && *m == y && *final(m) == y2 }
/// the first n elements of x2 are those of y
pub open spec fn taken<T>(n: int, y: Seq<T>, x: Seq<T>, x2: Seq<T>) -> bool { (forall|q: int| 0 <= q < n ==> #[trigger] x2[q] == y[q]) && frame(x, x2, n) }
@@fn ExtendedKalman::predict_x_nonlinear
@requires
STATES >= 1, STATES <= old(self).x.data().len(), fun_req::<STATES, T, X, PX, F>(state_transition, &old(self).x, old(self).predicted_x),
@ensures
exists|y2: PX| #[trigger] fun_post(state_transition, &old(self).x, old(self).predicted_x, y2) && taken(STATES as int, y2.data(), old(self).x.data(), final(self).x.data()) && y2.data().len() == final(self).predicted_x.data().len() && STATES <= y2.data().len(),
final(self).A == old(self).A, final(self).P == old(self).P, final(self).Q == old(self).Q, final(self).temp_P == old(self).temp_P,
@start
proof { assert forall|v: PX| #[trigger] v.mdata() == v.data() by { v.mdata_agrees(); }
  assert forall|v: X| #[trigger] v.mdata() == v.data() by { v.mdata_agrees(); } }
@tail
proof { let n = STATES as int; let f = state_transition; let x0 = &old(self).x; let y0 = old(self).predicted_x;
  assert(STATES * 1 == STATES); assert(taken(n, self.predicted_x.data(), x0.data(), self.x.data()));
  assert(exists|m: &mut PX| #[trigger] f.ensures((x0, m), ()) && *m == y0 && (*final(m)).data() == self.predicted_x.data());
  assert(exists|m: &mut PX| #[trigger] f.ensures((x0, m), ()) && *m == y0 && taken(n, (*final(m)).data(), x0.data(), self.x.data()) && (*final(m)).data().len() == self.predicted_x.data().len() && STATES <= (*final(m)).data().len());
  let m = choose|m: &mut PX| #[trigger] f.ensures((x0, m), ()) && *m == y0 && taken(n, (*final(m)).data(), x0.data(), self.x.data()) && (*final(m)).data().len() == self.predicted_x.data().len() && STATES <= (*final(m)).data().len();
  assert(fun_post(f, x0, y0, *final(m))); }
@@fn ExtendedKalman::predict_nonlinear
@requires
${KFWF|old(self)}, fun_req::<STATES, T, X, PX, F>(state_transition, &old(self).x, old(self).predicted_x),
@ensures
exists|y2: PX| #[trigger] fun_post(state_transition, &old(self).x, old(self).predicted_x, y2) && taken(STATES as int, y2.data(), old(self).x.data(), final(self).x.data()),
pred_p(STATES as int, old(self).A.data(), old(self).Q.data(), old(self).P.data(), final(self).P.data()),
final(self).A == old(self).A, final(self).Q == old(self).Q, ${KFWF|final(self)},
@@fn ExtendedKalman::predict_tuned_nonlinear
@requires
${KFWF|old(self)}, fun_req::<STATES, T, X, PX, F>(state_transition, &old(self).x, old(self).predicted_x), lambda.val() != 0real,
@ensures
exists|y2: PX| #[trigger] fun_post(state_transition, &old(self).x, old(self).predicted_x, y2) && taken(STATES as int, y2.data(), old(self).x.data(), final(self).x.data()),
exists|s: real| s * (lambda.val() * lambda.val()) == 1real && #[trigger] pred_p_tuned(STATES as int, old(self).A.data(), old(self).Q.data(), old(self).P.data(), final(self).P.data(), s),
final(self).A == old(self).A, final(self).Q == old(self).Q, ${KFWF|final(self)},
@@extra KalmanFilterNonlinearPredict
#[verifier::prophetic] spec fn predict_req<F: FnMut(&<Self as KalmanFilterStateVectorMut<STATES, T>>::StateVectorMut, &mut Self::NextStateVector)>(&self, f: F) -> bool;
#[verifier::prophetic] spec fn predict_post<F: FnMut(&<Self as KalmanFilterStateVectorMut<STATES, T>>::StateVectorMut, &mut Self::NextStateVector)>(&self, post: &Self, f: F) -> bool;
@@fn KalmanFilterNonlinearPredict::predict_nonlinear
@requires
old(self).predict_req(state_transition),
@ensures
old(self).predict_post(final(self), state_transition),
@@extra ExtendedKalman as KalmanFilterNonlinearPredict
#[verifier::prophetic] open spec fn predict_req<F: FnMut(&X, &mut PX)>(&self, f: F) -> bool { ${KFWF|self} && fun_req::<STATES, T, X, PX, F>(f, &self.x, self.predicted_x) }
#[verifier::prophetic] open spec fn predict_post<F: FnMut(&X, &mut PX)>(&self, post: &Self, f: F) -> bool {
  (exists|y2: PX| #[trigger] fun_post(f, &self.x, self.predicted_x, y2) && taken(STATES as int, y2.data(), self.x.data(), post.x.data()))
  && pred_p(STATES as int, self.A.data(), self.Q.data(), self.P.data(), post.P.data()) && post.A == self.A && post.Q == self.Q && ${KFWF|post} }
@@fn ExtendedObservation::correct_nonlinear
@requires
${OBSWF|old(self)|old(x)|old(P)}, fun_req::<OBSERVATIONS, T, X, Y, F>(observation, &*old(x), old(self).y),
@ensures
exists|y2: Y| #[trigger] fun_post(observation, &*old(x), old(self).y, y2) && update_by(STATES as int, OBSERVATIONS as int, old(self).H.data(), old(self).R.data(), msub(mx(old(self).z.data(), OBSERVATIONS as int, 1), mx(y2.data(), OBSERVATIONS as int, 1), OBSERVATIONS as int, 1), old(x).data(), old(P).data(), final(x).data(), final(P).data()),
${OBSWF|final(self)|final(x)|final(P)}, final(self).H == old(self).H, final(self).z == old(self).z, final(self).R.data() == old(self).R.data(),
@start
let ghost z0 = mx(self.z.data(), OBSERVATIONS as int, 1); let ghost h0 = self.H.data(); let ghost r0 = self.R.data(); let ghost p0 = P.data(); let ghost y0 = self.y; let ghost gx = *x;
proof { assert(OBSERVATIONS * 1 == OBSERVATIONS); self.z.mdata_agrees(); assert forall|v: Y| #[trigger] v.mdata() == v.data() by { v.mdata_agrees(); } }
@tail
proof { let n = STATES as int; let k = OBSERVATIONS as int; let f = observation;
  assert(exists|m: &mut Y| #[trigger] f.ensures((&gx, m), ()) && *m == y0 && update_by(n, k, h0, r0, msub(z0, mx((*final(m)).data(), k, 1), k, 1), gx.data(), p0, x.data(), P.data()));
  let m = choose|m: &mut Y| #[trigger] f.ensures((&gx, m), ()) && *m == y0 && update_by(n, k, h0, r0, msub(z0, mx((*final(m)).data(), k, 1), k, 1), gx.data(), p0, x.data(), P.data());
  assert(fun_post(f, &gx, y0, *final(m))); }
@@extra KalmanFilterNonlinearObservationCorrectFilter
#[verifier::prophetic] spec fn correct_req<X: StateVectorMut<STATES, T>, P: EstimateCovarianceMatrix<STATES, T>, F: FnMut(&X, &mut Self::ObservationVector)>(&self, x: &X, p: &P, f: F) -> bool;
#[verifier::prophetic] spec fn correct_post<X: StateVectorMut<STATES, T>, P: EstimateCovarianceMatrix<STATES, T>, F: FnMut(&X, &mut Self::ObservationVector)>(&self, post: &Self, x: &X, x2: &X, p: &P, p2: &P, f: F) -> bool;
@@fn KalmanFilterNonlinearObservationCorrectFilter::correct_nonlinear
@requires
old(self).correct_req(old(x), old(P), observation),
@ensures
old(self).correct_post(final(self), old(x), final(x), old(P), final(P), observation),
@@extra ExtendedObservation as KalmanFilterNonlinearObservationCorrectFilter
#[verifier::prophetic] open spec fn correct_req<X: StateVectorMut<STATES, T>, P: EstimateCovarianceMatrix<STATES, T>, F: FnMut(&X, &mut Y)>(&self, x: &X, p: &P, f: F) -> bool { ${OWF|self|x.data().len()|p.data().len()} && fun_req::<OBSERVATIONS, T, X, Y, F>(f, x, self.y) }
#[verifier::prophetic] open spec fn correct_post<X: StateVectorMut<STATES, T>, P: EstimateCovarianceMatrix<STATES, T>, F: FnMut(&X, &mut Y)>(&self, post: &Self, x: &X, x2: &X, p: &P, p2: &P, f: F) -> bool {
  (exists|y2: Y| #[trigger] fun_post(f, x, self.y, y2) && update_by(STATES as int, OBSERVATIONS as int, self.H.data(), self.R.data(), msub(mx(self.z.data(), OBSERVATIONS as int, 1), mx(y2.data(), OBSERVATIONS as int, 1), OBSERVATIONS as int, 1), x.data(), p.data(), x2.data(), p2.data()))
  && ${OWF|post|x2.data().len()|p2.data().len()} && post.H == self.H && post.z == self.z && post.R.data() == self.R.data() }
@@extra KalmanFilterNonlinearUpdate
#[verifier::prophetic] spec fn correct_req<M: KalmanFilterNonlinearObservationCorrectFilter<STATES, OBSERVATIONS, T>, F: FnMut(&<Self as KalmanFilterStateVectorMut<STATES, T>>::StateVectorMut, &mut M::ObservationVector), const OBSERVATIONS: usize>(&self, m: &M, f: F) -> bool;
#[verifier::prophetic] spec fn correct_post<M: KalmanFilterNonlinearObservationCorrectFilter<STATES, OBSERVATIONS, T>, F: FnMut(&<Self as KalmanFilterStateVectorMut<STATES, T>>::StateVectorMut, &mut M::ObservationVector), const OBSERVATIONS: usize>(&self, post: &Self, m: &M, m2: &M, f: F) -> bool;
@@fn KalmanFilterNonlinearUpdate::correct_nonlinear
@requires
old(self).correct_req::<M, F, OBSERVATIONS>(old(measurement), observation),
@ensures
old(self).correct_post::<M, F, OBSERVATIONS>(final(self), old(measurement), final(measurement), observation),
@@extra ExtendedKalman as KalmanFilterNonlinearUpdate
#[verifier::prophetic] open spec fn correct_req<M: KalmanFilterNonlinearObservationCorrectFilter<STATES, OBSERVATIONS, T>, F: FnMut(&X, &mut M::ObservationVector), const OBSERVATIONS: usize>(&self, m: &M, f: F) -> bool { m.correct_req(&self.x, &self.P, f) }
#[verifier::prophetic] open spec fn correct_post<M: KalmanFilterNonlinearObservationCorrectFilter<STATES, OBSERVATIONS, T>, F: FnMut(&X, &mut M::ObservationVector), const OBSERVATIONS: usize>(&self, post: &Self, m: &M, m2: &M, f: F) -> bool {
  m.correct_post(m2, &self.x, &post.x, &self.P, &post.P, f) && post.A == self.A && post.Q == self.Q && post.predicted_x == self.predicted_x && post.temp_P == self.temp_P }
@@fn ExtendedKalman::correct_nonlinear
@requires
old(measurement).correct_req(&old(self).x, &old(self).P, observation),
@ensures
old(measurement).correct_post(final(measurement), &old(self).x, &final(self).x, &old(self).P, &final(self).P, observation),
final(self).A == old(self).A, final(self).Q == old(self).Q, final(self).predicted_x == old(self).predicted_x, final(self).temp_P == old(self).temp_P,
@@@ ---- builders -------------------------------------------------------------------------------
@@fn KalmanFilterBuilder::build
@requires
STATES * STATES <= usize::MAX,
@ensures
r.x.data().len() == STATES, r.A.data().len() == STATES * STATES, r.P.data().len() == STATES * STATES, r.Q.data().len() == STATES * STATES, r.predicted_x.data().len() == STATES, r.temp_P.data().len() == STATES * STATES,
STATES >= 1 ==> ${KFWF|r},
all_default(r.x.data()), all_default(r.A.data()), all_default(r.P.data()), all_default(r.Q.data()),
@@fn KalmanFilterControlBuilder::build
@requires
STATES * CONTROLS <= usize::MAX, CONTROLS * CONTROLS <= usize::MAX,
@ensures
r.u.data().len() == CONTROLS, r.B.data().len() == STATES * CONTROLS, r.Q.data().len() == CONTROLS * CONTROLS, r.temp_BQ.data().len() == STATES * CONTROLS,
all_default(r.u.data()), all_default(r.B.data()), all_default(r.Q.data()),
@@fn KalmanFilterObservationBuilder::build
@requires
STATES * OBSERVATIONS <= usize::MAX, OBSERVATIONS * OBSERVATIONS <= usize::MAX, STATES * STATES <= usize::MAX,
@ensures
r.z.data().len() == OBSERVATIONS, r.H.data().len() == OBSERVATIONS * STATES, r.R.data().len() == OBSERVATIONS * OBSERVATIONS, r.y.data().len() == OBSERVATIONS, r.S.data().len() == OBSERVATIONS * OBSERVATIONS, r.K.data().len() == STATES * OBSERVATIONS,
STATES >= 1 && OBSERVATIONS >= 1 ==> ${OWF|r|STATES|(STATES * STATES)},
all_default(r.z.data()), all_default(r.H.data()), all_default(r.R.data()),
@start
proof { assert(STATES * OBSERVATIONS == OBSERVATIONS * STATES) by(nonlinear_arith); }
