@def OBSWF obs_wf(STATES as int, OBSERVATIONS as int, $2.data().len() as int, $3.data().len() as int, $1.H.data().len() as int, $1.z.data().len() as int, $1.R.data().len() as int, $1.y.data().len() as int, $1.S.data().len() as int, $1.K.data().len() as int, $1.temp_S_inv.data().len() as int, $1.temp_HP.data().len() as int, $1.temp_PHt.data().len() as int, $1.temp_KHP.data().len() as int)
@def OBSSAME final(self).H == old(self).H, final(self).z == old(self).z, final(self).R.data() == old(self).R.data(), final(self).y.data().len() == old(self).y.data().len(), final(self).S.data().len() == old(self).S.data().len(), final(self).K.data().len() == old(self).K.data().len(), final(self).temp_S_inv.data().len() == old(self).temp_S_inv.data().len(), final(self).temp_HP.data().len() == old(self).temp_HP.data().len(), final(self).temp_PHt.data().len() == old(self).temp_PHt.data().len(), final(self).temp_KHP.data().len() == old(self).temp_KHP.data().len(),
@@fn RegularObservation::update_with_innovation | ExtendedObservation::update_with_innovation
@lean
@requires
${OBSWF|old(self)|old(x)|old(P)},
@ensures
update_by(STATES as int, OBSERVATIONS as int, old(self).H.data(), old(self).R.data(), mx(old(self).y.data(), OBSERVATIONS as int, 1), old(x).data(), old(P).data(), final(x).data(), final(P).data()),
${OBSSAME}
@start
let ghost n = STATES as int; let ghost m = OBSERVATIONS as int;
let ghost x0 = x.data(); let ghost p0 = P.data(); let ghost h0 = self.H.data(); let ghost r0 = self.R.data(); let ghost y0 = self.y.data();
proof { x.mdata_agrees(); self.y.mdata_agrees(); x.buffer_bound(); P.buffer_bound(); assert forall|v: X| #[trigger] v.mdata() == v.data() by { v.mdata_agrees(); }
  assert forall|v: Y| #[trigger] v.mdata() == v.data() by { v.mdata_agrees(); } }
@tail
proof {
  let h = mx(h0, m, n); let p = mx(p0, n, n); let s = res_cov(h, p, mx(r0, m, m), n, m); let xi = mx(self.temp_S_inv.data(), m, m);
  if symm(s, m) && has_chol(s, m) {
    assert(is_chol(s, mx(self.S.data(), m, m), m));
    inverse_from_chol(s, mx(self.S.data(), m, m), xi, m);
    assert(mx(self.K.data(), n, m) == gain(h, p, xi, n, m));
    assert(mx(self.temp_HP.data(), m, n) == mmul(h, p, m, n, n));
    assert(mx(x.data(), n, 1) == madd(mx(x0, n, 1), mmul(gain(h, p, xi, n, m), mx(y0, m, 1), n, m, 1), n, 1));
    assert(upd(n, m, h, mx(y0, m, 1), mx(x0, n, 1), p, xi, mx(x.data(), n, 1), mx(P.data(), n, n)));
    assert(inv_of(s, xi, m) && upd(n, m, h, mx(y0, m, 1), mx(x0, n, 1), p, xi, mx(x.data(), n, 1), mx(P.data(), n, n)));
  }
}
@@fn RegularObservation::correct
@requires
${OBSWF|old(self)|old(x)|old(P)},
@ensures
update_by(STATES as int, OBSERVATIONS as int, old(self).H.data(), old(self).R.data(), innov(STATES as int, OBSERVATIONS as int, mx(old(self).H.data(), OBSERVATIONS as int, STATES as int), mx(old(self).z.data(), OBSERVATIONS as int, 1), mx(old(x).data(), STATES as int, 1)), old(x).data(), old(P).data(), final(x).data(), final(P).data()),
${OBSSAME}
@start
proof { x.mdata_agrees(); self.y.mdata_agrees(); self.z.mdata_agrees(); assert(OBSERVATIONS * 1 == OBSERVATIONS);  assert forall|v: Y| #[trigger] v.mdata() == v.data() by { v.mdata_agrees(); } }
