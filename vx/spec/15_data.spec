@@extra IntoInnerData
#[verifier::prophetic] spec fn inner_post(self, r: Self::Target) -> bool;
@@fn IntoInnerData::into_inner
@ensures
self.inner_post(r),
@@fn MatrixData::empty
@@fn MatrixData::new_from | MatrixData::new_mut_from
@ensures
r.0 == storage,
@@fn MatrixData::new
@requires
ROWS * COLS <= usize::MAX,
@ensures
r.0@.len() == ROWS * COLS, forall|i: int| 0 <= i < ROWS * COLS ==> #[trigger] r.0@[i] == init,
@@fn MatrixData::new_boxed
@requires
data.into_req(), forall|b: Box<[T]>| #[trigger] data.into_post(b) ==> b@.len() == ROWS * COLS, ROWS * COLS <= usize::MAX,
@ensures
data.into_post(r.0),
@@fn MatrixData::new_mut
@ensures
r.0@ == old(data)@, final(r.0)@ == final(data)@,
@@fn MatrixData::new_array
@ensures
r.0 == data,
@@fn MatrixData::new_ref
@ensures
r.0@ == data@,
