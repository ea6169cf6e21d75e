@@extra RowMajorSequentialData
spec fn data(&self) -> Seq<T>;
proof fn buffer_bound(&self) ensures self.data().len() <= usize::MAX;
@@fn RowMajorSequentialData::as_slice
@ensures
r@ == self.data(), r@.len() <= usize::MAX,
@@fn RowMajorSequentialData::len
@requires
ROWS * COLS <= usize::MAX,
@ensures
r == ROWS * COLS,
@@fn RowMajorSequentialData::buffer_len
@ensures
r == self.data().len(),
@@fn RowMajorSequentialData::is_empty
@requires
ROWS * COLS <= usize::MAX,
@ensures
r == (ROWS == 0 || COLS == 0),
@tail
proof { assert((ROWS * COLS == 0) == (ROWS == 0 || COLS == 0)) by(nonlinear_arith) requires ROWS >= 0, COLS >= 0; }
@@fn RowMajorSequentialData::is_valid
@requires
ROWS * COLS <= usize::MAX,
@ensures
r == (ROWS * COLS <= self.data().len()),
@@fn RowMajorSequentialData::get_at
@requires
row < ROWS, column < COLS, ROWS * COLS <= self.data().len(),
@ensures
r == self.data()[ix(row as int, column as int, COLS as int)],
@start
proof { let _ = ix(row as int, column as int, COLS as int); assert(ROWS * COLS >= 0); }
@@fn RowMajorSequentialDataMut::as_mut_slice
@ensures
r@ == old(self).data(), final(self).data() == final(r)@, old(self).data().len() <= usize::MAX,
@@fn RowMajorSequentialDataMut::set_at
@requires
row < ROWS, column < COLS, ROWS * COLS <= old(self).data().len(),
@ensures
final(self).data() == old(self).data().update(ix(row as int, column as int, COLS as int), value),
@start
proof { let _ = ix(row as int, column as int, COLS as int); assert(ROWS * COLS >= 0); }
