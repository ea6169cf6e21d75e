@@extra MatrixDataArray as RawStorage
open spec fn elem(&self, r: int, c: int) -> T { self.0@[ix(r, c, COLS as int)] }
@@fn MatrixDataArray as RawStorage::ptr
@guards
@start
proof { broadcast use {crate::g::off_row_major}; assume(ROWS * COLS <= usize::MAX);
  ix_all(ROWS as int, COLS as int); }
@@fn MatrixDataArray as RawStorage::as_slice_unchecked
@guards
@start
proof { broadcast use {crate::g::off_row_major}; assume(ROWS * COLS <= usize::MAX); ix_all(ROWS as int, COLS as int); ix_last(ROWS as int, COLS as int); assert(ROWS == 0 || COLS == 0 ==> ROWS * COLS == 0) by(nonlinear_arith); let e = self.elem(ROWS - 1, COLS - 1); assert(e == e); }
@@fn MatrixDataArray as RawStorage::is_contiguous
@start
proof { broadcast use {crate::g::off_row_major}; ix_last(ROWS as int, COLS as int); }
