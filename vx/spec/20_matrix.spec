@@extra AsMatrix
spec fn mdata(&self) -> Seq<T>;
@@fn AsMatrix::as_matrix
@ensures
r.data() == self.mdata(),
@@fn AsMatrixMut::as_matrix_mut
@ensures
r.data() == old(self).mdata(), final(self).mdata() == final(r).data(),

@@extra Matrix
/// indexing the matrix is indexing its buffer
proof fn index_agrees(&self)
    ensures forall|i: usize| #[trigger] self.index_req(i) <==> i < self.data().len(),
        forall|i: usize| i < self.data().len() ==> #[trigger] self.index_val(i) == self.data()[i as int];
@@extra MatrixMut
proof fn index_mut_agrees(&self)
    ensures forall|i: usize, v: T, post: &Self| i < self.data().len() && #[trigger] self.index_post(i, v, post) ==> post.data() == self.data().update(i as int, v);

@@fn Matrix::rows
@ensures
r == ROWS,
@@fn Matrix::cols
@ensures
r == COLS,
@@fn Matrix::inspect
@requires
forall|m: &Self| f.requires((m,)),
@ensures
exists|f0: F| f0.ensures((self,), r),
@@fn Matrix::get
@requires
row < ROWS, column < COLS, ROWS * COLS <= self.data().len(),
@ensures
r == self.data()[ix(row as int, column as int, COLS as int)],
@@fn Matrix::get_column_copy
@requires
ROWS >= 1, column < COLS, ROWS * COLS <= self.data().len(), ROWS <= old(col_data)@.len(), self.data().len() <= isize::MAX,
@ensures
frame(old(col_data)@, final(col_data)@, ROWS as int),
forall|i: int| 0 <= i < ROWS ==> #[trigger] final(col_data)@[i] == self.data()[ix(i, column as int, COLS as int)],
@start
proof { let _ = ix(ROWS - 1, column as int, COLS as int); assert(ROWS * COLS >= ROWS) by(nonlinear_arith) requires COLS >= 1, ROWS >= 1; idx_succ(ROWS - 1, COLS as int);
  assert(ROWS * COLS >= COLS) by(nonlinear_arith) requires COLS >= 1, ROWS >= 1; }
let ghost c0 = col_data@;
@loop 1
@inv
0 <= target_index <= ROWS - 1, stride == COLS, src@ == self.data(),
source_index == ix(target_index as int, column as int, COLS as int), 
frame(c0, col_data@, ROWS as int),
forall|i: int| target_index <= i < ROWS ==> #[trigger] col_data@[i] == self.data()[ix(i, column as int, COLS as int)],
@dec target_index
@lstart
proof { idx_succ(target_index - 1, COLS as int); let _ = ix(target_index - 1, column as int, COLS as int); }
@@fn Matrix::get_row_copy
@requires
row < ROWS, COLS >= 1, ROWS * COLS <= self.data().len(), COLS <= old(row_data)@.len(),
@ensures
frame(old(row_data)@, final(row_data)@, COLS as int),
forall|j: int| 0 <= j < COLS ==> #[trigger] final(row_data)@[j] == self.data()[ix(row as int, j, COLS as int)],
@start
let ghost c0 = row_data@;
proof { assert(self.data().len() <= usize::MAX) by { self.buffer_bound(); } let _ = ix(row as int, COLS - 1, COLS as int); idx_succ(row as int, COLS as int); }
@loop 1
@inv
0 <= target_index <= COLS - 1, data@ == self.data(),
source_index == ix(row as int, target_index as int, COLS as int),
frame(c0, row_data@, COLS as int),
forall|j: int| target_index <= j < COLS ==> #[trigger] row_data@[j] == self.data()[ix(row as int, j, COLS as int)],
@dec target_index
@lstart
proof { let _ = ix(row as int, target_index - 1, COLS as int); assert(ROWS * COLS >= 0); assert(row * COLS >= 0); }

@@fn Matrix::copy | Matrix::copy_to
@requires
ROWS * COLS >= 1, ROWS * COLS <= self.data().len(), ROWS * COLS <= old(target).data().len(),
@ensures
frame(old(target).data(), final(target).data(), ROWS * COLS),
forall|q: int| 0 <= q < ROWS * COLS ==> #[trigger] final(target).data()[q] == self.data()[q],
@start
proof { assert(self.data().len() <= usize::MAX) by { self.buffer_bound(); } }
let ghost t0 = target.data();
@loop 1
@inv
frame(t0, bdata@, ROWS * COLS), adata@ == self.data(),
forall|q: int| count - it1.index() <= q < count ==> #[trigger] bdata@[q] == self.data()[q],
@@fn Matrix::copy_from
@requires
ROWS * COLS >= 1, ROWS * COLS <= source.data().len(), ROWS * COLS <= old(self).data().len(),
@ensures
frame(old(self).data(), final(self).data(), ROWS * COLS),
forall|q: int| 0 <= q < ROWS * COLS ==> #[trigger] final(self).data()[q] == source.data()[q],

@@fn Matrix::mult
@lean
@requires
ROWS * COLS <= self.data().len(), COLS * U <= b.data().len(), ROWS * U <= old(c).data().len(),
@ensures
mx(final(c).data(), ROWS as int, U as int) == mmul(mx(self.data(), ROWS as int, COLS as int), mx(b.data(), COLS as int, U as int), ROWS as int, COLS as int, U as int),
frame(old(c).data(), final(c).data(), ROWS * U),
@start
let ghost ma = mx(self.data(),ROWS as int,COLS as int);
let ghost mb = mx(b.data(), COLS as int, U as int);
let ghost c0 = c.data(); let ghost e = mmul(ma, mb, ROWS as int, COLS as int, U as int);
proof { self.buffer_bound(); b.buffer_bound(); c.buffer_bound(); cols_begin(c0, ROWS as int, U as int, e); }
@loop 1
@inv
by_cols(c0, cdata@, ROWS as int, U as int, e, U - 1 - it1.index(), 0), adata@ == self.data(), bdata@ == b.data(),
@loop 1.1
@inv
by_cols(c0, cdata@, ROWS as int, U as int, e, j as int, it1_1.index() as int), index_a == it1_1.index() * COLS,
@lstart
let ghost cb = cdata@;
proof { cols_cell(c0, cdata@, ROWS as int, U as int, e, j as int, i as int); idx_succ(i as int, COLS as int); }
@lend
proof { cols_step(c0, cb, cdata@, ROWS as int, U as int, e, j as int, i as int); }
@loop 1.1.1
@inv
index_a == i * COLS + it1_1_1.index(),
total.val() == dot(ma,mb,i as int,j as int,it1_1_1.index() as int),
@lstart
proof { at(adata@, ROWS as int, COLS as int, i as int, k as int); at(bdata@, COLS as int, U as int, k as int, j as int); }
@loop 1
@lend
proof { cols_next(c0, cdata@, ROWS as int, U as int, e, j as int); }
@tail
proof { cols_done(c0, cdata@, ROWS as int, U as int, e); }

@@fn Matrix::mult_buffered
@lean
@requires
ROWS * COLS <= self.data().len(), COLS * U <= b.data().len(), ROWS * U <= old(c).data().len(), old(baux)@.len() == COLS, COLS >= 1, b.data().len() <= isize::MAX,
@ensures
mx(final(c).data(), ROWS as int, U as int) == mmul(mx(self.data(), ROWS as int, COLS as int), mx(b.data(), COLS as int, U as int), ROWS as int, COLS as int, U as int),
frame(old(c).data(), final(c).data(), ROWS * U), final(baux)@.len() == COLS,
@start
let ghost ma = mx(self.data(),ROWS as int,COLS as int);
let ghost mb = mx(b.data(), COLS as int, U as int);
let ghost c0 = c.data(); let ghost e = mmul(ma, mb, ROWS as int, COLS as int, U as int);
proof { self.buffer_bound(); b.buffer_bound(); c.buffer_bound(); cols_begin(c0, ROWS as int, U as int, e); }
@loop 1
@inv
by_cols(c0, cdata@, ROWS as int, U as int, e, U - 1 - it1.index(), 0), adata@ == self.data(), baux@.len() == COLS,
@loop 1.1
@inv
by_cols(c0, cdata@, ROWS as int, U as int, e, j as int, it1_1.index() as int), index_a == it1_1.index() * COLS,
@lstart
let ghost cb = cdata@;
proof { cols_cell(c0, cdata@, ROWS as int, U as int, e, j as int, i as int); idx_succ(i as int, COLS as int); }
@lend
proof { cols_step(c0, cb, cdata@, ROWS as int, U as int, e, j as int, i as int); }
@loop 1.1.1
@inv
index_a == i * COLS + it1_1_1.index(),
total.val() == dot(ma,mb,i as int,j as int,it1_1_1.index() as int),
@lstart
proof { at(adata@, ROWS as int, COLS as int, i as int, k as int); at(b.data(), COLS as int, U as int, k as int, j as int); let _ = ix(k as int, j as int, U as int); assert(mb[k as int][j as int] == baux@[k as int].val()); }
@loop 1
@lend
proof { cols_next(c0, cdata@, ROWS as int, U as int, e, j as int); }
@tail
proof { cols_done(c0, cdata@, ROWS as int, U as int, e); }

@@fn Matrix::mult_rowvector
@lean
@requires
COLS >= 1, ROWS * COLS <= self.data().len(), COLS <= x.data().len(), ROWS <= old(c).data().len(),
@ensures
mx(final(c).data(), ROWS as int, 1) == mmul(mx(self.data(), ROWS as int, COLS as int), mx(x.data(), COLS as int, 1), ROWS as int, COLS as int, 1),
frame(old(c).data(), final(c).data(), ROWS as int),
@start
let ghost ma = mx(self.data(),ROWS as int,COLS as int);
let ghost mb = mx(x.data(), COLS as int, 1);
let ghost c0 = c.data();
proof { self.buffer_bound(); x.buffer_bound(); c.buffer_bound(); at_col(x.data(), COLS as int); }
@loop 1
@inv
frame(c0, cdata@, ROWS as int), 
index_a == it1.index() * COLS,
forall|p: int| 0 <= p < it1.index() ==> (#[trigger] cdata@[p]).val() == dot(ma,mb,p,0,COLS as int),
@lstart
proof { at(adata@, ROWS as int, COLS as int, index_c as int, 0); assert(mb[0][0] == xdata@[0].val()); reveal_with_fuel(dot, 2); }
@loop 1.1
@inv
index_a == index_c * COLS + 1 + it1_1.index(),
total.val() == dot(ma,mb,index_c as int,0,it1_1.index() + 1),
@lstart
proof { at(adata@, ROWS as int, COLS as int, index_c as int, j as int); assert(mb[j as int][0] == xdata@[j as int].val()); }
@tail
proof { at_col(cdata@, ROWS as int); assert(mx(cdata@, ROWS as int, 1) =~~= mmul(ma, mb, ROWS as int, COLS as int, 1)); }

@@fn Matrix::multadd_rowvector
@lean
@requires
COLS >= 1, ROWS * COLS <= self.data().len(), COLS <= x.data().len(), ROWS <= old(c).data().len(),
@ensures
mx(final(c).data(), ROWS as int, 1) == madd(mx(old(c).data(), ROWS as int, 1), mmul(mx(self.data(), ROWS as int, COLS as int), mx(x.data(), COLS as int, 1), ROWS as int, COLS as int, 1), ROWS as int, 1),
frame(old(c).data(), final(c).data(), ROWS as int),
@start
let ghost ma = mx(self.data(),ROWS as int,COLS as int);
let ghost mb = mx(x.data(), COLS as int, 1);
let ghost c0 = c.data();
proof { self.buffer_bound(); x.buffer_bound(); c.buffer_bound(); at_col(x.data(), COLS as int); at_col(c0, ROWS as int); }
@loop 1
@inv
frame(c0, cdata@, ROWS as int), 
index_a == it1.index() * COLS,
forall|p: int| 0 <= p < it1.index() ==> (#[trigger] cdata@[p]).val() == c0[p].val() + dot(ma,mb,p,0,COLS as int),
forall|p: int| it1.index() <= p < ROWS ==> #[trigger] cdata@[p] == c0[p],
@lstart
proof { at(adata@, ROWS as int, COLS as int, index_c as int, 0); assert(mb[0][0] == xdata@[0].val()); reveal_with_fuel(dot, 2); }
@loop 1.1
@inv
index_a == index_c * COLS + 1 + it1_1.index(),
total.val() == dot(ma,mb,index_c as int,0,it1_1.index() + 1),
@lstart
proof { at(adata@, ROWS as int, COLS as int, index_c as int, j as int); assert(mb[j as int][0] == xdata@[j as int].val()); }
@tail
proof { at_col(cdata@, ROWS as int);
 assert(mx(cdata@, ROWS as int, 1) =~~= madd(mx(c0, ROWS as int, 1), mmul(ma, mb, ROWS as int, COLS as int, 1), ROWS as int, 1)); }

@@fn Matrix::mult_transb
@lean
@requires
ROWS * COLS <= self.data().len(), U * COLS <= b.data().len(), ROWS * U <= old(c).data().len(),
@ensures
mx(final(c).data(), ROWS as int, U as int) == mmul(mx(self.data(), ROWS as int, COLS as int), mtr(mx(b.data(), U as int, COLS as int), U as int, COLS as int), ROWS as int, COLS as int, U as int),
frame(old(c).data(), final(c).data(), ROWS * U),
@start
let ghost ma = mx(self.data(),ROWS as int,COLS as int);
let ghost mb = mtr(mx(b.data(), U as int, COLS as int), U as int, COLS as int);
let ghost c0 = c.data(); let ghost mm = mmul(ma, mb, ROWS as int, COLS as int, U as int); let ghost e = mm;
proof { self.buffer_bound(); b.buffer_bound(); c.buffer_bound(); rows_begin(c0, ROWS as int, U as int, e); }
@loop 1
@inv
by_rows(c0, cdata@, ROWS as int, U as int, e, it1.index() as int, 0), adata@ == self.data(), bdata@ == b.data(),
c_index == it1.index() * U, a_index_start == it1.index() * COLS,
@lstart
let ghost i = it1.index() as int;
proof { idx_succ(i, COLS as int); idx_succ(i, U as int); assert((i + 1) * COLS <= ROWS * COLS && (i + 1) * U <= ROWS * U && 0 <= i * COLS && 0 <= i * U) by(nonlinear_arith) requires 0 <= i, i + 1 <= ROWS, COLS >= 0, U >= 0; }
@lend
proof { rows_next(c0, cdata@, ROWS as int, U as int, e, i); }
@loop 1.1
@inv
by_rows(c0, cdata@, ROWS as int, U as int, e, i, it1_1.index() as int),
c_index == i * U + it1_1.index(), index_b == it1_1.index() * COLS, a_index_start == i * COLS, end == i * COLS + COLS,
@lstart
let ghost j = it1_1.index() as int; let ghost cb = cdata@;
proof { rows_cell(c0, cdata@, ROWS as int, U as int, e, i, j); idx_succ(j, COLS as int); assert(0 <= j * COLS && (j + 1) * COLS <= U * COLS) by(nonlinear_arith) requires 0 <= j, j + 1 <= U, COLS >= 0; }
@lend
proof { rows_step(c0, cb, cdata@, ROWS as int, U as int, e, i, j); }
@loop 1.1.1
@inv
a_index_start <= index_a <= end, index_b == j * COLS + (index_a - a_index_start), end == a_index_start + COLS,
total.val() == dot(ma,mb,i,j,index_a - a_index_start),
@dec end - index_a
@lstart
proof { let k = index_a - a_index_start; at(adata@, ROWS as int, COLS as int, i, k); at(bdata@, U as int, COLS as int, j, k); }
@tail
proof { rows_done(c0, cdata@, ROWS as int, U as int, e); }

@@fn Matrix::multadd_transb
@lean
@requires
ROWS * COLS <= self.data().len(), U * COLS <= b.data().len(), ROWS * U <= old(c).data().len(),
@ensures
mx(final(c).data(), ROWS as int, U as int) == madd(mx(old(c).data(), ROWS as int, U as int), mmul(mx(self.data(), ROWS as int, COLS as int), mtr(mx(b.data(), U as int, COLS as int), U as int, COLS as int), ROWS as int, COLS as int, U as int), ROWS as int, U as int),
frame(old(c).data(), final(c).data(), ROWS * U),
@start
let ghost ma = mx(self.data(),ROWS as int,COLS as int);
let ghost mb = mtr(mx(b.data(), U as int, COLS as int), U as int, COLS as int);
let ghost c0 = c.data(); let ghost mm = mmul(ma, mb, ROWS as int, COLS as int, U as int); let ghost e = madd(mx(c0, ROWS as int, U as int), mm, ROWS as int, U as int);
proof { self.buffer_bound(); b.buffer_bound(); c.buffer_bound(); rows_begin(c0, ROWS as int, U as int, e); }
@loop 1
@inv
by_rows(c0, cdata@, ROWS as int, U as int, e, it1.index() as int, 0), adata@ == self.data(), bdata@ == b.data(),
c_index == it1.index() * U, a_index_start == it1.index() * COLS,
@lstart
let ghost i = it1.index() as int;
proof { idx_succ(i, COLS as int); idx_succ(i, U as int); assert((i + 1) * COLS <= ROWS * COLS && (i + 1) * U <= ROWS * U && 0 <= i * COLS && 0 <= i * U) by(nonlinear_arith) requires 0 <= i, i + 1 <= ROWS, COLS >= 0, U >= 0; }
@lend
proof { rows_next(c0, cdata@, ROWS as int, U as int, e, i); }
@loop 1.1
@inv
by_rows(c0, cdata@, ROWS as int, U as int, e, i, it1_1.index() as int),
c_index == i * U + it1_1.index(), index_b == it1_1.index() * COLS, a_index_start == i * COLS, end == i * COLS + COLS,
@lstart
let ghost j = it1_1.index() as int; let ghost cb = cdata@;
proof { rows_cell(c0, cdata@, ROWS as int, U as int, e, i, j); idx_succ(j, COLS as int); assert(0 <= j * COLS && (j + 1) * COLS <= U * COLS) by(nonlinear_arith) requires 0 <= j, j + 1 <= U, COLS >= 0; }
@lend
proof { rows_step(c0, cb, cdata@, ROWS as int, U as int, e, i, j); }
@loop 1.1.1
@inv
a_index_start <= index_a <= end, index_b == j * COLS + (index_a - a_index_start), end == a_index_start + COLS,
total.val() == dot(ma,mb,i,j,index_a - a_index_start),
@dec end - index_a
@lstart
proof { let k = index_a - a_index_start; at(adata@, ROWS as int, COLS as int, i, k); at(bdata@, U as int, COLS as int, j, k); }
@tail
proof { rows_done(c0, cdata@, ROWS as int, U as int, e); }

@@fn Matrix::multscale_transb
@lean
@requires
ROWS * COLS <= self.data().len(), U * COLS <= b.data().len(), ROWS * U <= old(c).data().len(),
@ensures
mx(final(c).data(), ROWS as int, U as int) == mscale(mmul(mx(self.data(), ROWS as int, COLS as int), mtr(mx(b.data(), U as int, COLS as int), U as int, COLS as int), ROWS as int, COLS as int, U as int), scale.val(), ROWS as int, U as int),
frame(old(c).data(), final(c).data(), ROWS * U),
@start
let ghost ma = mx(self.data(),ROWS as int,COLS as int);
let ghost mb = mtr(mx(b.data(), U as int, COLS as int), U as int, COLS as int);
let ghost c0 = c.data(); let ghost mm = mmul(ma, mb, ROWS as int, COLS as int, U as int); let ghost e = mscale(mm, scale.val(), ROWS as int, U as int);
proof { self.buffer_bound(); b.buffer_bound(); c.buffer_bound(); rows_begin(c0, ROWS as int, U as int, e); }
@loop 1
@inv
by_rows(c0, cdata@, ROWS as int, U as int, e, it1.index() as int, 0), adata@ == self.data(), bdata@ == b.data(),
c_index == it1.index() * U, a_index_start == it1.index() * COLS,
@lstart
let ghost i = it1.index() as int;
proof { idx_succ(i, COLS as int); idx_succ(i, U as int); assert((i + 1) * COLS <= ROWS * COLS && (i + 1) * U <= ROWS * U && 0 <= i * COLS && 0 <= i * U) by(nonlinear_arith) requires 0 <= i, i + 1 <= ROWS, COLS >= 0, U >= 0; }
@lend
proof { rows_next(c0, cdata@, ROWS as int, U as int, e, i); }
@loop 1.1
@inv
by_rows(c0, cdata@, ROWS as int, U as int, e, i, it1_1.index() as int),
c_index == i * U + it1_1.index(), index_b == it1_1.index() * COLS, a_index_start == i * COLS, end == i * COLS + COLS,
@lstart
let ghost j = it1_1.index() as int; let ghost cb = cdata@;
proof { rows_cell(c0, cdata@, ROWS as int, U as int, e, i, j); idx_succ(j, COLS as int); assert(0 <= j * COLS && (j + 1) * COLS <= U * COLS) by(nonlinear_arith) requires 0 <= j, j + 1 <= U, COLS >= 0; }
@lend
proof { rows_step(c0, cb, cdata@, ROWS as int, U as int, e, i, j); }
@loop 1.1.1
@inv
a_index_start <= index_a <= end, index_b == j * COLS + (index_a - a_index_start), end == a_index_start + COLS,
total.val() == dot(ma,mb,i,j,index_a - a_index_start),
@dec end - index_a
@lstart
proof { let k = index_a - a_index_start; at(adata@, ROWS as int, COLS as int, i, k); at(bdata@, U as int, COLS as int, j, k); }
@tail
proof { rows_done(c0, cdata@, ROWS as int, U as int, e); }

@@fn Matrix::sub
@requires
ROWS * COLS <= self.data().len(), ROWS * COLS <= b.data().len(), ROWS * COLS <= old(c).data().len(),
@ensures
mx(final(c).data(), ROWS as int, COLS as int) == msub(mx(self.data(), ROWS as int, COLS as int), mx(b.data(), ROWS as int, COLS as int), ROWS as int, COLS as int),
frame(old(c).data(), final(c).data(), ROWS * COLS),
@start
let ghost c0 = c.data();
proof { self.buffer_bound(); b.buffer_bound(); c.buffer_bound(); }
@loop 1
@inv
frame(c0, cdata@, ROWS * COLS), count == ROWS * COLS, adata@ == self.data(), bdata@ == b.data(),
forall|q: int| count - it1.index() <= q < count ==> (#[trigger] cdata@[q]).val() == adata@[q].val() - bdata@[q].val(),
@tail
proof { assert(mx(cdata@, ROWS as int, COLS as int) =~~= msub(mx(adata@, ROWS as int, COLS as int), mx(bdata@, ROWS as int, COLS as int), ROWS as int, COLS as int)); }

@@fn Matrix::add_inplace_b
@requires
ROWS * COLS <= self.data().len(), ROWS * COLS <= old(b).data().len(),
@ensures
mx(final(b).data(), ROWS as int, COLS as int) == madd(mx(self.data(), ROWS as int, COLS as int), mx(old(b).data(), ROWS as int, COLS as int), ROWS as int, COLS as int),
frame(old(b).data(), final(b).data(), ROWS * COLS),
@start
let ghost c0 = b.data();
proof { self.buffer_bound(); b.buffer_bound(); }
@loop 1
@inv
frame(c0, bdata@, ROWS * COLS), count == ROWS * COLS, adata@ == self.data(),
forall|q: int| 0 <= q < count - it1.index() ==> (#[trigger] bdata@[q]) == c0[q],
forall|q: int| count - it1.index() <= q < count ==> (#[trigger] bdata@[q]).val() == adata@[q].val() + c0[q].val(),
@tail
proof { assert(mx(bdata@, ROWS as int, COLS as int) =~~= madd(mx(adata@, ROWS as int, COLS as int), mx(c0, ROWS as int, COLS as int), ROWS as int, COLS as int)); }

@@fn Matrix::sub_inplace_b
@requires
ROWS * COLS <= self.data().len(), ROWS * COLS <= old(b).data().len(),
@ensures
mx(final(b).data(), ROWS as int, COLS as int) == msub(mx(self.data(), ROWS as int, COLS as int), mx(old(b).data(), ROWS as int, COLS as int), ROWS as int, COLS as int),
frame(old(b).data(), final(b).data(), ROWS * COLS),
@start
let ghost c0 = b.data();
proof { self.buffer_bound(); b.buffer_bound(); }
@loop 1
@inv
frame(c0, bdata@, ROWS * COLS), count == ROWS * COLS, adata@ == self.data(),
forall|q: int| 0 <= q < count - it1.index() ==> (#[trigger] bdata@[q]) == c0[q],
forall|q: int| count - it1.index() <= q < count ==> (#[trigger] bdata@[q]).val() == adata@[q].val() - c0[q].val(),
@tail
proof { assert(mx(bdata@, ROWS as int, COLS as int) =~~= msub(mx(adata@, ROWS as int, COLS as int), mx(c0, ROWS as int, COLS as int), ROWS as int, COLS as int)); }

@@fn MatrixMut::add_inplace_a
@requires
ROWS * COLS <= old(self).data().len(), ROWS * COLS <= b.data().len(),
@ensures
mx(final(self).data(), ROWS as int, COLS as int) == madd(mx(old(self).data(), ROWS as int, COLS as int), mx(b.data(), ROWS as int, COLS as int), ROWS as int, COLS as int),
frame(old(self).data(), final(self).data(), ROWS * COLS),
@start
let ghost c0 = self.data();
proof { self.buffer_bound(); b.buffer_bound(); }
@loop 1
@inv
frame(c0, adata@, ROWS * COLS), count == ROWS * COLS, bdata@ == b.data(),
forall|q: int| 0 <= q < count - it1.index() ==> (#[trigger] adata@[q]) == c0[q],
forall|q: int| count - it1.index() <= q < count ==> (#[trigger] adata@[q]).val() == c0[q].val() + bdata@[q].val(),
@tail
proof { assert(mx(adata@, ROWS as int, COLS as int) =~~= madd(mx(c0, ROWS as int, COLS as int), mx(bdata@, ROWS as int, COLS as int), ROWS as int, COLS as int)); }

@@fn MatrixMut::sub_inplace_a
@requires
ROWS * COLS <= old(self).data().len(), ROWS * COLS <= b.data().len(),
@ensures
mx(final(self).data(), ROWS as int, COLS as int) == msub(mx(old(self).data(), ROWS as int, COLS as int), mx(b.data(), ROWS as int, COLS as int), ROWS as int, COLS as int),
frame(old(self).data(), final(self).data(), ROWS * COLS),
@start
let ghost c0 = self.data();
proof { self.buffer_bound(); b.buffer_bound(); }
@loop 1
@inv
frame(c0, adata@, ROWS * COLS), count == ROWS * COLS, bdata@ == b.data(),
forall|q: int| 0 <= q < count - it1.index() ==> (#[trigger] adata@[q]) == c0[q],
forall|q: int| count - it1.index() <= q < count ==> (#[trigger] adata@[q]).val() == c0[q].val() - bdata@[q].val(),
@tail
proof { assert(mx(adata@, ROWS as int, COLS as int) =~~= msub(mx(c0, ROWS as int, COLS as int), mx(bdata@, ROWS as int, COLS as int), ROWS as int, COLS as int)); }

# ---- initialisers and element setters
@@fn SquareMatrixMut::make_comatrix
@requires
N * N <= old(self).data().len(),
@ensures
frame(old(self).data(), final(self).data(), N * N),
forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] final(self).data()[ix(i, j, N as int)] == (if i == j { diagonal } else { off_diagonal }),
@start
let ghost c0 = self.data();
proof { self.buffer_bound(); }
@loop 1
@inv
frame(c0, data@, N * N),
forall|p: int, q: int| 0 <= p < it1.index() && 0 <= q < N ==> #[trigger] data@[ix(p, q, N as int)] == (if p == q { diagonal } else { off_diagonal }),
@loop 1.1
@inv
frame(c0, data@, N * N),
forall|p: int, q: int| 0 <= p < i && 0 <= q < N ==> #[trigger] data@[ix(p, q, N as int)] == (if p == q { diagonal } else { off_diagonal }),
forall|q: int| 0 <= q < it1_1.index() ==> #[trigger] data@[ix(i as int, q, N as int)] == (if i == q { diagonal } else { off_diagonal }),
@lstart
proof { let _ = ix(i as int, j as int, N as int); assert(N * N >= 0); }
@@fn SquareMatrixMut::make_identity
@requires
N * N <= old(self).data().len(),
@ensures
frame(old(self).data(), final(self).data(), N * N),
forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] final(self).data()[ix(i, j, N as int)] == (if i == j { T::one_spec() } else { T::zero_spec() }),
@@fn SquareMatrixMut::make_scalar
@requires
N * N <= old(self).data().len(),
@ensures
frame(old(self).data(), final(self).data(), N * N),
forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] final(self).data()[ix(i, j, N as int)] == (if i == j { diagonal } else { T::zero_spec() }),
@@fn SquareMatrixMut::set_diagonal_to_scalar
@requires
N * N <= old(self).data().len(),
@ensures
frame(old(self).data(), final(self).data(), N * N),
forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] final(self).data()[ix(i, j, N as int)] == (if i == j { value } else { old(self).data()[ix(i, j, N as int)] }),
@start
let ghost c0 = self.data();
proof { self.buffer_bound(); }
@loop 1
@inv
frame(c0, data@, N * N),
forall|p: int, q: int| 0 <= p < N && 0 <= q < N ==> #[trigger] data@[ix(p, q, N as int)] == (if p == q && p < it1.index() { value } else { c0[ix(p, q, N as int)] }),
@lstart
proof { let _ = ix(i as int, i as int, N as int); assert(N * N >= 0); }
@@fn MatrixMut::apply
@requires
forall|m: &mut Self| f.requires((m,)),
@ensures
exists|f0: F, m: &mut Self| #[trigger] f0.ensures((m,), r) && m.data() == old(self).data() && final(m).data() == final(self).data(),
@@fn MatrixMut::set_all
@ensures
final(self).data().len() == old(self).data().len(),
forall|q: int| 0 <= q < old(self).data().len() ==> #[trigger] final(self).data()[q] == value,
@@fn MatrixMut::set_zero | MatrixMut::clear
@ensures
final(self).data().len() == old(self).data().len(),
forall|q: int| 0 <= q < old(self).data().len() ==> #[trigger] final(self).data()[q] == T::zero_spec(),
@@fn MatrixMut::set
@requires
row < ROWS, column < COLS, ROWS * COLS <= old(self).data().len(),
@ensures
final(self).data() == old(self).data().update(ix(row as int, column as int, COLS as int), value),
@start
proof { self.buffer_bound(); let _ = ix(row as int, column as int, COLS as int); assert(ROWS * COLS >= 0); }
@@fn MatrixMut::set_symmetric
@requires
row < ROWS, column < COLS, row < COLS, column < ROWS, ROWS * COLS <= old(self).data().len(),
@ensures
final(self).data() == old(self).data().update(ix(row as int, column as int, COLS as int), value).update(ix(column as int, row as int, COLS as int), value),
@@fn Scalar::get_value
@requires
1 <= self.data().len(),
@ensures
r == self.data()[0],
@@fn RowVector::get_row
@requires
row < ROWS, ROWS <= self.data().len(),
@ensures
r == self.data()[row as int],
@start
proof { let _ = ix(row as int, 0, 1); }
@@fn ColumnVector::get_col
@requires
column < COLS, COLS <= self.data().len(),
@ensures
r == self.data()[column as int],
@start
proof { let _ = ix(0, column as int, COLS as int); }
@@fn ScalarMut::set_value
@requires
1 <= old(self).data().len(),
@ensures
final(self).data() == old(self).data().update(0, value),
@@fn RowVectorMut::set_row
@requires
row < ROWS, ROWS <= old(self).data().len(),
@ensures
final(self).data() == old(self).data().update(row as int, value),
@start
proof { let _ = ix(row as int, 0, 1); }
@@fn ColumnVectorMut::set_col
@requires
column < COLS, COLS <= old(self).data().len(),
@ensures
final(self).data() == old(self).data().update(column as int, value),
@start
proof { let _ = ix(0, column as int, COLS as int); }

@@fn MatrixMut::cholesky_decompose_lower
@lean
@requires
ROWS == COLS, ROWS > 0, ROWS * COLS <= old(self).data().len(),
@ensures
frame(old(self).data(), final(self).data(), ROWS * COLS),
r ==> is_chol(mx(old(self).data(), ROWS as int, ROWS as int), mx(final(self).data(), ROWS as int, ROWS as int), ROWS as int),
r == has_chol(mx(old(self).data(), ROWS as int, ROWS as int), ROWS as int),
@start
let ghost c0 = self.data();
proof { self.buffer_bound(); assert(COLS == ROWS); chol_begin(c0, ROWS as int); }
@tail
proof { chol_finish(c0, t1, t@, n as int); }
@loop 1
@inv
n == ROWS, n * n <= t@.len(), c0.len() <= usize::MAX, chol_done(c0, t@, n as int, it1.index() as int), t@.len() == c0.len(),
@lstart
proof { chol_open(c0, t@, n as int, i as int, div_el_ii.val()); }
@lend
proof { chol_close(c0, t@, n as int, i as int, div_el_ii.val()); }
@after
let ghost t1 = t@;
proof { chol_zero_begin(t1, n as int); }
@loop 1.1
@inv
i < n, n * n <= t@.len(), t@.len() == c0.len(), c0.len() <= usize::MAX, chol_col(c0, t@, n as int, i as int, i + it1_1.index(), div_el_ii.val()),
@lstart
let ghost tj = t@;
let ghost d0 = div_el_ii.val();
proof { chol_first(c0, t@, n as int, i as int, j as int, d0); assert(i * n + n <= n * n && j * n + n <= n * n && i * n >= 0) by(nonlinear_arith) requires i < n, j < n; }
@lend
proof { if i == j { chol_diag(c0, tj, t@, n as int, i as int, d0, div_el_ii.val(), sum.val(), t@[ix(i as int, i as int, n as int)]); }
  else { chol_below(c0, tj, t@, n as int, i as int, j as int, d0, sum.val(), t@[ix(j as int, i as int, n as int)]); } }
@loop 1.1.1
@inv
i <= j, j < n, n * n <= t@.len(), t@.len() <= usize::MAX, i * n <= i_el <= end, end == i * n + i, j_el - j * n == i_el - i * n, j * n + n <= n * n,
sum.val() == chol_sum(c0, t@, n as int, i as int, j as int, i_el - i * n),
@dec end - i_el
@lstart
proof { chol_next(c0, t@, n as int, i as int, j as int, i_el - i * n); }
@after
proof { if i == j && sum.val() <= 0real { chol_fail(c0, t@, n as int, i as int, d0); } }
@loop 2
@inv
n == ROWS, n * n <= t@.len(), t@.len() <= usize::MAX, chol_zero(t1, t@, n as int, it2.index() as int, 0),
@lstart
proof { chol_zero_row(t1, t@, n as int, i as int); }
@lend
proof { chol_zero_end(t1, t@, n as int, i as int); }
@loop 2.1
@inv
n == ROWS, i < n, n * n <= t@.len(), t@.len() <= usize::MAX, chol_zero(t1, t@, n as int, i as int, i + 1 + it2_1.index()),
@lstart
proof { chol_zero_step(t1, t@, n as int, i as int, j as int); }

@@fn SquareMatrix::invert_l_cholesky
@lean
@requires
N >= 1, N * N <= self.data().len(), N * N <= old(inverse).data().len(),
@ensures
frame(old(inverse).data(), final(inverse).data(), N * N),
symm(mx(final(inverse).data(), N as int, N as int), N as int),
nz_diag(mx(self.data(), N as int, N as int), N as int) ==> mmul(mmul(low(mx(self.data(), N as int, N as int), N as int), mtr(low(mx(self.data(), N as int, N as int), N as int), N as int, N as int), N as int, N as int, N as int), mx(final(inverse).data(), N as int, N as int), N as int, N as int, N as int) == ident(N as int),
@start
let ghost m = self.data();
let ghost a0 = inverse.data();
proof { self.buffer_bound(); inverse.buffer_bound(); fwd_begin(m, a0, N as int); }
@tail
proof { inv_finish(m, a0, v0, inv@, n as int); }
@loop 1
@inv
n == N, mat@ == m, n * n <= m.len(), n * n <= inv@.len(), m.len() <= usize::MAX, inv@.len() == a0.len(), a0.len() <= usize::MAX, fwd(m, a0, inv@, n as int, it1.index() as int, 0),
@lstart
proof { fwd_bounds(m, a0, inv@, n as int, i as int, 0, i as int); }
@lend
proof { fwd_row(m, a0, inv@, n as int, i as int); }
@after
let ghost v0 = inv@;
proof { bwd_begin(m, v0, n as int); }
@loop 1.1
@inv
n == N, i < n, mat@ == m, n * n <= m.len(), n * n <= inv@.len(), m.len() <= usize::MAX, inv@.len() == a0.len(), a0.len() <= usize::MAX, fwd(m, a0, inv@, n as int, i as int, it1_1.index() as int),
mx(m, n as int, n as int)[i as int][i as int] != 0real ==> inv_el_ii.val() * mx(m, n as int, n as int)[i as int][i as int] == 1real,
@lstart
let ghost aj = inv@;
proof { assert(j == it1_1.index()); fwd_bounds(m, a0, inv@, n as int, i as int, j as int, i as int); }
@lend
proof { fwd_step(m, a0, aj, inv@, n as int, i as int, j as int, inv_el_ii.val(), inv@[ix(j as int, i as int, n as int)]); }
@loop 1.1.1
@inv
n == N, i < n, j <= i, mat@ == m, inv@ == aj, acc__.val() == -psum(mx(m, n as int, n as int), mx(inv@, n as int, n as int), i as int, j as int, j as int, j + it1_1_1.index()),
@lstart
proof { fwd_bounds(m, a0, inv@, n as int, i as int, j as int, k as int);
  let x = mat@[ix(i as int, k as int, n as int)].val(); let y = inv@[ix(j as int, k as int, n as int)].val(); assert((-x) * y == -(x * y)) by(nonlinear_arith); }
@loop 2
@inv
n == N, n >= 1, mat@ == m, n * n <= m.len(), n * n <= inv@.len(), m.len() <= usize::MAX, inv@.len() == a0.len(), a0.len() <= usize::MAX, bwd(m, v0, inv@, n as int, n - 1 - it2.index(), 0),
@lstart
proof { assert(i == n - 1 - it2.index()); bwd_bounds(m, v0, inv@, n as int, i as int, 0, i as int); }
@lend
proof { bwd_row(m, v0, inv@, n as int, i as int); }
@loop 2.1
@inv
n == N, i < n, mat@ == m, n * n <= m.len(), n * n <= inv@.len(), m.len() <= usize::MAX, inv@.len() == a0.len(), a0.len() <= usize::MAX, bwd(m, v0, inv@, n as int, i as int, it2_1.index() as int),
mx(m, n as int, n as int)[i as int][i as int] != 0real ==> inv_el_ii.val() * mx(m, n as int, n as int)[i as int][i as int] == 1real,
@lstart
let ghost aj = inv@;
proof { assert(j == it2_1.index()); bwd_bounds(m, v0, inv@, n as int, i as int, j as int, i as int); }
@lend
proof { bwd_step(m, v0, aj, inv@, n as int, i as int, j as int, inv_el_ii.val(), value); }
@loop 2.1.1
@inv
n == N, i < n, j <= i, mat@ == m, inv@ == aj, acc__.val() == -qsum(mx(m, n as int, n as int), mx(inv@, n as int, n as int), i as int, j as int, i + 1, i + 1 + it2_1_1.index()),
@lstart
proof { bwd_bounds(m, v0, inv@, n as int, i as int, j as int, k as int);
  let x = mat@[ix(k as int, i as int, n as int)].val(); let y = inv@[ix(j as int, k as int, n as int)].val(); assert((-x) * y == -(x * y)) by(nonlinear_arith); }
