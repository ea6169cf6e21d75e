// Ghost definitions and assumed contracts (hand written; the code itself comes from /repo).
#![allow(unused_imports, non_snake_case, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, deprecated, non_camel_case_types)]
use vstd::prelude::*;
verus! {
pub mod g {
use super::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, AddAssign, Sub, SubAssign, Mul, Div, Neg};

// ---- contracts in place of num_traits / core traits -------------------------------------
pub trait Zero: Sized { spec fn zero_spec() -> Self; fn zero() -> (r: Self) ensures r == Self::zero_spec(); }
pub trait One: Sized { spec fn one_spec() -> Self; fn one() -> (r: Self) ensures r == Self::one_spec(); }
pub trait Index<I> {
    type Output;
    spec fn index_req(&self, i: I) -> bool;
    spec fn index_val(&self, i: I) -> Self::Output;
    fn index(&self, index: I) -> (r: &Self::Output) requires self.index_req(index) ensures *r == self.index_val(index);
}
pub trait IndexMut<I>: Index<I> {
    spec fn index_post(&self, i: I, v: Self::Output, post: &Self) -> bool;
    fn index_mut(&mut self, index: I) -> (r: &mut Self::Output) requires old(self).index_req(index)
        ensures *r == old(self).index_val(index), old(self).index_post(index, *final(r), final(self));
}
pub trait From<V>: Sized {
    #[verifier::prophetic] spec fn from_req(v: V) -> bool;
    #[verifier::prophetic] spec fn from_post(v: V, r: Self) -> bool;
    fn from__(value: V) -> (r: Self) requires Self::from_req(value) ensures Self::from_post(value, r);
}
pub trait Into<U>: Sized {
    #[verifier::prophetic] spec fn into_req(self) -> bool;
    #[verifier::prophetic] spec fn into_post(self, r: U) -> bool;
    fn into__(self) -> (r: U) requires self.into_req() ensures self.into_post(r);
}
pub trait AsRef<U: ?Sized + View> {
    spec fn as_ref_spec(&self) -> U::V;
    fn as_ref(&self) -> (r: &U) ensures r@ == self.as_ref_spec();
}
pub trait AsMut<U: ?Sized + View> {
    spec fn as_mut_pre(&self) -> U::V;
    spec fn as_mut_post(&self, v: U::V, post: &Self) -> bool;
    fn as_mut(&mut self) -> (r: &mut U) ensures r@ == old(self).as_mut_pre(), old(self).as_mut_post(final(r)@, final(self));
}
impl<V, U: From<V>> Into<U> for V {
    #[verifier::prophetic] open spec fn into_req(self) -> bool { U::from_req(self) }
    #[verifier::prophetic] open spec fn into_post(self, r: U) -> bool { U::from_post(self, r) }
    fn into__(self) -> (r: U) { U::from__(self) }
}
impl<T> From<T> for T {
    #[verifier::prophetic] open spec fn from_req(v: T) -> bool { true }
    #[verifier::prophetic] open spec fn from_post(v: T, r: T) -> bool { r == v }
    fn from__(value: T) -> (r: T) { value }
}
impl<T> From<Vec<T>> for Box<[T]> {
    #[verifier::prophetic] open spec fn from_req(v: Vec<T>) -> bool { true }
    #[verifier::prophetic] open spec fn from_post(v: Vec<T>, r: Box<[T]>) -> bool { r@ == v@ }
    #[verifier::external_body]
    fn from__(value: Vec<T>) -> (r: Box<[T]>) { value.into_boxed_slice() }
}
#[verifier::external_body]
pub fn vec_repeat<T: Copy>(v: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == v
{ let mut r = Vec::new(); r.resize(n, v); r }
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], value: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> (#[trigger] final(s)@[i]) == value;

// ---- nalgebra's storage interface: what it may read through the pointer ---------------------
pub struct Const<const N: usize>;
pub trait Dim { spec fn dim() -> int; }
impl<const N: usize> Dim for Const<N> { open spec fn dim() -> int { N as int } }
pub trait IsContiguous {}
/// the elements from the pointer on, up to the end of the allocation it points into
pub uninterp spec fn behind<T>(p: *const T) -> Seq<T>;
pub assume_specification<T>[ <[T]>::as_ptr ](s: &[T]) -> (p: *const T) ensures behind(p) == s@;
#[verifier::external_body]
pub fn from_raw_parts<'a, T>(p: *const T, n: usize) -> (r: &'a [T]) requires n <= behind(p).len() ensures r@ == behind(p).subrange(0, n as int) { unsafe { core::slice::from_raw_parts(p, n) } }
/// a failed run-time guard: nothing after it runs
#[verifier::external_body]
pub fn panics() -> (r: ()) ensures false { panic!() }
/// the offset of element (r, c) for the given strides
pub open spec fn off(r: int, c: int, rs: int, cs: int) -> int { r * rs + c * cs }
pub broadcast proof fn off_row_major(r: int, c: int, rs: int, cs: int) requires cs == 1 ensures #[trigger] off(r, c, rs, cs) == ix(r, c, rs) { assert(r * rs + c * cs == r * rs + c) by(nonlinear_arith) requires cs == 1; }
pub proof fn ix_last(rows: int, cols: int) ensures ix(rows - 1, cols - 1, cols) + 1 == rows * cols { assert((rows - 1) * cols + (cols - 1) + 1 == rows * cols) by(nonlinear_arith); }
pub proof fn ix_all(rows: int, cols: int) ensures forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols ==> 0 <= #[trigger] ix(r, c, cols) < rows * cols {
  assert forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols implies 0 <= #[trigger] ix(r, c, cols) < rows * cols by { ix_bound(r, c, cols, rows); }
}
/// nalgebra reads element (r, c) at offset r * RStride + c * CStride for every r below R and c below C, without any check
pub trait RawStorage<T, R: Dim, C: Dim>: Sized {
    type RStride: Dim;
    type CStride: Dim;
    spec fn elem(&self, r: int, c: int) -> T;
    fn ptr(&self) -> (p: *const T)
        ensures forall|r: int, c: int| 0 <= r < R::dim() && 0 <= c < C::dim() ==> 0 <= off(r, c, Self::RStride::dim(), Self::CStride::dim()) < behind(p).len() && behind(p)[off(r, c, Self::RStride::dim(), Self::CStride::dim())] == #[trigger] self.elem(r, c);
    fn shape(&self) -> (r: (R, C));
    fn strides(&self) -> (r: (Self::RStride, Self::CStride));
    fn is_contiguous(&self) -> (r: bool) ensures r ==> (R::dim() >= 1 && C::dim() >= 1 ==> off(R::dim() - 1, C::dim() - 1, Self::RStride::dim(), Self::CStride::dim()) + 1 == R::dim() * C::dim());
    fn as_slice_unchecked(&self) -> (r: &[T])
        ensures r@.len() == R::dim() * C::dim(), forall|i: int, j: int| 0 <= i < R::dim() && 0 <= j < C::dim() ==> 0 <= off(i, j, Self::RStride::dim(), Self::CStride::dim()) < r@.len() && r@[off(i, j, Self::RStride::dim(), Self::CStride::dim())] == #[trigger] self.elem(i, j);
}

// ---- the element type: assumed to be exact real arithmetic ------------------------------
pub trait MatrixDataTypeBase: Sized + Copy + Zero + One
  + Add<Self, Output=Self> + AddSpec<Self> + Sub<Self, Output=Self> + SubSpec<Self>
  + Mul<Self, Output=Self> + MulSpec<Self> + Div<Self, Output=Self> + DivSpec<Self> + Neg<Output=Self> + NegSpec
  + AddAssign<Self> + AddAssignSpec<Self> + SubAssign<Self> + SubAssignSpec<Self>
  + PartialEq + PartialEqSpec + PartialOrd + PartialOrdSpec
{
    spec fn val(self) -> real;
}
pub open spec fn laws_hold<T: MatrixDataTypeBase>() -> bool {
    &&& T::obeys_add_spec() &&& T::obeys_sub_spec() &&& T::obeys_mul_spec() &&& T::obeys_div_spec() &&& T::obeys_neg_spec()
    &&& T::obeys_add_assign_spec() &&& T::obeys_sub_assign_spec()
    &&& T::obeys_partial_cmp_spec() &&& T::obeys_eq_spec()
    &&& forall|a: T, b: T| #[trigger] a.add_req(b)
    &&& forall|a: T, b: T| #[trigger] a.sub_req(b)
    &&& forall|a: T, b: T| #[trigger] a.mul_req(b)
    &&& forall|a: T, b: T| #[trigger] a.div_req(b)
    &&& forall|a: T| #[trigger] a.neg_req()
    &&& forall|a: T, b: T| #[trigger] a.add_assign_req(b)
    &&& forall|a: T, b: T| #[trigger] a.sub_assign_req(b)
    &&& forall|a: T, b: T| (#[trigger] a.add_spec(b)).val() == a.val() + b.val()
    &&& forall|a: T, b: T| (#[trigger] a.sub_spec(b)).val() == a.val() - b.val()
    &&& forall|a: T, b: T| (#[trigger] a.mul_spec(b)).val() == a.val() * b.val() && a.val() * b.val() == b.val() * a.val()
            && (-a.val()) * b.val() == -(a.val() * b.val()) && a.val() * (-b.val()) == -(a.val() * b.val())
    &&& forall|a: T, b: T| b.val() != 0real ==> (#[trigger] a.div_spec(b)).val() == a.val() / b.val()
    &&& forall|a: T| (#[trigger] a.neg_spec()).val() == -a.val()
    &&& forall|a: T, b: T| (#[trigger] a.add_assign_spec(b)).val() == a.val() + b.val()
    &&& forall|a: T, b: T| (#[trigger] a.sub_assign_spec(b)).val() == a.val() - b.val()
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a.val() == b.val())
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == (if a.val() < b.val() { Some(core::cmp::Ordering::Less) } else if a.val() == b.val() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) })
    &&& T::zero_spec().val() == 0real
    &&& T::one_spec().val() == 1real
}

// ---- matrices of reals --------------------------------------------------------------------
pub type Mx = Seq<Seq<real>>;
pub open spec fn ix(i: int, j: int, c: int) -> int { i*c+j }
pub open spec fn mx<T: MatrixDataTypeBase>(d: Seq<T>, r: int, c: int) -> Mx { Seq::new(r as nat, |i: int| Seq::new(c as nat, |j: int| d[ix(i,j,c)].val())) }
pub open spec fn build(r: int, c: int, f: spec_fn(int, int) -> real) -> Mx { Seq::new(r as nat, |i: int| Seq::new(c as nat, |j: int| f(i, j))) }
pub open spec fn is_mx(a: Mx, r: int, c: int) -> bool { a.len() == r && forall|i: int| 0 <= i < r ==> (#[trigger] a[i]).len() == c }
pub open spec fn dot(a: Mx, b: Mx, i: int, j: int, n: int) -> real decreases n { if n <= 0 { 0real } else { dot(a,b,i,j,n-1) + a[i][n-1]*b[n-1][j] } }
pub open spec fn mmul(a: Mx, b: Mx, r: int, n: int, c: int) -> Mx { Seq::new(r as nat, |i: int| Seq::new(c as nat, |j: int| dot(a,b,i,j,n))) }
pub open spec fn mtr(a: Mx, r: int, c: int) -> Mx { Seq::new(c as nat, |i: int| Seq::new(r as nat, |j: int| a[j][i])) }
pub open spec fn madd(a: Mx, b: Mx, r: int, c: int) -> Mx { Seq::new(r as nat, |i: int| Seq::new(c as nat, |j: int| a[i][j] + b[i][j])) }
pub open spec fn msub(a: Mx, b: Mx, r: int, c: int) -> Mx { Seq::new(r as nat, |i: int| Seq::new(c as nat, |j: int| a[i][j] - b[i][j])) }
pub open spec fn mscale(a: Mx, s: real, r: int, c: int) -> Mx { Seq::new(r as nat, |i: int| Seq::new(c as nat, |j: int| a[i][j] * s)) }
pub open spec fn ident(n: int) -> Mx { Seq::new(n as nat, |i: int| Seq::new(n as nat, |j: int| if i == j { 1real } else { 0real })) }
pub open spec fn symm(a: Mx, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] a[i][j] == a[j][i] }
/// nothing but the first n elements may differ
pub open spec fn frame<T>(a: Seq<T>, b: Seq<T>, n: int) -> bool { a.len() == b.len() && forall|q: int| n <= q < b.len() ==> #[trigger] b[q] == a[q] }

// ---- plumbing -------------------------------------------------------------------------------
pub proof fn need<I: vstd::std_specs::iter::IteratorSpec>() {}
pub proof fn need2<I: vstd::std_specs::iter::DoubleEndedIteratorSpec>() {}
pub proof fn order_deps() { need::<core::iter::Rev<core::ops::Range<usize>>>(); need2::<core::ops::Range<usize>>(); need::<core::ops::Range<usize>>();
 need::<core::iter::Rev<core::ops::RangeInclusive<usize>>>(); need2::<core::ops::RangeInclusive<usize>>(); need::<core::ops::RangeInclusive<usize>>();
}
pub broadcast proof fn ix_inj(i: int, j: int, p: int, q: int, c: int)
  requires 0 <= j < c, 0 <= q < c, ix(i,j,c) == ix(p,q,c)
  ensures #![trigger ix(i,j,c), ix(p,q,c)] i == p && j == q
{ if i < p { assert(i*c + c <= p*c) by(nonlinear_arith) requires i < p, 0 <= c; } else if i > p { assert(p*c + c <= i*c) by(nonlinear_arith) requires p < i, 0 <= c; } }
pub broadcast proof fn ix_bound(i: int, j: int, c: int, r: int)
  requires 0 <= i < r, 0 <= j < c
  ensures #![trigger ix(i,j,c), r*c] 0 <= i*c <= ix(i,j,c) < r*c
{ assert(0 <= i*c && i*c+c <= r*c) by(nonlinear_arith) requires 0 <= i < r, 0<=c; }
pub broadcast proof fn idx_succ(i: int, c: int)
  ensures #![trigger (i+1)*c] (i+1)*c == i*c + c
{ assert((i+1)*c == i*c+c) by(nonlinear_arith); }
/// filled row by row: rows < i, and row i up to column j, hold the elements of e; the rest is untouched
#[verifier::opaque]
pub open spec fn by_rows<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, r: int, u: int, e: Mx, i: int, j: int) -> bool {
  &&& 0 <= i <= r && 0 <= j <= u && r * u <= c.len() && frame(c0, c, r * u) && is_mx(e, r, u)
  &&& forall|p: int, q: int| 0 <= p < r && 0 <= q < u && (p < i || (p == i && q < j)) ==> #[trigger] mx(c, r, u)[p][q] == e[p][q]
  &&& forall|p: int, q: int| 0 <= p < r && 0 <= q < u && !(p < i || (p == i && q < j)) ==> #[trigger] c[ix(p, q, u)] == c0[ix(p, q, u)]
}
pub proof fn rows_begin<T: MatrixDataTypeBase>(c: Seq<T>, r: int, u: int, e: Mx) requires 0 <= r, 0 <= u, r * u <= c.len(), is_mx(e, r, u) ensures by_rows(c, c, r, u, e, 0, 0) { reveal(by_rows); }
pub proof fn rows_next<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, r: int, u: int, e: Mx, i: int) requires by_rows(c0, c, r, u, e, i, u), i < r ensures by_rows(c0, c, r, u, e, i + 1, 0) { reveal(by_rows); }
pub proof fn rows_cell<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, r: int, u: int, e: Mx, i: int, j: int)
  requires by_rows(c0, c, r, u, e, i, j), i < r, j < u
  ensures 0 <= i * u, 0 <= i * u + j < r * u <= c.len(), i * u + u <= r * u, (i + 1) * u == i * u + u, c.len() == c0.len(), c[i * u + j] == c0[i * u + j], mx(c0, r, u)[i][j] == c0[i * u + j].val()
{ reveal(by_rows); at(c0, r, u, i, j); assert(c[ix(i, j, u)] == c0[ix(i, j, u)]); }
pub proof fn rows_step<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, d: Seq<T>, r: int, u: int, e: Mx, i: int, j: int)
  requires by_rows(c0, c, r, u, e, i, j), i < r, j < u, d == c.update(i * u + j, d[i * u + j]), d[i * u + j].val() == e[i][j]
  ensures by_rows(c0, d, r, u, e, i, j + 1)
{
  reveal(by_rows); ix_bound(i, j, u, r);
  assert forall|p: int, q: int| 0 <= p < r && 0 <= q < u && (p < i || (p == i && q < j + 1)) implies #[trigger] mx(d, r, u)[p][q] == e[p][q] by {
    ix_bound(p, q, u, r); if !(p == i && q == j) { assert(mx(c, r, u)[p][q] == e[p][q]); if ix(p, q, u) == ix(i, j, u) { ix_inj(p, q, i, j, u); } } }
  assert forall|p: int, q: int| 0 <= p < r && 0 <= q < u && !(p < i || (p == i && q < j + 1)) implies #[trigger] d[ix(p, q, u)] == c0[ix(p, q, u)] by {
    ix_bound(p, q, u, r); assert(c[ix(p, q, u)] == c0[ix(p, q, u)]); if ix(p, q, u) == ix(i, j, u) { ix_inj(p, q, i, j, u); } }
}
pub proof fn rows_done<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, r: int, u: int, e: Mx)
  requires by_rows(c0, c, r, u, e, r, 0) ensures mx(c, r, u) == e, frame(c0, c, r * u)
{ reveal(by_rows); assert(mx(c, r, u) =~~= e) by { assert forall|p: int, q: int| 0 <= p < r && 0 <= q < u implies #[trigger] mx(c, r, u)[p][q] == e[p][q] by {} } }
/// filled column by column, from the last: columns > j, and column j down to row i, hold the elements of e
#[verifier::opaque]
pub open spec fn by_cols<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, r: int, u: int, e: Mx, j: int, i: int) -> bool {
  &&& 0 <= i <= r && -1 <= j < u && r * u <= c.len() && frame(c0, c, r * u) && is_mx(e, r, u)
  &&& forall|p: int, q: int| 0 <= p < r && 0 <= q < u && (q > j || (q == j && p < i)) ==> #[trigger] mx(c, r, u)[p][q] == e[p][q]
}
pub proof fn cols_begin<T: MatrixDataTypeBase>(c: Seq<T>, r: int, u: int, e: Mx) requires 0 <= r, 0 <= u, r * u <= c.len(), is_mx(e, r, u) ensures by_cols(c, c, r, u, e, u - 1, 0) { reveal(by_cols); }
pub proof fn cols_next<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, r: int, u: int, e: Mx, j: int) requires by_cols(c0, c, r, u, e, j, r), 0 <= j ensures by_cols(c0, c, r, u, e, j - 1, 0) { reveal(by_cols); }
pub proof fn cols_cell<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, r: int, u: int, e: Mx, j: int, i: int)
  requires by_cols(c0, c, r, u, e, j, i), 0 <= i < r, 0 <= j
  ensures 0 <= i * u, 0 <= i * u + j < r * u <= c.len(), c.len() == c0.len()
{ reveal(by_cols); ix_bound(i, j, u, r); }
pub proof fn cols_step<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, d: Seq<T>, r: int, u: int, e: Mx, j: int, i: int)
  requires by_cols(c0, c, r, u, e, j, i), 0 <= i < r, 0 <= j, d == c.update(i * u + j, d[i * u + j]), d[i * u + j].val() == e[i][j]
  ensures by_cols(c0, d, r, u, e, j, i + 1)
{
  reveal(by_cols); ix_bound(i, j, u, r);
  assert forall|p: int, q: int| 0 <= p < r && 0 <= q < u && (q > j || (q == j && p < i + 1)) implies #[trigger] mx(d, r, u)[p][q] == e[p][q] by {
    ix_bound(p, q, u, r); if !(p == i && q == j) { assert(mx(c, r, u)[p][q] == e[p][q]); if ix(p, q, u) == ix(i, j, u) { ix_inj(p, q, i, j, u); } } }
}
pub proof fn cols_done<T: MatrixDataTypeBase>(c0: Seq<T>, c: Seq<T>, r: int, u: int, e: Mx)
  requires by_cols(c0, c, r, u, e, -1, 0) ensures mx(c, r, u) == e, frame(c0, c, r * u)
{ reveal(by_cols); assert(mx(c, r, u) =~~= e) by { assert forall|p: int, q: int| 0 <= p < r && 0 <= q < u implies #[trigger] mx(c, r, u)[p][q] == e[p][q] by {} } }
pub proof fn col_index(i: int, k: int, u: int) ensures (i + 1) * k == i * k + k, i * k == k * i { idx_succ(i, k); assert(i * k == k * i) by(nonlinear_arith); }
/// one element of a buffer read as an r x c matrix
pub proof fn at<T: MatrixDataTypeBase>(a: Seq<T>, r: int, c: int, i: int, j: int)
  requires 0 <= i < r, 0 <= j < c, r * c <= a.len()
  ensures 0 <= i * c, 0 <= i * c + j < r * c, i * c + c <= r * c, (i + 1) * c == i * c + c, mx(a, r, c)[i][j] == a[i * c + j].val(), mx(a, r, c).len() == r, mx(a, r, c)[i].len() == c
{ ix_bound(i, j, c, r); ix_bound(i, c - 1, c, r); idx_succ(i, c); }
/// a buffer read as a column
pub proof fn at_col<T: MatrixDataTypeBase>(a: Seq<T>, r: int)
  requires 0 <= r <= a.len()
  ensures forall|p: int| 0 <= p < r ==> (#[trigger] mx(a, r, 1)[p][0]) == a[p].val()
{ assert forall|p: int| 0 <= p < r implies (#[trigger] mx(a, r, 1)[p][0]) == a[p].val() by { assert(ix(p, 0, 1) == p); } }
/// every position below r*c is the place of one (row, column) pair
pub proof fn ix_surj(q: int, r: int, c: int) -> (ij: (int, int))
  requires 0 <= q < r*c, 0 <= r, 0 <= c
  ensures 0 <= ij.0 < r, 0 <= ij.1 < c, ix(ij.0, ij.1, c) == q
{
    if c == 0 { assert(r*c == 0) by(nonlinear_arith) requires c == 0; }
    let i = q / c; let j = q % c;
    assert(i*c + j == q && 0 <= j < c && 0 <= i < r) by(nonlinear_arith) requires i == q/c, j == q%c, 0 <= q < r*c, 0 < c;
    (i, j)
}
pub proof fn slice_bound<T>(s: &[T]) ensures s@.len() <= usize::MAX { let n = vstd::slice::spec_slice_len(s); }
pub proof fn lemma_recip(x: real) ensures x != 0real ==> (1real / x) * x == 1real
{ if x != 0real { assert((1real / x) * x == 1real) by(nonlinear_arith) requires x != 0real; } }

// ---- sums -------------------------------------------------------------------------------------
pub open spec fn sum(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { sum(f, n-1) + f(n-1) } }
pub proof fn sum_ext(f: spec_fn(int) -> real, h: spec_fn(int) -> real, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == h(k) ensures sum(f, n) == sum(h, n) decreases n
{ if n > 0 { sum_ext(f, h, n-1); assert(f(n-1) == h(n-1)); } }
pub proof fn sum_add(f: spec_fn(int) -> real, h: spec_fn(int) -> real, n: int)
    ensures sum(|k: int| f(k) + h(k), n) == sum(f, n) + sum(h, n) decreases n
{ if n > 0 { sum_add(f, h, n-1); } }
pub proof fn sum_scale(f: spec_fn(int) -> real, c: real, n: int)
    ensures sum(|k: int| c * f(k), n) == c * sum(f, n), sum(|k: int| f(k) * c, n) == sum(f, n) * c decreases n
{ if n > 0 { sum_scale(f, c, n-1); let a = sum(f, n-1); let b = f(n-1);
    assert(c * (a + b) == c*a + c*b && (a + b) * c == a*c + b*c) by(nonlinear_arith); } else { assert(c * 0real == 0real && 0real * c == 0real) by(nonlinear_arith); } }
pub proof fn sum_zero(f: spec_fn(int) -> real, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == 0real ensures sum(f, n) == 0real decreases n
{ if n > 0 { sum_zero(f, n-1); assert(f(n-1) == 0real); } }
/// only term p is not zero
pub proof fn sum_single(f: spec_fn(int) -> real, p: int, n: int)
    requires 0 <= p < n, forall|k: int| 0 <= k < n && k != p ==> #[trigger] f(k) == 0real ensures sum(f, n) == f(p) decreases n
{ if n - 1 == p { sum_zero(f, n-1); } else { sum_single(f, p, n-1); assert(f(n-1) == 0real); } }
pub proof fn sum_swap(f: spec_fn(int, int) -> real, n: int, m: int)
    ensures sum(|i: int| sum(|j: int| f(i, j), m), n) == sum(|j: int| sum(|i: int| f(i, j), n), m) decreases n
{
    if n <= 0 {
        sum_zero(|j: int| sum(|i: int| f(i, j), n), m);
    } else {
        sum_swap(f, n-1, m);
        let a = |j: int| sum(|i: int| f(i, j), n-1); let b = |j: int| f(n-1, j);
        sum_add(a, b, m);
        sum_ext(|j: int| a(j) + b(j), |j: int| sum(|i: int| f(i, j), n), m);
        assert(sum(|i: int| sum(|j: int| f(i, j), m), n) == sum(|i: int| sum(|j: int| f(i, j), m), n-1) + sum(|j: int| f(n-1, j), m));
        sum_ext(a, |j: int| sum(|i: int| f(i, j), n-1), m);
        sum_ext(b, |j: int| f(n-1, j), m);
    }
}
pub open spec fn term(a: Mx, b: Mx, i: int, j: int) -> spec_fn(int) -> real { |k: int| a[i][k] * b[k][j] }
pub proof fn dot_sum(a: Mx, b: Mx, i: int, j: int, n: int) ensures dot(a, b, i, j, n) == sum(term(a, b, i, j), n) decreases n
{ if n > 0 { dot_sum(a, b, i, j, n-1); } }
pub proof fn dot_ext(a: Mx, b: Mx, c: Mx, d: Mx, i: int, j: int, p: int, q: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a[i][k] == c[p][k], forall|k: int| 0 <= k < n ==> #[trigger] b[k][j] == d[k][q]
    ensures dot(a, b, i, j, n) == dot(c, d, p, q, n) decreases n
{ if n > 0 { dot_ext(a, b, c, d, i, j, p, q, n-1); assert(a[i][n-1] == c[p][n-1]); assert(b[n-1][j] == d[n-1][q]); } }

// ---- matrix algebra ----------------------------------------------------------------------------
pub proof fn mul_assoc(a: Mx, b: Mx, c: Mx, r: int, n: int, m: int, s: int)
    requires r >= 0, n >= 0, m >= 0, s >= 0
    ensures mmul(mmul(a, b, r, n, m), c, r, m, s) == mmul(a, mmul(b, c, n, m, s), r, n, s)
{
    let ab = mmul(a, b, r, n, m); let bc = mmul(b, c, n, m, s);
    let l = mmul(ab, c, r, m, s); let t = mmul(a, bc, r, n, s);
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < s implies #[trigger] l[i][j] == t[i][j] by {
        dot_sum(ab, c, i, j, m); dot_sum(a, bc, i, j, n);
        let f = |k: int, p: int| (a[i][p] * b[p][k]) * c[k][j];
        let g1 = |k: int| sum(|p: int| f(k, p), n); let g2 = |p: int| sum(|k: int| f(k, p), m);
        assert forall|k: int| 0 <= k < m implies #[trigger] term(ab, c, i, j)(k) == g1(k) by {
            dot_sum(a, b, i, k, n);
            sum_scale(term(a, b, i, k), c[k][j], n);
            sum_ext(|p: int| term(a, b, i, k)(p) * c[k][j], |p: int| f(k, p), n);
        }
        sum_ext(term(ab, c, i, j), g1, m);
        sum_swap(f, m, n);
        assert forall|p: int| 0 <= p < n implies #[trigger] term(a, bc, i, j)(p) == g2(p) by {
            dot_sum(b, c, p, j, m);
            sum_scale(term(b, c, p, j), a[i][p], m);
            let h1 = |k: int| a[i][p] * term(b, c, p, j)(k); let h2 = |k: int| f(k, p);
            assert forall|k: int| 0 <= k < m implies #[trigger] h1(k) == h2(k) by {
                let x = a[i][p]; let y = b[p][k]; let z = c[k][j];
                assert(x * (y * z) == (x * y) * z) by(nonlinear_arith);
            }
            sum_ext(h1, h2, m);
        }
        sum_ext(term(a, bc, i, j), g2, n);
    }
    assert(l =~~= t);
}
pub proof fn mul_tr(a: Mx, b: Mx, r: int, n: int, c: int)
    requires r >= 0, n >= 0, c >= 0
    ensures mtr(mmul(a, b, r, n, c), r, c) == mmul(mtr(b, n, c), mtr(a, r, n), c, n, r)
{
    let l = mtr(mmul(a, b, r, n, c), r, c); let t = mmul(mtr(b, n, c), mtr(a, r, n), c, n, r);
    assert forall|i: int, j: int| 0 <= i < c && 0 <= j < r implies #[trigger] l[i][j] == t[i][j] by {
        dot_sum(a, b, j, i, n); dot_sum(mtr(b, n, c), mtr(a, r, n), i, j, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] term(a, b, j, i)(k) == term(mtr(b, n, c), mtr(a, r, n), i, j)(k) by {
            let x = a[j][k]; let y = b[k][i]; assert(x * y == y * x) by(nonlinear_arith);
        }
        sum_ext(term(a, b, j, i), term(mtr(b, n, c), mtr(a, r, n), i, j), n);
    }
    assert(l =~~= t);
}
pub proof fn mul_ident(a: Mx, r: int, n: int)
    requires is_mx(a, r, n), r >= 0, n >= 0
    ensures mmul(a, ident(n), r, n, n) == a, mmul(ident(r), a, r, r, n) == a
{
    let l = mmul(a, ident(n), r, n, n); let t = mmul(ident(r), a, r, r, n);
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < n implies #[trigger] l[i][j] == a[i][j] by {
        dot_sum(a, ident(n), i, j, n);
        assert forall|k: int| 0 <= k < n && k != j implies #[trigger] term(a, ident(n), i, j)(k) == 0real by { let x = a[i][k]; assert(x * 0real == 0real) by(nonlinear_arith); }
        sum_single(term(a, ident(n), i, j), j, n); let x = a[i][j]; assert(x * 1real == x) by(nonlinear_arith);
    }
    assert(l =~~= a);
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < n implies #[trigger] t[i][j] == a[i][j] by {
        dot_sum(ident(r), a, i, j, r);
        assert forall|k: int| 0 <= k < r && k != i implies #[trigger] term(ident(r), a, i, j)(k) == 0real by { let x = a[k][j]; assert(0real * x == 0real) by(nonlinear_arith); }
        sum_single(term(ident(r), a, i, j), i, r); let x = a[i][j]; assert(1real * x == x) by(nonlinear_arith);
    }
    assert(t =~~= a);
}
pub proof fn tr_tr(a: Mx, r: int, c: int) requires is_mx(a, r, c), r >= 0, c >= 0 ensures mtr(mtr(a, r, c), c, r) == a
{ assert(mtr(mtr(a, r, c), c, r) =~~= a); }
pub proof fn tr_symm(a: Mx, n: int) requires is_mx(a, n, n), n >= 0 ensures symm(a, n) <==> mtr(a, n, n) == a
{ if symm(a, n) { assert(mtr(a, n, n) =~~= a); }
  if mtr(a, n, n) == a { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] a[i][j] == a[j][i] by { assert(mtr(a, n, n)[i][j] == a[j][i]); } } }

// ---- triangular factors ------------------------------------------------------------------------
/// sum over k < m of l[i][k] * l[j][k]
pub open spec fn cdot(l: Mx, i: int, j: int, m: int) -> real decreases m { if m <= 0 { 0real } else { cdot(l, i, j, m-1) + l[i][m-1] * l[j][m-1] } }
pub proof fn cdot_ext(a: Mx, b: Mx, i: int, j: int, m: int)
    requires forall|k: int| 0 <= k < m ==> #[trigger] a[i][k] == b[i][k], forall|k: int| 0 <= k < m ==> #[trigger] a[j][k] == b[j][k]
    ensures cdot(a, i, j, m) == cdot(b, i, j, m) decreases m
{ if m > 0 { cdot_ext(a, b, i, j, m-1); assert(a[i][m-1] == b[i][m-1] && a[j][m-1] == b[j][m-1]); } }
/// the first `c` columns of l are the first columns of a Cholesky factor of (the upper triangle of) s
pub open spec fn pchol(s: Mx, l: Mx, n: int, c: int) -> bool {
    (forall|i: int| 0 <= i < c ==> #[trigger] l[i][i] > 0real)
    && (forall|i: int, j: int| 0 <= i < c && i <= j < n ==> #[trigger] s[i][j] == cdot(l, i, j, i+1))
}
pub open spec fn lower(l: Mx, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] l[i][j] == 0real }
/// l is the Cholesky factor of s: lower triangular, positive diagonal, L L^T = s (s read in its upper triangle)
pub open spec fn is_chol(s: Mx, l: Mx, n: int) -> bool { is_mx(l, n, n) && lower(l, n) && pchol(s, l, n, n) }
/// s is positive definite (as far as its upper triangle says): it has a Cholesky factor
pub open spec fn has_chol(s: Mx, n: int) -> bool { exists|m: Mx| is_chol(s, m, n) }
pub proof fn chol_unique(s: Mx, l: Mx, m: Mx, n: int, c: int)
    requires 0 <= c <= n, pchol(s, l, n, c), pchol(s, m, n, c)
    ensures forall|j: int, k: int| 0 <= k < c && k <= j < n ==> #[trigger] l[j][k] == m[j][k]
    decreases c
{
    if c > 0 {
        let k = c - 1;
        assert(pchol(s, l, n, k)); assert(pchol(s, m, n, k));
        chol_unique(s, l, m, n, k);
        cdot_ext(l, m, k, k, k);
        assert(s[k][k] == cdot(l, k, k, k+1)); assert(s[k][k] == cdot(m, k, k, k+1));
        let x = l[k][k]; let y = m[k][k];
        assert(x * x == y * y);
        assert(x == y) by(nonlinear_arith) requires x > 0real, y > 0real, x * x == y * y;
        assert forall|j: int, p: int| 0 <= p < c && p <= j < n implies #[trigger] l[j][p] == m[j][p] by {
            if p == k {
                cdot_ext(l, m, k, j, k);
                assert(s[k][j] == cdot(l, k, j, k+1)); assert(s[k][j] == cdot(m, k, j, k+1));
                let a = l[j][k]; let b = m[j][k];
                assert(x * a == x * b);
                assert(a == b) by(nonlinear_arith) requires x > 0real, x * a == x * b;
            }
        }
    }
}
/// pchol only looks at the first c columns, on and below the diagonal
pub proof fn pchol_ext(s: Mx, l: Mx, m: Mx, n: int, c: int)
    requires pchol(s, l, n, c), c <= n, forall|p: int, q: int| 0 <= q < c && q <= p < n ==> #[trigger] m[p][q] == l[p][q]
    ensures pchol(s, m, n, c)
{
    assert forall|i: int| 0 <= i < c implies #[trigger] m[i][i] > 0real by { assert(l[i][i] > 0real); }
    assert forall|i: int, j: int| 0 <= i < c && i <= j < n implies #[trigger] s[i][j] == cdot(m, i, j, i+1) by {
        assert forall|k: int| 0 <= k < i + 1 implies #[trigger] l[i][k] == m[i][k] by { assert(m[i][k] == l[i][k]); }
        assert forall|k: int| 0 <= k < i + 1 implies #[trigger] l[j][k] == m[j][k] by { assert(m[j][k] == l[j][k]); }
        cdot_ext(l, m, i, j, i+1); }
}
/// one more column
pub proof fn pchol_step(s: Mx, l: Mx, n: int, i: int)
    requires pchol(s, l, n, i), 0 <= i < n, l[i][i] > 0real, forall|j: int| i <= j < n ==> #[trigger] s[i][j] == cdot(l, i, j, i+1)
    ensures pchol(s, l, n, i+1)
{}
/// one more entry (row j) of column i
pub proof fn pchol_entry(s: Mx, l: Mx, m: Mx, n: int, i: int, j: int, div: real, sum: real)
    requires 0 <= i <= j < n, pchol(s, l, n, i),
        forall|p: int, q: int| 0 <= p < n && 0 <= q < n && !(p == j && q == i) ==> #[trigger] m[p][q] == l[p][q],
        forall|k: int| i <= k < j ==> #[trigger] s[i][k] == cdot(l, i, k, i+1),
        sum == s[i][j] - cdot(l, i, j, i),
        j > i ==> div * l[i][i] == 1real && m[j][i] == sum * div,
        j == i ==> m[i][i] * m[i][i] == sum,
    ensures pchol(s, m, n, i), forall|k: int| i <= k <= j ==> #[trigger] s[i][k] == cdot(m, i, k, i+1)
{
    assert forall|p: int, q: int| 0 <= q < i && q <= p < n implies #[trigger] m[p][q] == l[p][q] by {}
    pchol_ext(s, l, m, n, i);
    assert forall|k: int| i <= k <= j implies #[trigger] s[i][k] == cdot(m, i, k, i+1) by {
        cdot_ext(l, m, i, k, i);
        if k < j { assert(s[i][k] == cdot(l, i, k, i+1)); assert(m[k][i] == l[k][i]); assert(m[i][i] == l[i][i]); }
        else if j > i { assert(m[i][i] == l[i][i]); div_step(m[i][i], div, sum); }
    }
}
pub proof fn no_chol(s: Mx, l: Mx, n: int, i: int)
    requires 0 <= i < n, pchol(s, l, n, i), s[i][i] - cdot(l, i, i, i) <= 0real
    ensures !has_chol(s, n)
{
    assert forall|m: Mx| !is_chol(s, m, n) by {
        if is_chol(s, m, n) {
            assert(pchol(s, m, n, i));
            chol_unique(s, l, m, n, i);
            cdot_ext(l, m, i, i, i);
            assert(s[i][i] == cdot(m, i, i, i+1));
            let x = m[i][i];
            assert(x * x > 0real) by(nonlinear_arith) requires x > 0real;
        }
    }
}
// the decomposition loop, stated on the buffer: columns < i are done, (i) column i done down to row j
#[verifier::opaque]
pub open spec fn chol_done<T: MatrixDataTypeBase>(c0: Seq<T>, t: Seq<T>, n: int, i: int) -> bool {
    &&& 0 <= i <= n && n >= 1 && n * n <= c0.len() && frame(c0, t, n * n)
    &&& forall|p: int, q: int| 0 <= p < q < n ==> (#[trigger] t[ix(p, q, n)]) == c0[ix(p, q, n)]
    &&& forall|p: int| i <= p < n ==> (#[trigger] t[ix(p, p, n)]) == c0[ix(p, p, n)]
    &&& pchol(mx(c0, n, n), mx(t, n, n), n, i)
}
#[verifier::opaque]
pub open spec fn chol_col<T: MatrixDataTypeBase>(c0: Seq<T>, t: Seq<T>, n: int, i: int, j: int, div: real) -> bool {
    &&& 0 <= i < n && i <= j <= n && n * n <= c0.len() && frame(c0, t, n * n)
    &&& forall|p: int, q: int| 0 <= p < q < n ==> (#[trigger] t[ix(p, q, n)]) == c0[ix(p, q, n)]
    &&& forall|p: int| i < p < n ==> (#[trigger] t[ix(p, p, n)]) == c0[ix(p, p, n)]
    &&& pchol(mx(c0, n, n), mx(t, n, n), n, i)
    &&& j == i ==> t[ix(i, i, n)] == c0[ix(i, i, n)]
    &&& j > i ==> t[ix(i, i, n)].val() > 0real && div * t[ix(i, i, n)].val() == 1real
    &&& forall|k: int| i <= k < j ==> #[trigger] mx(c0, n, n)[i][k] == cdot(mx(t, n, n), i, k, i + 1)
}
pub open spec fn chol_sum<T: MatrixDataTypeBase>(c0: Seq<T>, t: Seq<T>, n: int, i: int, j: int, k: int) -> real { mx(c0, n, n)[i][j] - cdot(mx(t, n, n), i, j, k) }
pub proof fn chol_begin<T: MatrixDataTypeBase>(c0: Seq<T>, n: int)
    requires n >= 1, n * n <= c0.len() ensures chol_done(c0, c0, n, 0)
{ reveal(chol_done); }
pub proof fn chol_open<T: MatrixDataTypeBase>(c0: Seq<T>, t: Seq<T>, n: int, i: int, div: real)
    requires chol_done(c0, t, n, i), i < n ensures chol_col(c0, t, n, i, i, div)
{ reveal(chol_done); reveal(chol_col); assert(t[ix(i, i, n)] == c0[ix(i, i, n)]); }
pub proof fn chol_close<T: MatrixDataTypeBase>(c0: Seq<T>, t: Seq<T>, n: int, i: int, div: real)
    requires chol_col(c0, t, n, i, n, div) ensures chol_done(c0, t, n, i + 1)
{ reveal(chol_done); reveal(chol_col); let l = mx(t, n, n); assert(l[i][i] > 0real); pchol_step(mx(c0, n, n), l, n, i); }
pub proof fn chol_first<T: MatrixDataTypeBase>(c0: Seq<T>, t: Seq<T>, n: int, i: int, j: int, div: real)
    requires chol_col(c0, t, n, i, j, div), j < n
    ensures t.len() == c0.len(), 0 <= ix(i, j, n) < t.len(), t[ix(i, j, n)].val() == chol_sum(c0, t, n, i, j, 0)
{ reveal(chol_col); ix_bound(i, j, n, n); if i < j { assert(t[ix(i, j, n)] == c0[ix(i, j, n)]); } }
pub proof fn chol_next<T: MatrixDataTypeBase>(c0: Seq<T>, t: Seq<T>, n: int, i: int, j: int, k: int)
    requires 0 <= k < i, i < n, i <= j < n, t.len() >= n * n
    ensures 0 <= ix(i, k, n) < ix(i, k, n) + 1 <= ix(i, i, n) < t.len(), 0 <= ix(j, k, n) < t.len(), ix(i, k, n) + 1 < t.len(), ix(j, k, n) + 1 < t.len(),
        chol_sum(c0, t, n, i, j, k + 1) == chol_sum(c0, t, n, i, j, k) - t[ix(i, k, n)].val() * t[ix(j, k, n)].val()
{ ix_bound(i, k, n, n); ix_bound(j, k, n, n); ix_bound(j, k + 1, n, n); ix_bound(i, i, n, n); }
pub proof fn chol_below<T: MatrixDataTypeBase>(c0: Seq<T>, tj: Seq<T>, t: Seq<T>, n: int, i: int, j: int, div: real, sum: real, v: T)
    requires chol_col(c0, tj, n, i, j, div), i < j < n, sum == chol_sum(c0, tj, n, i, j, i), v.val() == sum * div, t == tj.update(ix(j, i, n), v)
    ensures chol_col(c0, t, n, i, j + 1, div)
{
    reveal(chol_col);
    let l = mx(tj, n, n); let m = mx(t, n, n); let s = mx(c0, n, n);
    ix_bound(j, i, n, n);
    chol_entry_only(tj, t, n, j, i, v);
    pchol_entry(s, l, m, n, i, j, div, sum);
}
pub proof fn chol_diag<T: MatrixDataTypeBase>(c0: Seq<T>, tj: Seq<T>, t: Seq<T>, n: int, i: int, div0: real, div: real, sum: real, v: T)
    requires chol_col(c0, tj, n, i, i, div0), sum == chol_sum(c0, tj, n, i, i, i), sum > 0real, v.val() >= 0real, v.val() * v.val() == sum, v.val() != 0real ==> div * v.val() == 1real,
        t.len() == tj.len(), forall|q: int| 0 <= q < tj.len() ==> #[trigger] t[q] == (if q == ix(i, i, n) { v } else { tj[q] })
    ensures chol_col(c0, t, n, i, i + 1, div)
{
    reveal(chol_col);
    let l = mx(tj, n, n); let m = mx(t, n, n); let s = mx(c0, n, n);
    ix_bound(i, i, n, n);
    assert(t =~= tj.update(ix(i, i, n), v));
    chol_entry_only(tj, t, n, i, i, v);
    sqrt_pos(v.val(), sum);
    pchol_entry(s, l, m, n, i, i, div, sum);
}
pub proof fn chol_entry_only<T: MatrixDataTypeBase>(tj: Seq<T>, t: Seq<T>, n: int, j: int, i: int, v: T)
    requires 0 <= j < n, 0 <= i < n, 0 <= ix(j, i, n) < tj.len(), n * n <= tj.len(), t == tj.update(ix(j, i, n), v)
    ensures forall|p: int, q: int| 0 <= p < n && 0 <= q < n && !(p == j && q == i) ==> #[trigger] t[ix(p, q, n)] == tj[ix(p, q, n)],
        forall|p: int, q: int| 0 <= p < n && 0 <= q < n && !(p == j && q == i) ==> #[trigger] mx(t, n, n)[p][q] == mx(tj, n, n)[p][q],
        mx(t, n, n)[j][i] == v.val(), t[ix(j, i, n)] == v, frame(tj, t, n * n)
{
    ix_bound(j, i, n, n);
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && !(p == j && q == i) implies #[trigger] t[ix(p, q, n)] == tj[ix(p, q, n)] by { ix_bound(p, q, n, n); if ix(p, q, n) == ix(j, i, n) { ix_inj(p, q, j, i, n); } }
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && !(p == j && q == i) implies #[trigger] mx(t, n, n)[p][q] == mx(tj, n, n)[p][q] by { assert(t[ix(p, q, n)] == tj[ix(p, q, n)]); }
}
pub proof fn chol_fail<T: MatrixDataTypeBase>(c0: Seq<T>, t: Seq<T>, n: int, i: int, div: real)
    requires chol_col(c0, t, n, i, i, div), chol_sum(c0, t, n, i, i, i) <= 0real ensures !has_chol(mx(c0, n, n), n), frame(c0, t, n * n)
{ reveal(chol_col); no_chol(mx(c0, n, n), mx(t, n, n), n, i); }
/// rows < i (and row i up to column j) of the upper triangle are zero, the rest is as in t1
#[verifier::opaque]
pub open spec fn chol_zero<T: MatrixDataTypeBase>(t1: Seq<T>, t: Seq<T>, n: int, i: int, j: int) -> bool {
    &&& 0 <= i <= n && 0 <= j <= n && n * n <= t1.len() && frame(t1, t, n * n)
    &&& forall|p: int, q: int| 0 <= q <= p < n ==> (#[trigger] t[ix(p, q, n)]) == t1[ix(p, q, n)]
    &&& forall|p: int, q: int| 0 <= p < q < n && (p < i || (p == i && q < j)) ==> (#[trigger] t[ix(p, q, n)]).val() == 0real
}
pub proof fn chol_zero_begin<T: MatrixDataTypeBase>(t1: Seq<T>, n: int) requires 0 <= n, n * n <= t1.len() ensures chol_zero(t1, t1, n, 0, 0) { reveal(chol_zero); }
pub proof fn chol_zero_row<T: MatrixDataTypeBase>(t1: Seq<T>, t: Seq<T>, n: int, i: int)
    requires chol_zero(t1, t, n, i, 0), i < n ensures chol_zero(t1, t, n, i, i + 1) { reveal(chol_zero); }
pub proof fn chol_zero_end<T: MatrixDataTypeBase>(t1: Seq<T>, t: Seq<T>, n: int, i: int)
    requires chol_zero(t1, t, n, i, n), i < n ensures chol_zero(t1, t, n, i + 1, 0) { reveal(chol_zero); }
pub proof fn chol_zero_step<T: MatrixDataTypeBase>(t1: Seq<T>, t: Seq<T>, n: int, i: int, j: int)
    requires chol_zero(t1, t, n, i, j), 0 <= i < j < n
    ensures 0 <= ix(i, j, n) < t.len(), t.len() == t1.len(), forall|v: T| v.val() == 0real ==> #[trigger] chol_zero(t1, t.update(ix(i, j, n), v), n, i, j + 1)
{
    reveal(chol_zero); ix_bound(i, j, n, n);
    assert forall|v: T| v.val() == 0real implies #[trigger] chol_zero(t1, t.update(ix(i, j, n), v), n, i, j + 1) by {
        chol_entry_only(t, t.update(ix(i, j, n), v), n, i, j, v);
        assert forall|p: int, q: int| 0 <= q <= p < n implies #[trigger] t.update(ix(i, j, n), v)[ix(p, q, n)] == t1[ix(p, q, n)] by { assert(t[ix(p, q, n)] == t1[ix(p, q, n)]); }
        assert forall|p: int, q: int| 0 <= p < q < n && (p < i || (p == i && q < j + 1)) implies (#[trigger] t.update(ix(i, j, n), v)[ix(p, q, n)]).val() == 0real by { if !(p == i && q == j) { assert(t[ix(p, q, n)].val() == 0real); } }
    }
}
pub proof fn chol_finish<T: MatrixDataTypeBase>(c0: Seq<T>, t1: Seq<T>, t: Seq<T>, n: int)
    requires chol_done(c0, t1, n, n), chol_zero(t1, t, n, n, 0) ensures is_chol(mx(c0, n, n), mx(t, n, n), n), has_chol(mx(c0, n, n), n), frame(c0, t, n * n)
{
    reveal(chol_done); reveal(chol_zero);
    let m = mx(t, n, n); let m1 = mx(t1, n, n);
    assert forall|p: int, q: int| 0 <= q < n && q <= p < n implies #[trigger] m[p][q] == m1[p][q] by { assert(t[ix(p, q, n)] == t1[ix(p, q, n)]); }
    pchol_ext(mx(c0, n, n), m1, m, n, n);
    assert forall|p: int, q: int| 0 <= p < q < n implies #[trigger] m[p][q] == 0real by { assert(t[ix(p, q, n)].val() == 0real); }
    assert(is_chol(mx(c0, n, n), m, n));
}
pub proof fn sqrt_pos(x: real, s: real) requires x >= 0real, x * x == s, s > 0real ensures x > 0real
{ assert(x != 0real) by(nonlinear_arith) requires x * x > 0real; }
pub proof fn div_step(a: real, r: real, s: real) requires r * a == 1real ensures a * (s * r) == s
{ assert(a * (s * r) == s * (r * a)) by(nonlinear_arith); assert(s * 1real == s) by(nonlinear_arith); }
/// a Cholesky factor multiplied out
pub proof fn chol_product(s: Mx, l: Mx, n: int)
    requires is_chol(s, l, n), is_mx(s, n, n), symm(s, n), n >= 0
    ensures mmul(l, mtr(l, n, n), n, n, n) == s
{
    let p = mmul(l, mtr(l, n, n), n, n, n);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] p[i][j] == s[i][j] by {
        let (a, b) = if i <= j { (i, j) } else { (j, i) };
        cdot_dot(l, i, j, n, n);
        cdot_comm(l, i, j, n);
        cdot_tail(l, a, b, a + 1, n, n);
        assert(s[a][b] == cdot(l, a, b, a+1));
        assert(s[i][j] == s[j][i]);
    }
    assert(p =~~= s);
}
pub proof fn cdot_dot(l: Mx, i: int, j: int, m: int, n: int)
    requires 0 <= i < n, 0 <= j < n, m <= n ensures dot(l, mtr(l, n, n), i, j, m) == cdot(l, i, j, m) decreases m
{ if m > 0 { cdot_dot(l, i, j, m-1, n); assert(mtr(l, n, n)[m-1][j] == l[j][m-1]); } }
pub proof fn cdot_comm(l: Mx, i: int, j: int, m: int) ensures cdot(l, i, j, m) == cdot(l, j, i, m) decreases m
{ if m > 0 { cdot_comm(l, i, j, m-1); let x = l[i][m-1]; let y = l[j][m-1]; assert(x * y == y * x) by(nonlinear_arith); } }
pub proof fn cdot_tail(l: Mx, i: int, j: int, a: int, m: int, n: int)
    requires lower(l, n), 0 <= i < a, a <= m <= n ensures cdot(l, i, j, m) == cdot(l, i, j, a) decreases m
{ if m > a { cdot_tail(l, i, j, a, m-1, n); assert(l[i][m-1] == 0real); let y = l[j][m-1]; assert(0real * y == 0real) by(nonlinear_arith); } }

/// lower triangular with non-zero diagonal: multiplication from the left is injective
pub proof fn lower_inj(l: Mx, z: Mx, w: Mx, n: int, m: int, p: int)
    requires lower(l, n), forall|i: int| 0 <= i < n ==> #[trigger] l[i][i] != 0real, 0 <= p <= n, mmul(l, z, n, n, m) == mmul(l, w, n, n, m)
    ensures forall|i: int, j: int| 0 <= i < p && 0 <= j < m ==> #[trigger] z[i][j] == w[i][j] decreases p
{
    if p > 0 {
        lower_inj(l, z, w, n, m, p-1);
        let i = p - 1;
        assert forall|i2: int, j: int| 0 <= i2 < p && 0 <= j < m implies #[trigger] z[i2][j] == w[i2][j] by {
            if i2 == i {
                assert(mmul(l, z, n, n, m)[i][j] == dot(l, z, i, j, n)); assert(mmul(l, w, n, n, m)[i][j] == dot(l, w, i, j, n));
                assert(dot(l, z, i, j, n) == dot(l, w, i, j, n));
                lower_dot(l, z, i, j, n, n); lower_dot(l, w, i, j, n, n);
                dot_ext(l, z, l, w, i, j, i, j, i);
                let d = l[i][i]; let x = z[i][j]; let y = w[i][j];
                assert(x == y) by(nonlinear_arith) requires d * x == d * y, d != 0real;
            }
        }
    }
}
pub proof fn lower_dot(l: Mx, z: Mx, i: int, j: int, m: int, n: int)
    requires lower(l, n), 0 <= i < m <= n ensures dot(l, z, i, j, m) == dot(l, z, i, j, i+1) decreases m
{ if m > i + 1 { lower_dot(l, z, i, j, m-1, n); assert(l[i][m-1] == 0real); let y = z[m-1][j]; assert(0real * y == 0real) by(nonlinear_arith); } }
/// the two substitution passes give the inverse
pub proof fn inverse_of_factor(l: Mx, y: Mx, x: Mx, n: int)
    requires n >= 0, is_mx(l, n, n), is_mx(y, n, n), is_mx(x, n, n), lower(l, n), lower(y, n),
        forall|i: int| 0 <= i < n ==> #[trigger] l[i][i] != 0real,
        forall|i: int, j: int| 0 <= j <= i < n ==> #[trigger] dot(l, y, i, j, n) == (if i == j { 1real } else { 0real }),
        symm(x, n),
        forall|i: int, j: int| 0 <= j <= i < n ==> #[trigger] dot(mtr(l, n, n), x, i, j, n) == y[i][j],
    ensures mmul(mmul(l, mtr(l, n, n), n, n, n), x, n, n, n) == ident(n)
{
    let lt = mtr(l, n, n); let yt = mtr(y, n, n);
    // l y = 1
    let ly = mmul(l, y, n, n, n);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] ly[i][j] == ident(n)[i][j] by {
        if i < j { dot_sum(l, y, i, j, n);
            assert forall|k: int| 0 <= k < n implies #[trigger] term(l, y, i, j)(k) == 0real by {
                let a = l[i][k]; let b = y[k][j];
                if k > i { assert(l[i][k] == 0real); assert(0real * b == 0real) by(nonlinear_arith); } else { assert(y[k][j] == 0real); assert(a * 0real == 0real) by(nonlinear_arith); }
            }
            sum_zero(term(l, y, i, j), n);
        }
    }
    assert(ly =~~= ident(n));
    // y l = 1
    let yl = mmul(y, l, n, n, n);
    mul_assoc(l, y, l, n, n, n, n); mul_ident(l, n, n);
    assert(mmul(l, yl, n, n, n) == l); assert(mmul(l, ident(n), n, n, n) == l);
    lower_inj(l, yl, ident(n), n, n, n);
    assert(yl =~~= ident(n));
    // z = y^T y solves l^T z = y
    let z = mmul(yt, y, n, n, n);
    mul_assoc(lt, yt, y, n, n, n, n); mul_tr(y, l, n, n, n);
    assert(mtr(ident(n), n, n) =~~= ident(n));
    assert(mmul(lt, yt, n, n, n) == ident(n));
    mul_ident(y, n, n);
    assert(mmul(lt, z, n, n, n) == y);
    mul_tr(yt, y, n, n, n); tr_tr(y, n, n);
    assert(mtr(z, n, n) == z); tr_symm(z, n);
    back_unique(lt, x, z, y, n, n);
    assert(x =~~= z);
    mul_assoc(l, lt, x, n, n, n, n);
}
/// rows n-p.. of x and z agree
pub proof fn back_unique(u: Mx, x: Mx, z: Mx, y: Mx, n: int, p: int)
    requires 0 <= p <= n, symm(x, n), symm(z, n),
        forall|i: int, j: int| 0 <= j < i < n ==> #[trigger] u[i][j] == 0real,
        forall|i: int| 0 <= i < n ==> #[trigger] u[i][i] != 0real,
        forall|i: int, j: int| 0 <= j <= i < n ==> #[trigger] dot(u, x, i, j, n) == y[i][j],
        mmul(u, z, n, n, n) == y,
    ensures forall|i: int, j: int| n - p <= i < n && 0 <= j < n ==> #[trigger] x[i][j] == z[i][j],
            forall|i: int, j: int| n - p <= i < n && 0 <= j < n ==> #[trigger] x[j][i] == z[j][i]
    decreases p
{
    if p > 0 {
        back_unique(u, x, z, y, n, p-1);
        let i = n - p;
        assert forall|j: int| 0 <= j <= i implies #[trigger] x[i][j] == z[i][j] by {
            assert(dot(u, x, i, j, n) == y[i][j]);
            assert(mmul(u, z, n, n, n)[i][j] == dot(u, z, i, j, n));
            dot_sum(u, x, i, j, n); dot_sum(u, z, i, j, n);
            let f = term(u, x, i, j); let h = term(u, z, i, j);
            let d = |k: int| f(k) + (-1real) * h(k);
            sum_scale(h, -1real, n); sum_add(f, |k: int| (-1real) * h(k), n);
            sum_ext(d, |k: int| f(k) + (|k: int| (-1real) * h(k))(k), n);
            assert forall|k: int| 0 <= k < n && k != i implies #[trigger] d(k) == 0real by {
                let a = u[i][k]; let b = x[k][j]; let c = z[k][j];
                if k < i { assert(u[i][k] == 0real); assert(0real * b + (-1real) * (0real * c) == 0real) by(nonlinear_arith); }
                else { assert(x[k][j] == z[k][j]); assert(a * b + (-1real) * (a * b) == 0real) by(nonlinear_arith); }
            }
            sum_single(d, i, n);
            let q = u[i][i]; let a = x[i][j]; let b = z[i][j];
            assert(u[i][i] != 0real);
            assert(a == b) by(nonlinear_arith) requires q * a + (-1real) * (q * b) == 0real, q != 0real;
        }
        assert forall|i2: int, j: int| n - p <= i2 < n && 0 <= j < n implies #[trigger] x[i2][j] == z[i2][j] by {
            if i2 == i && j > i { assert(x[i][j] == x[j][i]); assert(z[i][j] == z[j][i]); assert(x[j][i] == z[j][i]); }
        }
        assert forall|i2: int, j: int| n - p <= i2 < n && 0 <= j < n implies #[trigger] x[j][i2] == z[j][i2] by {
            assert(x[i2][j] == x[j][i2]); assert(z[i2][j] == z[j][i2]); assert(x[i2][j] == z[i2][j]);
        }
    }
}
// ---- inversion from a triangular factor, stated on the buffers -------------------------------------
/// the lower triangle
pub open spec fn low(l: Mx, n: int) -> Mx { Seq::new(n as nat, |i: int| Seq::new(n as nat, |j: int| if j <= i { l[i][j] } else { 0real })) }
pub open spec fn nz_diag(l: Mx, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] l[i][i] != 0real }
/// sum over lo <= k < hi of l[p][k] * a[q][k]
pub open spec fn psum(l: Mx, a: Mx, p: int, q: int, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 0real } else { psum(l, a, p, q, lo, hi-1) + l[p][hi-1] * a[q][hi-1] } }
/// sum over lo <= k < hi of l[k][p] * a[q][k]
pub open spec fn qsum(l: Mx, a: Mx, p: int, q: int, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 0real } else { qsum(l, a, p, q, lo, hi-1) + l[hi-1][p] * a[q][hi-1] } }
pub proof fn psum_ext(l: Mx, a: Mx, b: Mx, p: int, q: int, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] a[q][k] == b[q][k] ensures psum(l, a, p, q, lo, hi) == psum(l, b, p, q, lo, hi) decreases hi - lo
{ if hi > lo { psum_ext(l, a, b, p, q, lo, hi-1); assert(a[q][hi-1] == b[q][hi-1]); } }
pub proof fn qsum_ext(l: Mx, a: Mx, b: Mx, p: int, q: int, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] a[q][k] == b[q][k] ensures qsum(l, a, p, q, lo, hi) == qsum(l, b, p, q, lo, hi) decreases hi - lo
{ if hi > lo { qsum_ext(l, a, b, p, q, lo, hi-1); assert(a[q][hi-1] == b[q][hi-1]); } }
pub open spec fn delta(p: int, q: int) -> real { if p == q { 1real } else { 0real } }
/// forward pass: rows < i, and row i up to column j, are done (result in the upper triangle)
#[verifier::opaque]
pub open spec fn fwd<T: MatrixDataTypeBase>(m: Seq<T>, a0: Seq<T>, a: Seq<T>, n: int, i: int, j: int) -> bool {
    &&& 0 <= i <= n && 0 <= j <= n && n * n <= m.len() && n * n <= a.len() && frame(a0, a, n * n)
    &&& nz_diag(mx(m, n, n), n) ==> forall|p: int, q: int| 0 <= q <= p < n && (p < i || (p == i && q < j)) ==> #[trigger] psum(mx(m, n, n), mx(a, n, n), p, q, q, p + 1) == delta(p, q)
}
pub proof fn fwd_begin<T: MatrixDataTypeBase>(m: Seq<T>, a: Seq<T>, n: int) requires 0 <= n, n * n <= m.len(), n * n <= a.len() ensures fwd(m, a, a, n, 0, 0) { reveal(fwd); }
pub proof fn fwd_row<T: MatrixDataTypeBase>(m: Seq<T>, a0: Seq<T>, a: Seq<T>, n: int, i: int) requires fwd(m, a0, a, n, i, i + 1), i < n ensures fwd(m, a0, a, n, i + 1, 0) { reveal(fwd); }
pub proof fn fwd_bounds<T: MatrixDataTypeBase>(m: Seq<T>, a0: Seq<T>, a: Seq<T>, n: int, i: int, j: int, k: int)
    requires fwd(m, a0, a, n, i, j), 0 <= i < n, 0 <= j < n, 0 <= k < n
    ensures a.len() == a0.len(), 0 <= ix(i, k, n) < m.len(), 0 <= ix(j, k, n) < a.len(), 0 <= ix(j, i, n) < a.len(), 0 <= ix(i, j, n) < a.len(), 0 <= i * n, 0 <= j * n, i * n + k < n * n, j * n + k < n * n, j * n + i < n * n
{ reveal(fwd); ix_bound(i, k, n, n); ix_bound(j, k, n, n); ix_bound(j, i, n, n); ix_bound(i, j, n, n); }
pub proof fn fwd_step<T: MatrixDataTypeBase>(m: Seq<T>, a0: Seq<T>, a: Seq<T>, b: Seq<T>, n: int, i: int, j: int, r: real, v: T)
    requires fwd(m, a0, a, n, i, j), 0 <= j <= i < n, b == a.update(ix(j, i, n), v),
        v.val() == (delta(i, j) - psum(mx(m, n, n), mx(a, n, n), i, j, j, i)) * r,
        mx(m, n, n)[i][i] != 0real ==> r * mx(m, n, n)[i][i] == 1real
    ensures fwd(m, a0, b, n, i, j + 1)
{
    reveal(fwd);
    let l = mx(m, n, n); let x = mx(a, n, n); let y = mx(b, n, n);
    ix_bound(j, i, n, n);
    chol_entry_only(a, b, n, j, i, v);
    if nz_diag(l, n) {
        assert(l[i][i] != 0real);
        assert forall|p: int, q: int| 0 <= q <= p < n && (p < i || (p == i && q < j + 1)) implies #[trigger] psum(l, y, p, q, q, p + 1) == delta(p, q) by {
            if p == i && q == j {
                psum_ext(l, x, y, p, q, q, p);
                div_step(l[i][i], r, delta(i, j) - psum(l, x, i, j, j, i));
            } else { psum_ext(l, x, y, p, q, q, p + 1); assert(psum(l, x, p, q, q, p + 1) == delta(p, q)); }
        }
    }
}
/// backward pass: rows > i, and row i up to column j, are done (result in both triangles)
#[verifier::opaque]
pub open spec fn bwd<T: MatrixDataTypeBase>(m: Seq<T>, v0: Seq<T>, a: Seq<T>, n: int, i: int, j: int) -> bool {
    &&& -1 <= i < n && 0 <= j <= n && n * n <= m.len() && n * n <= a.len() && frame(v0, a, n * n)
    &&& forall|p: int, q: int| 0 <= q <= p < n && (p < i || (p == i && q >= j)) ==> #[trigger] mx(a, n, n)[q][p] == mx(v0, n, n)[q][p]
    &&& forall|p: int, q: int| 0 <= q <= p < n && (p > i || (p == i && q < j)) ==> #[trigger] mx(a, n, n)[q][p] == mx(a, n, n)[p][q]
    &&& nz_diag(mx(m, n, n), n) ==> forall|p: int, q: int| 0 <= q <= p < n && (p > i || (p == i && q < j)) ==>
            #[trigger] qsum(mx(m, n, n), mx(a, n, n), p, q, p + 1, n) + mx(m, n, n)[p][p] * mx(a, n, n)[q][p] == mx(v0, n, n)[q][p]
}
pub proof fn bwd_begin<T: MatrixDataTypeBase>(m: Seq<T>, a: Seq<T>, n: int) requires 1 <= n, n * n <= m.len(), n * n <= a.len() ensures bwd(m, a, a, n, n - 1, 0) { reveal(bwd); }
pub proof fn bwd_row<T: MatrixDataTypeBase>(m: Seq<T>, v0: Seq<T>, a: Seq<T>, n: int, i: int) requires bwd(m, v0, a, n, i, i + 1), 0 <= i ensures bwd(m, v0, a, n, i - 1, 0) { reveal(bwd); }
pub proof fn bwd_bounds<T: MatrixDataTypeBase>(m: Seq<T>, v0: Seq<T>, a: Seq<T>, n: int, i: int, j: int, k: int)
    requires bwd(m, v0, a, n, i, j), 0 <= i < n, 0 <= j <= i, 0 <= k < n
    ensures a.len() == v0.len(), 0 <= ix(i, i, n) < m.len(), 0 <= ix(k, i, n) < m.len(), 0 <= ix(j, k, n) < a.len(), 0 <= ix(j, i, n) < a.len(), 0 <= ix(i, j, n) < a.len(), 0 <= i * n, 0 <= j * n, 0 <= k * n,
        i * n + i < n * n, k * n + i < n * n, j * n + k < n * n, j * n + i < n * n, i * n + j < n * n, a[ix(j, i, n)].val() == mx(v0, n, n)[j][i]
{ reveal(bwd); ix_bound(i, i, n, n); ix_bound(k, i, n, n); ix_bound(j, k, n, n); ix_bound(j, i, n, n); ix_bound(i, j, n, n); assert(mx(a, n, n)[j][i] == mx(v0, n, n)[j][i]); }
pub proof fn bwd_step<T: MatrixDataTypeBase>(m: Seq<T>, v0: Seq<T>, a: Seq<T>, b: Seq<T>, n: int, i: int, j: int, r: real, v: T)
    requires bwd(m, v0, a, n, i, j), 0 <= j <= i < n, b == a.update(ix(i, j, n), v).update(ix(j, i, n), v),
        v.val() == (mx(v0, n, n)[j][i] - qsum(mx(m, n, n), mx(a, n, n), i, j, i + 1, n)) * r,
        mx(m, n, n)[i][i] != 0real ==> r * mx(m, n, n)[i][i] == 1real
    ensures bwd(m, v0, b, n, i, j + 1)
{
    reveal(bwd);
    let l = mx(m, n, n); let x = mx(a, n, n); let c = a.update(ix(i, j, n), v); let y = mx(b, n, n); let w = mx(c, n, n); let z = mx(v0, n, n);
    ix_bound(j, i, n, n); ix_bound(i, j, n, n);
    chol_entry_only(a, c, n, i, j, v);
    chol_entry_only(c, b, n, j, i, v);
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && !(p == j && q == i) && !(p == i && q == j) implies #[trigger] y[p][q] == x[p][q] by { assert(w[p][q] == x[p][q]); }
    assert(y[i][j] == v.val()) by { if i != j { assert(w[i][j] == y[i][j]); } }
    assert forall|p: int, q: int| 0 <= q <= p < n && (p < i || (p == i && q >= j + 1)) implies #[trigger] y[q][p] == z[q][p] by { assert(x[q][p] == z[q][p]); }
    assert forall|p: int, q: int| 0 <= q <= p < n && (p > i || (p == i && q < j + 1)) implies #[trigger] y[q][p] == y[p][q] by { if !(p == i && q == j) { assert(x[q][p] == x[p][q]); } }
    if nz_diag(l, n) {
        assert(l[i][i] != 0real);
        assert forall|p: int, q: int| 0 <= q <= p < n && (p > i || (p == i && q < j + 1)) implies #[trigger] qsum(l, y, p, q, p + 1, n) + l[p][p] * y[q][p] == z[q][p] by {
            qsum_ext(l, x, y, p, q, p + 1, n);
            if p == i && q == j { div_step(l[i][i], r, z[j][i] - qsum(l, x, i, j, i + 1, n)); }
            else { assert(qsum(l, x, p, q, p + 1, n) + l[p][p] * x[q][p] == z[q][p]); }
        }
    }
}
pub proof fn inv_finish<T: MatrixDataTypeBase>(m: Seq<T>, a0: Seq<T>, v0: Seq<T>, a: Seq<T>, n: int)
    requires n >= 1, fwd(m, a0, v0, n, n, 0), bwd(m, v0, a, n, -1, 0)
    ensures frame(a0, a, n * n), symm(mx(a, n, n), n),
        nz_diag(mx(m, n, n), n) ==> mmul(mmul(low(mx(m, n, n), n), mtr(low(mx(m, n, n), n), n, n), n, n, n), mx(a, n, n), n, n, n) == ident(n)
{
    reveal(fwd); reveal(bwd);
    let f = mx(m, n, n); let l = low(f, n); let z = mx(v0, n, n); let x = mx(a, n, n);
    let y = Seq::new(n as nat, |i: int| Seq::new(n as nat, |j: int| if j <= i { z[j][i] } else { 0real }));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] x[i][j] == x[j][i] by { if i <= j { assert(x[i][j] == x[j][i]); } else { assert(x[j][i] == x[i][j]); } }
    if nz_diag(f, n) {
        assert forall|i: int| 0 <= i < n implies #[trigger] l[i][i] != 0real by { assert(f[i][i] != 0real); }
        assert forall|i: int, j: int| 0 <= j <= i < n implies #[trigger] dot(l, y, i, j, n) == (if i == j { 1real } else { 0real }) by {
            fwd_dot(f, z, l, y, i, j, n, n); assert(psum(f, z, i, j, j, i + 1) == delta(i, j)); }
        assert forall|i: int, j: int| 0 <= j <= i < n implies #[trigger] dot(mtr(l, n, n), x, i, j, n) == y[i][j] by {
            bwd_dot(f, x, l, i, j, n, n); assert(qsum(f, x, i, j, i + 1, n) + f[i][i] * x[j][i] == z[j][i]); }
        inverse_of_factor(l, y, x, n);
    }
}
pub proof fn fwd_dot(f: Mx, z: Mx, l: Mx, y: Mx, i: int, j: int, m: int, n: int)
    requires 0 <= j <= i < n, 0 <= m <= n, l == low(f, n), y == Seq::new(n as nat, |i: int| Seq::new(n as nat, |j: int| if j <= i { z[j][i] } else { 0real }))
    ensures dot(l, y, i, j, m) == psum(f, z, i, j, j, if m <= i + 1 { m } else { i + 1 }) decreases m
{
    if m > 0 {
        fwd_dot(f, z, l, y, i, j, m - 1, n);
        let a = l[i][m-1]; let b = y[m-1][j];
        if m - 1 < j { assert(a * 0real == 0real) by(nonlinear_arith); } else if m - 1 > i { assert(0real * b == 0real) by(nonlinear_arith); }
    }
}
pub proof fn bwd_dot(f: Mx, x: Mx, l: Mx, i: int, j: int, m: int, n: int)
    requires 0 <= j <= i < n, 0 <= m <= n, l == low(f, n), symm(x, n)
    ensures dot(mtr(l, n, n), x, i, j, m) == (if m <= i { 0real } else { qsum(f, x, i, j, i + 1, m) + f[i][i] * x[j][i] }) decreases m
{
    if m > 0 {
        bwd_dot(f, x, l, i, j, m - 1, n);
        let b = x[m-1][j];
        assert(x[m-1][j] == x[j][m-1]);
        assert(mtr(l, n, n)[i][m-1] == l[m-1][i]);
        if m - 1 < i { assert(0real * b == 0real) by(nonlinear_arith); }
    }
}
/// a lower triangular matrix is its own lower triangle
pub proof fn low_lower(l: Mx, n: int) requires is_mx(l, n, n), lower(l, n), n >= 0 ensures low(l, n) == l
{ assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] low(l, n)[i][j] == l[i][j] by { if i < j { assert(l[i][j] == 0real); } } assert(low(l, n) =~~= l); }
/// a right inverse that is symmetric, of a symmetric matrix, is a left inverse
pub proof fn inverse_both(s: Mx, x: Mx, n: int)
    requires n >= 0, is_mx(s, n, n), is_mx(x, n, n), symm(s, n), symm(x, n), mmul(s, x, n, n, n) == ident(n) ensures mmul(x, s, n, n, n) == ident(n)
{ mul_tr(s, x, n, n, n); tr_symm(s, n); tr_symm(x, n); assert(mtr(ident(n), n, n) =~~= ident(n)); }
// ---- the filter equations on buffers ---------------------------------------------------------------
pub open spec fn fits(n: int, m: int, len: int) -> bool { n * m <= len }
/// the buffers of a filter with n states are large enough
pub open spec fn kf_wf(n: int, x: int, a: int, p: int, q: int, px: int, tp: int) -> bool {
    n >= 1 && n <= x && n <= px && n * n <= a && n * n <= p && n * n <= q && n * n <= tp
}
/// x' = A x
pub open spec fn pred_x<T: MatrixDataTypeBase>(n: int, a: Seq<T>, x: Seq<T>, x2: Seq<T>) -> bool {
    mx(x2, n, 1) == mmul(mx(a, n, n), mx(x, n, 1), n, n, 1) && frame(x, x2, n)
}
pub open spec fn apat(a: Mx, p: Mx, n: int) -> Mx { mmul(mmul(a, p, n, n, n), mtr(a, n, n), n, n, n) }
/// P' = A P A^T + Q
pub open spec fn pred_p<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>) -> bool {
    mx(p2, n, n) == madd(apat(mx(a, n, n), mx(p, n, n), n), mx(q, n, n), n, n) && frame(p, p2, n * n)
}
/// P' = s A P A^T + Q
pub open spec fn pred_p_tuned<T: MatrixDataTypeBase>(n: int, a: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>, s: real) -> bool {
    mx(p2, n, n) == madd(mscale(apat(mx(a, n, n), mx(p, n, n), n), s, n, n), mx(q, n, n), n, n) && frame(p, p2, n * n)
}
pub open spec fn ctl_wf(n: int, m: int, x: int, p: int, b: int, u: int, q: int, bq: int) -> bool {
    n >= 1 && n <= x && n * n <= p && m <= u && n * m <= b && m * m <= q && n * m <= bq && n * m <= usize::MAX && n * n <= usize::MAX && m * m <= usize::MAX
}
/// x' = x + B u
pub open spec fn ctl_x<T: MatrixDataTypeBase>(n: int, m: int, b: Seq<T>, u: Seq<T>, x: Seq<T>, x2: Seq<T>) -> bool {
    mx(x2, n, 1) == madd(mx(x, n, 1), mmul(mx(b, n, m), mx(u, m, 1), n, m, 1), n, 1) && frame(x, x2, n)
}
/// P' = P + B Q B^T
pub open spec fn ctl_p<T: MatrixDataTypeBase>(n: int, m: int, b: Seq<T>, q: Seq<T>, p: Seq<T>, p2: Seq<T>) -> bool {
    mx(p2, n, n) == madd(mx(p, n, n), mmul(mmul(mx(b, n, m), mx(q, m, m), n, m, m), mtr(mx(b, n, m), n, m), n, m, n), n, n) && frame(p, p2, n * n)
}
pub open spec fn obs_wf(n: int, m: int, x: int, p: int, h: int, z: int, r: int, y: int, s: int, k: int, si: int, hp: int, pht: int, khp: int) -> bool {
    n >= 1 && m >= 1 && n <= x && n * n <= p && m * n <= h && m <= z && m * m <= r && m <= y && m * m <= s && n * m <= k && m * m <= si && m * n <= hp && n * m <= pht && n * n <= khp
}
/// S = H P H^T + R
pub open spec fn res_cov(h: Mx, p: Mx, r: Mx, n: int, m: int) -> Mx { madd(mmul(mmul(h, p, m, n, n), mtr(h, m, n), m, n, m), r, m, m) }
/// K = P H^T X
pub open spec fn gain(h: Mx, p: Mx, x: Mx, n: int, m: int) -> Mx { mmul(mmul(p, mtr(h, m, n), n, n, m), x, n, m, m) }
/// x2 = x + K y, P2 = P - K H P with K = P H^T X
pub open spec fn upd(n: int, m: int, h: Mx, y: Mx, x: Mx, p: Mx, xi: Mx, x2: Mx, p2: Mx) -> bool {
    x2 == madd(x, mmul(gain(h, p, xi, n, m), y, n, m, 1), n, 1)
    && p2 == msub(p, mmul(gain(h, p, xi, n, m), mmul(h, p, m, n, n), n, m, n), n, n)
}
/// xi is the inverse of s
pub open spec fn inv_of(s: Mx, xi: Mx, m: int) -> bool { is_mx(xi, m, m) && symm(xi, m) && mmul(s, xi, m, m, m) == ident(m) && mmul(xi, s, m, m, m) == ident(m) }
/// the update with innovation y: for some inverse of the residual covariance
pub open spec fn update_by<T: MatrixDataTypeBase>(n: int, m: int, h: Seq<T>, r: Seq<T>, y: Mx, x: Seq<T>, p: Seq<T>, x2: Seq<T>, p2: Seq<T>) -> bool {
    let s = res_cov(mx(h, m, n), mx(p, n, n), mx(r, m, m), n, m);
    &&& frame(x, x2, n) && frame(p, p2, n * n)
    &&& symm(s, m) && has_chol(s, m) ==> exists|xi: Mx| #[trigger] inv_of(s, xi, m) && upd(n, m, mx(h, m, n), y, mx(x, n, 1), mx(p, n, n), xi, mx(x2, n, 1), mx(p2, n, n))
}
/// every element is the default value
pub open spec fn all_default<T: Default>(d: Seq<T>) -> bool { exists|v: T| #[trigger] call_ensures(T::default, (), v) && forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == v }
/// z - H x
pub open spec fn innov(n: int, m: int, h: Mx, z: Mx, x: Mx) -> Mx { msub(z, mmul(h, x, m, n, 1), m, 1) }
pub proof fn madd_comm(a: Mx, b: Mx, r: int, c: int) requires r >= 0, c >= 0 ensures madd(a, b, r, c) == madd(b, a, r, c) { assert(madd(a, b, r, c) =~~= madd(b, a, r, c)); }
pub proof fn madd_zero_cols(x: Mx, a: Mx, b: Mx, n: int, c: int) requires is_mx(x, n, c), n >= 0, c >= 0 ensures madd(x, mmul(a, b, n, 0, c), n, c) == x
{ assert(madd(x, mmul(a, b, n, 0, c), n, c) =~~= x); }
/// what decomposition and inversion leave behind is the inverse of s
pub proof fn inverse_from_chol(s: Mx, l: Mx, x: Mx, m: int)
    requires m >= 1, is_chol(s, l, m), is_mx(s, m, m), symm(s, m), is_mx(x, m, m), symm(x, m), nz_diag(l, m) ==> mmul(mmul(low(l, m), mtr(low(l, m), m, m), m, m, m), x, m, m, m) == ident(m)
    ensures inv_of(s, x, m)
{
    assert forall|i: int| 0 <= i < m implies #[trigger] l[i][i] != 0real by { assert(l[i][i] > 0real); }
    low_lower(l, m); chol_product(s, l, m); inverse_both(s, x, m);
}
} // g
