//! C15 storages and typed buffers, C16 builders and size macros, C17 nalgebra views.
use crate::{rat::*, util::{ck, Case, G}};
type Res = Result<(), String>;
use core::ops::{Index, IndexMut};
use minikalman::buffers::types::*;
use minikalman::matrix::*;
use minikalman::prelude::*;

/// any matrix, behind one vtable so that the checks compile once
trait V {
    fn dims(&self) -> (usize, usize, usize, usize);
    fn meta(&self) -> (usize, usize, bool, bool);
    fn sl(&self) -> &[Rat];
    fn get(&self, i: usize, j: usize) -> (Rat, Rat);
    fn idx(&self, k: usize) -> Rat;
    fn wr(&mut self, _how: usize, _i: usize, _j: usize, _k: usize, _v: Rat) {}
}
struct Ro<'a, B, const R: usize, const C: usize>(&'a B);
struct Rw<'a, B, const R: usize, const C: usize>(&'a mut B);
macro_rules! common { () => {
    fn dims(&self) -> (usize, usize, usize, usize) { (R, C, self.0.rows(), self.0.cols()) }
    fn meta(&self) -> (usize, usize, bool, bool) { (RowMajorSequentialData::len(&*self.0), self.0.buffer_len(), RowMajorSequentialData::is_empty(&*self.0), RowMajorSequentialData::is_valid(&*self.0)) }
    fn sl(&self) -> &[Rat] { self.0.as_slice() }
    fn get(&self, i: usize, j: usize) -> (Rat, Rat) { (self.0.get(i, j), self.0.get_at(i, j)) }
    fn idx(&self, k: usize) -> Rat { self.0[k] }
} }
impl<'a, B: Matrix<R, C, Rat> + Index<usize, Output = Rat>, const R: usize, const C: usize> V for Ro<'a, B, R, C> { common!(); }
impl<'a, B: MatrixMut<R, C, Rat> + IndexMut<usize, Output = Rat>, const R: usize, const C: usize> V for Rw<'a, B, R, C> {
    common!();
    fn wr(&mut self, how: usize, i: usize, j: usize, k: usize, v: Rat) {
        match how { 0 => self.0.set(i, j, v), 1 => self.0.set_at(i, j, v), 2 => self.0.as_mut_slice()[k] = v, _ => self.0[k] = v }
    }
}
fn see(w: &str, b: &dyn V, want: &[Rat]) -> Res {
    let (r, c, rows, cols) = b.dims();
    let (len, bl, e, ok) = b.meta();
    ck(rows == r && cols == c, || format!("{w}: rows()/cols() are {rows}x{cols}, not {r}x{c}"))?;
    ck(len == r * c, || format!("{w}: len() is {len}"))?;
    ck(bl == want.len(), || format!("{w}: buffer_len() is {bl} of {}", want.len()))?;
    ck(e == (r * c == 0), || format!("{w}: is_empty() is {e}"))?;
    ck(ok == (r * c <= want.len()), || format!("{w}: is_valid() is {ok}"))?;
    ck(b.sl() == want, || format!("{w}: as_slice() is {:?}, should be {want:?}", b.sl()))?;
    for i in 0..r {
        for j in 0..c {
            let v = want[i * c + j];
            let (x, y) = b.get(i, j);
            ck(x == v, || format!("{w}: get({i},{j}) is {x}, should be {v}"))?;
            ck(y == v, || format!("{w}: get_at({i},{j}) is {y}, should be {v}"))?;
        }
    }
    for k in 0..want.len() { ck(b.idx(k) == want[k], || format!("{w}: [{k}] is {}, should be {}", b.idx(k), want[k]))?; }
    Ok(())
}
/// writes through every route
fn write_all(w: &str, b: &mut dyn V, want: &mut [Rat], base: i64) -> Res {
    let (r, c, _, _) = b.dims();
    for k in 0..want.len() {
        let how = if k < r * c { k % 4 } else { 2 + k % 2 };
        let v = int(base + k as i64);
        b.wr(how, if c > 0 { k / c } else { 0 }, if c > 0 { k % c } else { 0 }, k, v);
        want[k] = v;
        see(&format!("{w} after writing element {k} through {}", ["set", "set_at", "as_mut_slice", "index_mut"][how]), b, want)?;
    }
    Ok(())
}
fn sees<const R: usize, const C: usize, B: Matrix<R, C, Rat> + Index<usize, Output = Rat>>(w: &str, b: &B, want: &[Rat]) -> Res { see(w, &Ro::<B, R, C>(b), want) }
fn writes<const R: usize, const C: usize, B: MatrixMut<R, C, Rat> + IndexMut<usize, Output = Rat>>(w: &str, b: &mut B, want: &mut [Rat], base: i64) -> Res { write_all(w, &mut Rw::<B, R, C>(b), want, base) }
fn meta(w: &str, len: usize, e: bool, ok: bool, n: usize) -> Res { ck(len == n && e == (n == 0) && ok, || format!("{w}: len() {len} is_empty() {e} is_valid() {ok}, there are {n} elements")) }
fn same(w: &str, got: &[Rat], want: &[Rat]) -> Res { ck(quiet(|| got == want), || format!("{w} gives {got:?}, should be {want:?}")) }
pub fn contents(g: &mut G, n: usize) -> Vec<Rat> { let b = 100 + g.below(1000) as i64; let v: Vec<Rat> = (0..n as i64).map(|k| int(b + 3 * k)).collect(); g.note(&format!("contents={v:?}")); v }

macro_rules! readable { ($w:expr, $b:expr, $want:expr, $r:expr, $c:expr) => {{
    meta($w, $b.len(), $b.is_empty(), $b.is_valid(), $r * $c)?;
    sees::<$r, $c, _>($w, &$b, &$want[..])?;
    sees::<$r, $c, _>(concat!("as_matrix() at line ", line!()), $b.as_matrix(), &$want[..])?;
}} }
macro_rules! writable { ($w:expr, $b:expr, $want:expr, $r:expr, $c:expr) => {{
    writes::<$r, $c, _>($w, &mut $b, &mut $want[..], 5000)?;
    sees::<$r, $c, _>("as_matrix() after writes to the buffer", $b.as_matrix(), &$want[..])?;
    writes::<$r, $c, _>("as_matrix_mut()", $b.as_matrix_mut(), &mut $want[..], 6000)?;
    sees::<$r, $c, _>("the buffer after writes to as_matrix_mut()", &$b, &$want[..])?;
}} }
macro_rules! push { ($v:ident, $n:expr, $f:expr) => { $v.push(($n, Box::new($f) as Case)) } }
/// From<[T; TOTAL]>, mutable
macro_rules! arr_mut { ($v:ident, $t:ident [$($d:literal),*], $r:literal, $c:literal, $n:literal) => { push!($v, format!("{} from [_; {}]", stringify!($t<$($d),*>), $n), |g: &mut G| {
    let mut want = contents(g, $n);
    let a: [Rat; $n] = want.clone().try_into().unwrap();
    let mut b = $t::<$($d,)* Rat, _>::from(a);
    readable!(stringify!($t), b, want, $r, $c);
    writable!(stringify!($t), b, want, $r, $c);
    let back = b.into_inner();
    same("into_inner()", &back[..], &want[..])?;
    let b = $t::<$($d,)* Rat, _>::new(MatrixData::new_array::<$r, $c, $n, Rat>(a));
    readable!("new", b, a.to_vec(), $r, $c);
    Ok(())
}) } }
macro_rules! arr_ref { ($v:ident, $t:ident [$($d:literal),*], $r:literal, $c:literal, $n:literal) => { push!($v, format!("{} from [_; {}]", stringify!($t<$($d),*>), $n), |g: &mut G| {
    let want = contents(g, $n);
    let a: [Rat; $n] = want.clone().try_into().unwrap();
    let b = $t::<$($d,)* Rat, _>::from(a);
    readable!(stringify!($t), b, want, $r, $c);
    let back = b.into_inner();
    same("into_inner()", &back[..], &want[..])
}) } }
macro_rules! slice_mut { ($v:ident, $t:ident [$($d:literal),*], $r:literal, $c:literal) => { push!($v, format!("{} from &mut [_]", stringify!($t<$($d),*>)), |g: &mut G| {
    let e = g.below(4) as usize;
    let mut want = contents(g, $r * $c + e);
    let mut a = want.clone();
    {
        let mut b = $t::<$($d,)* Rat, _>::from(&mut a[..]);
        readable!(stringify!($t), b, want, $r, $c);
        writable!(stringify!($t), b, want, $r, $c);
        let back = b.into_inner();
        same("into_inner()", &back[..], &want[..])?;
    }
    same("the borrowed slice", &a[..], &want[..])
}) } }
macro_rules! slice_ref { ($v:ident, $t:ident [$($d:literal),*], $r:literal, $c:literal) => { push!($v, format!("{} from &[_]", stringify!($t<$($d),*>)), |g: &mut G| {
    let e = g.below(4) as usize;
    let want = contents(g, $r * $c + e);
    let mut a = want.clone();
    {
        let b = $t::<$($d,)* Rat, _>::from(&a[..]);
        readable!(stringify!($t), b, want, $r, $c);
    }
    {
        let b = $t::<$($d,)* Rat, _>::from(&mut a[..]);
        readable!(stringify!($t), b, want, $r, $c);
    }
    same("the borrowed slice", &a[..], &want[..])
}) } }
macro_rules! square_mut { ($v:ident, $($t:ident)*) => { $(
    arr_mut!($v, $t [1], 1, 1, 1); arr_mut!($v, $t [2], 2, 2, 4); arr_mut!($v, $t [2], 2, 2, 5); arr_mut!($v, $t [3], 3, 3, 9); arr_mut!($v, $t [3], 3, 3, 11);
    slice_mut!($v, $t [1], 1, 1); slice_mut!($v, $t [2], 2, 2); slice_mut!($v, $t [3], 3, 3); slice_mut!($v, $t [5], 5, 5);
)* } }
macro_rules! square_ref { ($v:ident, $($t:ident)*) => { $(
    arr_ref!($v, $t [1], 1, 1, 1); arr_ref!($v, $t [2], 2, 2, 4); arr_ref!($v, $t [2], 2, 2, 5); arr_ref!($v, $t [3], 3, 3, 9); arr_ref!($v, $t [3], 3, 3, 11);
    slice_ref!($v, $t [1], 1, 1); slice_ref!($v, $t [2], 2, 2); slice_ref!($v, $t [3], 3, 3); slice_ref!($v, $t [5], 5, 5);
)* } }
macro_rules! rect_mut { ($v:ident, $($t:ident)*) => { $(
    arr_mut!($v, $t [1, 1], 1, 1, 1); arr_mut!($v, $t [2, 3], 2, 3, 6); arr_mut!($v, $t [3, 2], 3, 2, 6); arr_mut!($v, $t [3, 2], 3, 2, 8); arr_mut!($v, $t [1, 4], 1, 4, 4); arr_mut!($v, $t [4, 1], 4, 1, 5);
    slice_mut!($v, $t [1, 1], 1, 1); slice_mut!($v, $t [2, 3], 2, 3); slice_mut!($v, $t [3, 2], 3, 2); slice_mut!($v, $t [4, 1], 4, 1); slice_mut!($v, $t [1, 4], 1, 4);
)* } }
macro_rules! rect_ref { ($v:ident, $($t:ident)*) => { $(
    arr_ref!($v, $t [1, 1], 1, 1, 1); arr_ref!($v, $t [2, 3], 2, 3, 6); arr_ref!($v, $t [3, 2], 3, 2, 6); arr_ref!($v, $t [3, 2], 3, 2, 8); arr_ref!($v, $t [1, 4], 1, 4, 4); arr_ref!($v, $t [4, 1], 4, 1, 5);
    slice_ref!($v, $t [1, 1], 1, 1); slice_ref!($v, $t [2, 3], 2, 3); slice_ref!($v, $t [3, 2], 3, 2); slice_ref!($v, $t [4, 1], 4, 1); slice_ref!($v, $t [1, 4], 1, 4);
)* } }
macro_rules! vector { ($v:ident, $($t:ident)*) => { $(
    arr_mut!($v, $t [1], 1, 1, 1); arr_mut!($v, $t [2], 2, 1, 2); arr_mut!($v, $t [5], 5, 1, 5);
    slice_mut!($v, $t [1], 1, 1); slice_mut!($v, $t [2], 2, 1); slice_mut!($v, $t [5], 5, 1);
    push!($v, format!("{} as_ref/as_mut", stringify!($t)), |g: &mut G| {
        let mut want = contents(g, 4);
        let mut a = want.clone();
        let mut b = $t::<3, Rat, _>::from(&mut a[..]);
        ck(AsRef::<[Rat]>::as_ref(&b) == &want[..], || format!("as_ref() is {:?}", AsRef::<[Rat]>::as_ref(&b)))?;
        for k in 0..3 { AsMut::<[Rat]>::as_mut(&mut b)[k] = int(900 + k as i64); want[k] = int(900 + k as i64); }
        readable!("after as_mut", b, want, 3, 1);
        ck(AsRef::<[Rat]>::as_ref(&b) == &want[..], || format!("as_ref() is {:?}", AsRef::<[Rat]>::as_ref(&b)))
    });
)* } }

fn storages<const R: usize, const C: usize, const N: usize>(g: &mut G) -> Res {
    let mut want = contents(g, N);
    let orig = want.clone();
    let a: [Rat; N] = want.clone().try_into().unwrap();
    macro_rules! both { ($w:expr, $b:ident) => {
        sees::<R, C, _>($w, &$b, &want)?;
        writes::<R, C, _>($w, &mut $b, &mut want[..], 5000)?;
    } }
    let mut b = MatrixDataArray::<R, C, N, Rat>::new_unchecked(a);
    both!("MatrixDataArray", b);
    ck(b.into_inner()[..] == want[..], || "MatrixDataArray::into_inner".into())?;
    ck(MatrixDataArray::<R, C, N, Rat>::new_unchecked(a).into_inner() == a, || "MatrixDataArray::into_inner".into())?;
    ck(IntoInnerData::into_inner(MatrixDataArray::<R, C, N, Rat>::new_unchecked(a)) == a, || "IntoInnerData of MatrixDataArray".into())?;
    let back: [Rat; N] = MatrixDataArray::<R, C, N, Rat>::new_unchecked(a).into();
    ck(back == a, || "array from MatrixDataArray".into())?;
    want = orig.clone();
    let mut b = MatrixData::new_array::<R, C, N, Rat>(a);
    both!("new_array", b);
    want = orig.clone();
    let mut s = want.clone();
    {
        let mut b = MatrixDataMut::<R, C, Rat>::new(&mut s);
        both!("MatrixDataMut", b);
        let i = b.into_inner();
        ck(i[..] == want[..], || "MatrixDataMut::into_inner".into())?;
    }
    same("the slice behind MatrixDataMut", &s[..], &want[..])?;
    {
        let b = MatrixData::new_mut::<R, C, Rat>(&mut s);
        let r: &[Rat] = b.into();
        ck(r == &want[..], || "&[T] from MatrixDataMut".into())?;
        let b = MatrixDataMut::<R, C, Rat>::from(&mut s[..]);
        let r: &mut [Rat] = b.into();
        ck(r[..] == want[..], || "&mut [T] from MatrixDataMut".into())?;
        let b = MatrixDataMut::<R, C, Rat>::new(&mut s);
        ck(IntoInnerData::into_inner(b)[..] == want[..], || "IntoInnerData of MatrixDataMut".into())?;
    }
    for b in [MatrixDataRef::<R, C, Rat>::new(&a), MatrixData::new_ref::<R, C, Rat>(&a), MatrixDataRef::<R, C, Rat>::from(&a[..])] {
        sees::<R, C, _>("MatrixDataRef", &b, &orig)?;
        ck(b.into_inner() == &a[..], || "MatrixDataRef::into_inner".into())?;
    }
    ck(IntoInnerData::into_inner(MatrixDataRef::<R, C, Rat>::new(&a)) == &a[..], || "IntoInnerData of MatrixDataRef".into())?;
    let r: &[Rat] = MatrixDataRef::<R, C, Rat>::new(&a).into();
    ck(r == &a[..], || "&[T] from MatrixDataRef".into())?;
    {
        let mut s2 = a;
        let b = MatrixDataRef::<R, C, Rat>::from(&mut s2[..]);
        sees::<R, C, _>("MatrixDataRef from &mut", &b, &orig)?;
    }
    // adapters
    let b = MatrixData::new_from::<R, C, Rat, _>(MatrixDataArray::<R, C, N, Rat>::new_unchecked(a));
    sees::<R, C, _>("new_from", &b, &orig)?;
    sees::<R, C, _>("MatrixDataRowMajor::into_inner", &IntoInnerData::into_inner(b), &orig)?;
    let b = MatrixDataRowMajor::<R, C, _, Rat>::new(MatrixDataRef::<R, C, Rat>::new(&a));
    sees::<R, C, _>("MatrixDataRowMajor", &b, &orig)?;
    want = orig.clone();
    let mut b = MatrixData::new_mut_from::<R, C, Rat, _>(MatrixDataArray::<R, C, N, Rat>::new_unchecked(a));
    both!("new_mut_from", b);
    sees::<R, C, _>("MatrixDataRowMajorMut::into_inner", &IntoInnerData::into_inner(b), &want)?;
    want = orig.clone();
    let mut s = want.clone();
    {
        let mut b = MatrixDataRowMajorMut::<R, C, _, Rat>::new(MatrixDataMut::<R, C, Rat>::new(&mut s));
        both!("MatrixDataRowMajorMut", b);
    }
    same("the slice behind MatrixDataRowMajorMut", &s[..], &want[..])?;
    if N == R * C {
        want = orig.clone();
        let mut b = MatrixDataArray::<R, C, N, Rat>::new(a);
        both!("MatrixDataArray::new", b);
        want = orig.clone();
        let mut b = MatrixDataArray::<R, C, N, Rat>::from(a);
        both!("MatrixDataArray::from", b);
        want = orig.clone();
        let mut b = MatrixDataBoxed::<R, C, Rat>::new(want.clone());
        both!("MatrixDataBoxed::new", b);
        ck(b.into_inner()[..] == want[..], || "MatrixDataBoxed::into_inner".into())?;
        want = orig.clone();
        let mut b = MatrixData::new_boxed::<R, C, Rat, _>(want.clone());
        both!("new_boxed", b);
        ck(IntoInnerData::into_inner(b)[..] == want[..], || "IntoInnerData of MatrixDataBoxed".into())?;
        let b = MatrixDataBoxed::<R, C, Rat>::from(orig.clone());
        sees::<R, C, _>("MatrixDataBoxed::from", &b, &orig)?;
        let b = MatrixData::new::<R, C, Rat>(orig[0]);
        sees::<R, C, _>("MatrixData::new", &b, &vec![orig[0]; N])?;
    }
    Ok(())
}
/// no rows or no columns
fn degenerate<const R: usize, const C: usize, const N: usize>(g: &mut G) -> Res {
    let mut want = contents(g, N);
    let a: [Rat; N] = want.clone().try_into().unwrap();
    let mut b = MatrixDataArray::<R, C, N, Rat>::new_unchecked(a);
    sees::<R, C, _>("MatrixDataArray", &b, &want)?;
    writes::<R, C, _>("MatrixDataArray", &mut b, &mut want[..], 5000)?;
    let b = MatrixDataRowMajor::<R, C, _, Rat>::new(b);
    sees::<R, C, _>("MatrixDataRowMajor", &b, &want)?;
    want = a.to_vec();
    sees::<R, C, _>("MatrixDataRef", &MatrixDataRef::<R, C, Rat>::new(&a), &want)?;
    let mut s = want.clone();
    sees::<R, C, _>("MatrixDataMut", &MatrixDataMut::<R, C, Rat>::new(&mut s), &want)?;
    writes::<R, C, _>("MatrixDataMut", &mut MatrixDataMut::<R, C, Rat>::new(&mut s), &mut want, 5000)?;
    let b = MatrixDataBoxed::<R, C, Rat>::new(vec![]);
    if N == 0 { sees::<R, C, _>("MatrixDataBoxed", &b, &want)?; }
    Ok(())
}
fn empty(_: &mut G) -> Res {
    let b = MatrixData::empty::<Rat>();
    ck(RowMajorSequentialData::len(&b) == 0 && RowMajorSequentialData::is_empty(&b) && b.as_slice().is_empty() && b.rows() == 0 && b.cols() == 0, || "MatrixData::empty".into())
}

// ---- C16
macro_rules! sized { ($v:ident, $(($m:ident, $f:ident, $t:ident [$($d:literal),*], $r:literal, $c:literal))*) => { $( push!($v, format!("BufferBuilder::{}{:?}", stringify!($f), ($($d),*)), |g: &mut G| {
    let v = g.val();
    g.note(&format!("init={v}"));
    let b: $t<$($d,)* Rat, _> = BufferBuilder::$f::<$($d),*>().new::<Rat>();
    readable!(stringify!($f), b, vec![int(0); $r * $c], $r, $c);
    let b: $t<$($d,)* Rat, _> = BufferBuilder::$f::<$($d),*>().new_with(v);
    readable!(stringify!($f), b, vec![v; $r * $c], $r, $c);
    let size = minikalman::$m!($($d),*);
    ck(size == $r * $c, || format!("{} is {size}", stringify!($m!($($d),*))))?;
    ck(minikalman::$m!($($d + 0),*) == size, || format!("{}! of a sum", stringify!($m)))
}); )* } }
macro_rules! place { ($v:ident, $(($m:ident, $t:ident [$($d:literal),*], $r:literal, $c:literal))*) => { $( push!($v, format!("{}!{:?}", stringify!($m), ($($d),*)), |_g: &mut G| {
    const I: Rat = Rat { n: 23, d: 1 };
    minikalman::$m!(mut a, $($d,)* Rat, I);
    minikalman::$m!(b, $($d,)* Rat, I);
    minikalman::$m!(let mut c, $($d,)* Rat, I);
    minikalman::$m!(let d, $($d,)* Rat, I);
    minikalman::$m!(static E, $($d,)* Rat, I);
    let mut want = vec![I; $r * $c];
    let _: &$t<$($d,)* Rat, _> = &a;
    readable!("mut", a, want, $r, $c);
    readable!("let", b, want, $r, $c);
    readable!("let mut", c, want, $r, $c);
    readable!("let", d, want, $r, $c);
    readable!("static", E, want, $r, $c);
    writable!("mut", a, want, $r, $c);
    c[0] = int(1);
    Ok(())
}); )* } }
fn zero<const R: usize, const C: usize, B: Matrix<R, C, Rat> + Index<usize, Output = Rat>>(w: &str, b: &B) -> Res { sees::<R, C, B>(w, b, &vec![int(0); R * C]) }
fn put<const R: usize, const C: usize, B: MatrixMut<R, C, Rat> + ?Sized>(b: &mut B, base: i64) { for k in 0..R * C { b.set(k / C, k % C, int(base + k as i64)); } }
fn holds<const R: usize, const C: usize, B: Matrix<R, C, Rat> + Index<usize, Output = Rat>>(w: &str, b: &B, base: i64) -> Res { sees::<R, C, B>(w, b, &(0..R * C).map(|k| int(base + k as i64)).collect::<Vec<_>>()) }
fn alloc<const N: usize, const U: usize, const O: usize>(_: &mut G) -> Res {
    {
        use minikalman::regular::builder::*;
        let bld = KalmanFilterBuilder::<N, Rat>::default();
        let _ = KalmanFilterBuilder::<N, Rat>::new();
        let mut f = bld.build();
        zero::<N, N, _>("A", f.state_transition().as_matrix())?; zero::<N, 1, _>("x", f.state_vector())?; zero::<N, N, _>("P", f.estimate_covariance().as_matrix())?; zero::<N, N, _>("Q", f.direct_process_noise().as_matrix())?;
        put::<N, N, _>(f.state_transition_mut().as_matrix_mut(), 100); put::<N, N, _>(f.estimate_covariance_mut().as_matrix_mut(), 200); put::<N, N, _>(f.direct_process_noise_mut().as_matrix_mut(), 300); put::<N, 1, _>(f.state_vector_mut(), 400);
        holds::<N, N, _>("A", f.state_transition().as_matrix(), 100)?; holds::<N, N, _>("P", f.estimate_covariance().as_matrix(), 200)?; holds::<N, N, _>("Q", f.direct_process_noise().as_matrix(), 300)?; holds::<N, 1, _>("x", f.state_vector(), 400)?;
        let mut c = bld.controls().build::<U>();
        zero::<N, U, _>("B", c.control_matrix().as_matrix())?; zero::<U, 1, _>("u", c.control_vector())?; zero::<U, U, _>("control Q", c.process_noise_covariance().as_matrix())?;
        put::<N, U, _>(c.control_matrix_mut().as_matrix_mut(), 100); put::<U, 1, _>(c.control_vector_mut(), 200); put::<U, U, _>(c.process_noise_covariance_mut().as_matrix_mut(), 300);
        holds::<N, U, _>("B", c.control_matrix().as_matrix(), 100)?; holds::<U, 1, _>("u", c.control_vector(), 200)?; holds::<U, U, _>("control Q", c.process_noise_covariance().as_matrix(), 300)?;
        let mut o = bld.observations().build::<O>();
        zero::<O, N, _>("H", o.observation_matrix().as_matrix())?; zero::<O, 1, _>("z", o.measurement_vector())?; zero::<O, O, _>("R", o.measurement_noise_covariance().as_matrix())?;
        put::<O, N, _>(o.observation_matrix_mut().as_matrix_mut(), 100); put::<O, 1, _>(o.measurement_vector_mut(), 200); put::<O, O, _>(o.measurement_noise_covariance_mut().as_matrix_mut(), 300);
        holds::<O, N, _>("H", o.observation_matrix().as_matrix(), 100)?; holds::<O, 1, _>("z", o.measurement_vector(), 200)?; holds::<O, O, _>("R", o.measurement_noise_covariance().as_matrix(), 300)?;
    }
    {
        use minikalman::extended::builder::*;
        let bld = KalmanFilterBuilder::<N, Rat>::default();
        let mut f = bld.build();
        zero::<N, N, _>("J", f.state_transition_jacobian().as_matrix())?; zero::<N, 1, _>("x", f.state_vector())?; zero::<N, N, _>("P", f.estimate_covariance().as_matrix())?; zero::<N, N, _>("Q", f.direct_process_noise().as_matrix())?;
        put::<N, N, _>(f.state_transition_jacobian_mut().as_matrix_mut(), 100); put::<N, N, _>(f.estimate_covariance_mut().as_matrix_mut(), 200); put::<N, N, _>(f.direct_process_noise_mut().as_matrix_mut(), 300); put::<N, 1, _>(f.state_vector_mut(), 400);
        holds::<N, N, _>("J", f.state_transition_jacobian().as_matrix(), 100)?; holds::<N, N, _>("P", f.estimate_covariance().as_matrix(), 200)?; holds::<N, N, _>("Q", f.direct_process_noise().as_matrix(), 300)?; holds::<N, 1, _>("x", f.state_vector(), 400)?;
        let mut o = bld.observations().build::<O>();
        zero::<O, N, _>("H", o.observation_jacobian_matrix().as_matrix())?; zero::<O, 1, _>("z", o.measurement_vector())?; zero::<O, O, _>("R", o.measurement_noise_covariance().as_matrix())?;
        put::<O, N, _>(o.observation_jacobian_matrix_mut().as_matrix_mut(), 100); put::<O, 1, _>(o.measurement_vector_mut(), 200); put::<O, O, _>(o.measurement_noise_covariance_mut().as_matrix_mut(), 300);
        holds::<O, N, _>("H", o.observation_jacobian_matrix().as_matrix(), 100)?; holds::<O, 1, _>("z", o.measurement_vector(), 200)?; holds::<O, O, _>("R", o.measurement_noise_covariance().as_matrix(), 300)?;
    }
    Ok(())
}

pub fn cases(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    #[cfg(any(feature = "C15", feature = "C14"))]
    if p == "C15" || p == "C14" {
        square_mut!(v, StateTransitionMatrixMutBuffer EstimateCovarianceMatrixBuffer DirectProcessNoiseCovarianceMatrixMutBuffer ControlProcessNoiseCovarianceMatrixMutBuffer MeasurementNoiseCovarianceMatrixBuffer InnovationCovarianceMatrixBuffer TemporaryResidualCovarianceInvertedMatrixBuffer TemporaryStateMatrixBuffer TemporaryKHPMatrixBuffer);
        square_ref!(v, StateTransitionMatrixBuffer DirectProcessNoiseCovarianceMatrixBuffer ControlProcessNoiseCovarianceMatrixBuffer);
        rect_mut!(v, ControlMatrixMutBuffer ObservationMatrixMutBuffer KalmanGainMatrixBuffer TemporaryBQMatrixBuffer TemporaryHPMatrixBuffer TemporaryPHTMatrixBuffer);
        rect_ref!(v, ControlMatrixBuffer ObservationMatrixBuffer);
        vector!(v, StateVectorBuffer PredictedStateEstimateVectorBuffer ControlVectorBuffer MeasurementVectorBuffer InnovationVectorBuffer);
        macro_rules! st { ($(($r:literal, $c:literal, $n:literal))*) => { $( push!(v, format!("storages<{},{},{}>", $r, $c, $n), storages::<$r, $c, $n>); )* } }
        st!((1,1,1) (1,1,3) (2,2,4) (2,3,6) (3,2,6) (3,2,8) (2,3,7) (1,4,4) (4,1,4) (4,1,6) (5,5,25) (3,7,24));
        push!(v, "empty".to_string(), empty);
        #[cfg(feature = "C15")]
        if p == "C15" {
            macro_rules! dg { ($(($r:literal, $c:literal, $n:literal))*) => { $( push!(v, format!("degenerate<{},{},{}>", $r, $c, $n), degenerate::<$r, $c, $n>); )* } }
            dg!((2,0,0) (0,3,0) (0,0,0) (2,0,3) (0,3,2));
            macro_rules! z1 { ($($t:ident)*) => { $( slice_mut!(v, $t [0], 0, 0); )* } }
            z1!(StateTransitionMatrixMutBuffer EstimateCovarianceMatrixBuffer DirectProcessNoiseCovarianceMatrixMutBuffer);
            macro_rules! z2 { ($($t:ident)*) => { $( arr_mut!(v, $t [2, 0], 2, 0, 0); slice_mut!(v, $t [0, 2], 0, 2); )* } }
            z2!(ControlMatrixMutBuffer ObservationMatrixMutBuffer KalmanGainMatrixBuffer);
            macro_rules! z3 { ($($t:ident)*) => { $( arr_ref!(v, $t [2, 0], 2, 0, 0); slice_ref!(v, $t [0, 2], 0, 2); )* } }
            z3!(ControlMatrixBuffer ObservationMatrixBuffer);
            macro_rules! z4 { ($($t:ident)*) => { $( slice_mut!(v, $t [0], 0, 1); )* } }
            z4!(StateVectorBuffer ControlVectorBuffer MeasurementVectorBuffer);
        }
    }
    #[cfg(any(feature = "C16", feature = "C14"))]
    if p == "C16" || p == "C14" {
        macro_rules! sq { ($($n:literal $nn:literal),*) => { $( sized!(v,
            (size_buffer_A, system_matrix_A, StateTransitionMatrixMutBuffer [$n], $n, $n) (size_buffer_P, estimate_covariance_P, EstimateCovarianceMatrixBuffer [$n], $n, $n) (size_buffer_x, state_vector_x, StateVectorBuffer [$n], $n, 1)
            (size_buffer_Q_direct, direct_process_noise_covariance_Q, DirectProcessNoiseCovarianceMatrixMutBuffer [$n], $n, $n) (size_buffer_u, control_vector_u, ControlVectorBuffer [$n], $n, 1) (size_buffer_Q_control, control_process_noise_covariance_Q, ControlProcessNoiseCovarianceMatrixMutBuffer [$n], $n, $n)
            (size_buffer_z, measurement_vector_z, MeasurementVectorBuffer [$n], $n, 1) (size_buffer_R, observation_covariance_R, MeasurementNoiseCovarianceMatrixBuffer [$n], $n, $n) (size_buffer_y, innovation_vector_y, InnovationVectorBuffer [$n], $n, 1) (size_buffer_S, innovation_covariance_S, InnovationCovarianceMatrixBuffer [$n], $n, $n)
            (size_buffer_temp_x, state_prediction_temp_x, PredictedStateEstimateVectorBuffer [$n], $n, 1) (size_buffer_temp_P, temp_system_covariance_P, TemporaryStateMatrixBuffer [$n], $n, $n) (size_buffer_temp_S_inv, temp_S_inv, TemporaryResidualCovarianceInvertedMatrixBuffer [$n], $n, $n) (size_buffer_temp_KHP, temp_KHP, TemporaryKHPMatrixBuffer [$n], $n, $n));
            place!(v, (impl_buffer_A, StateTransitionMatrixMutBuffer [$n], $n, $n) (impl_buffer_P, EstimateCovarianceMatrixBuffer [$n], $n, $n) (impl_buffer_x, StateVectorBuffer [$n], $n, 1) (impl_buffer_Q_direct, DirectProcessNoiseCovarianceMatrixMutBuffer [$n], $n, $n) (impl_buffer_u, ControlVectorBuffer [$n], $n, 1)
            (impl_buffer_Q_control, ControlProcessNoiseCovarianceMatrixMutBuffer [$n], $n, $n) (impl_buffer_z, MeasurementVectorBuffer [$n], $n, 1) (impl_buffer_R, MeasurementNoiseCovarianceMatrixBuffer [$n], $n, $n) (impl_buffer_y, InnovationVectorBuffer [$n], $n, 1) (impl_buffer_S, InnovationCovarianceMatrixBuffer [$n], $n, $n)
            (impl_buffer_temp_x, PredictedStateEstimateVectorBuffer [$n], $n, 1) (impl_buffer_temp_P, TemporaryStateMatrixBuffer [$n], $n, $n) (impl_buffer_temp_S_inv, TemporaryResidualCovarianceInvertedMatrixBuffer [$n], $n, $n) (impl_buffer_temp_KHP, TemporaryKHPMatrixBuffer [$n], $n, $n));
        )* } }
        sq!(1 1, 2 4, 3 9, 5 25);
        macro_rules! rc { ($(($a:literal, $b:literal)),*) => { $( sized!(v, (size_buffer_B, control_matrix_B, ControlMatrixMutBuffer [$a, $b], $a, $b) (size_buffer_H, observation_matrix_H, ObservationMatrixMutBuffer [$a, $b], $a, $b) (size_buffer_K, kalman_gain_K, KalmanGainMatrixBuffer [$a, $b], $a, $b)
            (size_buffer_temp_BQ, temp_BQ, TemporaryBQMatrixBuffer [$a, $b], $a, $b) (size_buffer_temp_HP, temp_HP, TemporaryHPMatrixBuffer [$a, $b], $a, $b) (size_buffer_temp_PHt, temp_PHt, TemporaryPHTMatrixBuffer [$a, $b], $a, $b));
            place!(v, (impl_buffer_B, ControlMatrixMutBuffer [$a, $b], $a, $b) (impl_buffer_H, ObservationMatrixMutBuffer [$a, $b], $a, $b) (impl_buffer_K, KalmanGainMatrixBuffer [$a, $b], $a, $b)
            (impl_buffer_temp_BQ, TemporaryBQMatrixBuffer [$a, $b], $a, $b) (impl_buffer_temp_HP, TemporaryHPMatrixBuffer [$a, $b], $a, $b) (impl_buffer_temp_PHt, TemporaryPHTMatrixBuffer [$a, $b], $a, $b)); )* } }
        rc!((1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (4, 3), (5, 1));
        push!(v, "alloc<1,1,1>".into(), alloc::<1, 1, 1>); push!(v, "alloc<2,1,3>".into(), alloc::<2, 1, 3>); push!(v, "alloc<3,2,1>".into(), alloc::<3, 2, 1>); push!(v, "alloc<4,5,2>".into(), alloc::<4, 5, 2>); push!(v, "alloc<5,3,6>".into(), alloc::<5, 3, 6>);
    }
    v
}
