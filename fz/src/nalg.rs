use crate::{rat::*, storage::contents, util::{ck, Case, G}};
use minikalman::matrix::*;
use minikalman::prelude::*;
type Res = Result<(), String>;
macro_rules! push { ($v:ident, $n:expr, $f:expr) => { $v.push(($n, Box::new($f) as Case)) } }
// ---- C17
fn nalg<const R: usize, const C: usize, const N: usize>(g: &mut G) -> Res {
    use nalgebra::{Const, RawStorage};
    let want = contents(g, N);
    let a: [Rat; N] = want.clone().try_into().unwrap();
    let b = MatrixData::new_array::<R, C, N, Rat>(a);
    if N < R * C {
        // the only safe outcome is a refusal
        let r = std::panic::catch_unwind(|| { let m = nalgebra::Matrix::from_data(b); std::hint::black_box(RawStorage::<Rat, Const<R>, Const<C>>::ptr(&m.data)); });
        return ck(r.is_err(), || format!("a {R}x{C} nalgebra view of only {N} elements was handed out"));
    }
    let p = RawStorage::<Rat, Const<R>, Const<C>>::ptr(&b);
    ck(p == b.as_slice().as_ptr(), || "ptr() is not the start of the array".into())?;
    let sh = RawStorage::<Rat, Const<R>, Const<C>>::shape(&b);
    ck((nalgebra::Dim::value(&sh.0), nalgebra::Dim::value(&sh.1)) == (R, C), || "shape()".into())?;
    // every offset reachable through the strides, before anything is read through them
    let (rs, cs) = RawStorage::<Rat, Const<R>, Const<C>>::strides(&b);
    let (rs, cs) = (nalgebra::Dim::value(&rs), nalgebra::Dim::value(&cs));
    for i in 0..R { for j in 0..C {
        let k = i * rs + j * cs;
        ck(k < N, || format!("({i},{j}) of a {R}x{C} view lies at offset {k} of {N} elements"))?;
        ck(want[k] == b.get(i, j), || format!("({i},{j}) of the view is element {k}: {}, the matrix has {}", want[k], b.get(i, j)))?;
        let l = RawStorage::<Rat, Const<R>, Const<C>>::linear_index(&b, i, j);
        ck(l < N && want[l] == b.get(i, j), || format!("linear_index({i},{j}) is {l}"))?;
    } }
    let s = unsafe { RawStorage::<Rat, Const<R>, Const<C>>::as_slice_unchecked(&b) };
    ck(s.len() <= N && s == &want[..R * C], || format!("as_slice_unchecked gives {} elements of {N}", s.len()))?;
    let m = nalgebra::Matrix::from_data(b);
    ck(m.nrows() == R && m.ncols() == C, || format!("nrows/ncols {}x{}", m.nrows(), m.ncols()))?;
    for i in 0..R { for j in 0..C { ck(m[(i, j)] == want[i * C + j], || format!("({i},{j}) of the view is {}", m[(i, j)]))?; } }
    Ok(())
}

pub fn cases(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    if p == "C17" || p == "C14" {
        macro_rules! na { ($(($r:literal, $c:literal, $n:literal))*) => { $( push!(v, format!("nalgebra<{},{},{}>", $r, $c, $n), nalg::<$r, $c, $n>); )* } }
        na!((1,1,1) (2,2,4) (2,3,6) (3,2,6) (2,3,8) (3,2,7) (1,5,5) (5,1,5) (4,4,16) (4,4,20) (3,7,21) (7,3,21));
        if p == "C17" { na!((2,3,5) (3,3,1) (1,2,1) (4,4,15) (2,2,0)); }
    }
    v
}
