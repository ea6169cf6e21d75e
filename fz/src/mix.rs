//! The matrix operations again, with each operand in turn kept in another kind of storage.
use crate::{dims, m::M, rat::*, util::*};
use minikalman::matrix::*;

fn pad(d: &[Rat]) -> [Rat; 40] { let mut a = [int(6600); 40]; a[..d.len()].copy_from_slice(d); a }
/// a matrix to be read
macro_rules! src { ($k:expr, $d:expr, $A:expr, $B:expr, $m:ident, $e:expr) => { match $k {
    1 => { let $m = MatrixDataRef::<$A, $B, Rat>::new(&$d[..]); $e }
    2 => { let $m = MatrixDataBoxed::<$A, $B, Rat>::new($d[..].to_vec()); $e }
    3 => { let $m = MatrixDataArray::<$A, $B, 40, Rat>::new_unchecked(pad(&$d)); $e }
    4 => { let $m = MatrixDataRowMajor::<$A, $B, _, Rat>::new(MatrixDataRef::<$A, $B, Rat>::new(&$d[..])); $e }
    _ => { let mut v = $d.to_vec(); let $m = MatrixDataMut::<$A, $B, Rat>::new(&mut v); $e }
} } }
/// a matrix to be written: its elements go back into the vector
macro_rules! dst { ($k:expr, $d:expr, $A:expr, $B:expr, $m:ident, $e:expr) => { match $k {
    1 => { let mut $m = MatrixDataBoxed::<$A, $B, Rat>::new($d[..].to_vec()); let r = $e; $d.copy_from_slice($m.as_slice()); r }
    2 => { let mut $m = MatrixDataArray::<$A, $B, 40, Rat>::new_unchecked(pad(&$d)); let r = $e; let n = $d.len(); let i = $m.into_inner(); ck(i[n..].iter().all(|v| *v == int(6600)), || "array storage: elements beyond rows x columns changed".into())?; $d.copy_from_slice(&i[..n]); r }
    3 => { let mut v = $d.to_vec(); let r = { let mut $m = MatrixDataRowMajorMut::<$A, $B, _, Rat>::new(MatrixDataMut::<$A, $B, Rat>::new(&mut v)); $e }; $d.copy_from_slice(&v); r }
    4 => { let mut $m = MatrixDataRowMajorMut::<$A, $B, _, Rat>::new(MatrixDataBoxed::<$A, $B, Rat>::new($d[..].to_vec())); let r = $e; $d.copy_from_slice($m.as_slice()); r }
    _ => { let mut v = $d.to_vec(); let r = { let mut $m = MatrixDataMut::<$A, $B, Rat>::new(&mut v); $e }; $d.copy_from_slice(&v); r }
} } }

fn products_in<const A: usize, const B: usize, const C: usize>(g: &mut G) -> R {
    let (a, b, bt, x) = (g.mat("A", A, B), g.mat("B", B, C), g.mat("Bt", C, B), g.mat("x", B, 1));
    let (c0, y0, s) = (g.mat("C", A, C), g.mat("y", A, 1), g.val());
    g.note(&format!("scale={s}"));
    let k = 1 + g.below(4) as usize;
    macro_rules! one { ($nm:literal, $b:expr, ($BA:expr, $BB:expr), $c:expr, ($CA:expr, $CB:expr), $want:expr, |$am:ident, $bm:ident, $cm:ident| $e:expr) => {{
        let want = $want;
        let mut out = $c.d.clone();
        { let mut cv = out.clone(); { let mut $cm = MatrixDataMut::<$CA, $CB, Rat>::new(&mut cv); let mut bv = $b.d.clone(); let $bm = MatrixDataMut::<$BA, $BB, Rat>::new(&mut bv); src!(k, a.d, A, B, $am, $e) } eq(&format!("{}, first operand in storage {k}", $nm), &cv, &want)?; }
        { let mut cv = out.clone(); { let mut $cm = MatrixDataMut::<$CA, $CB, Rat>::new(&mut cv); let mut av = a.d.clone(); let $am = MatrixDataMut::<A, B, Rat>::new(&mut av); src!(k, $b.d, $BA, $BB, $bm, $e) } eq(&format!("{}, second operand in storage {k}", $nm), &cv, &want)?; }
        { let mut av = a.d.clone(); let $am = MatrixDataMut::<A, B, Rat>::new(&mut av); let mut bv = $b.d.clone(); let $bm = MatrixDataMut::<$BA, $BB, Rat>::new(&mut bv); dst!(k, out, $CA, $CB, $cm, $e); eq(&format!("{}, result in storage {k}", $nm), &out, &want)?; }
    }} }
    one!("mult", b, (B, C), c0, (A, C), a.mul(&b), |am, bm, cm| am.mult(&bm, &mut cm));
    one!("mult_buffered", b, (B, C), c0, (A, C), a.mul(&b), |am, bm, cm| am.mult_buffered(&bm, &mut cm, &mut vec![int(55); B][..]));
    one!("mult_rowvector", x, (B, 1), y0, (A, 1), a.mul(&x), |am, bm, cm| am.mult_rowvector(&bm, &mut cm));
    one!("multadd_rowvector", x, (B, 1), y0, (A, 1), y0.add(&a.mul(&x)), |am, bm, cm| am.multadd_rowvector(&bm, &mut cm));
    one!("mult_transb", bt, (C, B), c0, (A, C), a.mul(&bt.t()), |am, bm, cm| am.mult_transb(&bm, &mut cm));
    one!("multadd_transb", bt, (C, B), c0, (A, C), c0.add(&a.mul(&bt.t())), |am, bm, cm| am.multadd_transb(&bm, &mut cm));
    one!("multscale_transb", bt, (C, B), c0, (A, C), a.mul(&bt.t()).scale(s), |am, bm, cm| am.multscale_transb(&bm, s, &mut cm));
    Ok(())
}
fn addsub_in<const A: usize, const B: usize>(g: &mut G) -> R {
    let (a, b, c) = (g.mat("A", A, B), g.mat("B", A, B), g.mat("C", A, B));
    let k = 1 + g.below(4) as usize;
    let (mut av, mut bv) = (a.d.clone(), b.d.clone());
    { let mut cv = c.d.clone(); let bm = MatrixDataRef::<A, B, Rat>::new(&bv); { let mut cm = MatrixDataMut::<A, B, Rat>::new(&mut cv); src!(k, av, A, B, am, am.sub(&bm, &mut cm)); } eq("sub", &cv, &a.sub(&b))?; }
    { let mut cv = c.d.clone(); let am = MatrixDataRef::<A, B, Rat>::new(&av); { let mut cm = MatrixDataMut::<A, B, Rat>::new(&mut cv); src!(k, bv, A, B, bm, am.sub(&bm, &mut cm)); } eq("sub", &cv, &a.sub(&b))?; }
    { let mut cv = c.d.clone(); let am = MatrixDataRef::<A, B, Rat>::new(&av); let bm = MatrixDataRef::<A, B, Rat>::new(&bv); dst!(k, cv, A, B, cm, am.sub(&bm, &mut cm)); eq("sub", &cv, &a.sub(&b))?; }
    { let mut w = bv.clone(); { let mut bm = MatrixDataMut::<A, B, Rat>::new(&mut w); src!(k, av, A, B, am, am.add_inplace_b(&mut bm)); } eq("add_inplace_b", &w, &a.add(&b))?; }
    { let mut w = bv.clone(); let am = MatrixDataRef::<A, B, Rat>::new(&av); dst!(k, w, A, B, bm, am.add_inplace_b(&mut bm)); eq("add_inplace_b", &w, &a.add(&b))?; }
    { let mut w = bv.clone(); { let mut bm = MatrixDataMut::<A, B, Rat>::new(&mut w); src!(k, av, A, B, am, am.sub_inplace_b(&mut bm)); } eq("sub_inplace_b", &w, &a.sub(&b))?; }
    { let mut w = bv.clone(); let am = MatrixDataRef::<A, B, Rat>::new(&av); dst!(k, w, A, B, bm, am.sub_inplace_b(&mut bm)); eq("sub_inplace_b", &w, &a.sub(&b))?; }
    { let mut w = av.clone(); { let mut am = MatrixDataMut::<A, B, Rat>::new(&mut w); src!(k, bv, A, B, bm, am.add_inplace_a(&bm)); } eq("add_inplace_a", &w, &a.add(&b))?; }
    { let mut w = av.clone(); let bm = MatrixDataRef::<A, B, Rat>::new(&bv); dst!(k, w, A, B, am, am.add_inplace_a(&bm)); eq("add_inplace_a", &w, &a.add(&b))?; }
    { let mut w = av.clone(); { let mut am = MatrixDataMut::<A, B, Rat>::new(&mut w); src!(k, bv, A, B, bm, am.sub_inplace_a(&bm)); } eq("sub_inplace_a", &w, &a.sub(&b))?; }
    { let mut w = av.clone(); let bm = MatrixDataRef::<A, B, Rat>::new(&bv); dst!(k, w, A, B, am, am.sub_inplace_a(&bm)); eq("sub_inplace_a", &w, &a.sub(&b))?; }
    Ok(())
}
fn cholesky_in<const N: usize>(g: &mut G) -> R {
    let l = g.low(N);
    let mut s = l.mul(&l.t());
    if g.flip() { let k = g.below(N as u64) as usize; s.d[k * N + k] -= l.at(k, k) * l.at(k, k) + int(g.below(2) as i64); }
    g.note(&format!("S={:?}", s.d));
    let k = 1 + g.below(4) as usize;
    let want = s.chol();
    let mut v = s.d.clone();
    let ok = dst!(k, v, N, N, m, m.cholesky_decompose_lower());
    if lost() { return Ok(()); }
    ck(ok == want.is_some(), || format!("cholesky_decompose_lower in storage {k} returned {ok}"))?;
    if let Some(w) = want { eq(&format!("cholesky_decompose_lower in storage {k}"), &v, &w)?; }
    Ok(())
}
fn inversion_in<const N: usize>(g: &mut G) -> R {
    let l = g.low(N);
    let mut dirty = l.clone();
    if g.flip() { for i in 0..N { for j in i + 1..N { dirty.d[i * N + j] = g.val(); } } }
    g.note(&format!("L={:?}", dirty.d));
    let k = 1 + g.below(4) as usize;
    let x0 = g.mat("X", N, N);
    let (mut x1, mut x2) = (x0.d.clone(), x0.d.clone());
    { let mut xm = MatrixDataMut::<N, N, Rat>::new(&mut x1); src!(k, dirty.d, N, N, m, m.invert_l_cholesky(&mut xm)) }
    { let mut lv = dirty.d.clone(); let lm = MatrixDataMut::<N, N, Rat>::new(&mut lv); dst!(k, x2, N, N, m, lm.invert_l_cholesky(&mut m)) }
    if lost() { return Ok(()); }
    for x in [x1, x2] {
        let x = M::new(N, N, &x);
        eq("invert_l_cholesky: L·Lᵀ·X", &l.mul(&l.t()).mul(&x).d, &M::id(N))?;
        eq("invert_l_cholesky: symmetry", &x.d, &x.t())?;
    }
    Ok(())
}
fn access_in<const A: usize, const B: usize>(g: &mut G) -> R {
    let (m, t) = (g.mat("M", A, B), g.mat("T", A, B));
    let k = 1 + g.below(4) as usize;
    for i in 0..A {
        let mut row = vec![int(55); B + 1];
        src!(k, m.d, A, B, v, v.get_row_copy(i, &mut row[..]));
        ck((0..B).all(|j| row[j] == m.at(i, j)) && row[B] == int(55), || format!("get_row_copy({i}) of a {A}x{B} matrix in storage {k} gives {row:?}"))?;
        for j in 0..B {
            let mut col = vec![int(55); A + 1];
            src!(k, m.d, A, B, v, v.get_column_copy(j, &mut col[..]));
            ck((0..A).all(|i| col[i] == m.at(i, j)) && col[A] == int(55), || format!("get_column_copy({j}) of a {A}x{B} matrix in storage {k} gives {col:?}"))?;
            let (x, y, z) = src!(k, m.d, A, B, v, (v.get(i, j), v.get_at(i, j), v[i * B + j]));
            ck(x == m.at(i, j) && y == x && z == x, || format!("element ({i},{j}) of a {A}x{B} matrix in storage {k}: get {x}, get_at {y}, index {z}"))?;
            for way in 0..3 {
                let mut w = m.d.clone();
                dst!(k, w, A, B, v, match way { 0 => v.set(i, j, int(4711)), 1 => v.set_at(i, j, int(4711)), _ => v[i * B + j] = int(4711) });
                let mut want = m.clone();
                want.d[i * B + j] = int(4711);
                eq(&format!("write ({i},{j}) in storage {k}"), &w, &want)?;
            }
        }
    }
    let mut out = t.d.clone();
    { let mut d = MatrixDataMut::<A, B, Rat>::new(&mut out); src!(k, m.d, A, B, s, s.copy_to(&mut d)) }
    eq("copy_to", &out, &m)?;
    let mut out = t.d.clone();
    { let s = MatrixDataRef::<A, B, Rat>::new(&m.d); dst!(k, out, A, B, d, s.copy_to(&mut d)) }
    eq("copy_to", &out, &m)?;
    let mut out = t.d.clone();
    { let mut d = MatrixDataMut::<A, B, Rat>::new(&mut out); let mut sv = m.d.clone(); dst!(k, sv, A, B, s, d.copy_from(&s)); eq("source of copy_from", &sv, &m)?; }
    eq("copy_from", &out, &m)?;
    let mut out = t.d.clone();
    { let mut sv = m.d.clone(); let s = MatrixDataMut::<A, B, Rat>::new(&mut sv); dst!(k, out, A, B, d, d.copy_from(&s)) }
    eq("copy_from", &out, &m)
}
fn square_in<const N: usize>(g: &mut G) -> R {
    let m = g.mat("M", N, N);
    let k = 1 + g.below(4) as usize;
    let (i, j, v) = (g.below(N as u64) as usize, g.below(N as u64) as usize, g.val());
    let mut w = m.d.clone();
    dst!(k, w, N, N, s, s.set_symmetric(i, j, v));
    let mut want = m.clone();
    want.d[i * N + j] = v;
    want.d[j * N + i] = v;
    eq(&format!("set_symmetric({i},{j}) in storage {k}"), &w, &want)
}
fn init_in<const N: usize>(g: &mut G) -> R {
    let m = g.mat("before", N, N);
    let (d, o) = (g.val(), g.val());
    let k = [1, 3, 4][g.below(3) as usize];      // exact lengths
    for op in 0..7 {
        let mut w = m.d.clone();
        dst!(k, w, N, N, s, match op { 0 => s.make_identity(), 1 => s.make_scalar(d), 2 => s.make_comatrix(d, o), 3 => s.set_diagonal_to_scalar(d), 4 => s.clear(), 5 => s.set_zero(), _ => s.set_all(d) });
        let want = M::f(N, N, |i, j| match (op, i == j) { (0, e) => int(e as i64), (1, e) => if e { d } else { int(0) }, (2, e) => if e { d } else { o }, (3, true) => d, (3, _) => m.at(i, j), (6, _) => d, _ => int(0) });
        eq(&format!("{} in storage {k}", ["make_identity", "make_scalar", "make_comatrix", "set_diagonal_to_scalar", "clear", "set_zero", "set_all"][op]), &w, &want)?;
    }
    Ok(())
}

pub fn cases(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    macro_rules! only { ($p:literal, $f:ident, $($n:literal),+) => { #[cfg(feature = $p)] if p == $p { v.push((format!("{}{:?}", stringify!($f), ($($n,)+)), Box::new($f::<$($n),+>) as Case)); } } }
    only!("C08", products_in, 1, 1, 1); only!("C08", products_in, 2, 3, 2); only!("C08", products_in, 3, 3, 3); only!("C08", products_in, 4, 2, 5);
    only!("C12", addsub_in, 1, 1); only!("C12", addsub_in, 2, 3); only!("C12", addsub_in, 4, 4);
    only!("C09", cholesky_in, 1); only!("C09", cholesky_in, 2); only!("C09", cholesky_in, 3); only!("C09", cholesky_in, 5);
    only!("C10", inversion_in, 1); only!("C10", inversion_in, 2); only!("C10", inversion_in, 3); only!("C10", inversion_in, 5);
    only!("C11", access_in, 1, 1); only!("C11", access_in, 2, 3); only!("C11", access_in, 3, 2); only!("C11", access_in, 5, 5); only!("C11", square_in, 2); only!("C11", square_in, 4);
    only!("C13", init_in, 1); only!("C13", init_in, 2); only!("C13", init_in, 3); only!("C13", init_in, 5);
    v
}
