use crate::{dims, m::M, rat::*, util::*};
use minikalman::matrix::*;

fn mm<const A: usize, const B: usize>(v: &mut Vec<Rat>) -> MatrixDataMut<'_, A, B, Rat> { MatrixDataMut::new(&mut v[..]) }

fn products<const A: usize, const B: usize, const C: usize>(g: &mut G) -> R {
    let (a, b, bt, x) = (g.mat("A", A, B), g.mat("B", B, C), g.mat("Bt", C, B), g.mat("x", B, 1));
    let (c0, y0, s) = (g.mat("C", A, C), g.mat("y", A, 1), g.val());
    g.note(&format!("scale={s}"));
    let (mut ab, mut bb, mut btb, mut xb) = (g.buf(&a), g.buf(&b), g.buf(&bt), g.buf(&x));
    for op in 0..7 {
        let mut cb = g.buf_at(if op == 2 || op == 3 { &y0 } else { &c0 }, 8800);
        let want;
        {
            let am = mm::<A, B>(&mut ab);
            let bm = mm::<B, C>(&mut bb);
            let btm = mm::<C, B>(&mut btb);
            let xm = mm::<B, 1>(&mut xb);
            match op {
                0 => { let mut c = mm::<A, C>(&mut cb); am.mult(&bm, &mut c); want = a.mul(&b); }
                1 => {
                    let mut aux = vec![int(55); B];
                    let mut c = mm::<A, C>(&mut cb);
                    am.mult_buffered(&bm, &mut c, &mut aux[..]);
                    want = a.mul(&b);
                }
                2 => { let mut c = mm::<A, 1>(&mut cb); am.mult_rowvector(&xm, &mut c); want = a.mul(&x); }
                3 => { let mut c = mm::<A, 1>(&mut cb); am.multadd_rowvector(&xm, &mut c); want = y0.add(&a.mul(&x)); }
                4 => { let mut c = mm::<A, C>(&mut cb); am.mult_transb(&btm, &mut c); want = a.mul(&bt.t()); }
                5 => { let mut c = mm::<A, C>(&mut cb); am.multadd_transb(&btm, &mut c); want = c0.add(&a.mul(&bt.t())); }
                _ => { let mut c = mm::<A, C>(&mut cb); am.multscale_transb(&btm, s, &mut c); want = a.mul(&bt.t()).scale(s); }
            }
        }
        let nm = ["mult", "mult_buffered", "mult_rowvector", "multadd_rowvector", "mult_transb", "multadd_transb", "multscale_transb"][op];
        eq(&format!("{nm}: output"), &cb, &want)?;
        tail_at(&format!("{nm} output"), &cb, want.d.len(), 8800)?;
        eq(&format!("{nm}: first operand"), &ab, &a)?;
        eq(&format!("{nm}: second operand"), &bb, &b)?;
        eq(&format!("{nm}: second operand"), &btb, &bt)?;
        eq(&format!("{nm}: vector"), &xb, &x)?;
        for (w, v, n) in [("a", &ab, A * B), ("b", &bb, B * C), ("b", &btb, B * C), ("x", &xb, B)] { tail(&format!("{nm} {w}"), v, n)?; }
    }
    Ok(())
}

fn addsub<const A: usize, const B: usize>(g: &mut G) -> R {
    let (a, b) = (g.mat("A", A, B), g.mat("B", A, B));
    for op in 0..6 {
        let (mut ab, mut bb, mut cb) = (g.buf(&a), g.buf(&b), g.junk(A, B));
        let n = A * B;
        retail(&mut cb, n, 8800);
        retail(&mut bb, n, 8500);
        {
            let mut am = mm::<A, B>(&mut ab);
            let mut bm = mm::<A, B>(&mut bb);
            match op {
                0 => { let mut c = mm::<A, B>(&mut cb); am.sub(&bm, &mut c) }
                1 => am.add_inplace_b(&mut bm),
                2 => am.sub_inplace_b(&mut bm),
                3 => am.add_inplace_a(&bm),
                4 => am.sub_inplace_a(&bm),
                _ => { let mut c = mm::<A, B>(&mut cb); bm.sub(&am, &mut c) }
            }
        }
        let nm = ["sub", "add_inplace_b", "sub_inplace_b", "add_inplace_a", "sub_inplace_a", "sub"][op];
        let (wa, wb) = match op { 0 | 5 => (a.clone(), b.clone()), 1 => (a.clone(), a.add(&b)), 2 => (a.clone(), a.sub(&b)), 3 => (a.add(&b), b.clone()), _ => (a.sub(&b), b.clone()) };
        eq(&format!("{nm}: a"), &ab, &wa)?;
        eq(&format!("{nm}: b"), &bb, &wb)?;
        if op == 0 { eq("sub: c", &cb, &a.sub(&b))?; }
        if op == 5 { eq("sub: c", &cb, &b.sub(&a))?; }
        for (w, v, t) in [("a", &ab, 7700), ("b", &bb, 8500), ("c", &cb, 8800)] { tail_at(&format!("{nm} {w}"), v, n, t)?; }
    }
    Ok(())
}

fn cholesky<const N: usize>(g: &mut G) -> R {
    let l = g.low(N);
    let mut s = l.mul(&l.t());
    let kind = g.below(4);
    if kind > 0 {
        // spoil one pivot: exactly zero, negative, or slightly
        let k = g.below(N as u64) as usize;
        let piv = l.at(k, k) * l.at(k, k);
        let d = match kind { 1 => piv, 2 => piv + rat(1, 1 << 12), _ => piv + int(1 + g.below(5) as i64) };
        s.d[k * N + k] -= d;
    } else if g.below(4) == 0 {
        let k = g.below(N as u64) as usize;
        let _ = k;
        let f = rat(1, [1, 4, 1 << 20, 1 << 40][g.below(4) as usize]);
        s = s.scale(f);
    }
    g.note(&format!("S={:?}", s.d));
    let want = s.chol();
    let mut b = g.buf(&s);
    let ok = mm::<N, N>(&mut b).cholesky_decompose_lower();
    if lost() { return Ok(()); }
    ck(ok == want.is_some(), || format!("cholesky_decompose_lower returned {ok} for a matrix that is {}positive definite", if want.is_some() { "" } else { "not " }))?;
    if let Some(w) = want { eq("cholesky_decompose_lower: factor", &b, &w)?; }
    tail("cholesky matrix", &b, N * N)
}

fn inversion<const N: usize>(g: &mut G) -> R {
    let mut l = g.low(N);
    for i in 0..N { if g.below(4) == 0 { l.d[i * N + i] = [int(-1), int(3), rat(-1, 2), int(5)][g.below(4) as usize]; } }
    let mut dirty = l.clone();
    if g.flip() { for i in 0..N { for j in i + 1..N { dirty.d[i * N + j] = g.val(); } } }
    g.note(&format!("L={:?}", dirty.d));
    let (mut lb, mut xb) = (g.buf(&dirty), g.junk(N, N));
    retail(&mut xb, N * N, 8800);
    mm::<N, N>(&mut lb).invert_l_cholesky(&mut mm::<N, N>(&mut xb));
    if lost() { return Ok(()); }
    let x = M::new(N, N, &xb);
    eq("invert_l_cholesky: L·Lᵀ·X", &l.mul(&l.t()).mul(&x).d, &M::id(N))?;
    eq("invert_l_cholesky: symmetry", &x.d, &x.t())?;
    eq("invert_l_cholesky: L", &lb, &dirty)?;
    tail("L", &lb, N * N)?;
    tail_at("X", &xb, N * N, 8800)
}

fn access<const A: usize, const B: usize>(g: &mut G) -> R {
    let m = M::f(A, B, |i, j| int((100 * i + j) as i64 - 37));
    let _ = g.mat("seed", 1, 1);
    let mut b = g.buf(&m);
    let n = A * B;
    {
        let mut v = mm::<A, B>(&mut b);
        ck(v.rows() == A && v.cols() == B, || format!("rows/cols {} {}", v.rows(), v.cols()))?;
        ck(RowMajorSequentialData::len(&v) == n, || "len".into())?;
        for i in 0..A {
            for j in 0..B {
                for (w, x) in [("get", v.get(i, j)), ("get_at", v.get_at(i, j)), ("index", v[i * B + j]), ("as_slice", v.as_slice()[i * B + j])] {
                    ck(x == m.at(i, j), || format!("{w}({i},{j}) of a {A}x{B} matrix gives {x}, the element is {}", m.at(i, j)))?;
                }
            }
        }
        for i in 0..A {
            let mut row = vec![int(55); B + 1];
            v.get_row_copy(i, &mut row[..]);
            ck((0..B).all(|j| row[j] == m.at(i, j)) && row[B] == int(55), || format!("get_row_copy({i}) of a {A}x{B} matrix gives {row:?}"))?;
        }
        for j in 0..B {
            let mut col = vec![int(55); A + 1];
            v.get_column_copy(j, &mut col[..]);
            ck((0..A).all(|i| col[i] == m.at(i, j)) && col[A] == int(55), || format!("get_column_copy({j}) of a {A}x{B} matrix gives {col:?}"))?;
        }
        // writes: one element only
        let mut want = m.clone();
        for i in 0..A {
            for j in 0..B {
                let val = int(1000 + (i * B + j) as i64) + g.small();
                match (i + j + g.round as usize) % 3 { 0 => v.set(i, j, val), 1 => v.set_at(i, j, val), _ => v[i * B + j] = val }
                want.d[i * B + j] = val;
                eq(&format!("write ({i},{j})"), v.as_slice(), &want)?;
            }
        }
    }
    tail("matrix", &b, n)?;
    // copies
    let src = g.mat("src", A, B);
    let mut sb = g.buf(&src);
    let mut db = g.junk(A, B);
    retail(&mut db, n, 8800);
    {
        let s = mm::<A, B>(&mut sb);
        let mut d = mm::<A, B>(&mut db);
        match g.below(3) {
            0 => s.copy_to(&mut d),
            1 => d.copy_from(&s),
            _ => { #[allow(deprecated)] s.copy(&mut d) }
        }
    }
    eq("copy: target", &db, &src)?;
    eq("copy: source", &sb, &src)?;
    tail_at("copy target", &db, n, 8800)?;
    tail("copy source", &sb, n)?;
    // inspect / apply
    let mut d = mm::<A, B>(&mut db);
    let mut calls = 0;
    let got = d.inspect(|m| { calls += 1; m.as_slice()[n - 1] });
    ck(calls == 1 && got == src.d[n - 1], || format!("inspect called its closure {calls} times"))?;
    calls = 0;
    let r = d.apply(|m| { calls += 1; m.as_mut_slice()[0] = int(4242); 17 });
    ck(calls == 1 && r == 17 && d.as_slice()[0] == int(4242), || format!("apply called its closure {calls} times"))
}
fn vectors<const N: usize>(g: &mut G) -> R {
    let m = M::f(N, 1, |i, _| int(10 + i as i64));
    let _ = g.small();
    let (mut rb, mut cb) = (g.buf(&m), g.buf(&m));
    {
        let mut r = mm::<N, 1>(&mut rb);
        let mut c = mm::<1, N>(&mut cb);
        let mut want = m.clone();
        for i in 0..N {
            ck(r.get_row(i) == want.d[i], || format!("get_row({i}) = {}", r.get_row(i)))?;
            ck(c.get_col(i) == want.d[i], || format!("get_col({i}) = {}", c.get_col(i)))?;
            let v = int(500 + i as i64);
            r.set_row(i, v);
            c.set_col(i, v);
            want.d[i] = v;
            eq("set_row", r.as_slice(), &want)?;
            eq("set_col", c.as_slice(), &want)?;
        }
    }
    tail("row vector", &rb, N)?;
    tail("column vector", &cb, N)?;
    let mut sb = g.buf(&M::f(1, 1, |_, _| int(3)));
    {
        let mut s = mm::<1, 1>(&mut sb);
        ck(s.get_value() == int(3), || "get_value".into())?;
        s.set_value(int(8));
        ck(s.get_value() == int(8) && s.get(0, 0) == int(8), || "set_value".into())?;
    }
    tail("scalar", &sb, 1)?;
    // symmetric setter
    let base = g.mat("S", N, N);
    let mut b = g.buf(&base);
    let mut want = base.clone();
    {
        let mut s = mm::<N, N>(&mut b);
        for _ in 0..4 {
            let (i, j) = (g.below(N as u64) as usize, g.below(N as u64) as usize);
            let v = g.val();
            s.set_symmetric(i, j, v);
            want.d[i * N + j] = v;
            want.d[j * N + i] = v;
            eq(&format!("set_symmetric({i},{j})"), s.as_slice(), &want)?;
        }
    }
    tail("symmetric", &b, N * N)
}
fn init<const N: usize>(g: &mut G) -> R {
    let base = g.mat("before", N, N);
    let (d, o) = (g.val(), g.val());
    g.note(&format!("d={d} o={o}"));
    for op in 0..4 {
        let mut b = g.buf(&base);
        {
            let mut s = mm::<N, N>(&mut b);
            match op { 0 => s.make_identity(), 1 => s.make_scalar(d), 2 => s.make_comatrix(d, o), _ => s.set_diagonal_to_scalar(d) }
        }
        let want = M::f(N, N, |i, j| match (op, i == j) { (0, e) => int(e as i64), (1, e) => if e { d } else { int(0) }, (2, e) => if e { d } else { o }, (_, true) => d, _ => base.at(i, j) });
        eq(["make_identity", "make_scalar", "make_comatrix", "set_diagonal_to_scalar"][op], &b, &want)?;
        if g.prop == "C14" || op == 3 { tail("square", &b, N * N)?; }
    }
    Ok(())
}
fn fill<const A: usize, const B: usize>(g: &mut G) -> R {
    let base = g.mat("before", A, B);
    let d = g.val();
    g.note(&format!("fill={d}"));
    for op in 0..3 {
        let mut b = g.buf(&base);
        {
            let mut s = mm::<A, B>(&mut b);
            match op { 0 => s.clear(), 1 => s.set_zero(), _ => s.set_all(d) }
        }
        eq(["clear", "set_zero", "set_all"][op], &b, &M::f(A, B, |_, _| if op == 2 { d } else { int(0) }))?;
    }
    Ok(())
}

pub fn cases(p: &str) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    dims!(v, p, "C08", products; (1,1,1) (1,1,2) (1,2,1) (2,1,1) (2,1,3) (1,3,2) (3,2,1) (2,2,2) (2,3,4) (4,3,2) (3,3,3) (4,4,4) (3,5,2) (5,2,5) (5,5,5) (6,6,6) (8,8,8) (4,9,9) (16,16,16) (17,3,5) (7,7,7) (7,3,6) (6,7,3) (3,6,7) (7,6,5) (5,7,6) (6,5,7) (9,10,11) (11,9,10) (10,11,9) (9,3,6) (12,4,8) (13,2,14) (14,13,3) (2,4,2) (2,5,2) (2,6,2) (2,7,2) (2,8,2) (2,9,2) (2,10,2) (2,11,2) (2,12,2) (2,13,2) (2,14,2) (2,15,2) (2,16,2) (2,17,2) (2,18,2) (2,19,2) (2,20,2) (2,21,2) (2,22,2) (2,23,2) (2,24,2) (2,25,2) (2,26,2) (2,27,2) (2,28,2) (2,29,2) (2,30,2) (2,31,2) (2,32,2) (2,33,2) (2,34,2) (2,35,2) (4,2,1) (5,2,1) (6,2,1) (7,2,1) (8,2,1) (9,2,1) (10,2,1) (11,2,1) (12,2,1) (13,2,1) (14,2,1) (15,2,1) (16,2,1) (17,2,1) (18,2,1) (19,2,1) (20,2,1) (21,2,1) (22,2,1) (23,2,1) (24,2,1) (25,2,1) (26,2,1) (27,2,1) (28,2,1) (29,2,1) (30,2,1) (31,2,1) (32,2,1) (33,2,1) (34,2,1) (35,2,1) (1,2,4) (1,2,5) (1,2,6) (1,2,7) (1,2,8) (1,2,9) (1,2,10) (1,2,11) (1,2,12) (1,2,13) (1,2,14) (1,2,15) (1,2,16) (1,2,17) (1,2,18) (1,2,19) (1,2,20) (1,2,21) (1,2,22) (1,2,23) (1,2,24) (1,2,25) (1,2,26) (1,2,27) (1,2,28) (1,2,29) (1,2,30) (1,2,31) (1,2,32) (1,2,33) (1,2,34) (1,2,35));
    dims!(v, p, "C12", addsub; (1,1) (1,2) (2,1) (2,2) (2,3) (3,2) (3,3) (4,4) (4,5) (5,5) (8,8) (9,3) (16,16) (17,2) (1,3) (1,4) (1,5) (1,6) (1,7) (1,8) (1,9) (1,10) (1,11) (1,12) (1,13) (1,14) (1,15) (1,16) (1,17) (1,18) (1,19) (1,20) (1,21) (1,22) (1,23) (1,24) (1,25) (1,26) (1,27) (1,28) (1,29) (1,30) (1,31) (1,32) (1,33) (1,34) (1,35) (1,36) (1,37) (1,38) (1,39) (1,40) (3,1) (4,1) (5,1) (6,1) (7,1) (8,1) (9,1) (10,1) (11,1) (12,1) (13,1) (14,1) (15,1) (16,1) (17,1) (18,1) (19,1) (20,1) (21,1) (22,1) (23,1) (24,1) (25,1) (26,1) (27,1) (28,1) (29,1) (30,1) (31,1) (32,1) (33,1) (34,1) (35,1) (3,7) (3,8) (3,9) (3,10) (3,11));
    dims!(v, p, "C09", cholesky; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20);
    dims!(v, p, "C10", inversion; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
    dims!(v, p, "C11", access; (1,1) (1,2) (2,1) (2,2) (2,3) (3,2) (3,3) (4,4) (4,5) (5,5) (8,8) (9,3) (3,10) (2,4) (2,5) (2,6) (2,7) (2,8) (2,9) (2,10) (2,11) (2,12) (2,13) (2,14) (2,15) (2,16) (2,17) (2,18) (2,19) (2,20) (2,21) (2,22) (2,23) (2,24) (2,25) (2,26) (2,27) (2,28) (2,29) (2,30) (2,31) (2,32) (2,33) (2,34) (4,2) (5,2) (6,2) (7,2) (8,2) (9,2) (10,2) (11,2) (12,2) (13,2) (14,2) (15,2) (16,2) (17,2) (18,2) (19,2) (20,2) (21,2) (22,2) (23,2) (24,2) (25,2) (26,2) (27,2) (28,2) (29,2) (30,2) (31,2) (32,2) (33,2) (34,2) (1,7) (1,17) (7,1) (17,1));
    dims!(v, p, "C11", vectors; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 31 32 33);
    dims!(v, p, "C13", init; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 31 32 33);
    dims!(v, p, "C13", fill; (1,1) (1,2) (2,1) (2,3) (3,3) (4,4) (5,5) (8,9) (17,3) (1,3) (1,4) (1,5) (1,6) (1,7) (1,8) (1,9) (1,10) (1,11) (1,12) (1,13) (1,14) (1,15) (1,16) (1,17) (1,18) (1,19) (3,1) (4,1) (5,1) (6,1) (7,1) (8,1) (9,1) (10,1) (11,1) (12,1) (13,1) (14,1) (15,1) (16,1) (17,1) (18,1) (19,1) (4,8) (4,9) (8,8) (1,64) (1,65));
    v
}
