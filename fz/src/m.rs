//! Plain dense matrices over the exact type: the specification side of every check.
use crate::rat::*;
#[derive(Clone, PartialEq, Debug)]
pub struct M { pub r: usize, pub c: usize, pub d: Vec<Rat> }
impl M {
    pub fn new(r: usize, c: usize, d: &[Rat]) -> M { M { r, c, d: d[..r * c].to_vec() } }
    pub fn f(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> Rat) -> M {
        let mut d = vec![];
        for i in 0..r { for j in 0..c { d.push(f(i, j)); } }
        M { r, c, d }
    }
    pub fn at(&self, i: usize, j: usize) -> Rat { self.d[i * self.c + j] }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.c, o.r);
        M::f(self.r, o.c, |i, j| (0..self.c).map(|k| self.at(i, k) * o.at(k, j)).sum())
    }
    pub fn t(&self) -> M { M::f(self.c, self.r, |i, j| self.at(j, i)) }
    pub fn add(&self, o: &M) -> M { M::f(self.r, self.c, |i, j| self.at(i, j) + o.at(i, j)) }
    pub fn sub(&self, o: &M) -> M { M::f(self.r, self.c, |i, j| self.at(i, j) - o.at(i, j)) }
    pub fn scale(&self, s: Rat) -> M { M::f(self.r, self.c, |i, j| self.at(i, j) * s) }
    pub fn id(n: usize) -> M { M::f(n, n, |i, j| int((i == j) as i64)) }
    /// exact inverse by elimination
    pub fn inv(&self) -> Option<M> {
        let n = self.r;
        let mut a = self.clone();
        let mut b = M::id(n);
        for i in 0..n {
            let p = (i..n).find(|&k| a.at(k, i) != int(0))?;
            for j in 0..n { a.d.swap(i * n + j, p * n + j); b.d.swap(i * n + j, p * n + j); }
            let q = int(1) / a.at(i, i);
            for j in 0..n { a.d[i * n + j] *= q; b.d[i * n + j] *= q; }
            for k in 0..n {
                if k != i {
                    let f = a.at(k, i);
                    if f == int(0) { continue; }
                    for j in 0..n {
                        let (u, v) = (a.at(i, j), b.at(i, j));
                        a.d[k * n + j] -= f * u;
                        b.d[k * n + j] -= f * v;
                    }
                }
            }
        }
        Some(b)
    }
    /// lower-triangular factor with positive diagonal, if there is one
    pub fn chol(&self) -> Option<M> {
        let n = self.r;
        let mut l = M::f(n, n, |_, _| int(0));
        for j in 0..n {
            let mut s = self.at(j, j);
            for k in 0..j { s -= l.at(j, k) * l.at(j, k); }
            if s <= int(0) { return None; }
            let q = minikalman::matrix::MatrixDataType::square_root(s);
            l.d[j * n + j] = q;
            for i in j + 1..n {
                let mut s = self.at(i, j);
                for k in 0..j { s -= l.at(i, k) * l.at(j, k); }
                l.d[i * n + j] = s / q;
            }
        }
        Some(l)
    }
}
