"""Behaviour-preserving edits: the checks have to stay quiet on them.  usage: quiet_src.py OUTDIR  (writes NAME.diff each)"""
import sys, os, subprocess
TR, RM, REG, EXT, CT, OREG, OEXT = 'matrix/traits.rs', 'matrix/row_major.rs', 'kalman/regular.rs', 'kalman/extended.rs', 'controls.rs', 'observations/regular.rs', 'observations/extended.rs'
E = {
 'cholesky-adds-negated': ('C09', [(TR, 'sum -= t[idx!(i_el)] * t[idx!(j_el)];', 'sum += -t[idx!(i_el)] * t[idx!(j_el)];', 1)]),
 'cholesky-commuted': ('C09', [(TR, 'sum -= t[idx!(i_el)] * t[idx!(j_el)];', 'sum = sum - t[idx!(j_el)] * t[idx!(i_el)];', 1)]),
 'invert-commuted': ('C10', [(TR, '.map(|k| -mat[idx!(k * n + i)] * inv[idx!(j * n + k)])', '.map(|k| inv[idx!(j * n + k)] * -mat[idx!(k * n + i)])', 1), (TR, 'let value = sum * inv_el_ii;', 'let value = inv_el_ii * sum;', 1)]),
 'scale-commuted': ('C08 C02', [(TR, 'cdata[idx!(c_index)] = total * scale;', 'cdata[idx!(c_index)] = scale * total;', 1)]),
 'add-commuted': ('C12', [(TR, 'bdata[idx!(index)] += adata[idx!(index)];', 'bdata[idx!(index)] = adata[idx!(index)] + bdata[idx!(index)];', 1), (TR, 'adata[idx!(index)] -= bdata[idx![index]];', 'adata[idx!(index)] = -bdata[idx![index]] + adata[idx!(index)];', 1)]),
 'invert-index-commuted': ('C10', [(TR, 'inv[idx!(j * n + i)] = sum * inv_el_ii;', 'inv[idx!(i + n * j)] = inv_el_ii * sum;', 1)]),
 'mult-index-commuted': ('C08', [(TR, 'bdata[idx!(k * bcols + j)]', 'bdata[idx!(j + bcols * k)]', 1), (TR, 'cdata[idx!(i * ccols + j)] = total;', 'cdata[idx!(ccols * i + j)] = total;', 1)]),
 'cholesky-index-commuted': ('C09', [(TR, 't[idx!(j * n + i)] = sum * div_el_ii;', 't[idx!(i + n * j)] = div_el_ii * sum;', 1), (TR, 'let mut sum = t[idx!(i * n + j)];', 'let mut sum = t[idx!(j + i * n)];', 1)]),
 'transb-until-end': ('C08 C01', [(TR, 'while index_a < end {', 'while index_a != end {', 1)]),
 'mult-total-commuted': ('C08', [(TR, 'total += adata[idx!(index_a)] * bdata[idx!(k * bcols + j)];', 'total = bdata[idx!(k * bcols + j)] * adata[idx!(index_a)] + total;', 1)]),
 'multadd-explicit': ('C08', [(TR, 'cdata[idx!(c_index)] += total;', 'let before = cdata[idx!(c_index)];\n                cdata[idx!(c_index)] = before + total;', 1)]),
 'get-at-commuted': ('C11 C14', [(RM, 'row * COLS + column', 'column + COLS * row', 1)]),
 'cholesky-not-positive': ('C09 C04', [(TR, 'if sum <= T::zero() {', 'if !(sum > T::zero()) {', 1)]),
 'invert-subtracts': ('C10 C04', [(TR, '.map(|k| -mat[idx!(i * n + k)] * inv[idx!(j * n + k)])', '.map(|k| -(mat[idx!(i * n + k)] * inv[idx!(j * n + k)]))', 1)]),
 'symmetric-swapped': ('C11', [(TR, '''        RowMajorSequentialDataMut::set_at(self, row, column, value);
        RowMajorSequentialDataMut::set_at(self, column, row, value);''', '''        RowMajorSequentialDataMut::set_at(self, column, row, value);
        RowMajorSequentialDataMut::set_at(self, row, column, value);''', 1)]),
 'add-forward': ('C12 C01', [(TR, '''        for index in (0..count).rev() {
            bdata[idx!(index)] += adata[idx!(index)];''', '''        for index in 0..count {
            bdata[idx!(index)] = adata[idx!(index)] + bdata[idx!(index)];''', 1)]),
 'identity-direct': ('C13', [(TR, 'self.make_comatrix(T::one(), T::zero())', 'self.set_diagonal_to_scalar(T::one());\n        let data = self.as_mut_slice();\n        for i in 0..N {\n            for j in 0..N {\n                if i != j {\n                    data[i * N + j] = T::zero();\n                }\n            }\n        }', 1)]),
 'comatrix-branches': ('C13', [(TR, 'data[i * N + j] = if i == j { diagonal } else { off_diagonal };', 'if j != i {\n                    data[i * N + j] = off_diagonal;\n                } else {\n                    data[i * N + j] = diagonal;\n                }', 1)]),
 'diagonal-running-index': ('C13', [(TR, '''        for i in 0..N {
            data[i * N + i] = value;
        }''', '''        let mut index = 0;
        for _ in 0..N {
            data[index] = value;
            index += N + 1;
        }''', 1)]),
 'control-p-first': ('C03 C18', [(CT, '''        B.multadd_rowvector(u, x);

        // P = P + B*Q*Bᵀ
        B.mult(Q, BQ_temp); // temp = B*Q
        BQ_temp.multadd_transb(B, P); // P += temp*Bᵀ''', '''        // P = P + B*Q*Bᵀ
        B.mult(Q, BQ_temp); // temp = B*Q
        BQ_temp.multadd_transb(B, P); // P += temp*Bᵀ

        B.multadd_rowvector(u, x);''', 1)]),
 'mult-rowvector-zero-start': ('C08 C01', [(TR, '''            let mut total = adata[idx!(index_a)] * b0;
            index_a += 1;

            for j in 1..acols {
                total += adata[idx!(index_a)] * xdata[idx!(j)];
                index_a += 1;
            }
            cdata[idx!(index_c)] = total;''', '''            let mut total = T::zero();
            for j in 0..acols {
                total += adata[idx!(index_a)] * xdata[idx!(j)];
                index_a += 1;
            }
            cdata[idx!(index_c)] = total;''', 1), (TR, '        let b0 = xdata[0];\n', '', 1)]),
 'set-via-set-at': ('C11 C14', [(TR, '''        let cols = self.cols();
        self.as_mut_slice()[idx!(row * cols + column)] = value;''', '''        RowMajorSequentialDataMut::set_at(self, row, column, value)''', 1)]),
 'row-copy-loop': ('C11', [(TR, '''        let mut target_index: usize = (self.cols() - 1) as _;
        let mut source_index: usize = (row + 1) * self.cols() - 1;

        let data = self.as_slice();
        row_data[idx!(target_index)] = data[idx!(source_index)];
        while target_index != 0 {
            target_index -= 1;
            source_index -= 1;
            row_data[idx!(target_index)] = data[idx!(source_index)];
        }''', '''        let data = self.as_slice();
        let start = row * self.cols();
        for column in 0..self.cols() {
            row_data[column] = data[start + column];
        }''', 1)]),
 'predict-locals': ('C01 C07', [(REG, '''        A.mult(P, P_temp); // temp = A*P
        P_temp.mult_transb(A, P); // P = temp*Aᵀ
''', '''        let (transition, product) = (&*A, P_temp);
        transition.mult(P, product);
        product.mult_transb(transition, P);
''', 1)]),
 'extra-assert': ('C08 C14', [(TR, '''        let adata = self.as_slice();
        let xdata = x.as_slice();
        let cdata = c.as_mut_slice();
''', '''        let adata = self.as_slice();
        let xdata = x.as_slice();
        let cdata = c.as_mut_slice();
        debug_assert!(cdata.len() >= arows);
''', 1)]),
 'tuned-square': ('C02', [(REG, 'lambda.mul(lambda).recip()', '(lambda * lambda).recip()', 1), (EXT, 'lambda.mul(lambda).recip()', '(lambda * lambda).recip()', 1)]),
 'column-copy-forward': ('C11 C08', [(TR, '''        // fetch data
        col_data[idx!(target_index)] = src[idx!(source_index)];
        while target_index != 0 {
            target_index -= 1;
            source_index -= stride;

            col_data[idx!(target_index)] = src[idx!(source_index)];
        }''', '''        // fetch data
        while target_index >= 0 {
            col_data[idx!(target_index)] = src[idx!(source_index)];
            target_index -= 1;
            source_index -= stride;
        }''', 1)]),
 'copy-zip': ('C11 C05', [(TR, '''        for index in (0..=(count - 1)).rev() {
            bdata[idx!(index)] = adata[idx![index]];
        }''', '''        for (to, from) in bdata.iter_mut().zip(adata.iter()).take(count) {
            *to = *from;
        }''', 1)]),
 'validity-explicit': ('C15', [(RM, 'self.len() <= self.buffer_len()', '!(self.buffer_len() < self.len())', 1), (RM, 'self.buffer_len() >= self.len()', '!(self.buffer_len() < self.len())', 1)]),
}
# the first occurrence of each; an edit whose text is not there is left out (either spelling may be the real one)
def main(out):
    os.makedirs(out, exist_ok=True)
    w = '/tmp/quietw'
    subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=x -c user.name=x commit -qm x' % (w, w, w), shell=True, check=True)
    for n, (_, eds) in E.items():
        hit = 0
        for f, a, b, k in eds:
            p = '%s/crates/minikalman/src/%s' % (w, f)
            t = open(p).read()
            if a in t:
                hit += 1
                open(p, 'w').write(t.replace(a, b, 1))
        if not hit:
            print(n, 'no such text')
        d = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
        open('%s/%s.diff' % (out, n), 'w').write(d)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=w)
    subprocess.run(['rm', '-rf', '/tmp/quietw'])
if __name__ == '__main__':
    main(sys.argv[1])
