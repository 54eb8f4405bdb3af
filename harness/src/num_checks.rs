//! Numerical linear algebra on floating-point matrices.
use crate::engine::*;
use crate::mat_checks::{rand_mx, to_matrix};
use crate::reference::*;
use alg::lin_alg::{Matrix, SubMatrix};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A13",
            rule: "triangular factorisation of products of integer unit-lower and upper triangular matrices (in place, also on an inner view of a larger matrix), determinants of arbitrary integer matrices (zero leading minors, singular, permuted, transposed storage) against exact elimination, linear systems with known integer solutions, norms against naive sums; non-trivial = size at least 2 (3 for determinants) with a non-zero off-diagonal entry",
            assumptions: &["integer data small enough that exact values are known; results compared within 1e-6 relative"],
            subs: vec![Sub::new("lu", 32000, 80000, lu), Sub::new("det", 40000, 100000, det_check), Sub::new("solve", 32000, 80000, solve), Sub::new("norms", 24000, 60000, norms)],
        },
        Prop {
            id: "A14",
            rule: "well-conditioned matrices (rational entries, mostly up to 8x6, some larger) for Gram-Schmidt, arbitrary vectors (zero tails, negative heads, tiny and large entries) for reflections and rotations, square matrices (mostly up to 8x8, some up to 18x18) for Hessenberg form, tridiagonal form, shifted QR steps and the whole QR iteration (real and complex eigenvalues, block matrices): orthogonality, span, zero pattern, preservation of traces of powers and Frobenius norm, and the returned orthogonal factor; non-trivial = size at least 3 with a non-zero entry to eliminate",
            assumptions: &["Gram-Schmidt inputs have smallest-to-largest Gram-Schmidt length ratio above 1e-3", "comparisons within 1e-7 relative"],
            subs: vec![
                Sub::new("gram_schmidt", 12000, 60000, gram_schmidt),
                Sub::new("householder", 20000, 100000, householder),
                Sub::new("givens", 20000, 100000, givens),
                Sub::new("hessenberg", 10000, 50000, hessenberg),
                Sub::new("tridiagonal", 10000, 50000, tridiagonal),
                Sub::new("shifted_steps", 10000, 50000, steps),
                Sub::new("qr_iteration", 6000, 30000, qr_iteration),
            ],
        },
        Prop {
            id: "A15",
            rule: "symmetric matrices with integer entries (Laplacians and adjacency matrices of random graphs, diagonal, block, dense, repeated eigenvalues) against a Jacobi eigenvalue reference, and integer similarity transforms of prescribed distinct real spectra: sorted eigenvalues, orthogonality and equation of eigenvectors, accumulated orthogonal factor; non-trivial = size at least 3 and not diagonal",
            assumptions: &["general matrices have real, well-separated eigenvalues", "comparisons within 1e-6 relative to the matrix norm"],
            subs: vec![
                Sub::new("symmetric", 20000, 40000, spec_symmetric),
                Sub::new("symmetric_factor", 12000, 30000, spec_factor),
                Sub::new("general", 16000, 40000, spec_general),
                Sub::new("two by two", 16000, 40000, spec_two),
                Sub::new("eigenvectors", 12000, 30000, eigenvectors),
            ],
        },
        Prop {
            id: "A16",
            rule: "lattice bases with integer entries (mostly up to 5 vectors, some up to 9, skewed by unimodular operations, several delta): the result spans the same lattice (exact integer change of basis of determinant +-1), is size-reduced and satisfies the exchange condition in exact arithmetic; non-trivial = the basis changed and has at least 2 vectors",
            assumptions: &["linearly independent basis vectors with entries up to a few hundred", "bounds checked with slack 1e-6"],
            subs: vec![Sub::new("lll", 18000, 60000, lll)],
        },
        Prop {
            id: "A17",
            rule: "every constructor of random matrices at sizes 1 to 40, several draws each: shape, entries in [0, 1), symmetry, orthonormal columns, unit length, and that draws differ; non-trivial = size at least 2",
            assumptions: &["symmetric matrices are asked for with equal sides", "the draws come from the system's random numbers, so a replay repeats the request and not the draw"],
            subs: vec![Sub::new("random_matrices", 6000, 60000, random_matrices)],
        },
    ]
}

type F = Vec<Vec<f64>>;

fn fl(a: &Mx<i64>) -> F {
    a.iter().map(|r| r.iter().map(|&x| x as f64).collect()).collect()
}
fn mat(a: &F, trans: bool) -> Matrix<f64> {
    if trans {
        to_matrix(&transpose(a), |x| *x).transpose()
    } else {
        to_matrix(a, |x| *x)
    }
}
fn rd(m: &SubMatrix<f64>) -> F {
    let (r, c) = m.size();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}
fn mulf(a: &F, b: &F) -> F {
    a.iter().map(|r| (0..b[0].len()).map(|j| r.iter().zip(b).map(|(x, br)| x * br[j]).sum()).collect()).collect()
}
fn fro(a: &F) -> f64 {
    a.iter().flatten().map(|x| x * x).sum::<f64>().sqrt()
}
fn maxdiff(a: &F, b: &F) -> f64 {
    if a.len() != b.len() || a[0].len() != b[0].len() {
        return f64::INFINITY;
    }
    let mut d: f64 = 0.0;
    for (x, y) in a.iter().flatten().zip(b.iter().flatten()) {
        let e = (x - y).abs();
        if !(e <= d) {
            d = e;
            if e.is_nan() {
                return f64::INFINITY;
            }
        }
    }
    d
}
fn ident(n: usize) -> F {
    (0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect()
}
fn orthonormal_cols(q: &F) -> f64 {
    maxdiff(&mulf(&transpose(q), q), &ident(q[0].len()))
}
/// tr(A^k) for k = 1..=n
fn traces(a: &F) -> Vec<f64> {
    let mut p = a.clone();
    let mut out = vec![];
    for k in 0..a.len() {
        if k > 0 {
            p = mulf(&p, a);
        }
        out.push((0..a.len()).map(|i| p[i][i]).sum());
    }
    out
}
fn orth_similar(a: &F, b: &F, what: &str) -> Res {
    let f = fro(a);
    ensure!((f - fro(b)).abs() <= 1e-7 * (1.0 + f), "{what}: Frobenius norm {} became {}: {a:?} -> {b:?}", f, fro(b));
    for (k, (x, y)) in traces(a).iter().zip(traces(b)).enumerate() {
        let scale = (1.0 + f).powi(k as i32 + 1);
        ensure!((x - y).abs() <= 1e-7 * scale, "{what}: trace of power {} was {x}, became {y}: {a:?} -> {b:?}", k + 1);
    }
    Ok(())
}
/// Rational-looking float entries, sometimes sparse, sometimes structured.
fn rand_f(s: &mut Src, n: usize, m: usize) -> F {
    let den = *s.pick(&[1.0, 3.0, 7.0]);
    let lim = *s.pick(&[5, 2, 20]);
    rand_mx(s, n, m, lim).iter().map(|r| r.iter().map(|&x| x as f64 / den).collect()).collect()
}
fn symmetrize(a: &F) -> F {
    let n = a.len();
    (0..n).map(|i| (0..n).map(|j| if i <= j { a[i][j] } else { a[j][i] }).collect()).collect()
}
/// Symmetric integer-ish matrices of many shapes.
fn rand_sym(s: &mut Src, n: usize) -> F {
    match s.below(6) {
        0 | 1 => {
            // graph Laplacian or adjacency
            let lap = s.bool();
            let w = s.bool();
            let mut a = vec![vec![0.0; n]; n];
            for i in 0..n {
                for j in i + 1..n {
                    if s.chance(1, 2) {
                        let x = if w { s.int(1, 4) as f64 } else { 1.0 };
                        a[i][j] = if lap { -x } else { x };
                        a[j][i] = a[i][j];
                        if lap {
                            a[i][i] += x;
                            a[j][j] += x;
                        }
                    }
                }
            }
            a
        }
        2 => {
            // diagonal with repeats
            let mut a = vec![vec![0.0; n]; n];
            for (i, r) in a.iter_mut().enumerate() {
                r[i] = s.int(-3, 3) as f64;
            }
            a
        }
        3 => {
            // c*I + t * v v^T : a repeated eigenvalue
            let c = s.int(-3, 3) as f64;
            let t = s.int(-2, 2) as f64;
            let v: Vec<f64> = (0..n).map(|_| s.int(-2, 2) as f64).collect();
            (0..n).map(|i| (0..n).map(|j| t * v[i] * v[j] + if i == j { c } else { 0.0 }).collect()).collect()
        }
        _ => symmetrize(&rand_f(s, n, n)),
    }
}
fn off_diagonal(a: &F) -> bool {
    a.iter().enumerate().any(|(i, r)| r.iter().enumerate().any(|(j, &x)| i != j && x != 0.0))
}

// ---------------------------------------------------------------- factorisation

fn lu_input(s: &mut Src, n: usize) -> (F, F) {
    let mut l = vec![vec![0i64; n]; n];
    let mut u = vec![vec![0i64; n]; n];
    for i in 0..n {
        l[i][i] = 1;
        for j in 0..i {
            l[i][j] = s.int(-3, 3);
        }
        u[i][i] = *s.pick(&[1i64, -1, 2, 3, -2]);
        for j in i + 1..n {
            u[i][j] = s.int(-3, 3);
        }
    }
    (fl(&l), fl(&u))
}

fn lu(s: &mut Src) -> Res {
    let n = s.size_huge(1, 7, 20, 60);
    let (l, u) = lu_input(s, n);
    let a = mulf(&l, &u);
    let combined: F = (0..n).map(|i| (0..n).map(|j| if j < i { l[i][j] } else { u[i][j] }).collect()).collect();
    let (top, left, bottom, right) = (s.usize(0, 2), s.usize(0, 2), s.usize(0, 2), s.usize(0, 2));
    let trans = s.bool();
    s.nontrivial_if(n >= 2 && off_diagonal(&a));
    s.note(|| format!("{a:?} placed at ({top},{left}), transposed storage {trans}"));
    let (h, w) = (n + top + bottom, n + left + right);
    let mut host: F = (0..h).map(|i| (0..w).map(|j| 1000.0 + (i * w + j) as f64).collect()).collect();
    let mut want = host.clone();
    for i in 0..n {
        for j in 0..n {
            host[top + i][left + j] = a[i][j];
            want[top + i][left + j] = combined[i][j];
        }
    }
    let mut m = mat(&host, trans);
    guarded(|| m[(top..top + n, left..left + n)].lu())?;
    let got = rd(&m);
    ensure!(maxdiff(&got, &want) <= 1e-6, "factors of {a:?}: got {got:?}, expected {want:?}");
    let mut m = mat(&a, trans);
    guarded(|| m.lu())?;
    let got = rd(&m);
    ensure!(maxdiff(&got, &combined) <= 1e-6, "factors of {a:?}: got {got:?}, expected {combined:?}");
    Ok(())
}

fn int_square(s: &mut Src, n: usize) -> Mx<i64> {
    let mut a = match s.below(4) {
        0 if n <= 7 => {
            // permuted triangular
            let (l, u) = lu_input(s, n);
            mulf(&l, &u).iter().map(|r| r.iter().map(|&x| x as i64).collect()).collect()
        }
        1 if n > 1 => {
            // singular or nearly so: last row a combination of others
            let mut a = rand_mx(s, n, n, 4);
            let (i, j) = (s.usize(0, n - 2), s.usize(0, n - 2));
            let k = s.int(-2, 2);
            for c in 0..n {
                a[n - 1][c] = a[i][c] + k * a[j][c];
            }
            if s.bool() {
                a[n - 1][0] += 1;
            }
            a
        }
        _ => rand_mx(s, n, n, 5),
    };
    if s.bool() {
        let p = s.perm(n);
        a = p.iter().map(|&i| a[i].clone()).collect();
    }
    a
}

fn det_check(s: &mut Src) -> Res {
    let n = s.size(1, 6, 12);
    let a = int_square(s, n);
    let trans = s.bool();
    let big: Mx<i128> = a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect();
    let want = det(&big) as f64;
    let f = fl(&a);
    s.nontrivial_if(n >= 3 && off_diagonal(&f));
    s.label_if(want == 0.0, "singular");
    s.label_if(a[0][0] == 0 && want != 0.0, "zero leading entry, non-singular");
    s.note(|| format!("{a:?} transposed storage {trans}"));
    // Hadamard-type scale
    let scale: f64 = f.iter().map(|r| r.iter().map(|x| x * x).sum::<f64>().sqrt()).product::<f64>() + 1.0;
    let m = mat(&f, trans);
    let got = guarded(|| m[(.., ..)].det())?;
    ensure!((got - want).abs() <= 1e-9 * scale, "determinant of {a:?}: got {got}, expected {want}");
    let got = guarded(|| mat(&f, trans).det())?;
    ensure!((got - want).abs() <= 1e-9 * scale, "determinant of {a:?}: got {got}, expected {want}");
    ensure!(maxdiff(&rd(&m), &f) == 0.0, "the determinant of a view changed the matrix");
    Ok(())
}

fn solve(s: &mut Src) -> Res {
    let n = s.size_huge(1, 6, 24, 60);
    let mut a = int_square(s, n);
    if n > 6 {
        // keep larger systems well conditioned: a permuted dominant diagonal
        let p = s.perm(n);
        for (i, r) in a.iter_mut().enumerate() {
            r[p[i]] += 6 * n as i64;
        }
    }
    let big = |a: &Mx<i64>| -> Mx<i128> { a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect() };
    let mut tries = 0;
    while n <= 6 && det(&big(&a)) == 0 {
        // make it non-singular by construction
        for (i, r) in a.iter_mut().enumerate() {
            r[(i + tries) % n] += 7 + tries as i64;
        }
        tries += 1;
    }
    let x: Vec<i64> = (0..n).map(|_| s.int(-5, 5)).collect();
    let b: Mx<i64> = a.iter().map(|r| vec![r.iter().zip(&x).map(|(p, q)| p * q).sum()]).collect();
    let (ta, tb) = (s.bool(), s.bool());
    s.nontrivial_if(n >= 2 && off_diagonal(&fl(&a)) && x.iter().any(|&v| v != 0));
    s.label_if(a[0][0] == 0, "zero leading entry");
    s.note(|| format!("{a:?} * {x:?} = {b:?}, transposed storage {ta} {tb}"));
    let got = guarded(|| mat(&fl(&a), ta).solve(mat(&fl(&b), tb)))?;
    let got = rd(&got);
    let want: F = x.iter().map(|&v| vec![v as f64]).collect();
    ensure!(maxdiff(&got, &want) <= 1e-5, "solution of {a:?} x = {b:?}: got {got:?}, expected {x:?}");
    Ok(())
}

fn norms(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 6, 40, 150), s.size_huge(1, 6, 40, 150));
    let a = rand_f(s, n, m);
    let trans = s.bool();
    s.nontrivial_if(n > 1 && m > 1 && fro(&a) > 0.0);
    s.note(|| format!("{a:?} transposed storage {trans}"));
    let mm = mat(&a, trans);
    let one = (0..m).map(|j| (0..n).map(|i| a[i][j].abs()).sum::<f64>()).fold(0.0, f64::max);
    let inf = (0..n).map(|i| (0..m).map(|j| a[i][j].abs()).sum::<f64>()).fold(0.0, f64::max);
    let close = |x: f64, y: f64| (x - y).abs() <= 1e-9 * (1.0 + y.abs());
    ensure!(close(mm.one_norm(), one), "one-norm of {a:?}: {} expected {one}", mm.one_norm());
    ensure!(close(mm.inf_norm(), inf), "inf-norm of {a:?}: {} expected {inf}", mm.inf_norm());
    ensure!(close(mm.frobenius_norm(), fro(&a)), "Frobenius norm of {a:?}: {} expected {}", mm.frobenius_norm(), fro(&a));
    let (r0, c) = (s.usize(0, n - 1), s.usize(0, m - 1));
    let col = (r0..n).map(|i| a[i][c] * a[i][c]).sum::<f64>().sqrt();
    let v = &mm[(r0.., c)];
    ensure!(close(v.two_norm(), col), "2-norm of column {c} from row {r0} of {a:?}: {} expected {col}", v.two_norm());
    ensure!(close(v.as_matrix().two_norm(), col), "2-norm of a column copy of {a:?}");
    ensure!(close(v.frobenius_norm(), col), "Frobenius norm of a column of {a:?}");
    let row = (c..m).map(|j| a[r0][j].abs()).sum::<f64>();
    ensure!(close(mm[(r0, c..)].inf_norm(), row), "inf-norm of a row view of {a:?}");
    ensure!(close(mm[(r0, c..)].transpose().one_norm(), row), "one-norm of a transposed row view of {a:?}");
    Ok(())
}

// ---------------------------------------------------------------- orthogonalisation

/// Gram-Schmidt lengths by an independent classical (re-orthogonalised) computation.
fn gs_ref(a: &F) -> Vec<Vec<f64>> {
    let cols = transpose(a);
    let mut q: Vec<Vec<f64>> = vec![];
    for c in &cols {
        let mut v = c.clone();
        for _ in 0..2 {
            for b in &q {
                let bb: f64 = b.iter().map(|x| x * x).sum();
                if bb > 0.0 {
                    let t = b.iter().zip(&v).map(|(x, y)| x * y).sum::<f64>() / bb;
                    v.iter_mut().zip(b).for_each(|(x, y)| *x -= t * y);
                }
            }
        }
        q.push(v);
    }
    q
}

fn gram_schmidt(s: &mut Src) -> Res {
    let k = s.size_huge(1, 6, 20, 40);
    let n = s.usize(k, k + 2);
    let mut a = rand_f(s, n, k);
    if s.bool() {
        for (j, r) in a.iter_mut().enumerate().take(k) {
            r[j] += 9.0;
        }
    }
    let trans = s.bool();
    let reference = gs_ref(&a);
    let len: Vec<f64> = reference.iter().map(|v| v.iter().map(|x| x * x).sum::<f64>().sqrt()).collect();
    let (mx, mn) = (len.iter().cloned().fold(0.0, f64::max), len.iter().cloned().fold(f64::INFINITY, f64::min));
    if !(mn > 1e-3 * mx) || mx == 0.0 {
        return Ok(());
    }
    s.nontrivial_if(k >= 2);
    s.note(|| format!("{a:?} transposed storage {trans}"));
    let q = rd(&*guarded(|| mat(&a, trans).gram_schmidt())?);
    ensure!(orthonormal_cols(&q) <= 1e-7, "columns are not orthonormal for {a:?}: {q:?}");
    let want: F = transpose(&reference.iter().zip(&len).map(|(v, l)| v.iter().map(|x| x / l).collect::<Vec<f64>>()).collect::<Vec<_>>());
    ensure!(maxdiff(&q, &want) <= 1e-6, "orthonormal basis of {a:?}: got {q:?}, expected {want:?}");
    let o = rd(&*guarded(|| mat(&a, trans).gram_schmidt_without_normalize())?);
    let want = transpose(&reference);
    ensure!(maxdiff(&o, &want) <= 1e-6 * (1.0 + mx), "orthogonal basis of {a:?}: got {o:?}, expected {want:?}");
    Ok(())
}

fn householder(s: &mut Src) -> Res {
    let n = s.size_huge(1, 7, 40, 150);
    let scale = *s.pick(&[1.0, 1e-4, 1e5]);
    let mode = s.below(4);
    let mut x: Vec<f64> = (0..n).map(|_| if s.chance(1, 4) { 0.0 } else { s.float(4) * scale }).collect();
    if mode == 0 {
        x[1..].iter_mut().for_each(|v| *v = 0.0);
    }
    if mode == 1 && n > 1 {
        // tail far smaller than the head
        let f = 10f64.powi(-(s.int(1, 9) as i32));
        x[1..].iter_mut().for_each(|v| *v *= f);
    }
    let norm = x.iter().map(|v| v * v).sum::<f64>().sqrt();
    let a: F = x.iter().map(|&v| vec![v]).collect();
    s.nontrivial_if(n >= 2 && norm > 0.0);
    s.label_if(n >= 2 && x[1..].iter().all(|&v| v == 0.0) && x[0] < 0.0, "negative multiple of e1");
    s.note(|| format!("{x:?}"));
    let m = mat(&a, false);
    let host = {
        // the same vector as a column of a larger matrix
        let mut h: F = (0..n + 1).map(|i| vec![i as f64, 0.0, 5.0]).collect();
        for i in 0..n {
            h[i + 1][1] = x[i];
        }
        mat(&h, s.bool())
    };
    for (v, beta) in [guarded(|| m[(.., ..)].householder_vec())?, guarded(|| host[(1.., 1)].householder_vec())?, guarded(|| mat(&a, false).householder_vec())?] {
        let v: Vec<f64> = rd(&v).iter().map(|r| r[0]).collect();
        ensure!(v.len() == n && (v[0] - 1.0).abs() <= 1e-9, "reflection vector of {x:?} is {v:?}");
        let vv: f64 = v.iter().map(|t| t * t).sum();
        ensure!(beta == 0.0 || (beta * vv - 2.0).abs() <= 1e-7, "I - beta v v^T is not orthogonal for {x:?}: v = {v:?}, beta = {beta}");
        let vx: f64 = v.iter().zip(&x).map(|(p, q)| p * q).sum();
        let y: Vec<f64> = v.iter().zip(&x).map(|(p, q)| q - beta * vx * p).collect();
        ensure!((y[0].abs() - norm).abs() <= 1e-7 * norm + 1e-300 && y[1..].iter().all(|t| t.abs() <= 1e-7 * norm), "reflection sends {x:?} to {y:?}");
        ensure!(y[0] >= -1e-7 * norm, "reflection sends {x:?} to a negative multiple of the first axis: {y:?}");
    }
    Ok(())
}

fn givens(s: &mut Src) -> Res {
    let scale = *s.pick(&[1.0, 1e-3, 1e4]);
    let (a, b) = (s.float(8) * scale, s.float(8) * *s.pick(&[1.0, 1e-3, 1e4, 1e-8]));
    s.nontrivial_if(a != 0.0 && b != 0.0);
    s.note(|| format!("({a}, {b})"));
    let (c, t) = guarded(|| Matrix::<f64>::givens_rotation(a, b))?;
    ensure!((c * c + t * t - 1.0).abs() <= 1e-9, "({c}, {t}) is not a rotation for ({a}, {b})");
    let z = t * a + c * b;
    ensure!(z.abs() <= 1e-9 * (a.abs() + b.abs()), "rotation ({c}, {t}) leaves {z} in place of {b} for ({a}, {b})");
    Ok(())
}

fn is_hessenberg(h: &F, f: f64) -> bool {
    (0..h.len()).all(|i| (0..h.len()).all(|j| i <= j + 1 || h[i][j].abs() <= 1e-8 * (1.0 + f)))
}

fn hessenberg(s: &mut Src) -> Res {
    let n = s.size_huge(1, 8, 18, 40);
    let a = rand_f(s, n, n);
    let trans = s.bool();
    s.nontrivial_if(n >= 3 && !is_hessenberg(&a, 0.0));
    s.note(|| format!("{a:?} transposed storage {trans}"));
    let mut m = mat(&a, trans);
    guarded(|| m.hessenberg_form())?;
    let h = rd(&m);
    ensure!(is_hessenberg(&h, fro(&a)), "not in Hessenberg form: {h:?} from {a:?}");
    orth_similar(&a, &h, "Hessenberg form")?;
    // first row/column norm is kept as well: the transformation fixes the first axis
    ensure!((a[0][0] - h[0][0]).abs() <= 1e-8 * (1.0 + fro(&a)), "Hessenberg form moved the leading entry: {a:?} -> {h:?}");
    // on a view of a larger matrix
    let mut host: F = (0..n + 2).map(|i| (0..n + 2).map(|j| 100.0 + (i * 3 + j) as f64).collect()).collect();
    for i in 0..n {
        for j in 0..n {
            host[i + 1][j + 1] = a[i][j];
        }
    }
    let mut hm = mat(&host, trans);
    guarded(|| hm[(1..n + 1, 1..n + 1)].hessenberg_form())?;
    let got = rd(&hm);
    for i in 0..n {
        for j in 0..n {
            host[i + 1][j + 1] = h[i][j];
        }
    }
    ensure!(maxdiff(&got, &host) <= 1e-8 * (1.0 + fro(&a)), "Hessenberg form of a view: got {got:?}, expected {host:?}");
    Ok(())
}

fn tridiagonal(s: &mut Src) -> Res {
    let n = s.size(1, 8, 18);
    let a = rand_sym(s, n);
    let trans = s.bool();
    s.nontrivial_if(n >= 3 && !is_hessenberg(&a, 0.0));
    s.note(|| format!("{a:?} transposed storage {trans}"));
    let mut m = mat(&a, trans);
    guarded(|| m.householder_tridiagonalization(false))?;
    let t = rd(&m);
    let band: F = (0..n).map(|i| (0..n).map(|j| if i.abs_diff(j) <= 1 { t[i][j] } else { 0.0 }).collect()).collect();
    ensure!(maxdiff(&band, &transpose(&band)) <= 1e-8 * (1.0 + fro(&a)), "tridiagonal band is not symmetric: {band:?} from {a:?}");
    orth_similar(&a, &band, "tridiagonal form")?;
    if n >= 3 {
        let mut m = mat(&a, trans);
        guarded(|| m.householder_tridiagonalization(true))?;
        let t = rd(&m);
        let band2: F = (0..n).map(|i| (0..n).map(|j| if i.abs_diff(j) <= 1 { t[i][j] } else { 0.0 }).collect()).collect();
        ensure!(maxdiff(&band, &band2) <= 1e-8 * (1.0 + fro(&a)), "band differs when the factor is kept: {band2:?} vs {band:?}");
        let q = rd(&*guarded(|| m[(2.., ..n - 2)].extract_householder_vecs())?);
        let full: F = (0..n).map(|i| (0..n).map(|j| if i == 0 || j == 0 { (i == j) as u8 as f64 } else { q[i - 1][j - 1] }).collect()).collect();
        ensure!(orthonormal_cols(&full) <= 1e-7, "the accumulated reflections are not orthogonal: {full:?} from {a:?}");
        let x = mulf(&mulf(&full, &a), &transpose(&full));
        ensure!(maxdiff(&x, &band) <= 1e-7 * (1.0 + fro(&a)), "Q A Q^T = {x:?}, tridiagonal form {band:?}, A = {a:?}");
    }
    Ok(())
}

fn steps(s: &mut Src) -> Res {
    let n = s.size(3, 7, 18);
    let sym = s.bool();
    if sym {
        // one implicit step on a symmetric tridiagonal matrix with non-zero off-diagonal entries
        let mut a = vec![vec![0.0; n]; n];
        for i in 0..n {
            a[i][i] = s.int(-6, 6) as f64;
            if i + 1 < n {
                let x = s.int(1, 5) as f64 * if s.bool() { 1.0 } else { -0.5 };
                a[i][i + 1] = x;
                a[i + 1][i] = x;
            }
        }
        s.nontrivial();
        s.note(|| format!("symmetric step on {a:?}"));
        let mut m = mat(&a, s.bool());
        let op = guarded(|| m[(.., ..)].implicit_symmetric_qr_with_wilkinson_shift(true))?;
        let b = rd(&m);
        orth_similar(&a, &b, "symmetric step")?;
        ensure!(maxdiff(&b, &transpose(&b)) <= 1e-7 * (1.0 + fro(&a)), "a symmetric step broke symmetry: {b:?}");
        for i in 0..n {
            for j in 0..n {
                ensure!(i.abs_diff(j) <= 1 || b[i][j].abs() <= 1e-7 * (1.0 + fro(&a)), "a symmetric step left the band: {b:?} from {a:?}");
            }
        }
        // replay the returned rotations
        let op = rd(&op);
        let mut x = a.clone();
        for (i, cs) in op.iter().enumerate() {
            let mut g = ident(n);
            g[i][i] = cs[0];
            g[i][i + 1] = cs[1];
            g[i + 1][i] = -cs[1];
            g[i + 1][i + 1] = cs[0];
            x = mulf(&mulf(&transpose(&g), &x), &g);
        }
        ensure!(maxdiff(&x, &b) <= 1e-7 * (1.0 + fro(&a)), "the returned rotations give {x:?}, the step gave {b:?}, from {a:?}");
    } else {
        let mut a = rand_f(s, n, n);
        for i in 0..n {
            for j in 0..n {
                if i > j + 1 {
                    a[i][j] = 0.0;
                }
                if i == j + 1 && a[i][j].abs() < 0.3 {
                    a[i][j] = 1.0;
                }
            }
        }
        s.nontrivial();
        s.note(|| format!("double-shift step on {a:?}"));
        let mut m = mat(&a, s.bool());
        guarded(|| m.francis_step())?;
        let b = rd(&m);
        ensure!(is_hessenberg(&b, fro(&a)), "a shifted step left the Hessenberg form: {b:?} from {a:?}");
        orth_similar(&a, &b, "shifted step")?;
        let mut m = mat(&a, s.bool());
        let op = rd(&guarded(|| m[(.., ..)].francis_step_with_op())?);
        ensure!(maxdiff(&rd(&m), &b) <= 1e-9 * (1.0 + fro(&a)), "a shifted step with its operation gives {:?}, without it {b:?}, from {a:?}", rd(&m));
        conjugates(&a, &op, &b, "shifted step")?;
    }
    Ok(())
}

/// a = op b op^T with an orthogonal op
fn conjugates(a: &F, op: &F, b: &F, what: &str) -> Res {
    ensure!(op.len() == a.len() && op[0].len() == a.len() && orthonormal_cols(op) <= 1e-8, "{what}: the returned operation {op:?} is not orthogonal, from {a:?}");
    let back = mulf(&mulf(op, b), &transpose(op));
    ensure!(maxdiff(&back, a) <= 1e-7 * (1.0 + fro(a)), "{what}: the returned operation takes {b:?} back to {back:?} instead of {a:?}");
    Ok(())
}

fn random_matrices(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 8, 40, 150), s.size_huge(1, 8, 40, 150));
    s.note(|| format!("{n}x{m}"));
    s.nontrivial_if(n > 1 && m > 1);
    let inside = |a: &F, what: &str| -> Res {
        ensure!(a.iter().flatten().all(|x| (0.0..1.0).contains(x)), "{what} has an entry outside of [0, 1): {a:?}");
        Ok(())
    };
    let symmetric = |a: &F, what: &str| -> Res {
        for i in 0..n {
            for j in 0..i {
                ensure!(a[i][j] == a[j][i], "{what} is not symmetric at {i}, {j}: {a:?}");
            }
        }
        Ok(())
    };
    let mut seen: Vec<F> = vec![];
    for _ in 0..3 {
        let r = guarded(|| Matrix::<f64>::random(n, m))?;
        ensure_eq!((r.size().0, r.size().1), (n, m), "shape of random({n}, {m})");
        let r = rd(&r);
        inside(&r, "a random matrix")?;
        ensure!(!seen.contains(&r), "two random matrices are equal: {r:?}");
        let first = r[0][0];
        ensure!(n * m == 1 || r.iter().flatten().any(|&x| x != first), "a random matrix has equal entries: {r:?}");
        seen.push(r);
        let r = guarded(|| Matrix::<i64>::random(n, m))?;
        ensure_eq!((r.size().0, r.size().1), (n, m), "shape of an integer random({n}, {m})");
        let r = guarded(|| Matrix::<f64>::random_symmetric(n, n))?;
        ensure_eq!((r.size().0, r.size().1), (n, n), "shape of random_symmetric({n}, {n})");
        let r = rd(&r);
        inside(&r, "a random symmetric matrix")?;
        symmetric(&r, "a random symmetric matrix")?;
        let r = guarded(|| Matrix::random_sparse_symmetric(n, n))?;
        ensure_eq!((r.size().0, r.size().1), (n, n), "shape of random_sparse_symmetric({n}, {n})");
        let r = rd(&r);
        inside(&r, "a random sparse symmetric matrix")?;
        symmetric(&r, "a random sparse symmetric matrix")?;
        let zeros = r.iter().flatten().filter(|x| **x == 0.0).count();
        ensure!(n < 16 || (zeros > 0 && zeros < n * n), "a random sparse symmetric matrix of size {n} has {zeros} zeros");
        let r = guarded(|| Matrix::random_unit_vec(n))?;
        ensure_eq!((r.size().0, r.size().1), (n, 1), "shape of random_unit_vec({n})");
        let r = rd(&r);
        ensure!((fro(&r) - 1.0).abs() <= 1e-12, "a random unit vector has length {}: {r:?}", fro(&r));
        let r = guarded(|| Matrix::random_orthogonal(n))?;
        ensure_eq!((r.size().0, r.size().1), (n, n), "shape of random_orthogonal({n})");
        let r = rd(&r);
        ensure!(orthonormal_cols(&r) <= 1e-9, "a random orthogonal matrix is not orthogonal: {r:?}");
    }
    Ok(())
}

/// the QR iteration as a whole, real and complex eigenvalues alike
fn qr_iteration(s: &mut Src) -> Res {
    let n = s.size(1, 6, 12);
    let mut a = if s.bool() { rand_f(s, n, n) } else { rand_sym(s, n) };
    if n > 1 && s.chance(1, 4) {
        // split into blocks
        let k = s.usize(1, n - 1);
        for i in k..n {
            for j in 0..k {
                a[i][j] = 0.0;
            }
        }
    }
    s.nontrivial_if(n >= 3 && !is_hessenberg(&a, 0.0));
    s.note(|| format!("{a:?}"));
    let f = 1.0 + fro(&a);
    let blocks = |b: &F, what: &str| -> Res {
        for i in 1..n {
            for j in 0..i {
                ensure!(b[i][j].abs() <= 1e-8 * f || (i == j + 1 && (j == 0 || b[j][j - 1].abs() <= 1e-8 * f)), "{what}: not reduced to blocks of size two: {b:?} from {a:?}");
            }
        }
        Ok(())
    };
    let mut m = mat(&a, s.bool());
    guarded(|| m.qr())?;
    let b = rd(&m);
    blocks(&b, "QR iteration")?;
    for (k, (x, y)) in traces(&a).iter().zip(traces(&b)).enumerate() {
        ensure!((x - y).abs() <= 1e-6 * f.powi(k as i32 + 1), "QR iteration: trace of power {} was {x}, became {y}: {a:?} -> {b:?}", k + 1);
    }
    let mut m = mat(&a, s.bool());
    let op = rd(&guarded(|| m[(.., ..)].qr_with_op())?);
    let b = rd(&m);
    blocks(&b, "QR iteration with operation")?;
    conjugates(&a, &op, &b, "QR iteration")
}

// ---------------------------------------------------------------- spectra

/// Cyclic Jacobi: eigenvalues (sorted) of a symmetric matrix.
fn jacobi(a: &F) -> Vec<f64> {
    let n = a.len();
    let mut a = a.clone();
    for _ in 0..60 {
        let mut off = 0.0;
        for p in 0..n {
            for q in p + 1..n {
                off += a[p][q] * a[p][q];
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = if th == 0.0 { 1.0 } else { th.signum() / (th.abs() + (th * th + 1.0).sqrt()) };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let sn = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - sn * y;
                    a[k][q] = sn * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - sn * y;
                    a[q][k] = sn * x + c * y;
                }
            }
        }
        if off < 1e-28 {
            break;
        }
    }
    let mut e: Vec<f64> = (0..n).map(|i| a[i][i]).collect();
    e.sort_by(|x, y| x.partial_cmp(y).unwrap());
    e
}

fn column(m: &SubMatrix<f64>, n: usize) -> Result<Vec<f64>, String> {
    ensure!(m.size() == (n, 1), "result has size {:?}, expected {n}x1", m.size());
    Ok((0..n).map(|i| m[(i, 0)]).collect())
}
fn same_spectrum(got: &[f64], want: &[f64], scale: f64, what: &dyn Fn() -> String) -> Res {
    ensure!(got.len() == want.len() && got.iter().zip(want).all(|(x, y)| (x - y).abs() <= 1e-6 * (1.0 + scale)), "{}: got {got:?}, expected {want:?}", what());
    Ok(())
}

fn spec_symmetric(s: &mut Src) -> Res {
    let n = s.size_huge(1, 9, 20, 45);
    let a = rand_sym(s, n);
    let trans = s.bool();
    let want = jacobi(&a);
    s.nontrivial_if(n >= 3 && off_diagonal(&a));
    s.label_if(want.windows(2).any(|w| w[1] - w[0] < 1e-9), "repeated eigenvalue");
    s.note(|| format!("{a:?} transposed storage {trans}"));
    let got = guarded(|| mat(&a, trans).spectrum_symmetric())?;
    same_spectrum(&column(&got, n)?, &want, fro(&a), &|| format!("symmetric spectrum of {a:?}"))
}

fn spec_factor(s: &mut Src) -> Res {
    let n = s.size(3, 8, 18);
    let a = rand_sym(s, n);
    let trans = s.bool();
    s.nontrivial_if(off_diagonal(&a));
    s.note(|| format!("{a:?} transposed storage {trans}"));
    let mut m = mat(&a, trans);
    let op = rd(&*guarded(|| m[(.., ..)].symmetric_qr(true))?);
    ensure!(orthonormal_cols(&op) <= 1e-7, "the accumulated factor is not orthogonal: {op:?} from {a:?}");
    let x = mulf(&mulf(&op, &a), &transpose(&op));
    let got = rd(&m);
    ensure!(maxdiff(&x, &got) <= 1e-6 * (1.0 + fro(&a)), "Q A Q^T = {x:?}, returned form {got:?}, A = {a:?}");
    Ok(())
}

/// X * T * X^-1 with X unimodular and T upper triangular with the given diagonal
fn similar(s: &mut Src, eig: &[i64], strict: i64, mix: usize) -> Mx<i64> {
    let n = eig.len();
    let mut a: Mx<i64> = (0..n).map(|i| (0..n).map(|j| if i == j { eig[i] } else { 0 }).collect()).collect();
    for i in 0..n {
        for j in i + 1..n {
            a[i][j] = s.int(-strict, strict);
        }
    }
    for _ in 0..mix {
        let i = s.usize(0, n - 1);
        let j = s.usize(0, n - 1);
        if i == j {
            continue;
        }
        let k = if s.bool() { 1 } else { -1 };
        // row i += k row j ; column j -= k column i
        for c in 0..n {
            a[i][c] += k * a[j][c];
        }
        for r in a.iter_mut() {
            r[j] -= k * r[i];
        }
    }
    a
}
fn distinct(s: &mut Src, n: usize) -> Vec<i64> {
    let start = s.int(-6, 3);
    let mut e: Vec<i64> = vec![];
    let mut x = start;
    for _ in 0..n {
        e.push(x);
        x += s.int(1, 3);
    }
    let p = s.perm(n);
    p.iter().map(|&i| e[i]).collect()
}

fn spec_general(s: &mut Src) -> Res {
    let n = s.size(1, 6, 10);
    let eig = distinct(s, n);
    let mix = s.usize(0, n);
    let a = similar(s, &eig, 1, mix);
    let trans = s.bool();
    let mut want: Vec<f64> = eig.iter().map(|&x| x as f64).collect();
    want.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let f = fl(&a);
    s.nontrivial_if(n >= 3 && off_diagonal(&f));
    s.note(|| format!("{a:?} with spectrum {want:?}, transposed storage {trans}"));
    let got = guarded(|| mat(&f, trans).spectrum())?;
    same_spectrum(&column(&got, n)?, &want, fro(&f), &|| format!("spectrum of {a:?}"))
}

/// two by two matrices with any real spectrum, a double eigenvalue included
fn spec_two(s: &mut Src) -> Res {
    let r = *s.pick(&[2, 4, 9, 60]);
    let mut m = [[s.int(-r, r), s.int(-r, r)], [s.int(-r, r), s.int(-r, r)]];
    if s.chance(1, 3) {
        // a double eigenvalue: x + [[pq, -p^2], [q^2, -pq]]
        let (p, q, x) = (s.int(-4, 4), s.int(-4, 4), s.int(-9, 9));
        m = [[x + p * q, -p * p], [q * q, x - p * q]];
    }
    let disc = (m[0][0] - m[1][1]).pow(2) + 4 * m[0][1] * m[1][0];
    if disc < 0 {
        s.label("no real spectrum, skipped");
        return Ok(());
    }
    s.label_if(disc == 0, "double eigenvalue");
    s.nontrivial_if(m[1][0] != 0);
    let k = *s.pick(&[1.0, 0.5, 1024.0]);
    let f: F = m.iter().map(|r| r.iter().map(|&x| x as f64 * k).collect()).collect();
    let (mid, rad) = ((m[0][0] + m[1][1]) as f64 / 2.0 * k, (disc as f64).sqrt() / 2.0 * k);
    let trans = s.bool();
    s.note(|| format!("{f:?}, transposed storage {trans}"));
    let got = guarded(|| mat(&f, trans).spectrum())?;
    same_spectrum(&column(&got, 2)?, &[mid - rad, mid + rad], fro(&f), &|| format!("spectrum of {f:?}"))
}

fn eigenvectors(s: &mut Src) -> Res {
    let n = s.size(2, 6, 12);
    let sym = s.bool();
    let f: F = if sym {
        rand_sym(s, n)
    } else {
        let eig = distinct(s, n);
        let mix = s.usize(0, n);
        fl(&similar(s, &eig, 1, mix))
    };
    let scale = fro(&f);
    s.note(|| format!("{f:?} symmetric {sym}"));
    let check = |vals: &[f64], vecs: &F, which: &[usize]| -> Res {
        for (c, &k) in which.iter().enumerate() {
            let v: Vec<f64> = vecs.iter().map(|r| r[c]).collect();
            let norm = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            ensure!((norm - 1.0).abs() <= 1e-6, "eigenvector {k} of {f:?} has norm {norm}: {v:?}");
            let res = (0..n).map(|i| (f[i].iter().zip(&v).map(|(x, y)| x * y).sum::<f64>() - vals[k] * v[i]).abs()).fold(0.0, f64::max);
            ensure!(res <= 1e-5 * (1.0 + scale), "eigenvector {k} of {f:?} (value {}) has residual {res}: {v:?}", vals[k]);
        }
        Ok(())
    };
    s.nontrivial_if(n >= 3 && off_diagonal(&f));
    if sym {
        let want = jacobi(&f);
        let (e, v) = guarded(|| mat(&f, false).spectrum_with_invariant_space_symmetric())?;
        let e = column(&e, n)?;
        same_spectrum(&e, &want, scale, &|| format!("symmetric spectrum of {f:?}"))?;
        check(&e, &rd(&v), &(0..n).collect::<Vec<_>>())?;
        let k = s.usize(1, n);
        let (e, v) = guarded(|| mat(&f, false).spectrum_with_n_smallest_eigenvecs_symmetric(k))?;
        let e = column(&e, n)?;
        same_spectrum(&e, &want, scale, &|| format!("symmetric spectrum of {f:?}"))?;
        ensure!((*v).size() == (n, k), "{k} eigenvectors requested, got {:?}", (*v).size());
        check(&e, &rd(&v), &(0..k).collect::<Vec<_>>())?;
        let k = s.usize(0, n - 1);
        let (x, v) = guarded(|| mat(&f, false).spectrum_with_n_th_eigenvec_symmetric(k))?;
        ensure!((x - want[k]).abs() <= 1e-6 * (1.0 + scale), "eigenvalue {k} of {f:?}: {x}, expected {}", want[k]);
        let mut all = want.clone();
        all[k] = x;
        check(&all, &rd(&v), &[k])?;
    } else {
        let (e, v) = guarded(|| mat(&f, false).spectrum_with_invariant_space())?;
        let e = column(&e, n)?;
        check(&e, &rd(&v), &(0..n).collect::<Vec<_>>())?;
    }
    Ok(())
}

// ---------------------------------------------------------------- lattice reduction

/// Exact solution of B x = c over the rationals for B of full column rank (n x k); None if inconsistent.
fn coords(b: &Mx<i128>, c: &[i128]) -> Option<Vec<Q>> {
    let (n, k) = (b.len(), b[0].len());
    let mut m: Vec<Vec<Q>> = (0..n).map(|i| b[i].iter().map(|&x| Q::int(x)).chain(std::iter::once(Q::int(c[i]))).collect()).collect();
    let mut row = 0;
    for col in 0..k {
        let p = (row..n).find(|&r| !m[r][col].is_zero())?;
        m.swap(row, p);
        let inv = m[row][col];
        for x in m[row].iter_mut() {
            *x = x.div(inv);
        }
        for r in 0..n {
            if r != row && !m[r][col].is_zero() {
                let t = m[r][col];
                for x in 0..=k {
                    let y = m[row][x].mul(t);
                    m[r][x] = m[r][x].sub(y);
                }
            }
        }
        row += 1;
    }
    if (row..n).any(|r| !m[r][k].is_zero()) {
        return None;
    }
    Some((0..k).map(|i| m[i][k]).collect())
}

fn lll(s: &mut Src) -> Res {
    let k = s.size(1, 5, 9);
    let n = s.usize(k, k + 1);
    let mut a = rand_mx(s, n, k, if k > 5 { 2 } else { 5 });
    if s.bool() {
        for i in 0..k {
            a[i][i] += 4;
        }
    }
    let big = |a: &Mx<i64>| -> Mx<i128> { a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect() };
    if rank_q(&big(&a)) < k {
        for i in 0..k {
            a[i][i] += 11 + i as i64;
        }
        if rank_q(&big(&a)) < k {
            return Ok(());
        }
    }
    for _ in 0..s.usize(0, 5) {
        let (i, j) = (s.usize(0, k - 1), s.usize(0, k - 1));
        let t = if k > 5 { s.int(-1, 1) } else { s.int(-3, 3) };
        if i != j {
            for r in a.iter_mut() {
                r[i] += t * r[j];
            }
        }
    }
    let delta = *s.pick(&[0.75, 0.5, 0.3, 0.9, 0.99]);
    let trans = s.bool();
    s.note(|| format!("columns of {a:?}, delta {delta}, transposed storage {trans}"));
    let out = rd(&*guarded(|| mat(&fl(&a), trans).lll_lattice_reduce(delta))?);
    ensure!(out.len() == n && out[0].len() == k, "reduced basis has the wrong shape");
    let r: Mx<i128> = out.iter().map(|row| row.iter().map(|&x| x.round() as i128).collect()).collect();
    ensure!(out.iter().flatten().all(|x| (x - x.round()).abs() < 1e-6), "reduced basis of an integer lattice is not integral: {out:?} from {a:?}");
    s.nontrivial_if(k >= 2 && r != big(&a));
    // same lattice
    let b = big(&a);
    let mut u: Mx<i128> = vec![vec![0; k]; k];
    for j in 0..k {
        let c: Vec<i128> = r.iter().map(|row| row[j]).collect();
        let x = coords(&b, &c);
        let Some(x) = x else { return Err(format!("reduced vector {c:?} is outside the span of {a:?}")) };
        for (i, q) in x.iter().enumerate() {
            ensure!(q.d == 1, "reduced vector {c:?} is not in the lattice of {a:?}: coordinate {}/{}", q.n, q.d);
            u[i][j] = q.n;
        }
    }
    ensure!(det(&u).abs() == 1, "the reduced basis {r:?} spans a sublattice of index {} of {a:?}", det(&u).abs());
    // reducedness
    let cols: Vec<Vec<f64>> = transpose(&r.iter().map(|x| x.iter().map(|&v| v as f64).collect()).collect::<F>());
    let gs = gs_ref(&transpose(&cols));
    let dot = |x: &[f64], y: &[f64]| x.iter().zip(y).map(|(p, q)| p * q).sum::<f64>();
    let mu = |i: usize, j: usize| dot(&cols[i], &gs[j]) / dot(&gs[j], &gs[j]);
    for i in 1..k {
        for j in 0..i {
            ensure!(mu(i, j).abs() <= 0.5 + 1e-6, "reduced basis {r:?} of {a:?}: coefficient ({i},{j}) is {}", mu(i, j));
        }
        let (p, q) = (dot(&gs[i], &gs[i]), dot(&gs[i - 1], &gs[i - 1]));
        ensure!(p >= (delta - mu(i, i - 1).powi(2)) * q - 1e-6 * q, "reduced basis {r:?} of {a:?} violates the exchange condition at {i} for delta {delta}");
    }
    Ok(())
}
