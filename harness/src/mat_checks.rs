//! Dense, sparse and constant-size matrices, Smith normal form, rank.
use crate::engine::*;
use crate::reference::*;
use alg::commutative::{Field, One, Rational, Symbol, Zero, PID};
use alg::formal_sum_impl;
use alg::lin_alg::{ConstMatrix, ConstVector, Matrix, SparseMatrix, SubMatrix, Vector};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub as OpSub, SubAssign};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A03",
            rule: "histories over a matrix (mostly 1-7, one side in twenty up to 40 rows/columns, optionally transposed first) of element writes, nested range views of all 48 index kinds, writes/scalings/row and column operations/swaps through views, transposed reads, clones and out-of-range accesses, compared with a 2-d array model after every step, for plain integers and for a type that detects use of uninitialised elements; non-trivial = a mutation through a proper sub-view that changed an entry",
            assumptions: &["views are non-empty"],
            subs: vec![Sub::new("views_i64", 18000, 250000, views_i64), Sub::new("views_witness", 12000, 100000, views_witness), Sub::new("out_of_range", 12000, 60000, out_of_range), Sub::new("constructors", 9000, 60000, constructors), Sub::new("long_sides", 18, 60, long_sides)],
        },
        Prop {
            id: "A04",
            rule: "expressions of matrices and views (sides mostly 1-5, one in twenty up to 30; owned and borrowed operands in every supported combination, transposed and strided operands) with + - * scalar* scalar/ and their assigning forms, dot products, equality, against naive 2-d array arithmetic, over i64, fractions, floats holding small integers, and an element type that detects uninitialised use; non-trivial = operands with at least two rows and columns and a non-zero result",
            assumptions: &["shapes are compatible (incompatible shapes must panic)"],
            subs: vec![
                Sub::new("i64", 30000, 200000, arith_i64),
                Sub::new("rational", 15000, 80000, arith_rational),
                Sub::new("f64", 15000, 80000, arith_f64),
                Sub::new("witness", 18000, 60000, arith_witness),
                Sub::new("equality", 18000, 60000, mat_equality),
                Sub::new("basis_change", 12000, 40000, basis_change),
                Sub::new("mismatch", 12000, 20000, mismatch),
            ],
        },
        Prop {
            id: "A05",
            rule: "integer matrices up to 7x7 (dense small, sparse, rank-deficient products, planted invariant factors, incidence-like, zero rows/columns, transposed storage) and fractions up to 5x5: the five returned matrices satisfy all defining identities and the diagonal equals independently computed invariant factors; all 2x2 matrices with entries in -3..=3 and 2x3 with entries in -1..=1 exhaustively; non-trivial = rank at least 2, or an invariant factor above 1",
            assumptions: &["entries small enough that intermediate values stay within 64 bits (cases in which the code reports an overflow are counted separately and accepted only outside: 3x3, 4x4 with entries up to 30, 4xk with entries up to 5)"],
            subs: vec![
                Sub::all("all_2x2", 2401, snf_2x2),
                Sub::all("all_2x3", 729, snf_2x3),
                Sub::all("all_3x2", 729, snf_3x2),
                Sub::new("random", 48000, 250000, snf_random),
                Sub::new("planted", 24000, 120000, snf_planted),
                Sub::new("rational", 12000, 30000, snf_rational),
            ],
        },
        Prop {
            id: "A06",
            rule: "matrices up to 8x8 over fractions and floats with small integer entries (dense, sparse, permutation-like, zero leading blocks, products of prescribed inner dimension), compared with an exact fraction-free elimination; all 2x3 and 3x2 matrices with entries in -1..=1 exhaustively; non-trivial = rank neither 0 nor full, or a zero leading entry",
            assumptions: &["exact arithmetic: rational entries, or 0/1-like float entries whose elimination is exact in binary"],
            subs: vec![Sub::all("all_2x3", 729, rank_2x3), Sub::all("all_3x2", 729, rank_3x2), Sub::new("random", 96000, 200000, rank_random), Sub::new("float_sparse", 32000, 40000, rank_float)],
        },
        Prop {
            id: "A07",
            rule: "sparse matrices (mostly up to 9x9, one side in twenty up to 48; density from empty to full, explicit zero entries, empty rows/columns, transposed any number of times) against their dense arrays: size, row and column iteration, equality with dense, products sparse*sparse, sparse*dense, dense*sparse, printing; eight matrices with up to 1500000 entries in one row or column, built, read and released; non-trivial = at least one empty and one non-empty row or a product with a non-zero entry",
            assumptions: &[],
            subs: vec![Sub::new("read", 30000, 150000, sparse_read), Sub::new("products", 30000, 150000, sparse_products), Sub::all("long", 8, sparse_long)],
        },
        Prop {
            id: "A08",
            rule: "fixed-size vectors and matrices of sizes 1 to 65 (matrices up to 12x12) over integers, fractions and floats: every operator, dot product, norm, zero, identity and conversion against array arithmetic; non-trivial = non-zero operands",
            assumptions: &[],
            subs: vec![Sub::new("vectors", 80000, 100000, const_vectors), Sub::new("matrices", 80000, 100000, const_matrices)],
        },
        Prop {
            id: "A18",
            rule: "matrices and nested or transposed views (sides mostly up to 6, one in twenty up to 30) over integers, fractions and floats, printed with the default and with requested precision: one bracketed line per row with the entries in order, floats rounded to the precision; the text read back gives the entries; the debug form lists the same entries unrounded; non-trivial = at least two rows and two columns that are not all equal",
            assumptions: &[],
            subs: vec![Sub::new("printing", 24000, 80000, printing)],
        },
    ]
}

// ---------------------------------------------------------------- element types

/// Element that knows whether it was properly constructed. Dropping, cloning or
/// reading memory that never held a constructed value is recorded.
pub struct Witness {
    magic: u64,
    v: i64,
}
const LIVE: u64 = 0x5AFE_C0DE_5AFE_C0DE;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;
thread_local! { static BAD: Cell<Option<&'static str>> = const { Cell::new(None) }; }

fn bad(what: &'static str) {
    BAD.with(|b| {
        if b.get().is_none() {
            b.set(Some(what))
        }
    });
}
impl Witness {
    fn new(v: i64) -> Self {
        Witness { magic: LIVE, v }
    }
    fn get(&self) -> i64 {
        if self.magic != LIVE {
            bad("an element was read that was never initialised");
        }
        self.v
    }
}
impl Drop for Witness {
    fn drop(&mut self) {
        if self.magic != LIVE {
            bad("an element was dropped that was never initialised (or dropped twice)");
        }
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}
impl Clone for Witness {
    fn clone(&self) -> Self {
        Witness::new(self.get())
    }
}
impl PartialEq for Witness {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl Debug for Witness {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}
impl std::fmt::Display for Witness {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}
macro_rules! wop {
    ($t:ident $f:ident $ta:ident $fa:ident $op:tt) => {
        impl $t for Witness { type Output = Witness; fn $f(self, o: Witness) -> Witness { Witness::new(self.get() $op o.get()) } }
        impl $ta for Witness { fn $fa(&mut self, o: Witness) { *self = Witness::new(self.get() $op o.get()) } }
    };
}
wop!(Add add AddAssign add_assign +);
wop!(OpSub sub SubAssign sub_assign -);
wop!(Mul mul MulAssign mul_assign *);
impl Neg for Witness {
    type Output = Witness;
    fn neg(self) -> Witness {
        Witness::new(-self.get())
    }
}
impl Sum for Witness {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Witness::new(0), |a, b| a + b)
    }
}
impl Product for Witness {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Witness::new(1), |a, b| a * b)
    }
}
impl Zero for Witness {
    fn zero() -> Self {
        Witness::new(0)
    }
}
impl One for Witness {
    fn one() -> Self {
        Witness::new(1)
    }
}
impl Symbol for Witness {
    fn symbol() -> String {
        "Z".into()
    }
}
impl PID for Witness {
    fn is_prime(self) -> bool {
        self.get().is_prime()
    }
    fn n_prime_factors(self) -> usize {
        self.get().n_prime_factors()
    }
    fn euclid_div(self, d: Self) -> (Self, Self) {
        let (q, r) = self.get().euclid_div(d.get());
        (Witness::new(q), Witness::new(r))
    }
    fn simplify(self) -> (Self, Self) {
        let (u, v) = self.get().simplify();
        (Witness::new(u), Witness::new(v))
    }
}

/// Leaves recognisable garbage in freshly freed heap blocks of every small size, so
/// that memory handed out next is deterministic and never looks initialised.
fn churn(bytes_each: usize) {
    let mut blocks: Vec<Vec<u64>> = vec![];
    for n in 1..=100usize {
        for _ in 0..3 {
            blocks.push(vec![0x6B6B_6B6B_6B6B_6B6B; (n * bytes_each / 8).max(1)]);
        }
    }
    drop(blocks);
}

fn reset_witness() {
    BAD.with(|b| b.set(None));
}
fn witness_ok() -> Res {
    match BAD.with(|b| b.get()) {
        Some(m) => Err(m.to_string()),
        None => Ok(()),
    }
}

trait Elem: PID + Debug + Clone {
    fn of(x: i64) -> Self;
    fn val(&self) -> i64;
}
impl Elem for i64 {
    fn of(x: i64) -> Self {
        x
    }
    fn val(&self) -> i64 {
        *self
    }
}
/// The integer a float denotes; anything else becomes a number no case expects.
fn near_int(f: f64) -> i64 {
    if (f - f.round()).abs() <= 1e-9 * f.abs().max(1.0) { f.round() as i64 } else { 987_654_321_123 }
}
impl Elem for f64 {
    fn of(x: i64) -> Self {
        x as f64
    }
    fn val(&self) -> i64 {
        near_int(*self)
    }
}
impl Elem for Rational {
    fn of(x: i64) -> Self {
        Rational::from(x)
    }
    fn val(&self) -> i64 {
        near_int((*self).into())
    }
}
impl Elem for Witness {
    fn of(x: i64) -> Self {
        Witness::new(x)
    }
    fn val(&self) -> i64 {
        self.get()
    }
}

// ---------------------------------------------------------------- helpers

pub fn to_matrix<T: PID, U>(a: &Mx<U>, f: impl Fn(&U) -> T) -> Matrix<T> {
    Matrix::from_array(a.iter().map(|r| r.iter().map(&f).collect()).collect())
}

pub fn rand_mx(s: &mut Src, n: usize, m: usize, max: i64) -> Mx<i64> {
    match s.below(4) {
        0 => (0..n).map(|_| (0..m).map(|_| if s.chance(1, 3) { s.int(-max, max) } else { 0 }).collect()).collect(),
        1 => (0..n).map(|_| (0..m).map(|_| s.int(-1, 1)).collect()).collect(),
        _ => (0..n).map(|_| (0..m).map(|_| s.int(-max, max)).collect()).collect(),
    }
}

fn read<T: Elem>(m: &SubMatrix<T>) -> Mx<i64> {
    let (r, c) = m.size();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)].val()).collect()).collect()
}

#[derive(Clone, Debug)]
struct Rg {
    kind: u64,
    a: usize,
    b: usize, // half-open
}

/// a non-empty range expression for a side of length n
fn rng(s: &mut Src, n: usize) -> Rg {
    let kind = s.below(7);
    let a = s.usize(0, n - 1);
    let b = s.usize(a + 1, n);
    match kind {
        0 | 3 => Rg { kind, a, b },
        1 => Rg { kind, a, b: n },
        2 => Rg { kind, a: 0, b: n },
        4 | 5 => Rg { kind, a: 0, b },
        _ => Rg { kind, a, b: a + 1 },
    }
}

macro_rules! rowcol {
    ($m:expr, $r:expr, $c:expr, $($amp:tt)+) => {{
        let (m, r, c) = ($m, $r, $c);
        macro_rules! cols { ($row:expr) => {
            match c.kind {
                0 => $($amp)+ m[($row, c.a..c.b)],
                1 => $($amp)+ m[($row, c.a..)],
                2 => $($amp)+ m[($row, ..)],
                3 => $($amp)+ m[($row, c.a..=c.b - 1)],
                4 => $($amp)+ m[($row, ..c.b)],
                5 => $($amp)+ m[($row, ..=c.b - 1)],
                _ => $($amp)+ m[($row, c.a)],
            }
        } }
        match r.kind {
            0 => cols!(r.a..r.b),
            1 => cols!(r.a..),
            2 => cols!(..),
            3 => cols!(r.a..=r.b - 1),
            4 => cols!(..r.b),
            5 => cols!(..=r.b - 1),
            // (usize, usize) is an element access, not a view
            _ => match c.kind {
                0 => $($amp)+ m[(r.a, c.a..c.b)],
                1 => $($amp)+ m[(r.a, c.a..)],
                2 => $($amp)+ m[(r.a, ..)],
                3 => $($amp)+ m[(r.a, c.a..=c.b - 1)],
                4 => $($amp)+ m[(r.a, ..c.b)],
                5 => $($amp)+ m[(r.a, ..=c.b - 1)],
                _ => $($amp)+ m[(r.a..r.b, c.a)],
            },
        }
    }};
}

fn view<'a, T: PID>(m: &'a SubMatrix<T>, r: &Rg, c: &Rg) -> &'a SubMatrix<T> {
    rowcol!(m, r, c, &)
}
fn view_mut<'a, T: PID>(m: &'a mut SubMatrix<T>, r: &Rg, c: &Rg) -> &'a mut SubMatrix<T> {
    rowcol!(m, r, c, &mut)
}

/// rows and columns of the base matrix that a (nested) view shows
#[derive(Clone)]
struct Win {
    rows: Vec<usize>,
    cols: Vec<usize>,
}

fn same<T: Elem>(m: &SubMatrix<T>, a: &Mx<i64>, what: &dyn Fn() -> String) -> Res {
    let got = read(m);
    if &got != a {
        return Err(format!("{}: got {:?}, expected {:?}", what(), got, a));
    }
    let t = m.transpose();
    let want = transpose(a);
    if read(t) != want {
        return Err(format!("{}: transposed read: got {:?}, expected {:?}", what(), read(t), want));
    }
    Ok(())
}

fn views<T: Elem>(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 7, 40, 140), s.size_huge(1, 7, 40, 140));
    let mut a = rand_mx(s, n, m, 9);
    let mut mat: Matrix<T> = to_matrix(&a, |x| T::of(*x));
    let mut hist = vec![format!("{a:?}")];
    for _ in 0..s.usize(0, 2) {
        mat = mat.transpose();
        a = transpose(&a);
        hist.push("transpose".into());
    }
    if s.chance(1, 4) {
        mat = mat.clone();
        hist.push("clone".into());
    }
    let frozen = (mat.clone(), a.clone());
    let steps = s.usize(1, 9);
    for _ in 0..steps {
        // a chain of views
        let (rn, cn) = (a.len(), a[0].len());
        let mut w = Win { rows: (0..rn).collect(), cols: (0..cn).collect() };
        let mut chain = vec![];
        for _ in 0..s.usize(0, 3) {
            let (r, c) = (rng(s, w.rows.len()), rng(s, w.cols.len()));
            w = Win { rows: w.rows[r.a..r.b].to_vec(), cols: w.cols[c.a..c.b].to_vec() };
            chain.push((r, c));
        }
        let (vr, vc) = (w.rows.len(), w.cols.len());
        let proper = vr < rn || vc < cn;
        let mut v: &mut SubMatrix<T> = &mut mat;
        for (r, c) in &chain {
            v = view_mut(v, r, c);
        }
        ensure_eq!(v.size(), (vr, vc), "size of the view {chain:?} of {hist:?}");
        ensure_eq!(v.size_as_range(), (0..vr, 0..vc), "ranges of the view");
        let before = a.clone();
        let op = s.below(9);
        let (i, j) = (s.usize(0, vr - 1), s.usize(0, vc - 1));
        let k = s.int(-3, 3);
        let txt = match op {
            0 | 1 => {
                v[(i, j)] = T::of(k);
                a[w.rows[i]][w.cols[j]] = k;
                format!("[{i},{j}]={k}")
            }
            2 => {
                *v *= T::of(k);
                for &x in &w.rows {
                    for &y in &w.cols {
                        a[x][y] *= k;
                    }
                }
                format!("*= {k}")
            }
            3 => {
                let i2 = s.usize(0, vr - 1);
                v.swap_rows(i, i2);
                for &y in &w.cols {
                    let t = a[w.rows[i]][y];
                    a[w.rows[i]][y] = a[w.rows[i2]][y];
                    a[w.rows[i2]][y] = t;
                }
                format!("swap_rows {i} {i2}")
            }
            4 => {
                let j2 = s.usize(0, vc - 1);
                v.swap_cols(j, j2);
                for &x in &w.rows {
                    a[x].swap(w.cols[j], w.cols[j2]);
                }
                format!("swap_cols {j} {j2}")
            }
            5 => {
                let i2 = s.usize(0, vr - 1);
                v.row_operation(i, i2, T::of(k));
                for &y in &w.cols {
                    let d = k * before[w.rows[i2]][y];
                    a[w.rows[i]][y] += d;
                }
                format!("row {i} += {k} * row {i2}")
            }
            6 => {
                let j2 = s.usize(0, vc - 1);
                v.col_operation(j, j2, T::of(k));
                for &x in &w.rows {
                    let d = k * before[x][w.cols[j2]];
                    a[x][w.cols[j]] += d;
                }
                format!("col {j} += {k} * col {j2}")
            }
            7 => {
                let src = rand_mx(s, vr, vc, 9);
                let sm: Matrix<T> = to_matrix(&src, |x| T::of(*x));
                if s.bool() {
                    v.write(&sm);
                } else {
                    v.write_and_move(sm);
                }
                for (p, &x) in w.rows.iter().enumerate() {
                    for (q, &y) in w.cols.iter().enumerate() {
                        a[x][y] = src[p][q];
                    }
                }
                format!("write {src:?}")
            }
            _ => {
                // reads only: the view, its copy, a view of its transpose
                let shown: Mx<i64> = w.rows.iter().map(|&x| w.cols.iter().map(|&y| a[x][y]).collect()).collect();
                same(v, &shown, &|| format!("view {chain:?} of {hist:?}"))?;
                same(&v.as_matrix(), &shown, &|| format!("copied view {chain:?} of {hist:?}"))?;
                let (r, c) = (rng(s, vc), rng(s, vr));
                let t: Mx<i64> = (r.a..r.b).map(|p| (c.a..c.b).map(|q| shown[q][p]).collect()).collect();
                same(view(v.transpose(), &r, &c), &t, &|| format!("view ({r:?},{c:?}) of the transpose of view {chain:?} of {hist:?}"))?;
                same(view(v, &c, &r).transpose(), &t, &|| format!("transpose of view ({c:?},{r:?}) of view {chain:?} of {hist:?}"))?;
                "read".to_string()
            }
        };
        hist.push(format!("{}{txt}", chain.iter().map(|(r, c)| format!("[{}..{},{}..{}]", r.a, r.b, c.a, c.b)).collect::<String>()));
        s.nontrivial_if(proper && a != before);
        same(&mat, &a, &|| format!("after {hist:?}"))?;
        if a.iter().flatten().any(|x| x.abs() > 1 << 40) {
            break;
        }
    }
    same(&frozen.0, &frozen.1, &|| format!("a clone changed with its original: {hist:?}"))?;
    s.note(|| hist.join("; "));
    Ok(())
}

fn views_i64(s: &mut Src) -> Res {
    views::<i64>(s)
}
fn views_witness(s: &mut Src) -> Res {
    reset_witness();
    churn(16);
    views::<Witness>(s)?;
    witness_ok()
}

fn out_of_range(s: &mut Src) -> Res {
    let (n, m) = (s.size(1, 5, 24), s.size(1, 5, 24));
    let a = rand_mx(s, n, m, 9);
    let mut mat: Matrix<i64> = to_matrix(&a, |x| *x);
    let (r, c) = (rng(s, n), rng(s, m));
    let (vr, vc) = (r.b - r.a, c.b - c.a);
    let over = s.usize(0, 3);
    let in_row = s.usize(0, vr - 1);
    let in_col = s.usize(0, vc - 1);
    s.nontrivial_if(vr < n || vc < m);
    let what;
    let res = match s.below(10) {
        0 => {
            what = format!("element ({}, {in_col}) of a {vr}x{vc} view", vr + over);
            guarded(|| view(&mat, &r, &c)[(vr + over, in_col)]).map(|_| ())
        }
        1 => {
            what = format!("element ({in_row}, {}) of a {vr}x{vc} view", vc + over);
            guarded(|| view(&mat, &r, &c)[(in_row, vc + over)]).map(|_| ())
        }
        2 => {
            what = format!("rows ..{} of a {vr}x{vc} view", vr + over + 1);
            guarded(|| view(&mat, &r, &c)[(..vr + over + 1, ..)].size()).map(|_| ())
        }
        3 => {
            what = format!("columns 0..={} of a {vr}x{vc} view", vc + over);
            guarded(|| view(&mat, &r, &c)[(.., 0..=vc + over)].size()).map(|_| ())
        }
        4 => {
            what = format!("assignment to ({}, {in_col}) of a {vr}x{vc} view", vr + over);
            guarded(|| view_mut(&mut mat, &r, &c)[(vr + over, in_col)] = 1)
        }
        6 => {
            what = format!("rows {in_row}..{} of a {vr}x{vc} view", vr + over + 1);
            guarded(|| view(&mat, &r, &c)[(in_row..vr + over + 1, in_col)].size()).map(|_| ())
        }
        7 => {
            what = format!("columns {in_col}..={} of a {vr}x{vc} view", vc + over);
            guarded(|| view_mut(&mut mat, &r, &c)[(in_row.., in_col..=vc + over)].size()).map(|_| ())
        }
        8 => {
            what = format!("column {} of a {vr}x{vc} view", vc + over);
            guarded(|| view_mut(&mut mat, &r, &c)[(.., vc + over)].size()).map(|_| ())
        }
        _ => {
            what = format!("writing a {}x{vc} matrix to a {vr}x{vc} view", vr + 1 + over);
            let big = Matrix::<i64>::zero(vr + 1 + over, vc);
            guarded(|| view_mut(&mut mat, &r, &c).write(&big))
        }
    };
    s.note(|| format!("{what} of a {n}x{m} matrix"));
    ensure!(res.is_err(), "{what} of a {n}x{m} matrix ({r:?}, {c:?}) was accepted");
    same(&mat, &a, &|| format!("a rejected access changed the matrix: {what}"))
}

fn constructors(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 6, 40, 140), s.size_huge(1, 6, 40, 140));
    churn(16);
    reset_witness();
    let z: Matrix<i64> = Matrix::zero(n, m);
    same(&z, &vec![vec![0; m]; n], &|| format!("zero({n},{m})"))?;
    let id: Matrix<i64> = Matrix::identity(n);
    let idm: Mx<i64> = (0..n).map(|i| (0..n).map(|j| (i == j) as i64).collect()).collect();
    same(&id, &idm, &|| format!("identity({n})"))?;
    let a = rand_mx(s, n, m, 99);
    let w: Matrix<Witness> = to_matrix(&a, |x| Witness::new(*x));
    same(&w, &a, &|| "from_array".into())?;
    let wz: Matrix<Witness> = Matrix::zero(n, m);
    same(&wz, &vec![vec![0; m]; n], &|| "zero of a heap-like type".into())?;
    let wi: Matrix<Witness> = Matrix::identity(n);
    same(&wi, &idm, &|| "identity of a heap-like type".into())?;
    witness_ok()?;
    s.nontrivial_if(n > 1 && m > 1);
    s.note(|| format!("{n}x{m} {a:?}"));
    // invalid shapes are rejected
    if s.chance(1, 3) {
        let mut ragged = a.clone();
        let k = s.usize(0, n - 1);
        if n > 1 {
            if s.bool() {
                ragged[k].push(5);
            } else {
                ragged[k].pop();
            }
            s.label("ragged");
            ensure!(guarded(|| Matrix::from_array(ragged.clone())).is_err(), "a ragged array was accepted: {ragged:?}");
        }
        ensure!(guarded(|| Matrix::<i64>::zero(0, m)).is_err(), "an empty matrix was accepted");
        ensure!(guarded(|| Matrix::<i64>::from_array(vec![])).is_err(), "an empty array was accepted");
    }
    Ok(())
}

fn printing(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 6, 30, 110), s.size_huge(1, 6, 30, 110));
    let max = *s.pick(&[9, 99, 1_000_000]);
    let a = rand_mx(s, n, m, max);
    let den = *s.pick(&[1i64, 2, 3, 7, 1000, 2048]);
    let trans = s.bool();
    let prec = if s.bool() { Some(s.usize(0, 9)) } else { None };
    let (r0, c0) = (s.usize(0, n - 1), s.usize(0, m - 1));
    let (r1, c1) = (s.usize(r0 + 1, n), s.usize(c0 + 1, m));
    s.note(|| format!("{a:?} over {den}, transposed storage {trans}, precision {prec:?}, view {r0}..{r1}, {c0}..{c1}"));
    s.nontrivial_if(n > 1 && m > 1 && a.iter().flatten().any(|x| *x != a[0][0]));
    fn table<T>(a: &[Vec<T>], f: &dyn Fn(&T) -> String) -> String {
        format!("\n{}", a.iter().map(|r| format!("| {} |\n", r.iter().map(f).collect::<Vec<_>>().join("\t"))).collect::<String>())
    }
    fn one<T: PID + std::fmt::Display + Debug>(a: &Mx<T>, trans: bool, prec: Option<usize>, view: (usize, usize, usize, usize), text: &dyn Fn(&T) -> String, debug: &dyn Fn(&T) -> String, what: &str) -> Res {
        let m: Matrix<T> = if trans { to_matrix(&transpose(a), |x| x.clone()).transpose() } else { to_matrix(a, |x| x.clone()) };
        let (r0, r1, c0, c1) = view;
        let part: Vec<Vec<T>> = a[r0..r1].iter().map(|r| r[c0..c1].to_vec()).collect();
        let show = |v: &SubMatrix<T>| match prec {
            Some(p) => format!("{v:.p$}"),
            None => v.to_string(),
        };
        let whole = match prec {
            Some(p) => format!("{m:.p$}"),
            None => m.to_string(),
        };
        ensure_eq!(whole, table(a, text), "{what}: printed matrix");
        ensure_eq!(show(&m[(r0..r1, c0..c1)]), table(&part, text), "{what}: printed view");
        ensure_eq!(show(m[(r0..r1, c0..c1)].transpose()), table(&transpose(&part), text), "{what}: printed transposed view");
        ensure_eq!(format!("{m:?}"), table(a, debug), "{what}: debug form");
        ensure_eq!(format!("{:?}", &m[(r0..r1, c0..c1)]), table(&part, debug), "{what}: debug form of a view");
        Ok(())
    }
    let view = (r0, r1, c0, c1);
    one(&a, trans, prec, view, &|x| x.to_string(), &|x| x.to_string(), "integers")?;
    let f: Mx<f64> = a.iter().map(|r| r.iter().map(|&x| x as f64 / den as f64).collect()).collect();
    let p = prec.unwrap_or(3);
    one(&f, trans, prec, view, &|x| format!("{x:.p$}"), &|x| format!("{x:?}"), "floats")?;
    let q: Mx<Rational> = a.iter().map(|r| r.iter().map(|&x| Rational::new(x, den)).collect()).collect();
    let frac = |x: &Rational| x.to_string();
    one(&q, trans, prec, view, &frac, &frac, "fractions")
}

/// shapes with a long side: sizes and strides travel in narrow fields of the view
fn long_sides(s: &mut Src) -> Res {
    let long = match s.below(3) {
        0 => *s.pick(&[65535usize, 65536, 65537, 131072]),
        1 => (1usize << s.usize(5, 16)) - 1 + s.usize(0, 2),
        _ => s.usize(8, 3000),
    };
    let short = s.usize(1, 3);
    let tall = s.bool();
    let (n, m) = if tall { (long, short) } else { (short, long) };
    s.note(|| format!("{n}x{m}"));
    s.label_if(long > 65535, "beyond 16 bits");
    s.nontrivial_if(long > 256);
    let (i, j) = (s.usize(0, n - 1), s.usize(0, m - 1));
    let (v, w) = (s.int(1, 60) as i8, s.int(61, 120) as i8);
    let res = guarded(|| -> Res {
        let mut a: Matrix<i8> = Matrix::zero(n, m);
        ensure_eq!((*a).size(), (n, m), "size of zero({n},{m})");
        a[(i, j)] = v;
        a[(n - 1, m - 1)] = w;
        a[(n - 1.., m - 1..)][(0, 0)] = w;
        let last = (n - 1, m - 1);
        for (r, c) in [(i, j), last, (0, 0), (n / 2, m / 2), (n - 1, 0), (0, m - 1)] {
            let want = if (r, c) == last { w } else if (r, c) == (i, j) { v } else { 0 };
            ensure_eq!(a[(r, c)], want, "entry ({r},{c}) of a {n}x{m} matrix with ({i},{j})={v} and {last:?}={w}");
            ensure_eq!((*a).transpose()[(c, r)], want, "transposed entry ({c},{r}) of that {n}x{m} matrix");
            ensure_eq!(a[(r.., c..)][(0, 0)], want, "first entry of the view from ({r},{c}) of that {n}x{m} matrix");
            ensure_eq!(a[(r.., c..)].size(), (n - r, m - c), "size of the view from ({r},{c}) of a {n}x{m} matrix");
        }
        let count = (0..n).map(|r| (0..m).filter(|&c| a[(r, c)] != 0).count()).sum::<usize>();
        ensure_eq!(count, if (i, j) == last { 1 } else { 2 }, "entries written in a {n}x{m} matrix");
        Ok(())
    });
    match res {
        Ok(r) => r,
        // refusing a shape that cannot be represented is fine, computing with another shape is not
        Err(_) if long > 65535 => Ok(()),
        Err(e) => Err(format!("{n}x{m}: {e:?}")),
    }
}

// ---------------------------------------------------------------- arithmetic

struct Operand<T: PID> {
    base: Matrix<T>,
    rc: Option<(Rg, Rg)>,
    trans: bool,
}
impl<T: PID> Operand<T> {
    fn get(&self) -> &SubMatrix<T> {
        let v: &SubMatrix<T> = match &self.rc {
            Some((r, c)) => view(&self.base, r, c),
            None => &self.base,
        };
        if self.trans {
            v.transpose()
        } else {
            v
        }
    }
    fn owned(&self) -> Matrix<T> {
        // keep strided storage when possible
        if self.rc.is_none() {
            let m = self.base.clone();
            return if self.trans { m.transpose() } else { m };
        }
        self.get().as_matrix()
    }
}

/// an operand of the given shape: a plain matrix, a transposed one, or a window of a larger one
fn operand<T: Elem>(s: &mut Src, a: &Mx<i64>) -> Operand<T> {
    let (n, m) = (a.len(), a[0].len());
    let trans = s.bool();
    let src = if trans { transpose(a) } else { a.clone() };
    let (sn, sm) = if trans { (m, n) } else { (n, m) };
    if s.bool() {
        return Operand { base: to_matrix(&src, |x| T::of(*x)), rc: None, trans };
    }
    let (top, left, bot, right) = (s.usize(0, 2), s.usize(0, 2), s.usize(0, 2), s.usize(0, 2));
    let big: Mx<i64> = (0..sn + top + bot).map(|i| (0..sm + left + right).map(|j| if i >= top && i < top + sn && j >= left && j < left + sm { src[i - top][j - left] } else { 7 }).collect()).collect();
    Operand { base: to_matrix(&big, |x| T::of(*x)), rc: Some((Rg { kind: 0, a: top, b: top + sn }, Rg { kind: 0, a: left, b: left + sm })), trans }
}

fn add(a: &Mx<i64>, b: &Mx<i64>, k: i64) -> Mx<i64> {
    a.iter().zip(b).map(|(r, t)| r.iter().zip(t).map(|(x, y)| x + k * y).collect()).collect()
}
fn mul(a: &Mx<i64>, b: &Mx<i64>) -> Mx<i64> {
    (0..a.len()).map(|i| (0..b[0].len()).map(|j| (0..b.len()).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}

fn arith<T: Elem>(s: &mut Src) -> Res {
    let (n, m, k) = (s.size_huge(1, 5, 30, 70), s.size_huge(1, 5, 30, 70), s.size_huge(1, 5, 30, 70));
    let (a, b, c) = (rand_mx(s, n, m, 9), rand_mx(s, n, m, 9), rand_mx(s, m, k, 9));
    let (x, y, z) = (operand::<T>(s, &a), operand::<T>(s, &b), operand::<T>(s, &c));
    let t = s.int(-5, 5);
    let op = s.below(7);
    let form = s.below(4);
    let d = || format!("A={a:?} B={b:?} C={c:?} t={t}, op {op} form {form}, storage A {:?} {} B {:?} {} C {:?} {}", x.rc, x.trans, y.rc, y.trans, z.rc, z.trans);
    s.note(d);
    s.nontrivial_if(n > 1 && m > 1);
    let res: Matrix<T>;
    let want: Mx<i64>;
    match op {
        0 => {
            res = match form {
                0 => x.get() + y.get(),
                1 => x.owned() + y.get(),
                2 => x.get() + y.owned(),
                _ => x.owned() + y.owned(),
            };
            want = add(&a, &b, 1);
        }
        1 => {
            res = match form {
                0 => x.get() - y.get(),
                1 => x.owned() - y.get(),
                2 => x.get() - y.owned(),
                _ => x.owned() - y.owned(),
            };
            want = add(&a, &b, -1);
        }
        2 => {
            let mut r = x.owned();
            match form {
                0 => r += y.get(),
                1 => r += y.owned(),
                2 => r -= y.get(),
                _ => r -= y.owned(),
            }
            res = r;
            want = add(&a, &b, if form < 2 { 1 } else { -1 });
        }
        3 | 4 => {
            res = match form {
                0 => x.get() * z.get(),
                1 => x.owned() * z.get(),
                2 => x.get() * z.owned(),
                _ => x.owned() * z.owned(),
            };
            want = mul(&a, &c);
        }
        5 => {
            res = match form {
                0 => x.get() * T::of(t),
                1 => x.owned() * T::of(t),
                _ => {
                    let mut r = x.owned();
                    r *= T::of(t);
                    r
                }
            };
            want = a.iter().map(|r| r.iter().map(|v| v * t).collect()).collect();
        }
        _ => {
            // dot product of a row of A with a column of C
            let i = s.usize(0, n - 1);
            let j = s.usize(0, k - 1);
            let got = x.get()[(i, ..)].dot(&z.get()[(.., j)]);
            ensure_eq!(got.val(), mul(&a, &c)[i][j], "dot of row {i} of A and column {j} of C: {}", d());
            return Ok(());
        }
    }
    s.label_if(want.iter().flatten().all(|v| *v == 0), "zero result");
    same(&res, &want, &d)?;
    // operands are left alone by borrowing forms
    same(x.get(), &a, &|| format!("left operand changed: {}", d()))?;
    same(y.get(), &b, &|| format!("right operand changed: {}", d()))?;
    same(z.get(), &c, &|| format!("right factor changed: {}", d()))
}

fn arith_i64(s: &mut Src) -> Res {
    arith::<i64>(s)?;
    let (n, m) = (s.size(1, 4, 30), s.size(1, 4, 30));
    let a = rand_mx(s, n, m, 9);
    let x = operand::<i64>(s, &a);
    let t = s.int(-5, 5);
    same(&(t * x.get()), &a.iter().map(|r| r.iter().map(|v| v * t).collect()).collect(), &|| format!("{t} * {a:?}"))
}
fn arith_rational(s: &mut Src) -> Res {
    arith::<Rational>(s)?;
    division::<Rational>(s)
}
fn arith_f64(s: &mut Src) -> Res {
    arith::<f64>(s)?;
    division::<f64>(s)
}
fn arith_witness(s: &mut Src) -> Res {
    reset_witness();
    churn(16);
    arith::<Witness>(s)?;
    witness_ok()
}

fn division<T: Elem + Field>(s: &mut Src) -> Res {
    let (n, m) = (s.size(1, 4, 30), s.size(1, 4, 30));
    let a = rand_mx(s, n, m, 9);
    let k = *s.pick(&[1i64, -1, 2, -3, 5]);
    let scaled: Mx<i64> = a.iter().map(|r| r.iter().map(|v| v * k).collect()).collect();
    let x = operand::<T>(s, &scaled);
    let r = match s.below(3) {
        0 => x.get() / T::of(k),
        1 => x.owned() / T::of(k),
        _ => {
            let mut r = x.owned();
            r /= T::of(k);
            r
        }
    };
    same(&r, &a, &|| format!("{scaled:?} / {k}"))
}

fn mat_equality(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 5, 40, 130), s.size_huge(1, 5, 40, 130));
    let a = rand_mx(s, n, m, 3);
    let mut b = a.clone();
    let kind = s.below(3);
    match kind {
        0 => {}
        1 => {
            let (i, j) = (s.usize(0, n - 1), s.usize(0, m - 1));
            b[i][j] += s.int(1, 2);
        }
        _ => {
            let (n2, m2) = (s.usize(1, 5), s.usize(1, 5));
            b = (0..n2).map(|i| (0..m2).map(|j| *a.get(i).and_then(|r| r.get(j)).unwrap_or(&0)).collect()).collect();
        }
    }
    let want = a == b;
    let (x, y) = (operand::<i64>(s, &a), operand::<i64>(s, &b));
    s.note(|| format!("{a:?} vs {b:?}"));
    s.nontrivial_if(n * m > 1);
    s.label_if(want, "equal");
    ensure_eq!(*x.get() == *y.get(), want, "view == view for {a:?} and {b:?}");
    ensure_eq!(*x.get() != *y.get(), !want, "view != view for {a:?} and {b:?}");
    ensure_eq!(x.owned() == y.owned(), want, "matrix == matrix for {a:?} and {b:?}");
    ensure_eq!(*x.get() == y.owned(), want, "view == matrix for {a:?} and {b:?}");
    Ok(())
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Obj(pub u8);
formal_sum_impl! { Obj }

fn basis_change(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 5, 30, 80), s.size_huge(1, 5, 30, 80));
    let max = *s.pick(&[4, 300, 1 << 40]);
    let a = rand_mx(s, n, m, max);
    // the basis may come in any order
    let p = s.perm(m);
    let basis: Vec<Obj> = p.iter().map(|&i| Obj(i as u8)).collect();
    let op = operand::<i64>(s, &a);
    let got: Vec<Vector<i64, Obj>> = op.owned() * basis.clone();
    ensure_eq!(got.len(), n, "number of combinations");
    s.note(|| format!("{a:?} applied to {basis:?}"));
    for i in 0..n {
        let mut want: BTreeMap<u8, i64> = BTreeMap::new();
        for j in 0..m {
            if a[i][j] != 0 {
                want.insert(basis[j].0, a[i][j]);
            }
        }
        s.nontrivial_if(want.len() > 1);
        let g: Vec<(u8, i64)> = got[i].iter().map(|(c, b)| (b.0, *c)).collect();
        ensure_eq!(g, want.into_iter().collect::<Vec<_>>(), "row {i} of {a:?} applied to {basis:?}");
    }
    // the operators the macro generates for a basis type
    let (x, y, k) = (Obj(s.int(0, 3) as u8), Obj(s.int(0, 3) as u8), s.int(-4, 4));
    let vx: Vector<i64, Obj> = Vector::from(x.clone());
    let vy: Vector<i64, Obj> = Vector::from(y.clone());
    ensure!(x.clone() + y.clone() == vx.clone() + vy.clone(), "{x:?}+{y:?}");
    ensure!(x.clone() - y.clone() == vx.clone() - vy.clone(), "{x:?}-{y:?}");
    ensure!(k * x.clone() == vx.clone() * k, "{k}*{x:?}");
    ensure!(-x.clone() == vx.clone() * -1, "-{x:?}");
    ensure!(x.clone() + vy.clone() == vx.clone() + vy.clone(), "{x:?} + vector");
    ensure!(x.clone() - vy.clone() == vx - vy, "{x:?} - vector");
    Ok(())
}

fn mismatch(s: &mut Src) -> Res {
    let (n, m) = (s.usize(1, 4), s.usize(1, 4));
    let (dn, dm) = (s.usize(0, 2), s.usize(0, 2));
    if dn + dm == 0 {
        return Ok(());
    }
    s.nontrivial();
    let a = Matrix::<i64>::zero(n, m);
    let b = Matrix::<i64>::zero(n + dn, m + dm);
    s.note(|| format!("{n}x{m} with {}x{}", n + dn, m + dm));
    ensure!(guarded(|| &*a + &*b).is_err(), "sum of incompatible sizes accepted");
    ensure!(guarded(|| &*b - &*a).is_err(), "difference of incompatible sizes accepted");
    ensure!(guarded(|| a.clone() + b.clone()).is_err(), "sum of incompatible sizes accepted");
    ensure!(guarded(|| b.clone() - &*a).is_err(), "difference of incompatible sizes accepted");
    if m != n + dn {
        ensure!(guarded(|| &*a * &*b).is_err(), "product of incompatible sizes accepted: {n}x{m} * {}x{}", n + dn, m + dm);
    }
    Ok(())
}

// ---------------------------------------------------------------- Smith normal form

fn big(a: &Mx<i64>) -> Mx<i128> {
    a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect()
}
fn read_big(m: &SubMatrix<i64>) -> Mx<i128> {
    let (r, c) = m.size();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)] as i128).collect()).collect()
}
fn is_identity(a: &Mx<i128>) -> bool {
    a.iter().enumerate().all(|(i, r)| r.iter().enumerate().all(|(j, &x)| x == (i == j) as i128))
}

fn snf_check(s: &mut Src, a: &Mx<i64>, trans_storage: bool) -> Res {
    let (n, m) = (a.len(), a[0].len());
    let mat: Matrix<i64> = if trans_storage { to_matrix(&transpose(a), |x| *x).transpose() } else { to_matrix(a, |x| *x) };
    s.note(|| format!("{a:?}"));
    let maxabs = a.iter().flatten().map(|x| x.abs()).max().unwrap();
    // Intermediate entries grow with the size of the matrix; a reported overflow is accepted only
    // outside this range (none was seen inside it in millions of matrices).
    let no_overflow = n.min(m) <= 4 && (n.max(m) <= 3 || maxabs <= 5 || n.max(m) <= 4 && maxabs <= 30);
    let out = guarded(|| mat.smith_normal_form());
    let (ri, r, d, c, ci) = match out {
        Ok(x) => x,
        Err(e) if !no_overflow && e.contains("overflow") => {
            s.label("overflow reported");
            return Ok(());
        }
        Err(e) => return Err(format!("{a:?}: {e}")),
    };
    let (ri, r, d, c, ci, b) = (read_big(&ri), read_big(&r), read_big(&d), read_big(&c), read_big(&ci), big(a));
    ensure!(d.len() == n && d[0].len() == m, "{a:?}: the normal form has size {}x{}", d.len(), d[0].len());
    for i in 0..n {
        for j in 0..m {
            ensure!(i == j || d[i][j] == 0, "{a:?}: the normal form is not diagonal: {d:?}");
        }
    }
    let diag: Vec<i128> = (0..n.min(m)).map(|i| d[i][i]).collect();
    let rank = diag.iter().take_while(|&&x| x != 0).count();
    ensure!(diag[rank..].iter().all(|&x| x == 0), "{a:?}: a zero precedes a non-zero on the diagonal {diag:?}");
    for w in diag[..rank].windows(2) {
        ensure!(w[1] % w[0] == 0, "{a:?}: diagonal {diag:?} is not a divisor chain");
    }
    ensure!(is_identity(&mul_i(&r, &ri)) && is_identity(&mul_i(&ri, &r)), "{a:?}: the row operation {r:?} and its claimed inverse {ri:?} do not cancel");
    ensure!(is_identity(&mul_i(&c, &ci)) && is_identity(&mul_i(&ci, &c)), "{a:?}: the column operation {c:?} and its claimed inverse {ci:?} do not cancel");
    ensure!(mul_i(&mul_i(&r, &b), &c) == d, "{a:?}: row operation * matrix * column operation is {:?}, normal form is {d:?}", mul_i(&mul_i(&r, &b), &c));
    ensure!(mul_i(&mul_i(&ri, &d), &ci) == b, "{a:?}: the inverse operations do not restore the matrix");
    let want = invariant_factors(&b);
    if let Some(want) = want {
        ensure_eq!(diag[..rank].iter().map(|x| x.abs()).collect::<Vec<_>>(), want, "{a:?}: invariant factors");
        s.nontrivial_if(want.len() >= 2 || want.iter().any(|&x| x > 1));
        s.label_if(want.iter().any(|&x| x > 1), "torsion");
        s.label_if(want.len() < n.min(m), "rank deficient");
        s.label_if(want.iter().filter(|&&x| x > 1).collect::<std::collections::BTreeSet<_>>().len() > 1, "two different factors above 1");
    }
    Ok(())
}

fn digits(mut k: u64, base: u64, n: usize, off: i64) -> Vec<i64> {
    (0..n)
        .map(|_| {
            let d = (k % base) as i64 - off;
            k /= base;
            d
        })
        .collect()
}
fn shape(v: Vec<i64>, m: usize) -> Mx<i64> {
    v.chunks(m).map(|c| c.to_vec()).collect()
}

fn snf_2x2(s: &mut Src) -> Res {
    let a = shape(digits(s.below(2401), 7, 4, 3), 2);
    snf_check(s, &a, false)
}
fn snf_2x3(s: &mut Src) -> Res {
    let a = shape(digits(s.below(729), 3, 6, 1), 3);
    snf_check(s, &a, false)
}
fn snf_3x2(s: &mut Src) -> Res {
    let a = shape(digits(s.below(729), 3, 6, 1), 2);
    snf_check(s, &a, true)
}

fn snf_random(s: &mut Src) -> Res {
    let (n, m) = (s.usize(1, 7), s.usize(1, 7));
    let a = match s.below(7) {
        0 => rand_mx(s, n, m, 3),
        1 if n * m <= 20 => rand_mx(s, n, m, 100),
        2 => {
            // incidence-like: each column has one 1 and one -1
            let mut a = vec![vec![0i64; m]; n];
            for j in 0..m {
                let p = s.usize(0, n - 1);
                let q = s.usize(0, n - 1);
                a[p][j] += 1;
                a[q][j] -= 1;
            }
            a
        }
        3 => {
            // rank deficient
            let k = s.usize(1, n.min(m));
            let (x, y) = (rand_mx(s, n, k, 3), rand_mx(s, k, m, 3));
            mul(&x, &y)
        }
        4 => {
            // diagonal with arbitrary entries: pure divisor-chain work
            let mut a = vec![vec![0i64; m]; n];
            for i in 0..n.min(m) {
                a[i][i] = s.int(-12, 12);
            }
            a
        }
        5 => {
            // zero rows and columns
            let mut a = rand_mx(s, n, m, 4);
            let (i, j) = (s.usize(0, n - 1), s.usize(0, m - 1));
            a[i].iter_mut().for_each(|x| *x = 0);
            a.iter_mut().for_each(|r| r[j] = 0);
            a
        }
        _ => {
            let lim = if n.max(m) > 5 { 2 } else { 9 };
            rand_mx(s, n, m, lim)
        }
    };
    let t = s.bool();
    snf_check(s, &a, t)
}

fn snf_planted(s: &mut Src) -> Res {
    let (n, m) = (s.usize(1, 6), s.usize(1, 6));
    let k = s.usize(0, n.min(m));
    let mut a = vec![vec![0i64; m]; n];
    let mut d = 1;
    for i in 0..k {
        d *= *s.pick(&[1i64, 1, 2, 3, 1]);
        a[i][i] = d;
    }
    // a few unimodular operations
    for _ in 0..s.usize(0, 8) {
        let f = s.int(-1, 1);
        if s.bool() && n > 1 {
            let (i, j) = (s.usize(0, n - 1), s.usize(0, n - 1));
            if i != j {
                for c in 0..m {
                    let x = f * a[j][c];
                    a[i][c] += x;
                }
            }
        } else if m > 1 {
            let (i, j) = (s.usize(0, m - 1), s.usize(0, m - 1));
            if i != j {
                for r in a.iter_mut() {
                    r[i] += f * r[j];
                }
            }
        }
    }
    let t = s.bool();
    snf_check(s, &a, t)
}

fn snf_rational(s: &mut Src) -> Res {
    let (n, m) = (s.usize(1, 4), s.usize(1, 4));
    let a: Mx<i64> = rand_mx(s, n, m, 3);
    let den = s.int(1, 3);
    let mat: Matrix<Rational> = to_matrix(&a, |x| Rational::new(*x, den));
    s.note(|| format!("{a:?}/{den}"));
    let (ri, r, d, c, ci) = mat.clone().smith_normal_form();
    let rank = rank_q(&big(&a));
    for i in 0..n {
        for j in 0..m {
            let z = d[(i, j)] == Rational::zero();
            ensure_eq!(z, i != j || i >= rank, "{a:?}/{den}: entry ({i},{j}) of the normal form {d:?} vanishes");
        }
    }
    ensure!(&*r * &*ri == Matrix::identity(n), "{a:?}/{den}: row operation and inverse");
    ensure!(&*c * &*ci == Matrix::identity(m), "{a:?}/{den}: column operation and inverse");
    ensure!(r * mat * c == d, "{a:?}/{den}: operations do not produce the normal form");
    s.nontrivial_if(rank >= 2);
    Ok(())
}

// ---------------------------------------------------------------- rank

fn rank_check(s: &mut Src, a: &Mx<i64>, den: i64, trans: bool) -> Res {
    let (n, m) = (a.len(), a[0].len());
    let want = rank_q(&big(a));
    s.note(|| format!("{a:?}/{den}"));
    s.nontrivial_if((want > 0 && want < n.min(m)) || a[0][0] == 0);
    s.label_if(want == n.min(m), "full rank");
    let mat: Matrix<Rational> = if trans { to_matrix(&transpose(a), |x| Rational::new(*x, den)).transpose() } else { to_matrix(a, |x| Rational::new(*x, den)) };
    ensure_eq!(mat.rank_as_linear_map(), want, "rank of {a:?}/{den} over the rationals");
    Ok(())
}
fn rank_2x3(s: &mut Src) -> Res {
    let a = shape(digits(s.below(729), 3, 6, 1), 3);
    rank_check(s, &a, 1, false)
}
fn rank_3x2(s: &mut Src) -> Res {
    let a = shape(digits(s.below(729), 3, 6, 1), 2);
    rank_check(s, &a, 1, true)
}
fn rank_random(s: &mut Src) -> Res {
    if s.chance(1, 12) {
        return rank_dependent(s);
    }
    let (n, m) = (s.usize(1, 6), s.usize(1, 6));
    let a = match s.below(5) {
        0 => {
            // permutation-like
            let p = s.perm(n.max(m));
            (0..n).map(|i| (0..m).map(|j| if p[i] == j { s.int(-2, 2) } else { 0 }).collect()).collect()
        }
        1 => {
            let k = s.usize(1, n.min(m));
            let (x, y) = (rand_mx(s, n, k, 2), rand_mx(s, k, m, 2));
            mul(&x, &y)
        }
        2 => {
            let mut a = rand_mx(s, n, m, 3);
            let (k, l) = (s.usize(0, n), s.usize(0, m));
            for r in a.iter_mut().take(k) {
                r.iter_mut().take(l).for_each(|x| *x = 0);
            }
            a
        }
        _ => rand_mx(s, n, m, 4),
    };
    let den = s.int(1, 3);
    let t = s.bool();
    rank_check(s, &a, den, t)
}
/// larger matrices made of a few blocks of low rank, rows and columns in random order: many dependent
/// columns before and after each independent one, and numbers that stay small
fn rank_dependent(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 14, 30, 60), s.size_huge(1, 14, 30, 60));
    let mut a = vec![vec![0i64; m]; n];
    let (rows, cols) = (s.perm(n), s.perm(m));
    let sorted = s.bool();
    let (mut r, mut c) = (0, 0);
    while r < n && c < m {
        let (h, w) = (s.usize(1, n - r), s.usize(1, m - c));
        let k = s.usize(0, 2.min(h).min(w));
        let (x, y) = (rand_mx(s, h, k.max(1), 2), rand_mx(s, k.max(1), w, 2));
        let b = mul(&x, &y);
        if k > 0 {
            for i in 0..h {
                for j in 0..w {
                    if sorted {
                        a[r + i][c + j] = b[i][j];
                    } else {
                        a[rows[r + i]][cols[c + j]] = b[i][j];
                    }
                }
            }
        }
        r += h;
        c += w;
    }
    s.label("blocks of low rank");
    s.label_if(n.max(m) > 20, "more than 20 rows or columns");
    let t = s.bool();
    rank_check(s, &a, 1, t)
}
fn rank_float(s: &mut Src) -> Res {
    // every column has at most one non-zero entry per block: elimination is exact
    let (n, m) = (s.size(1, 8, 40), s.size(1, 8, 40));
    let mut a = vec![vec![0i64; m]; n];
    for j in 0..m {
        if s.chance(3, 4) {
            let i = s.usize(0, n - 1);
            a[i][j] = *s.pick(&[1, -1, 2, -4]);
        }
    }
    let want = rank_q(&big(&a));
    s.note(|| format!("{a:?}"));
    s.nontrivial_if(a[0][0] == 0 && want > 0);
    let mat: Matrix<f64> = to_matrix(&a, |x| *x as f64);
    ensure_eq!(mat.rank_as_linear_map(), want, "float rank of {a:?}");
    let t: Matrix<f64> = to_matrix(&transpose(&a), |x| *x as f64);
    ensure_eq!(t.rank_as_linear_map(), want, "float rank of the transpose of {a:?}");
    Ok(())
}

// ---------------------------------------------------------------- sparse

/// stored entries: `None` = absent, `Some(0)` = explicitly stored zero
fn sparse(s: &mut Src, n: usize, m: usize) -> (SparseMatrix<i64>, Mx<Option<i64>>, usize) {
    let dens = *s.pick(&[0u64, 1, 1, 2, 3, 6]);
    let stored_zeros = s.chance(1, 5);
    let t = s.usize(0, 3);
    let (rn, rm) = if t % 2 == 0 { (n, m) } else { (m, n) };
    let mut a: Mx<Option<i64>> = (0..rn)
        .map(|_| {
            (0..rm)
                .map(|_| {
                    if s.chance(dens, 6) {
                        let v = s.int(-5, 5);
                        if v != 0 || stored_zeros {
                            Some(v)
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                })
                .collect()
        })
        .collect();
    let mut sp = SparseMatrix::from(((rn, rm), |(i, j): (usize, usize)| a[i][j]));
    for _ in 0..t {
        sp = sp.transpose();
        a = transpose(&a);
    }
    (sp, a, t)
}
fn dense(a: &Mx<Option<i64>>) -> Mx<i64> {
    a.iter().map(|r| r.iter().map(|x| x.unwrap_or(0)).collect()).collect()
}

fn sparse_read(s: &mut Src) -> Res {
    let (n, m) = (s.size_huge(1, 9, 48, 140), s.size_huge(1, 9, 48, 140));
    let (sp, a, t) = sparse(s, n, m);
    let d = || format!("{n}x{m} sparse {:?}, transposed {t} times", a.iter().enumerate().flat_map(|(i, r)| r.iter().enumerate().filter_map(move |(j, x)| x.map(|v| (i, j, v)))).collect::<Vec<_>>());
    s.note(d);
    let empty_row = a.iter().any(|r| r.iter().all(|x| x.is_none()));
    let some = a.iter().flatten().any(|x| x.is_some());
    s.nontrivial_if(empty_row && some);
    s.label_if(!some, "no entries");
    ensure_eq!(sp.size(), (n, m), "size of {}", d());
    for i in 0..n {
        let want: Vec<(usize, i64)> = a[i].iter().enumerate().filter_map(|(j, x)| x.map(|v| (j, v))).collect();
        ensure_eq!(sp.row_iter(i).map(|(j, v)| (j, *v)).collect::<Vec<_>>(), want, "row {i} of {}", d());
    }
    for j in 0..m {
        let want: Vec<(usize, i64)> = (0..n).filter_map(|i| a[i][j].map(|v| (i, v))).collect();
        ensure_eq!(sp.col_iter(j).map(|(i, v)| (i, *v)).collect::<Vec<_>>(), want, "column {j} of {}", d());
    }
    let text: String = a.iter().enumerate().flat_map(|(i, r)| r.iter().enumerate().filter_map(move |(j, x)| x.map(|v| format!("({i}, {j}): {v}\n")))).collect();
    ensure_eq!(sp.to_string(), text, "printed {}", d());
    let de = dense(&a);
    ensure!(sp == to_matrix(&de, |x| *x), "not equal to its dense form: {}", d());
    let mut other = de.clone();
    let (i, j) = (s.usize(0, n - 1), s.usize(0, m - 1));
    other[i][j] += s.int(1, 2);
    ensure!(!(sp == to_matrix(&other, |x| *x)), "equal to a dense matrix that differs at ({i},{j}): {}", d());
    if n != m {
        ensure!(!(sp == to_matrix(&transpose(&de), |x| *x)), "equal to a dense matrix of another size: {}", d());
    }
    Ok(())
}

/// single columns and rows with very many entries
fn sparse_long(s: &mut Src) -> Result<(), String> {
    let k = s.below(8) as usize;
    let n = [20000usize, 30000, 300000, 1000000, 1500000, 1500000, 20000, 30000][k];
    let (row, step) = (k < 2, [1usize, 3, 1, 7, 1, 2, 1, 1][k]);
    let wide = 2 + k / 7;
    let size = if row { (wide, n) } else { (n, wide) };
    s.note(|| format!("{}x{} sparse, every {step}-th entry of the first {}", size.0, size.1, if row { "row" } else { "column" }));
    s.nontrivial_if(true);
    let at = move |(i, j): (usize, usize)| {
        let (a, b) = if row { (i, j) } else { (j, i) };
        if a == 0 && b % step == 0 { Some(b as i64 + 1) } else { None }
    };
    let m = guarded(|| SparseMatrix::<i64>::from((size, at)))?;
    let want = (0..n).step_by(step);
    let total = want.clone().count();
    let count = guarded(|| if row { m.row_iter(0).map(|(j, v)| (j, *v)).zip(want.clone()).filter(|((j, v), w)| j == w && *v == *w as i64 + 1).count() } else { m.col_iter(0).map(|(j, v)| (j, *v)).zip(want.clone()).filter(|((j, v), w)| j == w && *v == *w as i64 + 1).count() })?;
    ensure_eq!(count, total, "entries read in order");
    if k % 2 == 1 {
        let m = guarded(|| m.transpose())?;
        ensure_eq!(guarded(|| if row { m.col_iter(0).count() } else { m.row_iter(0).count() })?, total, "entries of the transpose");
    }
    Ok(())
}

fn sparse_products(s: &mut Src) -> Res {
    let (n, k, m) = (s.size_huge(1, 7, 30, 70), s.size_huge(1, 7, 30, 70), s.size_huge(1, 7, 30, 70));
    let (x, a, ta) = sparse(s, n, k);
    let (y, b, tb) = sparse(s, k, m);
    let (da, db) = (dense(&a), dense(&b));
    let want = mul(&da, &db);
    let d = || format!("{da:?} (transposed {ta}) * {db:?} (transposed {tb})");
    s.note(d);
    s.nontrivial_if(want.iter().flatten().any(|v| *v != 0));
    let left = operand::<i64>(s, &da).owned();
    let right = operand::<i64>(s, &db).owned();
    same(&(x.clone() * right), &want, &|| format!("sparse * dense: {}", d()))?;
    same(&(left * y.clone()), &want, &|| format!("dense * sparse: {}", d()))?;
    same(&(x.clone() * y.clone()), &want, &|| format!("sparse * sparse: {}", d()))?;
    if k != n {
        ensure!(guarded(|| x.clone() * x.clone()).is_err(), "product of incompatible sparse matrices accepted");
    }
    Ok(())
}

// ---------------------------------------------------------------- fixed sizes

fn cv<const N: usize>(v: &[i64]) -> [i64; N] {
    let mut o = [0; N];
    o.copy_from_slice(v);
    o
}

fn vec_ops<const N: usize>(a: &[i64], b: &[i64], k: i64) -> Res {
    let (x, y) = (ConstVector::<i64, N>::from(cv(a)), ConstVector::<i64, N>::from(cv(b)));
    let z = |f: &dyn Fn(i64, i64) -> i64| -> Vec<i64> { a.iter().zip(b).map(|(p, q)| f(*p, *q)).collect() };
    let d = format!("{a:?} {b:?} {k}");
    ensure_eq!((x + y).to_vec(), z(&|p, q| p + q), "sum {d}");
    ensure_eq!((x - y).to_vec(), z(&|p, q| p - q), "difference {d}");
    ensure_eq!((-x).to_vec(), z(&|p, _| -p), "negation {d}");
    ensure_eq!((x * k).to_vec(), z(&|p, _| p * k), "scalar multiple {d}");
    let mut w = x;
    w += y;
    ensure_eq!(w.to_vec(), z(&|p, q| p + q), "+= {d}");
    w -= y;
    ensure_eq!(w.to_vec(), a.to_vec(), "-= {d}");
    w *= k;
    ensure_eq!(w.to_vec(), z(&|p, _| p * k), "*= {d}");
    ensure_eq!(x.dot(y), a.iter().zip(b).map(|(p, q)| p * q).sum::<i64>(), "dot {d}");
    ensure_eq!(ConstVector::<i64, N>::zero().to_vec(), vec![0; N], "zero");
    ensure_eq!(x == y, a == b, "equality {d}");
    let mut fx = [0.0; N];
    fx.iter_mut().zip(a).for_each(|(f, v)| *f = *v as f64);
    let f = ConstVector::<f64, N>::from(fx);
    let nn: i64 = a.iter().map(|v| v * v).sum();
    ensure!((f.two_norm() * f.two_norm() - nn as f64).abs() <= 1e-9 * (1.0 + nn as f64), "norm of {d}: {}", f.two_norm());
    let half = f / 2.0;
    ensure!(half.iter().zip(a).all(|(h, v)| (*h * 2.0 - *v as f64).abs() <= 1e-12), "division {d}");
    let mut r = [Rational::zero(); N];
    r.iter_mut().zip(a).for_each(|(f, v)| *f = Rational::from(*v));
    let mut q = ConstVector::<Rational, N>::from(r);
    q /= Rational::from(3);
    ensure!(q.iter().zip(a).all(|(h, v)| *h == Rational::new(*v, 3)), "rational division {d}");
    Ok(())
}

fn const_vectors(s: &mut Src) -> Res {
    let n = *s.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 13, 33, 65]);
    let a: Vec<i64> = (0..n).map(|_| s.int(-99, 99)).collect();
    let b: Vec<i64> = (0..n).map(|_| s.int(-99, 99)).collect();
    let b = if s.chance(1, 6) { a.clone() } else { b };
    let k = s.int(-9, 9);
    s.note(|| format!("{a:?} {b:?} {k}"));
    s.nontrivial_if(a.iter().any(|x| *x != 0) && b.iter().any(|x| *x != 0));
    match n {
        1 => vec_ops::<1>(&a, &b, k),
        2 => vec_ops::<2>(&a, &b, k),
        3 => vec_ops::<3>(&a, &b, k),
        4 => vec_ops::<4>(&a, &b, k),
        5 => vec_ops::<5>(&a, &b, k),
        6 => vec_ops::<6>(&a, &b, k),
        7 => vec_ops::<7>(&a, &b, k),
        8 => vec_ops::<8>(&a, &b, k),
        9 => vec_ops::<9>(&a, &b, k),
        13 => vec_ops::<13>(&a, &b, k),
        33 => vec_ops::<33>(&a, &b, k),
        _ => vec_ops::<65>(&a, &b, k),
    }
}

fn mat_ops<const N: usize, const M: usize>(a: &Mx<i64>, b: &Mx<i64>, k: i64) -> Res {
    let mk = |a: &Mx<i64>| {
        let mut o = [[0i64; M]; N];
        for i in 0..N {
            for j in 0..M {
                o[i][j] = a[i][j];
            }
        }
        o
    };
    let rd = |m: &ConstMatrix<i64, N, M>| -> Mx<i64> { m.iter().map(|r| r.to_vec()).collect() };
    let d = format!("{a:?} {b:?} {k}");
    let (x, y) = (ConstMatrix::from(mk(a)), ConstMatrix::from(mk(b)));
    ensure_eq!(rd(&x), *a, "from rows {d}");
    let mut w = x;
    w += y;
    ensure_eq!(rd(&w), add(a, b, 1), "+= {d}");
    w -= y;
    w -= y;
    ensure_eq!(rd(&w), add(a, b, -1), "-= {d}");
    let sc: Mx<i64> = a.iter().map(|r| r.iter().map(|v| v * k).collect()).collect();
    ensure_eq!(rd(&(x * k)), sc, "scalar multiple {d}");
    ensure_eq!(rd(&(-x)), a.iter().map(|r| r.iter().map(|v| -v).collect::<Vec<_>>()).collect::<Vec<_>>(), "negation {d}");
    ensure_eq!(rd(&ConstMatrix::<i64, N, M>::zero()), vec![vec![0; M]; N], "zero");
    ensure_eq!(x == y, a == b, "equality {d}");
    // built from columns
    let cols: Vec<ConstVector<i64, N>> = (0..M).map(|j| ConstVector::from(cv::<N>(&a.iter().map(|r| r[j]).collect::<Vec<_>>()))).collect();
    let cols: [ConstVector<i64, N>; M] = match cols.try_into() {
        Ok(c) => c,
        Err(_) => panic!("harness: column count"),
    };
    ensure_eq!(rd(&ConstMatrix::from(cols)), *a, "from columns {d}");
    let mut r = [[Rational::zero(); M]; N];
    for i in 0..N {
        for j in 0..M {
            r[i][j] = Rational::from(a[i][j]);
        }
    }
    let q = ConstMatrix::<Rational, N, M>::from(r) / Rational::from(7);
    ensure!((0..N).all(|i| (0..M).all(|j| q[i][j] == Rational::new(a[i][j], 7))), "division {d}");
    let id = ConstMatrix::<i64, N, N>::identity();
    ensure!((0..N).all(|i| (0..N).all(|j| id[i][j] == (i == j) as i64)), "identity {N}");
    Ok(())
}

fn const_matrices(s: &mut Src) -> Res {
    let (n, m) = if s.chance(1, 2) { *s.pick(&[(4usize, 4usize), (5, 2), (2, 5), (4, 7), (7, 4), (6, 6), (9, 3), (3, 10), (12, 12)]) } else { (s.usize(1, 3), s.usize(1, 3)) };
    let a = rand_mx(s, n, m, 99);
    let b = if s.chance(1, 6) { a.clone() } else { rand_mx(s, n, m, 99) };
    let k = s.int(-9, 9);
    s.note(|| format!("{a:?} {b:?} {k}"));
    s.nontrivial_if(a.iter().flatten().any(|x| *x != 0));
    match (n, m) {
        (1, 1) => mat_ops::<1, 1>(&a, &b, k),
        (1, 2) => mat_ops::<1, 2>(&a, &b, k),
        (1, 3) => mat_ops::<1, 3>(&a, &b, k),
        (2, 1) => mat_ops::<2, 1>(&a, &b, k),
        (2, 2) => mat_ops::<2, 2>(&a, &b, k),
        (2, 3) => mat_ops::<2, 3>(&a, &b, k),
        (3, 1) => mat_ops::<3, 1>(&a, &b, k),
        (3, 2) => mat_ops::<3, 2>(&a, &b, k),
        (3, 3) => mat_ops::<3, 3>(&a, &b, k),
        (4, 4) => mat_ops::<4, 4>(&a, &b, k),
        (5, 2) => mat_ops::<5, 2>(&a, &b, k),
        (2, 5) => mat_ops::<2, 5>(&a, &b, k),
        (4, 7) => mat_ops::<4, 7>(&a, &b, k),
        (7, 4) => mat_ops::<7, 4>(&a, &b, k),
        (6, 6) => mat_ops::<6, 6>(&a, &b, k),
        (9, 3) => mat_ops::<9, 3>(&a, &b, k),
        (3, 10) => mat_ops::<3, 10>(&a, &b, k),
        _ => mat_ops::<12, 12>(&a, &b, k),
    }
}
