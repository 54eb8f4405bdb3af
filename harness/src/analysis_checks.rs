//! Symbolic functions: evaluation, derivatives and Jacobians against expression trees of our own.
use crate::engine::*;
use alg::lin_alg::{Matrix, SparseMatrix};
use analysis::{AtomicSmoothFn, AtomicSmoothFnBuilder, Coordinate, Function, MultiVarFn};

const SKIP: &str = "cases in which the expression is undefined, overflows 10^12 or loses more than half of the digits at the point are not judged";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "F01",
            rule: "random expressions in up to 10 coordinates (sums, differences, products, quotients, negation, scalar multiples, integer and real powers, sine, cosine; operators by value, assigning, on coordinates and over iterators), evaluated at random points, against evaluating the expression directly; sums and units compared for commutativity; the printed text read back as an expression; non-trivial = at least 4 operations and a judged value",
            assumptions: &[SKIP],
            subs: vec![Sub::new("evaluation", 150000, 200000, evaluation), Sub::new("commutativity", 15000, 30000, commutativity), Sub::new("printing", 15000, 30000, printing)],
        },
        Prop {
            id: "F02",
            rule: "first and second partial derivatives of random expressions at random points against hyper-dual numbers; non-trivial = the derivative is not zero at the point",
            assumptions: &[SKIP],
            subs: vec![Sub::new("first", 60000, 200000, first), Sub::new("second", 30000, 100000, second)],
        },
        Prop {
            id: "F03",
            rule: "vector-valued functions of up to 10 components in up to 10 coordinates: values, shape and entries of the sparse Jacobian, and evaluation of dense and sparse matrices of functions, also of their sums and products; non-trivial = at least two non-zero entries",
            assumptions: &[SKIP],
            subs: vec![Sub::new("jacobian", 18000, 60000, jacobian), Sub::new("matrices", 18000, 60000, matrices)],
        },
    ]
}

// ---------------------------------------------------------------- numbers with error bounds

/// a value together with a bound on the rounding error of any evaluation order
#[derive(Clone, Copy, Debug)]
struct N {
    v: f64,
    e: f64,
}
const EPS: f64 = 1e-15;

fn n(v: f64) -> N {
    N { v, e: v.abs() * EPS }
}
fn add(a: N, b: N) -> N {
    N { v: a.v + b.v, e: a.e + b.e + EPS * (a.v.abs() + b.v.abs()) }
}
fn mul(a: N, b: N) -> N {
    if (a.v == 0.0 && a.e == 0.0) || (b.v == 0.0 && b.e == 0.0) {
        // an exact zero, unless the other factor is undefined
        return N { v: a.v * b.v, e: 0.0 };
    }
    N { v: a.v * b.v, e: a.v.abs() * b.e + b.v.abs() * a.e + a.e * b.e + EPS * (a.v * b.v).abs() }
}
fn scale(a: N, c: f64) -> N {
    mul(a, n(c))
}
/// a function of one variable given its value, a bound on its slope near a
fn lift(v: f64, slope: f64, a: N) -> N {
    N { v, e: 2.0 * slope.abs() * a.e + EPS * (v.abs() + (slope * a.v).abs()) }
}
fn sin(a: N) -> N {
    lift(a.v.sin(), 1.0, a)
}
fn cos(a: N) -> N {
    lift(a.v.cos(), 1.0, a)
}
/// a^p for a real exponent; undefined for negative bases
fn powf(a: N, p: f64) -> N {
    if p == 0.0 {
        return n(if a.v.is_nan() { f64::NAN } else { 1.0 });
    }
    if a.e > 0.0 && a.e > 1e-6 * a.v.abs() {
        return N { v: f64::NAN, e: f64::NAN };
    }
    let v = a.v.powf(p);
    let slope = if a.v == 0.0 { 0.0 } else { p * v / a.v };
    lift(v, slope, a)
}
fn powi(a: N, k: i32) -> N {
    if k == 0 {
        return n(if a.v.is_nan() { f64::NAN } else { 1.0 });
    }
    if a.e > 0.0 && a.e > 1e-6 * a.v.abs() && k < 0 {
        return N { v: f64::NAN, e: f64::NAN };
    }
    let v = a.v.powi(k);
    let m = a.v.abs() + a.e;
    let slope = k as f64 * if m == 0.0 { if k == 1 { 1.0 } else { 0.0 } } else { m.powi(k) / m };
    lift(v, slope * 2.0, a)
}

/// value, two first derivatives and the mixed second derivative
#[derive(Clone, Copy, Debug)]
struct J([N; 4]);
impl J {
    fn con(v: f64) -> J {
        J([n(v), n(0.0), n(0.0), n(0.0)])
    }
    fn add(self, o: J) -> J {
        J(std::array::from_fn(|i| add(self.0[i], o.0[i])))
    }
    fn scale(self, c: f64) -> J {
        J(self.0.map(|x| scale(x, c)))
    }
    fn mul(self, o: J) -> J {
        let (a, b) = (self.0, o.0);
        J([
            mul(a[0], b[0]),
            add(mul(a[0], b[1]), mul(a[1], b[0])),
            add(mul(a[0], b[2]), mul(a[2], b[0])),
            add(add(mul(a[0], b[3]), mul(a[3], b[0])), add(mul(a[1], b[2]), mul(a[2], b[1]))),
        ])
    }
    /// chain rule with g, g', g'' at the value
    fn chain(self, g: N, g1: N, g2: N) -> J {
        let a = self.0;
        J([g, mul(g1, a[1]), mul(g1, a[2]), add(mul(g1, a[3]), mul(g2, mul(a[1], a[2])))])
    }
    fn usable(&self, upto: usize) -> bool {
        self.0[..=upto].iter().all(|x| x.v.is_finite() && x.e.is_finite() && x.v.abs() < 1e12 && x.e < 1e-7 * x.v.abs().max(1.0))
    }
}

// ---------------------------------------------------------------- expressions

#[derive(Clone, Debug)]
enum E {
    Zero,
    One,
    X(usize),
    Add(Box<E>, Box<E>),
    Minus(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Div(Box<E>, Box<E>),
    Neg(Box<E>),
    Times(Box<E>, f64),
    Over(Box<E>, f64),
    Powi(Box<E>, i32),
    Powf(Box<E>, f64),
    Sin(Box<E>),
    Cos(Box<E>),
    Sum(Vec<E>),
    Prod(Vec<E>),
}
use E::*;

impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let list = |v: &Vec<E>| v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ");
        match self {
            Zero => write!(f, "0"),
            One => write!(f, "1"),
            X(i) => write!(f, "x{i}"),
            Add(a, b) => write!(f, "({a} + {b})"),
            Minus(a, b) => write!(f, "({a} - {b})"),
            Mul(a, b) => write!(f, "({a} * {b})"),
            Div(a, b) => write!(f, "({a} / {b})"),
            Neg(a) => write!(f, "(-{a})"),
            Times(a, c) => write!(f, "({a} *. {c})"),
            Over(a, c) => write!(f, "({a} /. {c})"),
            Powi(a, k) => write!(f, "({a} ^ {k})"),
            Powf(a, p) => write!(f, "({a} ^^ {p})"),
            Sin(a) => write!(f, "sin {a}"),
            Cos(a) => write!(f, "cos {a}"),
            Sum(v) => write!(f, "sum[{}]", list(v)),
            Prod(v) => write!(f, "prod[{}]", list(v)),
        }
    }
}

fn b(e: E) -> Box<E> {
    Box::new(e)
}

fn coeff(src: &mut Src) -> f64 {
    if src.chance(1, 3) {
        *src.pick(&[1.0, 0.5, -1.0, 1.5, -0.25, 0.0, 0.001, 1000.0, 1024.0, -12345.0])
    } else {
        src.int(-4, 4) as f64
    }
}

fn expr(src: &mut Src, dim: usize, depth: usize) -> E {
    if depth == 0 || src.chance(1, 6) {
        return match src.below(8) {
            0 => Zero,
            1 => One,
            _ => X(src.usize(0, dim - 1)),
        };
    }
    let d = depth - 1;
    if depth >= 2 && src.chance(1, 24) {
        // tiny or huge coefficients inside, undone outside
        let c = 2f64.powi(*src.pick(&[-40, -60, -100, -200, 40, 100]));
        let inner = match src.below(4) {
            0 => Times(b(expr(src, dim, d - 1)), c),
            1 => Over(b(expr(src, dim, d - 1)), 1.0 / c),
            2 => Add(b(Times(b(expr(src, dim, d - 1)), c)), b(Times(b(expr(src, dim, d - 1)), c))),
            _ => Mul(b(expr(src, dim, d - 1)), b(Times(b(expr(src, dim, d - 1)), c))),
        };
        return if src.bool() { Times(b(inner), 1.0 / c) } else { Over(b(inner), c) };
    }
    match src.below(16) {
        0 | 1 => Add(b(expr(src, dim, d)), b(expr(src, dim, d))),
        2 | 3 => Minus(b(expr(src, dim, d)), b(expr(src, dim, d))),
        4 | 5 | 6 => Mul(b(expr(src, dim, d)), b(expr(src, dim, d))),
        7 => Div(b(expr(src, dim, d)), b(expr(src, dim, d))),
        8 => Neg(b(expr(src, dim, d))),
        9 => Times(b(expr(src, dim, d)), coeff(src)),
        10 => {
            let c = coeff(src);
            Over(b(expr(src, dim, d)), if c == 0.0 { 3.0 } else { c })
        }
        11 => {
            if d > 0 && src.chance(1, 24) {
                // a large exponent needs a base which cannot overflow
                let a = b(expr(src, dim, d - 1));
                return Powi(b(if src.bool() { Sin(a) } else { Cos(a) }), src.int(20, 300) as i32);
            }
            let k = if src.chance(1, 8) { src.int(-12, 12) } else { src.int(-3, 4) };
            Powi(b(expr(src, dim, d)), k as i32)
        },
        12 => Powf(b(expr(src, dim, d)), *src.pick(&[2.0, 0.5, 1.0, -1.0, 1.5, 3.0, 0.0, -0.5, 4.0, -2.0, 0.25, 2.5, 7.0])),
        13 => Sin(b(expr(src, dim, d))),
        14 => Cos(b(expr(src, dim, d))),
        _ => {
            let k = if depth >= 2 { src.size_huge(0, 3, 12, 40) } else { src.size(0, 3, 12) };
            let d = if k > 3 { d.min(1) } else { d };
            let v = (0..k).map(|_| expr(src, dim, d)).collect();
            if src.bool() { Sum(v) } else { Prod(v) }
        }
    }
}

fn ops(e: &E) -> usize {
    match e {
        Zero | One | X(_) => 0,
        Add(a, b) | Minus(a, b) | Mul(a, b) | Div(a, b) => 1 + ops(a) + ops(b),
        Neg(a) | Times(a, _) | Over(a, _) | Powi(a, _) | Powf(a, _) | Sin(a) | Cos(a) => 1 + ops(a),
        Sum(v) | Prod(v) => 1 + v.iter().map(ops).sum::<usize>(),
    }
}

/// Reference value with derivatives; x[i] carries its own seeds. NaN where undefined.
fn eval(e: &E, x: &[J]) -> J {
    let r = match e {
        Zero => J::con(0.0),
        One => J::con(1.0),
        X(i) => x[*i],
        Add(a, b) => eval(a, x).add(eval(b, x)),
        Minus(a, b) => eval(a, x).add(eval(b, x).scale(-1.0)),
        Mul(a, b) => eval(a, x).mul(eval(b, x)),
        Div(a, b) => eval(a, x).mul(ipow(eval(b, x), -1)),
        Neg(a) => eval(a, x).scale(-1.0),
        Times(a, c) => eval(a, x).scale(*c),
        Over(a, c) => eval(a, x).scale(1.0 / c),
        Powi(a, k) => ipow(eval(a, x), *k),
        Powf(a, p) => {
            let a = eval(a, x);
            let v = a.0[0];
            if *p == 1.0 {
                a
            } else {
                let g1 = if *p == 0.0 { n(0.0) } else { scale(powf(v, p - 1.0), *p) };
                let g2 = if *p == 0.0 || *p == 1.0 { n(0.0) } else { scale(powf(v, p - 2.0), p * (p - 1.0)) };
                // a negative base is undefined even when no derivative needs it
                let g = if v.v < 0.0 && *p != p.trunc() { N { v: f64::NAN, e: 0.0 } } else { powf(v, *p) };
                a.chain(g, g1, g2)
            }
        }
        Sin(a) => {
            let a = eval(a, x);
            let v = a.0[0];
            a.chain(sin(v), cos(v), scale(sin(v), -1.0))
        }
        Cos(a) => {
            let a = eval(a, x);
            let v = a.0[0];
            a.chain(cos(v), scale(sin(v), -1.0), scale(cos(v), -1.0))
        }
        Sum(v) => v.iter().fold(J::con(0.0), |s, e| s.add(eval(e, x))),
        Prod(v) => v.iter().fold(J::con(1.0), |s, e| s.mul(eval(e, x))),
    };
    // intermediate results out of range make the whole case undefined
    if r.0.iter().any(|y| !y.v.is_finite() || y.v.abs() > 1e12) || r.0[0].e > 1e-7 * r.0[0].v.abs().max(1.0) {
        return J([N { v: f64::NAN, e: f64::NAN }; 4]);
    }
    r
}

fn ipow(a: J, k: i32) -> J {
    let v = a.0[0];
    let g1 = if k == 0 { n(0.0) } else { scale(powi(v, k - 1), k as f64) };
    let g2 = if k == 0 || k == 1 { n(0.0) } else { scale(powi(v, k - 2), (k * (k - 1)) as f64) };
    a.chain(powi(v, k), g1, g2)
}

/// The same expression through the library; `src` picks between equivalent spellings.
fn build(e: &E, src: &mut Src, xs: &[Coordinate]) -> AtomicSmoothFn {
    let coord = |e: &E| if let X(i) = e { Some(xs[*i]) } else { None };
    macro_rules! binary {
        ($a:expr, $b:expr, $op:tt, $assign:tt) => {{
            match (coord($a), coord($b), src.below(3)) {
                (Some(p), Some(q), 0) => p $op q,
                (Some(p), _, 0) => p $op build($b, src, xs),
                (_, Some(q), 0) => build($a, src, xs) $op q,
                (_, _, 1) => {
                    let mut f = build($a, src, xs);
                    f $assign build($b, src, xs);
                    f
                }
                _ => build($a, src, xs) $op build($b, src, xs),
            }
        }};
    }
    macro_rules! unary {
        ($a:expr, |$f:ident| $body:expr) => {{
            match (coord($a), src.bool()) {
                (Some($f), true) => $body,
                _ => {
                    let $f = build($a, src, xs);
                    $body
                }
            }
        }};
    }
    match e {
        Zero => <AtomicSmoothFn as alg::commutative::Zero>::zero(),
        One => <AtomicSmoothFn as alg::commutative::One>::one(),
        X(i) => AtomicSmoothFn::Projection(*i),
        Add(a, b) => binary!(a, b, +, +=),
        Minus(a, b) => binary!(a, b, -, -=),
        Mul(a, b) => binary!(a, b, *, *=),
        Div(a, b) => binary!(a, b, /, /=),
        Neg(a) => -build(a, src, xs),
        Times(a, c) => unary!(a, |f| f * *c),
        Over(a, c) => unary!(a, |f| f / *c),
        Powi(a, k) => unary!(a, |f| f.powi(*k)),
        Powf(a, p) => unary!(a, |f| f.powf(*p)),
        Sin(a) => unary!(a, |f| f.sin()),
        Cos(a) => unary!(a, |f| f.cos()),
        Sum(v) => v.iter().map(|e| build(e, src, xs)).collect::<Vec<_>>().into_iter().sum(),
        Prod(v) => v.iter().map(|e| build(e, src, xs)).collect::<Vec<_>>().into_iter().product(),
    }
}

fn built(src: &mut Src, e: &E, dim: usize) -> AtomicSmoothFn {
    // the setter gets the coordinates; hand the choice source through a cell
    let cell = std::cell::RefCell::new(src);
    AtomicSmoothFnBuilder::new(dim).set(|f, x| *f = build(e, &mut cell.borrow_mut(), &x))
}

fn point(src: &mut Src, dim: usize) -> (Vec<f64>, Matrix<f64>) {
    let p: Vec<f64> = (0..dim)
        .map(|_| match src.below(16) {
            0..=3 => src.int(-2, 2) as f64,
            4 => src.int(-51200, 51200) as f64 / 1024.0,
            _ => src.int(-3072, 3072) as f64 / 1024.0,
        })
        .collect();
    let mut m = Matrix::zero(dim, 1);
    for (i, v) in p.iter().enumerate() {
        m[(i, 0)] = *v;
    }
    (p, m)
}

/// coordinates seeded for derivatives by i and by j
fn seeds(p: &[f64], i: usize, j: usize) -> Vec<J> {
    p.iter().enumerate().map(|(k, &v)| J([N { v, e: 0.0 }, n((k == i) as i64 as f64), n((k == j) as i64 as f64), n(0.0)])).collect()
}

fn close(got: f64, want: N, what: &str) -> Res {
    let tol = 1e4 * want.e + 1e-12 * want.v.abs().max(1e-3);
    ensure!((got - want.v).abs() <= tol, "{what}: got {got}, expected {} (tolerance {tol:e})", want.v);
    Ok(())
}

fn case(src: &mut Src, max_depth: usize) -> (usize, E) {
    if src.chance(1, 60) {
        // many summands or factors, all different
        let dim = src.usize(12, 45);
        let terms: Vec<E> = src
            .perm(dim)
            .into_iter()
            .map(|i| match src.below(6) {
                0 => Powi(b(X(i)), src.int(-2, 3) as i32),
                1 => Sin(b(X(i))),
                2 => Times(b(X(i)), coeff(src)),
                _ => X(i),
            })
            .collect();
        let e = match src.below(5) {
            0 => Sum(terms),
            1 => terms.into_iter().reduce(|x, y| Add(b(x), b(y))).unwrap(),
            2 => terms.into_iter().reduce(|x, y| Mul(b(x), b(y))).unwrap(),
            _ => Prod(terms),
        };
        let e = match src.below(4) {
            0 => Powi(b(e), src.int(-1, 2) as i32),
            1 => Add(b(e), b(X(0))),
            2 => Mul(b(e), b(X(dim - 1))),
            _ => e,
        };
        src.note(|| format!("f = {e}"));
        src.label("many terms");
        return (dim, e);
    }
    let dim = src.size_huge(1, 3, 10, 40);
    let depth = src.size(1, max_depth, max_depth + 2);
    let e = expr(src, dim, depth);
    src.note(|| format!("f = {e}"));
    (dim, e)
}

fn evaluation(src: &mut Src) -> Res {
    let (dim, e) = case(src, 5);
    let f = built(src, &e, dim);
    for _ in 0..2 {
        let (p, m) = point(src, dim);
        let want = eval(&e, &seeds(&p, dim, dim));
        if !want.usable(0) {
            src.label("undefined or ill-conditioned");
            continue;
        }
        src.note(|| format!("at {p:?}: {}", want.0[0].v));
        src.nontrivial_if(ops(&e) >= 4);
        close(f.eval(&m), want.0[0], &format!("value of {f} at {p:?}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- reading back printed functions

/// sum := [num "·" | "-"] product { " + (" num ")·" product };  product := factor { " " factor }
/// factor := atom { "^" num };  atom := 0 | 1 | x[i] | sin(sum) | cos(sum) | (sum)
struct Parser<'a> {
    s: &'a str,
}
impl Parser<'_> {
    fn eat(&mut self, t: &str) -> bool {
        match self.s.strip_prefix(t) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn number(&mut self) -> Option<f64> {
        let body = self.s.strip_prefix('-').unwrap_or(self.s);
        let k = self.s.len() - body.len() + body.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(body.len());
        let v = self.s[..k].parse().ok()?;
        self.s = &self.s[k..];
        Some(v)
    }
    fn sum(&mut self) -> Option<E> {
        let back = self.s;
        let mut out = match self.number() {
            Some(c) if self.eat("·") => Times(b(self.product()?), c),
            _ => {
                self.s = back;
                if self.eat("-") {
                    Neg(b(self.product()?))
                } else {
                    self.product()?
                }
            }
        };
        while self.eat(" + (") {
            let c = self.number()?;
            if !self.eat(")·") {
                return None;
            }
            out = Add(b(out), b(Times(b(self.product()?), c)));
        }
        Some(out)
    }
    fn product(&mut self) -> Option<E> {
        let mut v = vec![];
        self.eat(" ");
        loop {
            v.push(self.factor()?);
            if self.s.starts_with(" +") || !self.eat(" ") {
                return Some(Prod(v));
            }
        }
    }
    fn factor(&mut self) -> Option<E> {
        let mut a = if self.eat("0") {
            Zero
        } else if self.eat("1") {
            One
        } else if self.eat("x[") {
            let i = self.number()? as usize;
            if !self.eat("]") {
                return None;
            }
            X(i)
        } else {
            let sine = self.eat("sin(");
            let cosine = !sine && self.eat("cos(");
            if !sine && !cosine && !self.eat("(") {
                return None;
            }
            let e = self.sum()?;
            if !self.eat(")") {
                return None;
            }
            if sine {
                Sin(b(e))
            } else if cosine {
                Cos(b(e))
            } else {
                e
            }
        };
        while self.eat("^") {
            let p = self.number()?;
            a = if p == p.trunc() { Powi(b(a), p as i32) } else { Powf(b(a), p) };
        }
        Some(a)
    }
}

fn printing(src: &mut Src) -> Res {
    let (dim, e) = case(src, 4);
    let f = built(src, &e, dim);
    let text = f.to_string();
    src.note(|| text.clone());
    let mut ps = Parser { s: &text };
    let Some(back) = ps.sum().filter(|_| ps.s.is_empty()) else {
        return Err(format!("the printed function {text:?} of {f:?} cannot be read"));
    };
    let (p, _) = point(src, dim);
    let (want, got) = (eval(&e, &seeds(&p, dim, dim)), eval(&back, &seeds(&p, dim, dim)));
    if !want.usable(0) || !got.usable(0) {
        src.label("undefined or ill-conditioned");
        return Ok(());
    }
    src.nontrivial_if(ops(&e) >= 4);
    close(got.0[0].v, want.0[0], &format!("value of the printed function {text} at {p:?}"))
}

fn commutativity(src: &mut Src) -> Res {
    let dim = src.size_huge(1, 3, 10, 40);
    let d = src.size(1, 3, 4);
    let (e1, e2) = (expr(src, dim, d), expr(src, dim, d));
    src.note(|| format!("f = {e1}, g = {e2}"));
    src.nontrivial_if(ops(&e1) + ops(&e2) >= 4);
    let (f, g) = (built(src, &e1, dim), built(src, &e2, dim));
    ensure_eq!(f.clone() + g.clone(), g.clone() + f.clone(), "f + g against g + f");
    ensure!(f == f.clone(), "a function differs from its clone");
    let zero: AtomicSmoothFn = alg::commutative::Zero::zero();
    let one: AtomicSmoothFn = alg::commutative::One::one();
    ensure_eq!(zero.clone() * f.clone(), zero, "0 * f");
    ensure_eq!(f.clone() * zero.clone(), zero, "f * 0");
    ensure_eq!(f.clone() * one.clone(), f, "f * 1");
    ensure_eq!(one * f.clone(), f, "1 * f");
    // division without remainder
    let (p, m) = point(src, dim);
    let (v1, v2) = (eval(&e1, &seeds(&p, dim, dim)), eval(&e2, &seeds(&p, dim, dim)));
    let quotient = v1.mul(ipow(v2, -1));
    if quotient.usable(0) && g != zero {
        let (q, r) = alg::commutative::PID::euclid_div(f.clone(), g.clone());
        close(q.eval(&m), quotient.0[0], &format!("quotient of {f} by {g} at {p:?}"))?;
        close(r.eval(&m), n(0.0), &format!("remainder of {f} by {g} at {p:?}"))?;
        let (u, s) = alg::commutative::PID::simplify(f.clone());
        if v1.usable(0) {
            close(u.eval(&m) * s.eval(&m), v1.0[0], &format!("unit times normal form of {f} at {p:?}"))?;
        }
    }
    Ok(())
}

fn first(src: &mut Src) -> Res {
    let (dim, e) = case(src, 4);
    let f = built(src, &e, dim);
    let (p, m) = point(src, dim);
    for i in 0..dim {
        let want = eval(&e, &seeds(&p, i, dim));
        if !want.usable(1) {
            src.label("undefined or ill-conditioned");
            continue;
        }
        let df = f.clone().partial_derivative(i);
        src.note(|| format!("d/dx{i} at {p:?}: {}", want.0[1].v));
        src.nontrivial_if(want.0[1].v != 0.0);
        close(df.eval(&m), want.0[1], &format!("derivative by x{i} at {p:?} of {f}, computed as {df}"))?;
    }
    Ok(())
}

fn second(src: &mut Src) -> Res {
    let (dim, e) = case(src, 3);
    let f = built(src, &e, dim);
    let (p, m) = point(src, dim);
    let (i, j) = (src.usize(0, dim - 1), src.usize(0, dim - 1));
    let want = eval(&e, &seeds(&p, i, j));
    if !want.usable(3) {
        src.label("undefined or ill-conditioned");
        return Ok(());
    }
    src.note(|| format!("d2/dx{i}dx{j} at {p:?}: {}", want.0[3].v));
    src.nontrivial_if(want.0[3].v != 0.0);
    for (i, j) in [(i, j), (j, i)] {
        let df = f.clone().partial_derivative(i).partial_derivative(j);
        close(df.eval(&m), want.0[3], &format!("derivative by x{i} and x{j} at {p:?} of {f}, computed as {df}"))?;
    }
    Ok(())
}

fn vector_fn(src: &mut Src, es: &[E], dim: usize) -> MultiVarFn {
    let cell = std::cell::RefCell::new(src);
    MultiVarFn::new((es.len(), dim)).set(|i, f, x| *f = build(&es[i], &mut cell.borrow_mut(), &x))
}

fn jacobian(src: &mut Src) -> Res {
    let (k, dim) = (src.size_huge(1, 4, 10, 30), src.size_huge(1, 4, 10, 30));
    let es: Vec<E> = (0..k)
        .map(|_| {
            let d = src.usize(0, 3);
            expr(src, dim, d)
        })
        .collect();
    src.note(|| format!("f = [{}]", es.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ")));
    let f = vector_fn(src, &es, dim);
    let lines: String = (0..k).map(|i| format!("f[{i}] = {},\n", f[i])).collect();
    ensure_eq!(f.to_string(), lines, "printed form");
    let (p, m) = point(src, dim);
    let val = f.eval(&m);
    ensure_eq!((val.size().0, val.size().1), (k, 1), "shape of the value");
    let jac = f.clone().jacobian();
    ensure_eq!(jac.size(), (k, dim), "shape of the Jacobian");
    let at = |i: usize, j: usize| jac.row_iter(i).find(|(c, _)| *c == j).map(|(_, g)| g.clone()).unwrap_or(AtomicSmoothFn::Zero);
    // evaluation as a whole needs every entry to be defined
    let whole = jac.eval(&m);
    let mut entries = 0;
    for i in 0..k {
        let v = eval(&es[i], &seeds(&p, dim, dim));
        if v.usable(0) {
            close(val[(i, 0)], v.0[0], &format!("component {i} at {p:?}"))?;
            close(f[i].eval(&m), v.0[0], &format!("component {i} at {p:?}, by index"))?;
        }
        for j in 0..dim {
            let v = eval(&es[i], &seeds(&p, j, dim));
            if !v.usable(1) {
                src.label("entry undefined or ill-conditioned");
                continue;
            }
            entries += (v.0[1].v != 0.0) as usize;
            close(at(i, j).eval(&m), v.0[1], &format!("entry ({i}, {j}) of the Jacobian at {p:?}"))?;
            close(whole.row_iter(i).find(|(c, _)| *c == j).map(|(_, x)| *x).unwrap_or(0.0), v.0[1], &format!("entry ({i}, {j}) of the evaluated Jacobian at {p:?}"))?;
            let row = f[i].clone().jacobian(dim);
            ensure_eq!((row.size().0, row.size().1), (1, dim), "shape of the Jacobian of component {i}");
            close(row[(0, j)].eval(&m), v.0[1], &format!("Jacobian of component {i} at {p:?}"))?;
        }
    }
    src.nontrivial_if(entries >= 2);
    Ok(())
}

fn fn_matrix(src: &mut Src, r: usize, c: usize, dim: usize) -> (Vec<Vec<E>>, Matrix<AtomicSmoothFn>) {
    let es: Vec<Vec<E>> = (0..r)
        .map(|_| {
            (0..c)
                .map(|_| {
                    let d = src.usize(0, 2);
                    expr(src, dim, d)
                })
                .collect()
        })
        .collect();
    let mut m = Matrix::zero(r, c);
    for i in 0..r {
        for j in 0..c {
            m[(i, j)] = built(src, &es[i][j], dim);
        }
    }
    (es, m)
}

fn matrices(src: &mut Src) -> Res {
    let dim = src.usize(1, 3);
    let (r, k, c) = (src.size_huge(1, 3, 7, 24), src.size_huge(1, 3, 7, 24), src.size_huge(1, 3, 7, 24));
    let (ea, a) = fn_matrix(src, r, k, dim);
    let (eb, bm) = fn_matrix(src, k, c, dim);
    let (p, m) = point(src, dim);
    let s = seeds(&p, dim, dim);
    let show = |e: &Vec<Vec<E>>| e.iter().map(|r| r.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join("; ");
    src.note(|| format!("A = [{}], B = [{}] at {p:?}", show(&ea), show(&eb)));
    let va: Vec<Vec<J>> = ea.iter().map(|r| r.iter().map(|e| eval(e, &s)).collect()).collect();
    let vb: Vec<Vec<J>> = eb.iter().map(|r| r.iter().map(|e| eval(e, &s)).collect()).collect();
    let check = |got: &Matrix<f64>, want: &dyn Fn(usize, usize) -> J, r: usize, c: usize, what: &str| -> Res {
        ensure_eq!((got.size().0, got.size().1), (r, c), "shape of {what}");
        for i in 0..r {
            for j in 0..c {
                let w = want(i, j);
                if w.usable(0) {
                    close(got[(i, j)], w.0[0], &format!("entry ({i}, {j}) of {what}"))?;
                }
            }
        }
        Ok(())
    };
    check(&a.eval(&m), &|i, j| va[i][j], r, k, "A")?;
    let mut used = 0;
    for row in &va {
        for x in row {
            used += (x.usable(0) && x.0[0].v != 0.0) as usize;
        }
    }
    src.nontrivial_if(used >= 2);
    let prod: Matrix<AtomicSmoothFn> = &*a * &*bm;
    check(&prod.eval(&m), &|i, j| (0..k).fold(J::con(0.0), |t, l| t.add(va[i][l].mul(vb[l][j]))), r, c, "A * B")?;
    let sum: Matrix<AtomicSmoothFn> = &*a + &*a;
    check(&sum.eval(&m), &|i, j| va[i][j].add(va[i][j]), r, k, "A + A")?;
    // the sparse matrix with the same entries
    let sparse: SparseMatrix<AtomicSmoothFn> = SparseMatrix::from(((r, k), |(i, j): (usize, usize)| if a[(i, j)] == AtomicSmoothFn::Zero { None } else { Some(a[(i, j)].clone()) }));
    let es = sparse.eval(&m);
    ensure_eq!(es.size(), (r, k), "shape of the evaluated sparse matrix");
    for i in 0..r {
        for j in 0..k {
            if va[i][j].usable(0) {
                close(es.row_iter(i).find(|(c, _)| *c == j).map(|(_, x)| *x).unwrap_or(0.0), va[i][j].0[0], &format!("entry ({i}, {j}) of the evaluated sparse matrix"))?;
            }
        }
    }
    Ok(())
}
