//! Numbers, permutations, formal sums.
use crate::engine::*;
use crate::reference::*;
use alg::commutative::{bezout_identity, One, Rational, Zero, PID};
use alg::lin_alg::{Module, Vector};
use alg::non_commutative::permutation::{ConstPermutation, Cycle, Permutation, VecPermutation};
use alg::non_commutative::Group;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A01",
            rule: "expression trees over + - * / neg abs, their assigning forms, sums, products and comparisons on exact fractions with components up to 2^31 (zero, negatives, i64 extremes for construction), and pairs of fractions with components up to 2^62 that share large factors, so that only the reduced cross products fit 64 bits, against i128 fractions; non-trivial = at least two operations involving a non-integer or a zero, resp. a pair whose unreduced cross product leaves 64 bits",
            assumptions: &["the exact result over the least common denominator (order: the cross products after common factors are removed) fits 64 bits"],
            subs: vec![Sub::new("expressions", 40000, 800000, rational_expr), Sub::new("order", 40000, 600000, rational_order), Sub::new("wide", 40000, 400000, rational_wide), Sub::new("construct", 20000, 300000, rational_construct)],
        },
        Prop {
            id: "A02",
            rule: "pairs of integers of six widths and mixed magnitude, plus exhaustive pairs in -24..=24 and all primes below 600 (larger composites with planted prime powers and larger primes at random), against remainder arithmetic on i128; field instances on fractions; non-trivial = both operands non-zero and neither divides the other, or a composite argument",
            assumptions: &["operands whose Bezout coefficients fit the type (magnitude below half of the type's range)"],
            subs: vec![Sub::all("all_pairs", 2401, pairs_all), Sub::new("random_pairs", 240000, 800000, pairs_random), Sub::all("primes", 1200, primes), Sub::new("large_primes", 360, 1500, large_primes), Sub::new("field", 48000, 100000, bezout_field)],
        },
        Prop {
            id: "A09",
            rule: "expressions of formal sums over string and integer bases (sum of many summands, +, -, scalar *, /, neg, add/sub of a basis element) against a coefficient map; non-trivial = a cancellation or a merge of equal basis elements happened",
            assumptions: &["summands are built without repeated basis elements inside one constructor call (repetition is expressed by addition)", "coefficients stay far below 2^63"],
            subs: vec![Sub::new("expressions", 36000, 200000, formal_sums), Sub::new("many_summands", 18000, 100000, formal_many), Sub::new("rational_coeffs", 12000, 50000, formal_rational)],
        },
        Prop {
            id: "A10",
            rule: "abelian groups given by a free rank and a divisor chain with multiplicities (ones included), against an independent printer and isomorphism test; non-trivial = torsion present",
            assumptions: &["torsion coefficients are given in the documented form: distinct divisors in increasing order with multiplicities"],
            subs: vec![Sub::new("groups", 80000, 80000, modules)],
        },
        Prop {
            id: "A11",
            rule: "permutations of up to 70 points given by random disjoint cycles, ranges, block exchanges, products, inverses, powers in -700..700 and decompositions into transpositions, against image arrays; all pairs of permutations of 4 points exhaustively; non-trivial = neither operand the identity",
            assumptions: &["cycles of one constructor call are disjoint (anything else must be rejected by a panic)"],
            subs: vec![Sub::all("all_pairs_s4", 576, perm_all), Sub::new("expressions", 6000, 80000, perm_expr), Sub::new("blocks", 12000, 100000, perm_blocks), Sub::new("powers", 4000, 50000, perm_powers), Sub::new("reject", 3000, 20000, perm_reject)],
        },
        Prop {
            id: "A12",
            rule: "array permutations of fixed and growable length: products across lengths, iterated products, inverses, orders, evaluation, against image arrays; all of S5 exhaustively; non-trivial = a non-identity operand",
            assumptions: &["arrays given to the constructors are bijections"],
            subs: vec![Sub::all("all_s5", 120, array_perm_all), Sub::new("const_perm", 40000, 100000, const_perm), Sub::new("vec_perm", 40000, 100000, vec_perm)],
        },
    ]
}

// ---------------------------------------------------------------- rationals

fn q_of(r: &Rational) -> Q {
    let n = r.get_numerator() as i128;
    let d = r.get_denominator() as i128;
    // the sign is observable through the decimal value
    let f: f64 = (*r).into();
    Q { n: if f < 0.0 { -n } else { n }, d }
}

fn disp(q: Q) -> String {
    if q.d == 1 {
        format!("{}", q.n)
    } else {
        format!("{}/{}", q.n, q.d)
    }
}

fn h(r: &Rational) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    r.hash(&mut s);
    s.finish()
}

/// `r` is the canonical representation of `q`, observed in every way the type offers.
fn canonical(r: Rational, q: Q, what: &str) -> Res {
    ensure_eq!(q_of(&r), q, "{what}: value in lowest terms");
    ensure_eq!(format!("{r}"), disp(q), "{what}: printed form");
    ensure_eq!(format!("{r:?}"), disp(q), "{what}: debug form");
    let f: f64 = r.into();
    let fe = q.n as f64 / q.d as f64;
    ensure!((f - fe).abs() <= 1e-15 * fe.abs(), "{what}: float value {f}, expected {fe}");
    ensure!(f.is_sign_positive() || q.n < 0, "{what}: zero or positive value converts to a negative float");
    let direct = Rational::new(q.n as i64, q.d as i64);
    ensure!(r == direct, "{what}: {r:?} is not equal to the directly built {direct:?}");
    ensure_eq!(h(&r), h(&direct), "{what}: hashes of equal numbers");
    ensure_eq!(r == Rational::zero(), q.n == 0, "{what}: comparison with zero");
    Ok(())
}

fn small_rat(s: &mut Src) -> (i64, i64) {
    let m = *s.pick(&[3i64, 12, 1000, 1 << 20, (1 << 31) - 1]);
    let n = s.int(-m, m);
    let d = match s.below(3) {
        0 => 1,
        1 => s.int(1, m),
        _ => -s.int(1, m),
    };
    // common factors so that reduction matters
    if s.chance(1, 4) {
        let g = s.int(1, 1 << 20);
        if n.abs() <= 1 << 40 && d.abs() <= 1 << 40 {
            return (n * g, d * g);
        }
    }
    (n, d)
}

fn fits(q: Q) -> bool {
    q.n.abs() < 1 << 31 && q.d < 1 << 31
}

fn rational_expr(s: &mut Src) -> Res {
    let mut pool: Vec<(Rational, Q)> = vec![];
    let mut hist = vec![];
    let k = s.usize(1, 4);
    for _ in 0..k {
        let (n, d) = small_rat(s);
        let (r, q) = (Rational::new(n, d), Q::new(n as i128, d as i128));
        hist.push(format!("new {n}/{d}"));
        canonical(r, q, &format!("new({n}, {d})"))?;
        if fits(q) {
            pool.push((r, q));
        }
    }
    pool.push((Rational::zero(), Q::int(0)));
    pool.push((Rational::one(), Q::int(1)));
    let steps = s.usize(1, 14);
    let mut interesting = 0;
    for _ in 0..steps {
        let (a, x) = *s.pick(&pool);
        let (b, y) = *s.pick(&pool);
        let op = s.below(12);
        let assign = s.bool();
        let (r, q, txt) = match op {
            0 | 1 | 2 => {
                let mut r = a;
                if assign { r += b } else { r = a + b }
                (r, x.add(y), "+")
            }
            3 | 4 => {
                let mut r = a;
                if assign { r -= b } else { r = a - b }
                (r, x.sub(y), "-")
            }
            5 | 6 => {
                let mut r = a;
                if assign { r *= b } else { r = a * b }
                (r, x.mul(y), "*")
            }
            7 | 8 => {
                if y.is_zero() {
                    continue;
                }
                let mut r = a;
                if assign { r /= b } else { r = a / b }
                (r, x.div(y), "/")
            }
            9 => (-a, Q { n: -x.n, d: x.d }, "neg"),
            10 => (a.abs(), Q { n: x.n.abs(), d: x.d }, "abs"),
            _ => {
                let n = s.size(0, 3, 24);
                let items: Vec<(Rational, Q)> = (0..n).map(|_| *s.pick(&pool)).collect();
                if assign {
                    let mut q = Q::int(0);
                    for (_, y) in &items {
                        if !fits(q) { break; }
                        q = q.add(*y);
                    }
                    if !fits(q) { continue; }
                    let mut ok = true;
                    let mut acc = Q::int(0);
                    for (_, y) in &items { acc = acc.add(*y); ok &= fits(acc); }
                    if !ok { continue; }
                    (items.iter().map(|t| t.0).sum::<Rational>(), acc, "sum")
                } else {
                    let mut ok = true;
                    let mut acc = Q::int(1);
                    for (_, y) in &items { if !ok { break; } acc = acc.mul(*y); ok &= fits(acc); }
                    if !ok { continue; }
                    (items.iter().map(|t| t.0).product::<Rational>(), acc, "product")
                }
            }
        };
        let what = format!("{} {txt} {}", disp(x), disp(y));
        hist.push(what.clone());
        if x.d != 1 || y.d != 1 || q.n == 0 {
            interesting += 1;
        }
        s.label_if(q.n == 0, "result zero");
        s.label_if(q.n < 0, "result negative");
        canonical(r, q, &what)?;
        if fits(q) {
            pool.push((r, q));
        }
    }
    s.nontrivial_if(interesting >= 2);
    s.note(|| hist.join("; "));
    Ok(())
}

fn rational_order(s: &mut Src) -> Res {
    let mut v: Vec<(Rational, Q)> = vec![];
    let n = s.size(2, 4, 24);
    for _ in 0..n {
        let (mut r, q) = loop {
            let (n, d) = small_rat(s);
            let q = Q::new(n as i128, d as i128);
            if fits(q) {
                break (Rational::new(n, d), q);
            }
        };
        // the same value reached by another route
        if s.chance(1, 3) {
            r = -(-r);
        }
        v.push((r, q));
        if s.chance(1, 4) {
            v.push((-r, Q { n: -q.n, d: q.d }));
        }
        if s.chance(1, 6) {
            v.push((r - r, Q::int(0)));
        }
        if s.chance(1, 6) {
            v.push((-Rational::zero(), Q::int(0)));
        }
    }
    s.note(|| format!("order of {:?}", v.iter().map(|x| disp(x.1)).collect::<Vec<_>>()));
    for (a, x) in &v {
        for (b, y) in &v {
            let w = x.cmp(*y);
            ensure_eq!(a.cmp(b), w, "cmp({}, {})", disp(*x), disp(*y));
            ensure_eq!(a.partial_cmp(b), Some(w), "partial_cmp({}, {})", disp(*x), disp(*y));
            ensure_eq!(a == b, w == Ordering::Equal, "{} == {}", disp(*x), disp(*y));
            ensure_eq!((a < b, a <= b, a > b, a >= b), (w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()), "relations of {} and {}", disp(*x), disp(*y));
            if w == Ordering::Equal {
                ensure_eq!(h(a), h(b), "hash of equal values {}", disp(*x));
            } else {
                s.nontrivial();
            }
        }
    }
    let mut sorted: Vec<Rational> = v.iter().map(|x| x.0).collect();
    sorted.sort();
    let mut want: Vec<Q> = v.iter().map(|x| x.1).collect();
    want.sort_by(|a, b| a.cmp(*b));
    ensure_eq!(sorted.iter().map(q_of).collect::<Vec<_>>(), want, "sorted order");
    Ok(())
}

/// A value of at most `bits` bits, of mixed magnitude.
fn bits(s: &mut Src, bits: u64) -> i128 {
    let b = s.below(bits) + 1;
    1 + s.below(1u64 << b) as i128
}

/// Pairs of fractions whose numerators and whose denominators share large factors. The unreduced
/// cross products leave 64 bits; the sums over the least common denominator and the reduced cross
/// products do not.
fn rational_wide(s: &mut Src) -> Res {
    let (g, h) = (bits(s, 44), bits(s, 44));
    let (a, b) = (bits(s, 18), bits(s, 18));
    let (x, y) = (bits(s, 30), bits(s, 30));
    let lim = 1i128 << 63;
    let (d1, d2) = (g * a, g * b);
    // numerators with the common factor h or, for close fractions, differing by little
    let (n1, n2) = if s.chance(1, 4) {
        let n = bits(s, 40);
        (n * a + s.int(-2, 2) as i128, n * b + s.int(-2, 2) as i128)
    } else {
        (h * x, h * y)
    };
    let sign = |s: &mut Src, n: i128| if s.chance(1, 3) { -n } else { n };
    let (n1, n2) = (sign(s, n1), sign(s, n2));
    if [n1, n2, d1, d2].iter().any(|v| v.abs() >= lim) {
        s.label("beyond the word");
        return Ok(());
    }
    let (p, q) = (Q::new(n1, d1), Q::new(n2, d2));
    let (r, t) = (Rational::new(n1 as i64, d1 as i64), Rational::new(n2 as i64, d2 as i64));
    s.note(|| format!("{n1}/{d1} and {n2}/{d2}"));
    ensure_eq!(q_of(&r), p, "new({n1}, {d1})");
    ensure_eq!(q_of(&t), q, "new({n2}, {d2})");
    let gn = crate::reference::gcd(p.n, q.n).max(1);
    let gd = crate::reference::gcd(p.d, q.d);
    // order
    let (u, v) = ((p.n / gn) * (q.d / gd), (q.n / gn) * (p.d / gd));
    let raw = (p.n * q.d).abs() >= 2 * lim || (q.n * p.d).abs() >= 2 * lim;
    if u.abs() < 2 * lim && v.abs() < 2 * lim {
        s.label_if(u.abs() >= lim || v.abs() >= lim, "cross product uses all 64 bits");
        s.nontrivial_if(raw);
        let w = u.cmp(&v);
        ensure_eq!(r.cmp(&t), w, "cmp({}, {})", disp(p), disp(q));
        ensure_eq!(t.cmp(&r), w.reverse(), "cmp({}, {})", disp(q), disp(p));
        ensure_eq!((r < t, r <= t, r == t), (w.is_lt(), w.is_le(), w.is_eq()), "relations of {} and {}", disp(p), disp(q));
        ensure_eq!((-r).cmp(&-t), w.reverse(), "cmp of the negatives of {} and {}", disp(p), disp(q));
        ensure_eq!((-r).cmp(&t), (-u).cmp(&v), "cmp(-{}, {})", disp(p), disp(q));
    }
    // sums over the least common denominator
    let (u, v, d) = (p.n * (q.d / gd), q.n * (p.d / gd), p.d / gd * q.d);
    if u.abs() + v.abs() < lim && d < lim {
        s.label("sum fits");
        s.nontrivial_if(raw || p.d * q.d >= 2 * lim);
        let (sum, dif) = (Q::new(u + v, d), Q::new(u - v, d));
        let neg = |q: Q| Q { n: -q.n, d: q.d };
        canonical(r + t, sum, &format!("{} + {}", disp(p), disp(q)))?;
        canonical(t + r, sum, &format!("{} + {}", disp(q), disp(p)))?;
        canonical(r - t, dif, &format!("{} - {}", disp(p), disp(q)))?;
        canonical(t - r, neg(dif), &format!("{} - {}", disp(q), disp(p)))?;
        let mut z = r;
        z += t;
        canonical(z, sum, &format!("{} += {}", disp(p), disp(q)))?;
        let mut z = r;
        z -= t;
        canonical(z, dif, &format!("{} -= {}", disp(p), disp(q)))?;
        canonical(vec![r, t].into_iter().sum(), sum, &format!("sum of {} and {}", disp(p), disp(q)))?;
        canonical(-r, neg(p), &format!("-{}", disp(p)))?;
    }
    // products, which the library forms before it reduces them
    if (p.n * q.n).abs() < lim && p.d.checked_mul(q.d).map_or(false, |d| d < lim) {
        s.label("product fits");
        canonical(r * t, p.mul(q), &format!("{} * {}", disp(p), disp(q)))?;
    }
    if (p.n * q.d).abs() < lim && (p.d * q.n).abs() < lim && !q.is_zero() {
        s.label("quotient fits");
        canonical(r / t, p.div(q), &format!("{} / {}", disp(p), disp(q)))?;
    }
    Ok(())
}

fn rational_construct(s: &mut Src) -> Res {
    let big = |s: &mut Src| match s.below(5) {
        0 => *s.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1]),
        1 => s.int(-1, 1),
        2 => 1i64 << s.below(63),
        _ => {
            let m = 1i64 << s.below(62);
            s.int(-m, m)
        }
    };
    let n = big(s);
    let d = big(s);
    s.note(|| format!("new({n}, {d})"));
    s.nontrivial_if(n.unsigned_abs() > 1 && d.unsigned_abs() > 1);
    if d == 0 {
        s.label("zero denominator");
        ensure!(guarded(|| Rational::new(n, d)).is_err(), "a zero denominator was accepted");
        return Ok(());
    }
    let r = Rational::new(n, d);
    let q = Q::new(n as i128, d as i128);
    ensure_eq!(q_of(&r), q, "new({n}, {d})");
    ensure_eq!(format!("{r}"), disp(q), "printed new({n}, {d})");
    ensure!(q_of(&r.abs()).n >= 0, "abs is negative");
    if d == 1 {
        ensure!(Rational::from(n) == r, "from({n})");
    }
    if n != 0 {
        ensure!(guarded(|| r / Rational::zero()).is_err(), "division by zero was accepted");
    }
    Ok(())
}

// ---------------------------------------------------------------- integers

fn check_pair<T>(a: T, b: T, name: &str) -> Res
where
    T: PID + Copy + std::fmt::Debug + Into<i128>,
{
    let (x, y): (i128, i128) = (a.into(), b.into());
    if y != 0 {
        let (q, r) = a.euclid_div(b);
        let (q, r): (i128, i128) = (q.into(), r.into());
        ensure_eq!(q * y + r, x, "{name}: quotient*divisor + remainder of {x} by {y} (got q={q}, r={r})");
        ensure!(0 <= r && r < y.abs(), "{name}: remainder {r} of {x} by {y} is out of 0..|divisor|");
        ensure_eq!(b.divides(a), x % y == 0, "{name}: {y} divides {x}");
    }
    let (u, v) = a.simplify();
    let (u, v): (i128, i128) = (u.into(), v.into());
    ensure!(u.abs() == 1 && v >= 0 && u * v == x, "{name}: simplify({x}) = ({u}, {v}) is not a unit times a non-negative associate");
    let (g, s, t) = bezout_identity(a, b);
    let (g, s, t): (i128, i128, i128) = (g.into(), s.into(), t.into());
    ensure_eq!(g, gcd(x, y), "{name}: gcd of {x} and {y}");
    ensure_eq!(s * x + t * y, g, "{name}: bezout combination for {x}, {y} with coefficients ({s}, {t})");
    Ok(())
}

fn pairs_all(s: &mut Src) -> Res {
    let i = s.below(2401) as i64;
    let (a, b) = (i / 49 - 24, i % 49 - 24);
    s.note(|| format!("({a}, {b})"));
    s.nontrivial_if(a != 0 && b != 0 && a % b != 0 && b % a != 0);
    check_pair(a as i8, b as i8, "i8")?;
    check_pair(a as i16, b as i16, "i16")?;
    check_pair(a as i32, b as i32, "i32")?;
    check_pair(a, b, "i64")?;
    check_pair(a as i128, b as i128, "i128")
}

fn pairs_random(s: &mut Src) -> Res {
    let bits = s.usize(2, 62) as u32;
    let m = (1i64 << bits) - 1;
    let bits2 = s.usize(1, 62) as u32;
    let m2 = (1i64 << bits2) - 1;
    let mut a = s.int(-m, m);
    let mut b = s.int(-m2, m2);
    if s.chance(1, 3) {
        let g = s.int(1, 1 << 12);
        if a.abs() < 1 << 49 && b.abs() < 1 << 49 {
            a *= g;
            b *= g;
            s.label("planted common factor");
        }
    }
    if s.bool() {
        std::mem::swap(&mut a, &mut b);
    }
    s.nontrivial_if(a != 0 && b != 0 && a % b != 0 && b % a != 0);
    s.note(|| format!("({a}, {b})"));
    let mx = a.abs().max(b.abs());
    if mx < 1 << 6 {
        check_pair(a as i8, b as i8, "i8")?;
    }
    if mx < 1 << 14 {
        check_pair(a as i16, b as i16, "i16")?;
    }
    if mx < 1 << 30 {
        check_pair(a as i32, b as i32, "i32")?;
    }
    check_pair(a, b, "i64")?;
    check_pair(a as i128 * 3, b as i128 * 3, "i128")
}

fn primes(s: &mut Src) -> Res {
    let n = s.below(1200) as i64 - 600;
    s.note(|| format!("{n}"));
    let is = |n: i64| n > 1 && (2..n).take_while(|k| k * k <= n).all(|k| n % k != 0);
    s.nontrivial_if(n > 1 && !is(n));
    if n >= 0 {
        ensure_eq!(n.is_prime(), is(n), "i64: {n} is prime");
        ensure_eq!((n as i32).is_prime(), is(n), "i32: {n} is prime");
        if n < 128 {
            ensure_eq!((n as i8).is_prime(), is(n), "i8: {n} is prime");
        }
    } else {
        // primality up to units is a convention; the units are not prime in any
        ensure!(!(-1i64).is_prime(), "-1 is a unit, not a prime");
    }
    if n > 0 {
        let mut c = 0;
        let mut m = n;
        let mut p = 2;
        while m > 1 {
            while m % p == 0 {
                m /= p;
                c += 1;
            }
            p += 1;
        }
        ensure_eq!(n.n_prime_factors(), c, "number of prime factors of {n} with multiplicity");
    }
    Ok(())
}

/// beyond the exhaustive range: composites with prescribed factors, prime powers, primes
fn large_primes(s: &mut Src) -> Res {
    let is = |n: i64| n > 1 && (2..n).take_while(|k| k * k <= n).all(|k| n % k != 0);
    let mut n = 1i64;
    let mut c = 0;
    let lim = *s.pick(&[700i64, 2500, 6000]);
    while n * 2 <= lim && (n == 1 || s.chance(3, 4)) {
        let top = lim / n;
        let mut p = match s.below(3) {
            0 => 2,
            1 => s.int(2, top.min(13).max(2)),
            _ => s.int(2, top),
        };
        while !is(p) {
            p -= 1;
        }
        n *= p;
        c += 1;
        if s.chance(1, 3) && n * p <= lim {
            n *= p;
            c += 1;
        }
    }
    s.note(|| format!("{n} with {c} prime factors"));
    s.nontrivial_if(c > 1);
    ensure_eq!(n.n_prime_factors(), c, "number of prime factors of {n} with multiplicity");
    ensure_eq!((n as i32).n_prime_factors(), c, "i32: number of prime factors of {n} with multiplicity");
    let m = if s.bool() {
        s.int(600, 1 << 20)
    } else {
        // squares and products of neighbouring primes
        let mut p = s.int(30, 1000);
        while !is(p) {
            p -= 1;
        }
        let mut q = p + s.int(0, 6);
        while !is(q) {
            q += 1;
        }
        p * q
    };
    ensure_eq!(m.is_prime(), is(m), "i64: {m} is prime");
    ensure_eq!((m as i128).is_prime(), is(m), "i128: {m} is prime");
    if m < 1 << 15 {
        ensure_eq!((m as i16).is_prime(), is(m), "i16: {m} is prime");
    }
    Ok(())
}

fn bezout_field(s: &mut Src) -> Res {
    let mk = |s: &mut Src| Rational::new(s.int(-9, 9), s.int(1, 9));
    let (a, b) = (mk(s), mk(s));
    s.note(|| format!("{a}, {b}"));
    s.nontrivial_if(a != Rational::zero() && b != Rational::zero());
    let (g, x, y) = bezout_identity(a, b);
    ensure!(a * x + b * y == g, "field bezout: {a}*{x} + {b}*{y} is not {g}");
    ensure_eq!(g == Rational::zero(), a == Rational::zero() && b == Rational::zero(), "field gcd of {a}, {b} is zero iff both are");
    if b != Rational::zero() {
        let (q, r) = a.euclid_div(b);
        ensure!(r == Rational::zero() && q * b == a, "division in a field leaves a remainder");
        ensure!(b.divides(a), "in a field {b} divides {a}");
    }
    Ok(())
}

// ---------------------------------------------------------------- formal sums

type Map<B> = BTreeMap<B, i128>;

fn read<B: Clone + PartialOrd + Ord + std::fmt::Debug>(v: &Vector<i64, B>, what: &str) -> Result<Map<B>, String> {
    let mut m = BTreeMap::new();
    let mut last: Option<B> = None;
    ensure_eq!(v.len(), v.iter().count(), "{what}: len");
    for (c, b) in v.iter() {
        if let Some(l) = &last {
            ensure!(l < b, "{what}: basis elements out of order or repeated: {l:?} before {b:?}");
        }
        ensure!(*c != 0, "{what}: zero coefficient kept for {b:?}");
        m.insert(b.clone(), *c as i128);
        last = Some(b.clone());
        ensure_eq!(v[b], *c, "{what}: coefficient lookup of {b:?}");
    }
    Ok(m)
}

fn clean<B: Ord>(m: Map<B>) -> Map<B> {
    m.into_iter().filter(|x| x.1 != 0).collect()
}

fn combine<B: Ord + Clone>(a: &Map<B>, b: &Map<B>, k: i128) -> Map<B> {
    let mut m = a.clone();
    for (x, c) in b {
        *m.entry(x.clone()).or_insert(0) += k * c;
    }
    clean(m)
}

fn text(m: &Map<String>) -> String {
    let mut it = m.iter();
    let Some((b, c)) = it.next() else { return "0".into() };
    let mut o = match c {
        1 => b.clone(),
        -1 => format!("-{b}"),
        c => format!("{c}·{b}"),
    };
    for (b, c) in it {
        o += &format!(" + ({c})·{b}");
    }
    o
}

fn basis_set(s: &mut Src, alphabet: usize) -> Vec<String> {
    let n = s.usize(0, if alphabet > 9 { alphabet } else { alphabet.min(6) });
    let p = s.perm(alphabet);
    p[..n].iter().map(|i| format!("e{i:02}")).collect()
}

fn build(s: &mut Src, alphabet: usize) -> (Vector<i64, String>, Map<String>) {
    let mut b = basis_set(s, alphabet);
    if b.is_empty() {
        if s.bool() {
            return (Vector::zero(), Map::new());
        }
        b.push("e00".into());
    }
    let m: Map<String> = b.iter().map(|x| (x.clone(), 1)).collect();
    let v = match s.below(4) {
        0 => Vector::from(b),
        1 => b.into_iter().collect(),
        2 if b.len() == 3 => Vector::from([b[0].clone(), b[1].clone(), b[2].clone()]),
        _ => {
            let mut v: Vector<i64, String> = Vector::zero();
            for x in b {
                v = v + x;
            }
            v
        }
    };
    (v, m)
}

fn formal_sums(s: &mut Src) -> Res {
    let alphabet = s.size(1, 9, 70);
    let mut pool: Vec<(Vector<i64, String>, Map<String>)> = vec![];
    let mut hist = vec![];
    for _ in 0..s.usize(1, 4) {
        let (v, m) = build(s, alphabet);
        ensure_eq!(read(&v, "constructor")?, m, "constructor");
        hist.push(text(&m));
        pool.push((v, m));
    }
    for _ in 0..s.usize(1, 10) {
        let i = s.usize(0, pool.len() - 1);
        let j = s.usize(0, pool.len() - 1);
        let (a, x) = pool[i].clone();
        let (b, y) = pool[j].clone();
        if x.values().chain(y.values()).any(|c| c.abs() > 1 << 40) {
            continue;
        }
        let shared = x.keys().any(|k| y.contains_key(k));
        let (v, m, what) = match s.below(7) {
            0 | 1 => {
                s.nontrivial_if(shared);
                (a + b, combine(&x, &y, 1), format!("#{i} + #{j}"))
            }
            2 | 3 => {
                s.nontrivial_if(shared);
                (a - b, combine(&x, &y, -1), format!("#{i} - #{j}"))
            }
            4 => {
                let k = s.int_mixed(50);
                s.label_if(k == 0, "times zero");
                (a * k, clean(x.iter().map(|(b, c)| (b.clone(), c * k as i128)).collect()), format!("#{i} * {k}"))
            }
            5 => (-a, x.iter().map(|(b, c)| (b.clone(), -c)).collect(), format!("-#{i}")),
            _ => {
                let e = format!("e{:02}", s.usize(0, alphabet - 1));
                let one: Map<String> = [(e.clone(), 1)].into();
                s.nontrivial_if(x.contains_key(&e));
                if s.bool() {
                    (a + e.clone(), combine(&x, &one, 1), format!("#{i} + {e}"))
                } else {
                    (a - e.clone(), combine(&x, &one, -1), format!("#{i} - {e}"))
                }
            }
        };
        hist.push(what.clone());
        s.label_if(m.is_empty(), "cancelled to zero");
        ensure_eq!(read(&v, &what)?, m, "{}", hist.join("; "));
        ensure_eq!(v.to_string(), text(&m), "printed {}", hist.join("; "));
        ensure_eq!(v == Vector::zero(), m.is_empty(), "equality with zero after {}", hist.join("; "));
        ensure_eq!(v == pool[i].0, m == pool[i].1, "equality with an operand after {}", hist.join("; "));
        pool.push((v, m));
    }
    s.note(|| hist.join("; "));
    Ok(())
}

fn formal_many(s: &mut Src) -> Res {
    let alphabet = s.size(1, 12, 80);
    let n = s.size(0, 9, 40);
    let mut vs = vec![];
    let mut total: Map<u32> = Map::new();
    let mut desc = vec![];
    for _ in 0..n {
        let mut v: Vector<i64, u32> = Vector::zero();
        let mut mine: Map<u32> = Map::new();
        for i in s.subset(alphabet, 1, 2) {
            let c = s.int(-3, 3);
            let t: Vector<i64, u32> = Vector::from(i as u32) * c;
            v = v + t;
            if c != 0 {
                mine.insert(i as u32, c as i128);
            }
        }
        ensure_eq!(read(&v, "summand")?, mine, "summand");
        desc.push(format!("{mine:?}"));
        if total.keys().any(|k| mine.contains_key(k)) {
            s.nontrivial();
        }
        total = combine(&total, &mine, 1);
        vs.push(v);
    }
    s.note(|| format!("sum of {}", desc.join(" , ")));
    // the sum is independent of order and of grouping
    let v: Vector<i64, u32> = vs.iter().cloned().sum();
    ensure_eq!(read(&v, "sum")?, total, "sum of {desc:?}");
    let p = s.perm(n);
    let w: Vector<i64, u32> = p.iter().map(|&i| vs[i].clone()).sum();
    ensure!(v == w, "the sum depends on the order of {desc:?}: {:?} vs {:?}", v, w);
    let f = vs.iter().cloned().fold(Vector::zero(), |a, b| a + b);
    ensure!(v == f, "the sum of {desc:?} differs from the left fold: {:?} vs {:?}", v, f);
    let mut x = v.clone();
    if x.len() > 0 {
        let k = s.usize(0, x.len() - 1);
        let (c, b) = x.remove(k);
        ensure_eq!(total.get(&b).copied(), Some(c as i128), "removed term");
        total.remove(&b);
        ensure_eq!(read(&x, "after removal")?, total, "after removal");
    }
    Ok(())
}

fn formal_rational(s: &mut Src) -> Res {
    let n = s.size(1, 5, 40);
    let mut v: Vector<Rational, i64> = Vector::zero();
    let mut m: BTreeMap<i64, Q> = BTreeMap::new();
    for _ in 0..n {
        let b = s.int(0, if n > 5 { 20 } else { 4 });
        let c = (s.int(-6, 6), s.int(1, 6));
        if c.0 == 0 {
            continue;
        }
        s.nontrivial_if(m.contains_key(&b));
        let t: Vector<Rational, i64> = Vector::from(b);
        v = v + t * Rational::new(c.0, c.1);
        let e = m.entry(b).or_insert(Q::int(0));
        *e = e.add(Q::new(c.0 as i128, c.1 as i128));
    }
    let d = (s.int(1, 5) * if s.bool() { -1 } else { 1 }, s.int(1, 5));
    v = v / Rational::new(d.0, d.1);
    let want: Vec<(i64, Q)> = m.into_iter().filter(|x| !x.1.is_zero()).map(|(b, q)| (b, q.div(Q::new(d.0 as i128, d.1 as i128)))).collect();
    let got: Vec<(i64, Q)> = v.iter().map(|(c, b)| (*b, q_of(c))).collect();
    s.note(|| format!("{want:?}"));
    ensure_eq!(got, want, "rational formal sum");
    ensure!(guarded(|| v.clone() / Rational::zero()).is_err(), "division of a vector by zero accepted");
    Ok(())
}

fn modules(s: &mut Src) -> Res {
    let mk = |s: &mut Src| {
        let free = s.size(0, 4, 16);
        let mut d = 1i64;
        let mut v: Vec<(i64, usize)> = vec![];
        if s.chance(1, 3) {
            v.push((1, s.size(1, 3, 20)));
        }
        for _ in 0..s.size(0, 3, 12) {
            d *= s.int(2, 5);
            v.push((d, s.size(1, 3, 20)));
        }
        (free, v)
    };
    let (fa, a) = mk(s);
    let (fb, b) = if s.chance(1, 3) {
        // differ only by unit factors
        let mut b = a.clone();
        b.retain(|x| x.0 != 1);
        if s.bool() {
            b.insert(0, (1, s.usize(1, 4)));
        }
        (fa, b)
    } else {
        mk(s)
    };
    let expand = |v: &[(i64, usize)]| -> Vec<i128> { v.iter().flat_map(|&(d, n)| std::iter::repeat(d as i128).take(n)).filter(|&d| d != 1).collect() };
    let (ea, eb) = (expand(&a), expand(&b));
    s.nontrivial_if(!ea.is_empty());
    s.note(|| format!("rank {fa} {a:?} vs rank {fb} {b:?}"));
    let m = Module::<i64>::new(fa, a.clone());
    ensure_eq!(m.to_string(), abelian_text("Z", fa, &ea), "printed module");
    ensure_eq!(m.is_zero(), fa == 0 && ea.is_empty(), "is_zero");
    let q = Module::<Rational>::new(fa, vec![]);
    ensure_eq!(q.to_string(), abelian_text("Q", fa, &[]), "printed vector space");
    ensure!(Module::<i64>::trivial().is_zero() && Module::<i64>::trivial().to_string() == "0", "the trivial module is not zero");
    let n = Module::<i64>::new(fb, b);
    s.label_if(fa == fb && ea == eb, "isomorphic pair");
    ensure_eq!(m.is_isomorphic_to(n), fa == fb && ea == eb, "isomorphism of {fa} {ea:?} and {fb} {eb:?}");
    Ok(())
}

// ---------------------------------------------------------------- permutations

type Img = Vec<usize>;

fn img_of(p: &Permutation, n: usize) -> Img {
    (0..n).map(|i| p.map(i)).collect()
}
fn compose(a: &Img, b: &Img) -> Img {
    b.iter().map(|&i| a[i]).collect()
}
fn invert(a: &Img) -> Img {
    let mut o = vec![0; a.len()];
    for (i, &x) in a.iter().enumerate() {
        o[x] = i;
    }
    o
}
fn cycles_of(a: &Img) -> Vec<Vec<usize>> {
    let mut seen = vec![false; a.len()];
    let mut out = vec![];
    for i in 0..a.len() {
        if seen[i] || a[i] == i {
            continue;
        }
        let mut c = vec![];
        let mut j = i;
        while !seen[j] {
            seen[j] = true;
            c.push(j);
            j = a[j];
        }
        out.push(c);
    }
    out
}
fn perm_text(a: &Img) -> String {
    let c = cycles_of(a);
    if c.is_empty() {
        return "(1)".into();
    }
    c.iter().map(|c| format!("({})", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))).collect()
}

/// build a Permutation from an image array: disjoint cycles, each rotated and all
/// shuffled, possibly with trivial cycles thrown in
fn build_perm(s: &mut Src, a: &Img) -> Permutation {
    let mut cs = cycles_of(a);
    for c in cs.iter_mut() {
        let k = s.usize(0, c.len() - 1);
        c.rotate_left(k);
    }
    let order = s.perm(cs.len());
    let mut v: Vec<Cycle> = order.iter().map(|&i| Cycle::from(cs[i].clone())).collect();
    if s.chance(1, 4) {
        if let Some(f) = (0..a.len()).find(|&i| a[i] == i) {
            let at = s.usize(0, v.len());
            v.insert(at, Cycle::from(vec![f]));
        }
    }
    Permutation::from_disjoint_cycles(v)
}

fn same_perm(p: &Permutation, a: &Img, what: &str) -> Res {
    ensure_eq!(img_of(p, a.len() + 3), a.iter().copied().chain(a.len()..a.len() + 3).collect::<Vec<_>>(), "{what}: images");
    ensure_eq!(p.to_string(), perm_text(a), "{what}: canonical cycle notation");
    let mut u: Vec<usize> = p.unfixed_indeces_iter().collect();
    u.sort();
    ensure_eq!(u, (0..a.len()).filter(|&i| a[i] != i).collect::<Vec<_>>(), "{what}: moved points");
    ensure_eq!(*p == Permutation::identity(), a.iter().enumerate().all(|(i, &x)| i == x), "{what}: equality with the identity");
    let canon = Permutation::from_disjoint_cycles(cycles_of(a).into_iter().map(Cycle::from).collect());
    ensure!(*p == canon, "{what}: {p} is not equal to the same permutation built from its cycles ({canon})");
    Ok(())
}

fn act(a: &Img) -> Vec<usize> {
    // the entry at position i moves to position a(i)
    let mut o = vec![0; a.len()];
    for (i, &x) in a.iter().enumerate() {
        o[x] = i;
    }
    o
}

fn full_check(s: &mut Src, p: Permutation, a: &Img, what: &str) -> Res {
    same_perm(&p, a, what)?;
    same_perm(&p.clone().inverse(), &invert(a), &format!("inverse of {what}"))?;
    let gens = p.clone().in_terms_of_gens();
    let prod: Permutation = gens.iter().cloned().product();
    ensure!(prod == p, "{what}: the product of the generators {} is {prod}", gens.iter().map(|g| g.to_string()).collect::<Vec<_>>().join(" "));
    for g in &gens {
        ensure!(g.unfixed_indeces_iter().count() <= 2, "{what}: generator {g} is not a transposition");
    }
    let n = a.len() + s.usize(0, 2);
    if n > 0 {
        let full: Img = a.iter().copied().chain(a.len()..n).collect();
        let mut v: Vec<usize> = (0..n).collect();
        if s.bool() {
            v <<= p.clone();
        } else {
            v = v << p.clone();
        }
        ensure_eq!(v, act(&full), "{what}: action on a list");
    }
    Ok(())
}

fn nth_perm(mut k: usize, n: usize) -> Img {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        let f: usize = (1..i).product();
        out.push(pool.remove(k / f));
        k %= f;
    }
    out
}

fn perm_all(s: &mut Src) -> Res {
    let i = s.below(576) as usize;
    let (a, b) = (nth_perm(i / 24, 4), nth_perm(i % 24, 4));
    s.note(|| format!("{a:?} {b:?}"));
    s.nontrivial_if(i / 24 != 0 && i % 24 != 0);
    let (p, q) = (build_perm(s, &a), build_perm(s, &b));
    full_check(s, p.clone(), &a, "p")?;
    full_check(s, p.clone() * q.clone(), &compose(&a, &b), "p*q")?;
    ensure_eq!(p == q, a == b, "equality of {p} and {q}");
    Ok(())
}

fn rand_perm(s: &mut Src, n: usize) -> Img {
    match s.below(4) {
        0 => {
            // sparse: a few points moved
            let mut a: Img = (0..n).collect();
            for _ in 0..s.usize(0, 3) {
                if n > 1 {
                    let (i, j) = (s.usize(0, n - 1), s.usize(0, n - 1));
                    a.swap(i, j);
                }
            }
            a
        }
        _ => s.perm(n),
    }
}

fn perm_expr(s: &mut Src) -> Res {
    let n = *s.pick(&[1usize, 2, 3, 3, 5, 5, 7, 7, 10, 10, 13, 20, 40]);
    let n = if s.chance(1, 300) { 70 } else { n };
    let mut pool: Vec<(Permutation, Img)> = vec![];
    for _ in 0..s.usize(1, 3) {
        let a = rand_perm(s, n);
        pool.push((build_perm(s, &a), a));
    }
    let (st, en) = {
        let a = s.usize(0, n - 1);
        (a, s.usize(a, n))
    };
    let mut cyc: Img = (0..n).collect();
    for i in st..en {
        cyc[i] = if i + 1 < en { i + 1 } else { st };
    }
    pool.push((Permutation::cyclic_from(st..en), cyc));
    if let Some(c) = cycles_of(&pool[0].1).first().cloned() {
        let mut a: Img = (0..n).collect();
        for k in 0..c.len() {
            a[c[k]] = c[(k + 1) % c.len()];
        }
        pool.push((Permutation::from_cycle(Cycle::from(c)), a));
    }
    pool.push((Permutation::identity(), (0..n).collect()));
    let mut hist = vec![];
    for (p, a) in pool.clone() {
        full_check(s, p, &a, "constructor")?;
    }
    for _ in 0..s.usize(1, 4) {
        let i = s.usize(0, pool.len() - 1);
        let j = s.usize(0, pool.len() - 1);
        let ((p, a), (q, b)) = (pool[i].clone(), pool[j].clone());
        s.nontrivial_if(!cycles_of(&a).is_empty() && !cycles_of(&b).is_empty());
        let (r, c, w) = match s.below(3) {
            0 => (p.inverse(), invert(&a), format!("inverse #{i}")),
            1 => (p * q, compose(&a, &b), format!("#{i} * #{j}")),
            // a product over an iterator applies its first item first
            _ => {
                let k = s.usize(0, pool.len() - 1);
                let (r, c) = pool[k].clone();
                (vec![p, q, r].into_iter().product(), compose(&c, &compose(&b, &a)), format!("product #{i},#{j},#{k}"))
            }
        };
        hist.push(w.clone());
        full_check(s, r.clone(), &c, &w)?;
        pool.push((r, c));
    }
    s.note(|| format!("on {n} points, {:?}: {hist:?}", pool.iter().map(|x| perm_text(&x.1)).collect::<Vec<_>>()));
    Ok(())
}

fn perm_blocks(s: &mut Src) -> Res {
    let a = s.size(0, 4, 16);
    let b = a + s.size(0, 6, 24);
    let c = b + s.size(0, 4, 16);
    let d = c + s.size(0, 6, 24);
    let rev = s.bool();
    let n = d + 2;
    let img: Img = if a == b || c == d {
        s.label("empty block");
        (0..n).collect()
    } else {
        // new order: second block, middle, first block
        let order: Vec<usize> = (0..a).chain(c..d).chain(b..c).chain(a..b).chain(d..n).collect();
        invert(&order)
    };
    s.label_if(b == c, "adjacent blocks");
    s.label_if(rev, "second block first");
    s.nontrivial_if(a < b && c < d && (b - a) != (d - c));
    s.note(|| format!("exchange {a}..{b} and {c}..{d}, reversed arguments: {rev}"));
    let p = if rev { Permutation::swap(c..d, a..b) } else { Permutation::swap(a..b, c..d) };
    full_check(s, p, &img, &format!("exchange of blocks {a}..{b} and {c}..{d} (reversed: {rev})"))
}

fn perm_powers(s: &mut Src) -> Res {
    let n = *s.pick(&[1usize, 3, 5, 5, 8, 8, 12, 12, 40]);
    let a = rand_perm(s, n);
    let k = if s.chance(1, 8) { s.int(-700, 700) } else { s.int(-8, 8) };
    let p = build_perm(s, &a);
    s.nontrivial_if(!cycles_of(&a).is_empty() && k.abs() > 1);
    s.label_if(k < 0, "negative power");
    s.note(|| format!("{} ^ {k}", perm_text(&a)));
    let base = if k < 0 { invert(&a) } else { a.clone() };
    let mut w: Img = (0..n).collect();
    for _ in 0..k.abs() {
        w = compose(&base, &w);
    }
    same_perm(&(p ^ k), &w, &format!("{} ^ {k}", perm_text(&a)))
}

fn perm_reject(s: &mut Src) -> Res {
    // overlapping cycles or repeated entries must be rejected
    let n = s.size(2, 6, 30);
    let mut c: Vec<usize> = s.perm(n);
    if s.bool() {
        let i = s.usize(0, n - 1);
        let at = s.usize(0, n);
        let x = c[i];
        c.insert(at, x);
        s.nontrivial();
        s.note(|| format!("repeated entry {c:?}"));
        ensure!(guarded(|| Cycle::from(c.clone())).is_err(), "a cycle with a repeated entry was accepted: {c:?}");
    } else {
        let shared = *s.pick(&c);
        let mut d = vec![shared];
        d.extend((100..100 + s.usize(1, 3)).collect::<Vec<_>>());
        let p = s.perm(d.len());
        let d: Vec<usize> = p.iter().map(|&i| d[i]).collect();
        s.nontrivial();
        s.note(|| format!("overlapping cycles {c:?} {d:?}"));
        ensure!(guarded(|| Permutation::from_disjoint_cycles(vec![Cycle::from(c.clone()), Cycle::from(d.clone())])).is_err(), "overlapping cycles accepted: {c:?} {d:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- array permutations

fn order_of(a: &Img) -> usize {
    cycles_of(a).iter().map(|c| c.len()).fold(1, |l, n| l / gcd(l as i128, n as i128) as usize * n)
}

fn arr<const N: usize>(a: &Img) -> [usize; N] {
    let mut o = [0; N];
    o.copy_from_slice(a);
    o
}

fn const_check<const N: usize>(s: &mut Src, a: &Img, b: &Img) -> Res {
    let (p, q) = (ConstPermutation::<N>::from(arr(a)), ConstPermutation::<N>::from(arr(b)));
    let want = ConstPermutation::<N>::from(arr(&compose(a, b)));
    ensure!(p * q == want, "{a:?} * {b:?}: got {:?}", p * q);
    let mut r = p;
    r *= q;
    ensure!(r == want, "{a:?} *= {b:?}: got {r:?}");
    ensure!(p.inverse() == ConstPermutation::from(arr(&invert(a))), "inverse of {a:?}: got {:?}", p.inverse());
    ensure_eq!(p.order(), order_of(a), "order of {a:?}");
    ensure!(p.inverse_of_gen() == p.inverse(), "inverse of {a:?} as a generator");
    vec_same(&VecPermutation::from(p), a, &format!("{a:?} converted to growable length"))?;
    let id = ConstPermutation::<N>::identity();
    ensure!(id == ConstPermutation::from(arr(&(0..N).collect())), "identity");
    // the first item of an iterated product is applied first
    let prod: ConstPermutation<N> = vec![p, q, q, p, p].into_iter().product();
    ensure!(prod == ConstPermutation::from(arr(&compose(a, &compose(a, &compose(b, &compose(b, a)))))), "product over an iterator of {a:?}, {b:?}, {b:?}, {a:?}, {a:?}: {prod:?}");
    let prod: ConstPermutation<N> = vec![p, q].into_iter().product();
    ensure!(prod == ConstPermutation::from(arr(&compose(b, a))), "product over an iterator of {a:?}, {b:?}: {prod:?}");
    ensure!(Vec::<ConstPermutation<N>>::new().into_iter().product::<ConstPermutation<N>>() == id, "empty product");
    vec_check(s, a, b)
}

fn as_vec(a: &Img) -> VecPermutation {
    macro_rules! go { ($($n:literal)*) => { match a.len() { $($n => VecPermutation::from(arr::<$n>(a)),)* _ => unreachable!("harness") } } }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 16 17 20 33 64 65)
}

fn vec_same(p: &VecPermutation, a: &Img, what: &str) -> Res {
    for i in 0..a.len() + 3 {
        ensure_eq!(p.eval(i), *a.get(i).unwrap_or(&i), "{what}: image of {i}");
    }
    Ok(())
}

fn vec_check(_s: &mut Src, a: &Img, b: &Img) -> Res {
    let (p, q) = (as_vec(a), as_vec(b));
    vec_same(&p, a, "constructor")?;
    let n = a.len().max(b.len());
    let (fa, fb): (Img, Img) = (a.iter().copied().chain(a.len()..n).collect(), b.iter().copied().chain(b.len()..n).collect());
    vec_same(&(p.clone() * q.clone()), &compose(&fa, &fb), &format!("{a:?} * {b:?}"))?;
    let mut r = p.clone();
    r *= q.clone();
    vec_same(&r, &compose(&fa, &fb), &format!("{a:?} *= {b:?}"))?;
    vec_same(&p.clone().inverse(), &invert(a), &format!("inverse of {a:?}"))?;
    vec_same(&p.clone().inverse_of_gen(), &invert(a), &format!("inverse of {a:?} as a generator"))?;
    vec_same(&(p.clone() * p.clone().inverse()), &(0..n).collect(), &format!("{a:?} times its inverse"))?;
    vec_same(&vec![p.clone(), q.clone()].into_iter().product(), &compose(&fb, &fa), &format!("product over an iterator {a:?} {b:?}"))?;
    vec_same(&vec![q.clone(), p.clone(), p.clone(), q.clone(), q.clone()].into_iter().product(), &compose(&fb, &compose(&fb, &compose(&fa, &compose(&fa, &fb)))), &format!("product over an iterator {b:?} {a:?} {a:?} {b:?} {b:?}"))?;
    ensure_eq!(p.clone().order(), order_of(a), "order of {a:?}");
    vec_same(&VecPermutation::identity(), &vec![], "identity")
}

fn array_perm_all(s: &mut Src) -> Res {
    let a = nth_perm(s.below(120) as usize, 5);
    let b = rand_perm(s, 5);
    s.note(|| format!("{a:?}"));
    s.nontrivial_if(!cycles_of(&a).is_empty());
    const_check::<5>(s, &a, &b)
}

fn const_perm(s: &mut Src) -> Res {
    let n = if s.chance(1, 20) { *s.pick(&[16, 17, 20, 33, 64, 65]) } else { s.usize(1, 12) };
    let (a, b) = (rand_perm(s, n), rand_perm(s, n));
    s.nontrivial_if(!cycles_of(&a).is_empty() && !cycles_of(&b).is_empty());
    s.note(|| format!("{a:?} {b:?}"));
    macro_rules! go { ($($n:literal)*) => { match n { $($n => const_check::<$n>(s, &a, &b),)* _ => Ok(()) } } }
    go!(1 2 3 4 5 6 7 8 9 10 11 12 16 17 20 33 64 65)
}

fn vec_perm(s: &mut Src) -> Res {
    let mut side = || if s.chance(1, 20) { *s.pick(&[16, 17, 20, 33, 64, 65]) } else { s.usize(0, 12) };
    let (n, m) = (side(), side());
    let (a, b) = (rand_perm(s, n), rand_perm(s, m));
    s.label_if(n != m, "different lengths");
    s.nontrivial_if(!cycles_of(&a).is_empty() && !cycles_of(&b).is_empty());
    s.note(|| format!("{a:?} {b:?}"));
    vec_check(s, &a, &b)
}
