//! Slow, obviously-correct reference arithmetic. Nothing here uses the code under test.
#![allow(dead_code)]

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// Exact rationals over i128; `None` from a checked operation means out of range.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    pub fn add(self, o: Q) -> Q {
        Q::new(self.n * o.d + o.n * self.d, self.d * o.d)
    }
    pub fn sub(self, o: Q) -> Q {
        Q::new(self.n * o.d - o.n * self.d, self.d * o.d)
    }
    pub fn mul(self, o: Q) -> Q {
        Q::new(self.n * o.n, self.d * o.d)
    }
    pub fn div(self, o: Q) -> Q {
        Q::new(self.n * o.d, self.d * o.n)
    }
    pub fn cmp(self, o: Q) -> std::cmp::Ordering {
        (self.n * o.d).cmp(&(o.n * self.d))
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
}

pub type Mx<T> = Vec<Vec<T>>;

pub fn mul_i(a: &Mx<i128>, b: &Mx<i128>) -> Mx<i128> {
    let m = b.first().map(|r| r.len()).unwrap_or(0);
    a.iter().map(|r| (0..m).map(|j| r.iter().zip(b).map(|(x, br)| x * br[j]).sum()).collect()).collect()
}

pub fn transpose<T: Clone>(a: &Mx<T>) -> Mx<T> {
    let m = a.first().map(|r| r.len()).unwrap_or(0);
    (0..m).map(|j| a.iter().map(|r| r[j].clone()).collect()).collect()
}

/// Rank over the rationals by fraction-free elimination modulo two large primes:
/// the maximum over the primes is the rational rank except with negligible
/// probability, and never exceeds it. For small entries it is exact: see `rank_q`.
pub fn rank_mod(a: &Mx<i128>, p: i128) -> usize {
    let mut m: Mx<i128> = a.iter().map(|r| r.iter().map(|x| x.rem_euclid(p)).collect()).collect();
    let rows = m.len();
    if rows == 0 {
        return 0;
    }
    let cols = m[0].len();
    let mut r = 0;
    for c in 0..cols {
        let Some(k) = (r..rows).find(|&k| m[k][c] != 0) else { continue };
        m.swap(r, k);
        let inv = pow_mod(m[r][c], p - 2, p);
        for j in c..cols {
            m[r][j] = m[r][j] * inv % p;
        }
        for i in 0..rows {
            if i != r && m[i][c] != 0 {
                let f = m[i][c];
                for j in c..cols {
                    m[i][j] = (m[i][j] - f * m[r][j]).rem_euclid(p);
                }
            }
        }
        r += 1;
        if r == rows {
            break;
        }
    }
    r
}

pub fn pow_mod(mut b: i128, mut e: i128, p: i128) -> i128 {
    let mut r = 1;
    b = b.rem_euclid(p);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}

/// Exact rank by Bareiss elimination (entries must be small enough for i128 minors).
pub fn rank_q(a: &Mx<i128>) -> usize {
    let mut m = a.clone();
    let rows = m.len();
    if rows == 0 {
        return 0;
    }
    let cols = m[0].len();
    let (mut r, mut prev) = (0, 1i128);
    for c in 0..cols {
        let Some(k) = (r..rows).find(|&k| m[k][c] != 0) else { continue };
        m.swap(r, k);
        for i in r + 1..rows {
            for j in c + 1..cols {
                m[i][j] = (m[i][j] * m[r][c] - m[i][c] * m[r][j]) / prev;
            }
            m[i][c] = 0;
        }
        prev = m[r][c];
        r += 1;
        if r == rows {
            break;
        }
    }
    r
}

pub fn det(a: &Mx<i128>) -> i128 {
    let n = a.len();
    let mut m = a.clone();
    let (mut prev, mut sign) = (1i128, 1i128);
    for c in 0..n {
        let Some(k) = (c..n).find(|&k| m[k][c] != 0) else { return 0 };
        if k != c {
            m.swap(c, k);
            sign = -sign;
        }
        for i in c + 1..n {
            for j in c + 1..n {
                m[i][j] = (m[i][j] * m[c][c] - m[i][c] * m[c][j]) / prev;
            }
        }
        prev = m[c][c];
    }
    sign * prev
}

/// Invariant factors (non-zero diagonal of the Smith form, absolute values, each
/// dividing the next), or None when an intermediate entry grows beyond 2^100.
pub fn invariant_factors(a: &Mx<i128>) -> Option<Vec<i128>> {
    let mut m = a.clone();
    let rows = m.len();
    let cols = m.first().map(|r| r.len()).unwrap_or(0);
    let mut out = vec![];
    let lim = 1i128 << 60;
    let mut t = 0;
    while t < rows.min(cols) {
        // smallest non-zero entry of the remaining block as the pivot
        let mut best: Option<(usize, usize)> = None;
        for i in t..rows {
            for j in t..cols {
                if m[i][j] != 0 && best.map_or(true, |(a, b)| m[i][j].abs() < m[a][b].abs()) {
                    best = Some((i, j));
                }
            }
        }
        let Some((bi, bj)) = best else { break };
        m.swap(t, bi);
        for r in m.iter_mut() {
            r.swap(t, bj);
        }
        loop {
            let p = m[t][t];
            let mut dirty = false;
            for i in t + 1..rows {
                let q = m[i][t].div_euclid(p);
                if q != 0 {
                    for j in t..cols {
                        m[i][j] -= q * m[t][j];
                        if m[i][j].abs() > lim {
                            return None;
                        }
                    }
                }
                if m[i][t] != 0 {
                    dirty = true;
                }
            }
            for j in t + 1..cols {
                let q = m[t][j].div_euclid(p);
                if q != 0 {
                    for row in m.iter_mut().skip(t) {
                        row[j] -= q * row[t];
                        if row[j].abs() > lim {
                            return None;
                        }
                    }
                }
                if m[t][j] != 0 {
                    dirty = true;
                }
            }
            if dirty {
                // bring the smallest non-zero entry of the cross to the pivot
                let mut b = (t, t);
                for i in t..rows {
                    if m[i][t] != 0 && m[i][t].abs() < m[b.0][b.1].abs() {
                        b = (i, t);
                    }
                }
                for j in t..cols {
                    if m[t][j] != 0 && m[t][j].abs() < m[b.0][b.1].abs() {
                        b = (t, j);
                    }
                }
                m.swap(t, b.0);
                for r in m.iter_mut() {
                    r.swap(t, b.1);
                }
                continue;
            }
            // the pivot must divide the rest
            let p = m[t][t];
            let bad = (t + 1..rows).find(|&i| (t + 1..cols).any(|j| m[i][j] % p != 0));
            if let Some(i) = bad {
                for j in t..cols {
                    m[t][j] += m[i][j];
                }
                continue;
            }
            break;
        }
        out.push(m[t][t].abs());
        t += 1;
    }
    Some(out)
}

/// "Z^a + Z_2 + (Z_4)^2"-style text of an abelian group, in the project's notation.
pub fn abelian_text(symbol: &str, free: usize, torsion: &[i128]) -> String {
    let mut parts = vec![];
    if free == 1 {
        parts.push(symbol.to_string());
    } else if free > 1 {
        parts.push(format!("{symbol}^{free}"));
    }
    let mut t: Vec<i128> = torsion.iter().copied().filter(|&x| x != 1).collect();
    t.sort();
    let mut i = 0;
    while i < t.len() {
        let n = t[i..].iter().take_while(|&&x| x == t[i]).count();
        parts.push(if n == 1 { format!("{symbol}_{}", t[i]) } else { format!("({symbol}_{})^{n}", t[i]) });
        i += n;
    }
    if parts.is_empty() {
        "0".into()
    } else {
        parts.join(" + ")
    }
}

/// Row-style Hermite normal form of the lattice spanned by the rows (zero rows removed).
/// None when an entry grows beyond 2^60.
pub fn hnf_rows(a: &Mx<i128>) -> Option<Mx<i128>> {
    let mut m: Mx<i128> = a.clone();
    let cols = m.first().map(|r| r.len()).unwrap_or(0);
    let lim = 1i128 << 60;
    let mut r = 0;
    for c in 0..cols {
        loop {
            let Some(p) = (r..m.len()).filter(|&i| m[i][c] != 0).min_by_key(|&i| m[i][c].abs()) else { break };
            m.swap(r, p);
            let mut again = false;
            for i in r + 1..m.len() {
                let q = m[i][c].div_euclid(m[r][c]);
                if q != 0 {
                    for j in c..cols {
                        m[i][j] -= q * m[r][j];
                        if m[i][j].abs() > lim {
                            return None;
                        }
                    }
                }
                again |= m[i][c] != 0;
            }
            if !again {
                break;
            }
        }
        if r < m.len() && m[r][c] != 0 {
            if m[r][c] < 0 {
                m[r].iter_mut().for_each(|x| *x = -*x);
            }
            for i in 0..r {
                let q = m[i][c].div_euclid(m[r][c]);
                for j in c..cols {
                    m[i][j] -= q * m[r][j];
                    if m[i][j].abs() > lim {
                        return None;
                    }
                }
            }
            r += 1;
        }
    }
    m.truncate(r);
    Some(m)
}

/// Integral homology of a chain complex given by d[k] : C_k -> C_{k-1} as dense
/// matrices (d[k] has dims[k-1] rows and dims[k] columns, d[0] is ignored):
/// for each degree the free rank and the torsion coefficients above one.
pub fn homology_z(dims: &[usize], d: &[Mx<i128>]) -> Option<Vec<(usize, Vec<i128>)>> {
    let mut f = vec![];
    for k in 0..dims.len() {
        f.push(if k == 0 || dims[k] == 0 || dims[k - 1] == 0 { vec![] } else { invariant_factors(&d[k])? });
    }
    f.push(vec![]);
    Some((0..dims.len()).map(|k| (dims[k] - f[k].len() - f[k + 1].len(), f[k + 1].iter().copied().filter(|&x| x != 1).collect())).collect())
}

/// The project's text for a graded group: "dim 0: Z,\ndim 1: Z_2,\n", trailing zeros dropped.
pub fn homology_text(h: &[(usize, Vec<i128>)]) -> String {
    let n = h.iter().rposition(|(f, t)| *f > 0 || !t.is_empty()).map_or(0, |i| i + 1);
    h[..n].iter().enumerate().map(|(i, (f, t))| format!("dim {i}: {},\n", abelian_text("Z", *f, t))).collect()
}

pub struct UnionFind(Vec<usize>);
impl UnionFind {
    pub fn new(n: usize) -> UnionFind {
        UnionFind((0..n).collect())
    }
    pub fn find(&mut self, mut x: usize) -> usize {
        while self.0[x] != x {
            self.0[x] = self.0[self.0[x]];
            x = self.0[x];
        }
        x
    }
    /// true when the two were separate
    pub fn union(&mut self, a: usize, b: usize) -> bool {
        let (a, b) = (self.find(a), self.find(b));
        self.0[a] = b;
        a != b
    }
    pub fn classes(&mut self) -> usize {
        (0..self.0.len()).filter(|&i| self.find(i) == i).count()
    }
}
