//! Homology of chain complexes, simplicial complexes.
use crate::engine::*;
use crate::mat_checks::to_matrix;
use crate::reference::*;
use alg::commutative::Rational;
use alg::formal_sum_impl;
use alg::lin_alg::{Matrix, Vector};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use topo_spaces::simplicial::{Simplex, SimplicialCplx};
use topo_spaces::{simplex, Complex, HomologyWithFieldCoefficients, IntegralHomology, H};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "T01",
            rule: "chain complexes of mostly up to 4 degrees and ranks up to 7 (one choice in twenty larger: up to 9 degrees, ranks up to 24) with planted free parts and torsion, disguised by unimodular changes of basis, and their truncations at a maximal degree, against invariant factors computed independently; the reported cycles must generate exactly the kernels and the reported boundaries exactly the images; non-trivial = a boundary map of rank at least 2 or torsion",
            assumptions: &["consecutive maps compose to zero", "entries small enough for 64-bit arithmetic (cases in which the code reports an overflow are counted separately and accepted only when an input entry exceeds 4)"],
            subs: vec![Sub::new("chain_complexes", 20000, 60000, chain_complexes), Sub::new("simplicial", 10000, 20000, simplicial_homology)],
        },
        Prop {
            id: "T02",
            rule: "chain complexes over the rationals and over floats (planted ranks, incidence matrices of random simplicial complexes, empty list) against ranks from exact elimination; non-trivial = a non-zero map between non-zero neighbours",
            assumptions: &["consecutive maps compose to zero", "float entries are 0 or +-1 in patterns whose elimination is exact"],
            subs: vec![Sub::new("rational", 40000, 60000, betti_rational), Sub::new("float", 30000, 30000, betti_float)],
        },
        Prop {
            id: "T03",
            rule: "histories attaching random simplices (small universes with much overlap, and universes around 64 and 128 vertices) to a simplicial complex, compared after every step with the explicit set of all faces: vertex labels, dimension, number of cells per dimension, connectedness; unions of up to eight simplices with up to 50 vertices, whose cells are counted by a sum over membership patterns; non-trivial = some simplex of dimension at least 1 shares a vertex with another one",
            assumptions: &["labels inside one simplex are distinct", "number of maximal cells at most 12 when counting cells (cost of inclusion-exclusion)"],
            subs: vec![Sub::new("small_history", 6000, 60000, small_history), Sub::new("large_history", 3000, 30000, large_history), Sub::new("many_vertices", 150, 3000, many_vertices), Sub::new("zero_skeleton", 600, 4000, zero_skeleton), Sub::new("big_simplices", 1500, 20000, big_simplices)],
        },
        Prop {
            id: "T04",
            rule: "boundary maps of the complexes of T03: bases are exactly the faces of each dimension, every column has entries +-1 exactly at the facets of its simplex, consecutive maps compose to zero; non-trivial = a simplex of dimension at least 2",
            assumptions: &["the complex is not empty"],
            subs: vec![Sub::new("small", 5000, 50000, boundary_small), Sub::new("large", 2500, 25000, boundary_large)],
        },
        Prop {
            id: "T05",
            rule: "combinatorial Laplacians of random simplicial complexes and Laplacians of random weighted graphs, built through the public matrix operations and diagonalised: real non-negative sorted spectrum, trace, number of zero eigenvalues against ranks from exact elimination (connected components for graphs), non-zero eigenvalues shared between neighbouring degrees; non-trivial = at least 4 cells in some degree and a cycle or two components",
            assumptions: &["at most 24 cells in a degree", "zero means below 1e-6"],
            subs: vec![Sub::new("simplicial", 7500, 15000, hodge), Sub::new("graph", 12500, 25000, graph_spectrum)],
        },
    ]
}

// ---------------------------------------------------------------- chain complexes

#[derive(Clone, PartialEq, PartialOrd, Eq, Ord, Debug)]
pub struct Gen(usize, usize);
impl fmt::Display for Gen {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "g{}_{}", self.0, self.1)
    }
}
formal_sum_impl! { Gen }

struct Chain {
    dims: Vec<usize>,
    d: Vec<Mx<i128>>,
}

impl Complex for Chain {
    type Cell = Gen;
    fn boundary_map(&self) -> Vec<(Matrix<i64>, Vec<Gen>)> {
        (0..self.dims.len())
            .map(|k| {
                let basis = (0..self.dims[k]).map(|i| Gen(k, i)).collect();
                let m = if k == 0 { Matrix::zero(1, self.dims[0]) } else { to_matrix(&self.d[k], |&x| x as i64) };
                (m, basis)
            })
            .collect()
    }
}

/// a random unimodular matrix with its inverse
fn unimodular(s: &mut Src, n: usize, steps: usize) -> (Mx<i128>, Mx<i128>) {
    let id = |n: usize| -> Mx<i128> { (0..n).map(|i| (0..n).map(|j| (i == j) as i128).collect()).collect() };
    let (mut u, mut v) = (id(n), id(n));
    if n < 2 {
        return (u, v);
    }
    for _ in 0..steps {
        let i = s.usize(0, n - 1);
        let j = (i + s.usize(1, n - 1)) % n;
        match s.below(4) {
            0 => {
                u.swap(i, j);
                v.iter_mut().for_each(|r| r.swap(i, j));
            }
            k => {
                let c = if k == 1 { -1 } else { 1 };
                // row i += c row j; inverse: column j -= c column i
                for t in 0..n {
                    let x = u[j][t];
                    u[i][t] += c * x;
                }
                for r in v.iter_mut() {
                    let x = r[i];
                    r[j] -= c * x;
                }
            }
        }
    }
    (u, v)
}

/// (complex, planted homology)
fn planted(s: &mut Src, max_deg: usize, big: bool) -> (Chain, Vec<(usize, Vec<i128>)>) {
    let top = s.size_huge(0, max_deg, max_deg + 5, 26);
    // ranks[k]: rank of d_k; free[k]: free rank of H_k
    let mut ranks: Vec<usize> = (0..=top + 1).map(|k| if k == 0 || k == top + 1 { 0 } else { s.size_huge(0, 3, 8, 24) }).collect();
    let mut free: Vec<usize> = (0..=top).map(|_| s.size_huge(0, 2, 8, 30)).collect();
    let tor: Vec<Vec<i128>> = (0..=top + 1)
        .map(|k| (0..ranks[k]).map(|_| if s.chance(1, 2) { *s.pick(&[2, 3, 4, 6, 2, 5, 9]) * if s.chance(1, 4) { -1 } else { 1 } } else if s.chance(1, 4) { -1 } else { 1 }).collect())
        .collect();
    for k in 0..=top {
        // every chain group needs a generator: matrices have at least one row and column
        if ranks[k] + ranks[k + 1] + free[k] == 0 {
            free[k] = 1;
        }
    }
    ranks[0] = 0;
    let dims: Vec<usize> = (0..=top).map(|k| ranks[k] + ranks[k + 1] + free[k]).collect();
    // in the standard basis C_k = A_k (ranks[k]) + H_k + B_k (ranks[k+1])
    let steps = if big { 6 } else { 3 };
    let us: Vec<_> = dims.iter().map(|&n| { let st = s.usize(0, steps); unimodular(s, n, st) }).collect();
    let mut d = vec![vec![]];
    for k in 1..=top {
        let mut m = vec![vec![0i128; dims[k]]; dims[k - 1]];
        let off = dims[k - 1] - ranks[k];
        for (i, &t) in tor[k].iter().enumerate() {
            m[off + i][i] = t;
        }
        // new basis: d' = U_{k-1} d U_k^{-1}
        d.push(mul_i(&mul_i(&us[k - 1].0, &m), &us[k].1));
    }
    // normalise the torsion through the diagonal matrix itself
    let h = (0..=top)
        .map(|k| {
            let t = &tor[k + 1];
            let diag: Mx<i128> = (0..t.len()).map(|i| (0..t.len()).map(|j| if i == j { t[i] } else { 0 }).collect()).collect();
            let f = if t.is_empty() { vec![] } else { invariant_factors(&diag).unwrap() };
            (free[k], f.into_iter().filter(|&x| x != 1).collect())
        })
        .collect();
    (Chain { dims, d }, h)
}

/// parse "k-cycles: \n\t2·g1_0 + (-1)·g1_2, \n..." into coefficient rows per degree
pub fn parse_chains(text: &str, kind: &str, index: &dyn Fn(usize, &str) -> Option<usize>, dims: &[usize]) -> Result<Vec<Mx<i128>>, String> {
    let mut out: Vec<Mx<i128>> = vec![];
    for line in text.lines() {
        if let Some(l) = line.strip_prefix('\t') {
            let l = l.trim_end().strip_suffix(',').ok_or_else(|| format!("unexpected line {line:?}"))?;
            let k = out.len().checked_sub(1).ok_or("chain before header")?;
            let mut row = vec![0i128; dims[k]];
            if l != "0" {
                for (i, part) in l.split(" + ").enumerate() {
                    let (c, g) = match part.split_once('·') {
                        Some((c, g)) => (c.trim_start_matches('(').trim_end_matches(')').parse::<i128>().map_err(|e| format!("{part:?}: {e}"))?, g),
                        None if i == 0 && part.starts_with('-') => (-1, &part[1..]),
                        None => (1, part),
                    };
                    let j = index(k, g).ok_or_else(|| format!("unknown generator {g:?} in degree {k}"))?;
                    row[j] += c;
                }
            }
            out.last_mut().unwrap().push(row);
        } else {
            let want = format!("{}-{kind}: ", out.len());
            if line != want {
                return Err(format!("unexpected line {line:?} instead of {want:?}"));
            }
            out.push(vec![]);
        }
    }
    Ok(out)
}

/// kernels and images, as lattices
pub fn check_cycles(dims: &[usize], d: &[Mx<i128>], cycles: &[Mx<i128>], bounds: &[Mx<i128>], shown: usize) -> Result<(), String> {
    ensure_eq!(cycles.len(), shown, "degrees with cycles");
    ensure_eq!(bounds.len(), shown, "degrees with boundaries");
    for k in 0..shown {
        let rank = if k == 0 || dims[k - 1] == 0 { 0 } else { rank_q(&d[k]) };
        ensure_eq!(cycles[k].len(), dims[k] - rank, "number of cycles generating degree {}", k);
        for z in &cycles[k] {
            if k > 0 {
                let bz: Vec<i128> = d[k].iter().map(|r| r.iter().zip(z).map(|(a, b)| a * b).sum()).collect();
                ensure!(bz.iter().all(|&x| x == 0), "degree {k}: {z:?} is reported as a cycle, its boundary is {bz:?}");
            }
        }
        if !cycles[k].is_empty() {
            if let Some(f) = invariant_factors(&cycles[k]) {
                ensure!(f.len() == cycles[k].len() && f.iter().all(|&x| x == 1), "degree {k}: the cycles {:?} do not generate the whole kernel", cycles[k]);
            }
        }
        let image: Mx<i128> = if k + 1 < dims.len() { transpose(&d[k + 1]) } else { vec![] };
        let r = if image.is_empty() { 0 } else { rank_q(&image) };
        ensure_eq!(bounds[k].len(), r, "number of boundaries generating degree {}", k);
        if r > 0 {
            if let (Some(a), Some(b)) = (hnf_rows(&bounds[k]), hnf_rows(&image)) {
                ensure!(a == b, "degree {k}: the boundaries {:?} do not generate the image {:?}", bounds[k], image);
            }
        }
    }
    Ok(())
}

fn chain_complexes(s: &mut Src) -> Result<(), String> {
    let big = s.bool();
    let (c, h) = planted(s, 3, big);
    let top = c.dims.len() - 1;
    let max_dim = if s.chance(1, 3) { Some(s.usize(0, top + 1)) } else { None };
    s.note(|| format!("dims {:?}, maps {:?}, max_dim {max_dim:?}, planted {h:?}", c.dims, &c.d[1..]));
    let ranks: Vec<usize> = (1..=top).map(|k| rank_q(&c.d[k])).collect();
    s.nontrivial_if(ranks.iter().any(|&r| r >= 2) || h.iter().any(|(_, t)| !t.is_empty()));
    s.label_if(h.iter().any(|(_, t)| t.len() > 1), "several torsion coefficients");
    s.label_if(max_dim.is_some_and(|m| m < top), "truncated");
    if let Some(r) = homology_z(&c.dims, &c.d) {
        assert!(r == h, "harness: planted {h:?} but reference {r:?}");
    }
    let shown: Vec<_> = h[..max_dim.map_or(top + 1, |m| (m + 1).min(top + 1))].to_vec();
    let want = homology_text(&shown);
    let got = guarded(|| {
        let h = IntegralHomology::new(&c, max_dim);
        (h.to_string(), h.get_description_of_cycles(), h.get_description_of_boundaries())
    });
    let (text, cyc, bnd) = match got {
        Ok(x) => x,
        Err(e) => {
            let largest = c.d.iter().flatten().flatten().map(|x| x.abs()).max().unwrap_or(0);
            if e.contains("overflow") && (largest > 4 || c.dims.iter().any(|&n| n > 10)) {
                s.label("overflow reported");
                return Ok(());
            }
            return Err(e);
        }
    };
    ensure_eq!(text, want, "homology");
    let n = want.lines().count();
    let index = |k: usize, g: &str| -> Option<usize> {
        let (a, b) = g.strip_prefix('g')?.split_once('_')?;
        (a.parse::<usize>().ok()? == k).then_some(())?;
        b.parse().ok()
    };
    let cycles = parse_chains(&cyc, "cycles", &index, &c.dims)?;
    let bounds = parse_chains(&bnd, "boundaries", &index, &c.dims)?;
    check_cycles(&c.dims, &c.d, &cycles, &bounds, n)
}

// ---------------------------------------------------------------- field coefficients

struct FieldCplx<T: alg::commutative::PID>(Vec<Matrix<T>>);
impl HomologyWithFieldCoefficients<Rational> for FieldCplx<Rational> {
    fn get_boundary_map(&self) -> Vec<Matrix<Rational>> {
        self.0.clone()
    }
}
impl HomologyWithFieldCoefficients<f64> for FieldCplx<f64> {
    fn get_boundary_map(&self) -> Vec<Matrix<f64>> {
        self.0.clone()
    }
}

fn betti_rational(s: &mut Src) -> Result<(), String> {
    if s.chance(1, 50) {
        s.note(|| "no maps".into());
        ensure_eq!(guarded(|| FieldCplx::<Rational>(vec![]).homology())?, Vec::<usize>::new(), "homology of nothing");
        return Ok(());
    }
    let (c, h) = planted(s, 4, false);
    // divide some maps by an integer
    let den: Vec<i64> = c.dims.iter().map(|_| if s.chance(1, 3) { s.int(2, 5) } else { 1 }).collect();
    s.note(|| format!("dims {:?}, maps {:?} over {den:?}", c.dims, &c.d[1..]));
    s.nontrivial_if(c.d.iter().flatten().flatten().any(|&x| x != 0));
    let maps = (0..c.dims.len())
        .map(|k| if k == 0 { Matrix::zero(1, c.dims[0]) } else { to_matrix(&c.d[k], |&x| Rational::new(x as i64, den[k])) })
        .collect();
    let want: Vec<usize> = h.iter().map(|x| x.0).collect();
    ensure_eq!(guarded(|| FieldCplx::<Rational>(maps).homology())?, want, "Betti numbers");
    Ok(())
}

fn betti_float(s: &mut Src) -> Result<(), String> {
    let m = if s.chance(1, 20) { random_model(s, 10, 5, 10) } else { random_model(s, 6, 4, 4) };
    let (dims, d) = m.standard_boundary();
    s.note(|| format!("simplices {:?}", m.attached));
    s.nontrivial_if(dims.len() > 1);
    let maps = (0..dims.len()).map(|k| if k == 0 { Matrix::zero(1, dims[0]) } else { to_matrix(&d[k], |&x| x as f64) }).collect();
    let rank: Vec<usize> = (0..=dims.len()).map(|k| if k == 0 || k == dims.len() { 0 } else { rank_q(&d[k]) }).collect();
    let want: Vec<usize> = (0..dims.len()).map(|k| dims[k] - rank[k] - rank[k + 1]).collect();
    ensure_eq!(guarded(|| FieldCplx::<f64>(maps).homology())?, want, "Betti numbers");
    Ok(())
}

// ---------------------------------------------------------------- simplicial complexes

struct Model {
    /// label of the i-th vertex
    labels: Vec<usize>,
    faces: BTreeSet<Vec<usize>>,
    attached: Vec<Vec<usize>>,
}

impl Model {
    fn new() -> Model {
        Model { labels: vec![], faces: BTreeSet::new(), attached: vec![] }
    }
    fn attach(&mut self, labels: &[usize]) {
        self.attached.push(labels.to_vec());
        let mut v: Vec<usize> = labels
            .iter()
            .map(|l| match self.labels.iter().position(|x| x == l) {
                Some(i) => i,
                None => {
                    self.labels.push(*l);
                    self.labels.len() - 1
                }
            })
            .collect();
        v.sort();
        for mask in 1u32..1 << v.len() {
            self.faces.insert(v.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, &x)| x).collect());
        }
    }
    fn dim(&self) -> usize {
        self.faces.iter().map(|f| f.len() - 1).max().unwrap()
    }
    fn count(&self, d: usize) -> usize {
        self.faces.iter().filter(|f| f.len() == d + 1).count()
    }
    fn connected(&self) -> bool {
        let mut u = UnionFind::new(self.labels.len());
        for f in &self.faces {
            for w in f.windows(2) {
                u.union(w[0], w[1]);
            }
        }
        u.classes() <= 1
    }
    fn maximal(&self) -> usize {
        let mut m = 0;
        for f in &self.faces {
            let sub = self.faces.iter().any(|g| g.len() == f.len() + 1 && f.iter().all(|x| g.contains(x)));
            m += !sub as usize;
        }
        m
    }
    /// bases in lexicographic order of vertex indices and the textbook boundary maps
    fn standard_boundary(&self) -> (Vec<usize>, Vec<Mx<i128>>) {
        let mut d = vec![vec![]];
        let bases: Vec<Vec<&Vec<usize>>> = (0..=self.dim()).map(|k| self.faces.iter().filter(|f| f.len() == k + 1).collect()).collect();
        for k in 1..bases.len() {
            let mut m = vec![vec![0i128; bases[k].len()]; bases[k - 1].len()];
            for (j, f) in bases[k].iter().enumerate() {
                for i in 0..f.len() {
                    let mut g = (*f).clone();
                    g.remove(i);
                    let r = bases[k - 1].iter().position(|x| **x == g).unwrap();
                    m[r][j] = if i % 2 == 0 { 1 } else { -1 };
                }
            }
            d.push(m);
        }
        (bases.iter().map(|b| b.len()).collect(), d)
    }
}

fn random_simplex(s: &mut Src, universe: usize, max_v: usize) -> Vec<usize> {
    let k = s.usize(1, max_v.min(universe));
    let mut v: Vec<usize> = vec![];
    while v.len() < k {
        let mut x = s.usize(0, universe - 1);
        while v.contains(&x) {
            x = (x + 1) % universe;
        }
        v.push(x);
    }
    v
}

fn random_model(s: &mut Src, universe: usize, max_v: usize, n: usize) -> Model {
    let mut m = Model::new();
    let u = s.usize(2, universe);
    for _ in 0..s.usize(1, n) {
        let v = random_simplex(s, u, max_v);
        m.attach(&v);
    }
    m
}

/// a complex over labels of either kind
enum Cx {
    S(SimplicialCplx<String>),
    U(SimplicialCplx<usize>),
}
macro_rules! on {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            Cx::S($x) => $e,
            Cx::U($x) => $e,
        }
    };
}
impl Cx {
    fn attach(&mut self, v: &[usize]) {
        match self {
            Cx::S(c) => c.attach(Simplex::from(v.iter().map(|x| x.to_string()).collect())),
            Cx::U(c) => c.attach(Simplex::from(v.to_vec())),
        }
    }
    fn labels(&self) -> Vec<usize> {
        match self {
            Cx::S(c) => c.get_labeled_zero_skeleton().iter().map(|x| x.parse().unwrap()).collect(),
            Cx::U(c) => c.get_labeled_zero_skeleton().clone(),
        }
    }
    /// per degree: the map and the basis as (dim, vertex labels)
    fn boundary(&self) -> Vec<(Mx<i128>, Vec<(usize, Vec<usize>)>)> {
        fn rd(m: &Matrix<i64>) -> Mx<i128> {
            let (r, c) = (**m).size();
            (0..r).map(|i| (0..c).map(|j| m[(i, j)] as i128).collect()).collect()
        }
        match self {
            Cx::S(c) => c.boundary_map().iter().map(|(m, b)| (rd(m), b.iter().map(|x| (x.dim, x.vertices_labels.iter().map(|l| l.parse().unwrap()).collect())).collect())).collect(),
            Cx::U(c) => c.boundary_map().iter().map(|(m, b)| (rd(m), b.iter().map(|x| (x.dim, x.vertices_labels.clone())).collect())).collect(),
        }
    }
}

fn new_cplx(s: &mut Src, first: &[usize]) -> Cx {
    let strings = s.bool();
    let from = s.bool();
    let mut c = match (strings, from) {
        (true, false) => Cx::S(SimplicialCplx::new()),
        (false, false) => Cx::U(SimplicialCplx::new()),
        (true, true) => return Cx::S(SimplicialCplx::new_from(Simplex::from(first.iter().map(|x| x.to_string()).collect()))),
        (false, true) => return Cx::U(SimplicialCplx::new_from(Simplex::from(first.to_vec()))),
    };
    c.attach(first);
    c
}

fn compare(c: &Cx, m: &Model, count: bool) -> Result<(), String> {
    let at = format!("after attaching {:?}", m.attached);
    ensure_eq!(c.labels(), m.labels, "vertex labels {at}");
    ensure_eq!(on!(c, x => x.n_vertices()), m.labels.len(), "number of vertices {at}");
    ensure_eq!(guarded(|| on!(c, x => x.dim()))?, m.dim(), "dimension {at}");
    ensure_eq!(guarded(|| on!(c, x => x.is_connected()))?, m.connected(), "connectedness {at}");
    if count {
        for d in 0..=m.dim() + 1 {
            ensure_eq!(guarded(|| on!(c, x => x.n_cells_of_dim(d)))?, m.count(d), "number of {d}-cells {at}");
        }
    }
    Ok(())
}

fn history(s: &mut Src, universe: usize, max_v: usize, steps: usize) -> Result<(), String> {
    let mut m = Model::new();
    let mut c: Option<Cx> = None;
    let prefill = if universe > 20 { s.usize(0, universe) } else { 0 };
    let mut seq = vec![];
    if prefill > 0 {
        // one path through many vertices, so that later simplices have large indices
        if s.bool() {
            seq.extend((0..prefill.saturating_sub(1)).map(|i| vec![i, i + 1]));
        } else {
            seq.extend((0..prefill.div_ceil(4)).map(|i| (4 * i..(4 * i + 4).min(prefill)).collect::<Vec<_>>()).filter(|v: &Vec<usize>| !v.is_empty()));
        }
    }
    if prefill == 0 && s.chance(1, 6) {
        // long and thin, or many simplices with a common part, attached in any order
        let n = s.usize(2, 13);
        let name = s.perm(n);
        let shape = s.below(4);
        let mut edges: Vec<Vec<usize>> = match shape {
            0 => (0..n - 1).map(|i| vec![i, i + 1]).collect(),
            1 => (0..n).map(|i| vec![i, (i + 1) % n]).filter(|e| e[0] != e[1]).collect(),
            2 => (1..n).map(|i| vec![0, i]).collect(),
            _ => (0..n.saturating_sub(2)).map(|i| vec![i, i + 1, i + 2]).collect(),
        };
        if n > 3 && s.bool() {
            edges.remove(s.usize(0, edges.len() - 1));
        }
        let order = s.perm(edges.len());
        seq.extend(order.into_iter().map(|i| edges[i].iter().map(|&v| name[v]).collect::<Vec<_>>()));
        s.label("path, cycle, star or strip");
    }
    let more = if !seq.is_empty() && s.bool() { 0 } else { s.usize(1, steps) };
    for _ in 0..more {
        let v = random_simplex(s, universe, max_v);
        seq.push(v);
    }
    s.note(|| format!("attach {seq:?}"));
    for (i, v) in seq.iter().enumerate() {
        if v.is_empty() {
            continue;
        }
        s.nontrivial_if(v.len() > 1 && v.iter().any(|x| m.labels.contains(x)));
        m.attach(v);
        match &mut c {
            None => c = Some(guarded(|| new_cplx(s, v))?),
            Some(c) => guarded(|| c.attach(v))?,
        }
        s.label_if(m.labels.len() > 64, "more than 64 vertices");
        if universe <= 20 || i + 4 >= seq.len() || i % 9 == 0 {
            let few = m.faces.len() < 400 && m.maximal() <= 12;
            s.label_if(few, "cells counted");
            compare(c.as_ref().unwrap(), &m, few)?;
        }
    }
    Ok(())
}

fn small_history(s: &mut Src) -> Result<(), String> {
    if s.chance(1, 150) {
        s.label("simplices with up to 11 vertices");
        let u = s.usize(9, 14);
        return history(s, u, 11, 4);
    }
    let u = s.size_huge(1, 9, 16, 20);
    let (v, n) = (s.size(1, 5, 8), s.size_huge(1, 8, 14, 70));
    history(s, u, v, n)
}
fn large_history(s: &mut Src) -> Result<(), String> {
    let u = if s.chance(1, 12) { *s.pick(&[191, 192, 193, 256, 257, 330]) } else { *s.pick(&[30, 63, 64, 65, 66, 90, 127, 128, 129, 140]) };
    let n = if s.chance(1, 20) { 60 } else { 8 };
    history(s, u, 4, n)
}

fn zero_skeleton(s: &mut Src) -> Result<(), String> {
    if s.chance(1, 100) {
        // nothing attached yet
        s.label("empty complex");
        let (n, c, k, m) = guarded(|| {
            let c: SimplicialCplx<usize> = if s.bool() { SimplicialCplx::new() } else { SimplicialCplx::new_from_zero_skeleton(vec![]) };
            (c.n_vertices(), c.is_connected(), c.n_cells_of_dim(0), c.get_labeled_zero_skeleton().len())
        })?;
        ensure_eq!((n, c, k, m), (0, true, 0, 0), "vertices, connectedness, vertices, labels of the empty complex");
        return Ok(());
    }
    let most = if s.chance(1, 200) {
        1500
    } else if s.chance(1, 4) {
        140
    } else {
        8
    };
    s.label_if(most > 1000, "up to 1500 vertices");
    let n = s.usize(1, most);
    let labels: Vec<usize> = s.perm(n).into_iter().map(|x| x + 3).collect();
    let mut m = Model::new();
    labels.iter().for_each(|&l| m.attach(&[l]));
    s.note(|| format!("discrete complex on {n} vertices"));
    let strings = s.bool();
    let mut c = guarded(|| {
        if strings {
            Cx::S(SimplicialCplx::new_from_zero_skeleton(labels.iter().map(|x| x.to_string()).collect()))
        } else {
            Cx::U(SimplicialCplx::new_from_zero_skeleton(labels.clone()))
        }
    })?;
    compare(&c, &m, n <= 7)?;
    let n = n + 2;
    for _ in 0..s.size(0, 3, 20) {
        let v: Vec<usize> = random_simplex(s, n, 3).into_iter().map(|x| x + 3).collect();
        s.nontrivial_if(v.len() > 1);
        m.attach(&v);
        guarded(|| c.attach(&v))?;
        compare(&c, &m, n <= 7)?;
    }
    Ok(())
}

/// few simplices with many vertices: the faces are too many to list, so they are counted by the
/// set of simplices they lie in, one vertex at a time
fn big_simplices(s: &mut Src) -> Result<(), String> {
    let universe = s.usize(10, 50);
    let n = s.size(1, 4, 8);
    let simplices: Vec<Vec<usize>> = (0..n).map(|_| random_simplex(s, universe, universe)).collect();
    s.note(|| format!("attach {simplices:?}"));
    s.nontrivial_if(simplices.iter().any(|v| v.len() > 12));
    let mut c = guarded(|| new_cplx(s, &simplices[0]))?;
    for v in &simplices[1..] {
        guarded(|| c.attach(v))?;
    }
    let top = simplices.iter().map(|v| v.len()).max().unwrap();
    s.label_if(top > 20, "more than 20 vertices in a simplex");
    // cells[pattern][k]: subsets of k vertices lying exactly in the simplices of the pattern
    let mut cells = vec![vec![0u128; universe + 1]; 1 << n];
    cells[(1 << n) - 1][0] = 1;
    for x in 0..universe {
        let has: usize = (0..n).filter(|&i| simplices[i].contains(&x)).map(|i| 1 << i).sum();
        for k in (0..universe).rev() {
            for p in 0..1 << n {
                let w = cells[p][k];
                cells[p & has][k + 1] += w;
            }
        }
    }
    ensure_eq!(guarded(|| on!(&c, x => x.dim()))?, top - 1, "dimension");
    for d in 0..=top {
        let want: u128 = (1..1 << n).map(|p| if d + 1 <= universe { cells[p][d + 1] } else { 0 }).sum();
        ensure_eq!(guarded(|| on!(&c, x => x.n_cells_of_dim(d)))? as u128, want, "number of {d}-cells");
    }
    Ok(())
}

/// more than a thousand vertices in simplices that share some of them; only the cells of low dimension are counted
fn many_vertices(s: &mut Src) -> Result<(), String> {
    let universe = s.usize(150, 2000);
    let n = s.usize(1, 6);
    let mut simplices: Vec<Vec<usize>> = vec![];
    for _ in 0..n {
        let v = if s.chance(1, 2) {
            let a = s.usize(0, universe / 2);
            {
                let most = if s.bool() { 400 } else { 1400 };
                (a..(a + s.usize(1, most)).min(universe)).collect()
            }
        } else {
            random_simplex(s, universe, 5)
        };
        simplices.push(v);
    }
    // some are attached again in part, and each of the vertices is named by its number in a random order of blocks
    if s.bool() {
        let v = s.pick(&simplices).clone();
        let k = s.usize(1, v.len());
        simplices.push(v[v.len() - k..].to_vec());
    }
    s.note(|| format!("attach {}", simplices.iter().map(|v| format!("{:?}..{:?} ({})", v[0], v[v.len() - 1], v.len())).collect::<Vec<_>>().join(", ")));
    let first: Vec<usize> = (0..s.usize(1, universe)).collect();
    let discrete = s.bool();
    let mut c = guarded(|| if discrete { Cx::U(SimplicialCplx::new_from_zero_skeleton(first.clone())) } else { new_cplx(s, &simplices[0]) })?;
    for v in &simplices {
        guarded(|| c.attach(v))?;
    }
    let mut seen: BTreeSet<usize> = simplices.iter().flatten().copied().collect();
    if discrete {
        seen.extend(&first);
    }
    s.nontrivial_if(seen.len() > 64);
    s.label_if(seen.len() > 1280, "more than 1280 vertices");
    ensure_eq!(on!(&c, x => x.n_vertices()), seen.len(), "number of vertices");
    let top = simplices.iter().map(|v| v.len()).max().unwrap();
    ensure_eq!(guarded(|| on!(&c, x => x.dim()))?, top - 1, "dimension");
    let mut u = UnionFind::new(universe);
    for v in &simplices {
        for x in &v[1..] {
            u.union(v[0], *x);
        }
    }
    let roots: BTreeSet<usize> = seen.iter().map(|&x| u.find(x)).collect();
    ensure_eq!(guarded(|| on!(&c, x => x.is_connected()))?, roots.len() <= 1, "connectedness");
    if !discrete {
        let m = simplices.len();
        let mut cells = vec![[0u128; 4]; 1 << m];
        cells[(1 << m) - 1][0] = 1;
        for &x in &seen {
            let has: usize = (0..m).filter(|&i| simplices[i].contains(&x)).map(|i| 1 << i).sum();
            for k in (0..3).rev() {
                for p in 0..1 << m {
                    let w = cells[p][k];
                    cells[p & has][k + 1] += w;
                }
            }
        }
        for d in 0..=2 {
            let want: u128 = (1..1 << m).map(|p| cells[p][d + 1]).sum();
            ensure_eq!(guarded(|| on!(&c, x => x.n_cells_of_dim(d)))? as u128, want, "number of {d}-cells");
        }
    }
    Ok(())
}

/// faces as sets of labels, boundary entries, composition
fn check_boundary(c: &Cx, m: &Model) -> Result<Vec<Mx<i128>>, String> {
    let b = guarded(|| c.boundary())?;
    ensure_eq!(b.len(), m.dim() + 1, "number of boundary maps");
    let mut bases: Vec<Vec<Vec<usize>>> = vec![];
    for (k, (_, basis)) in b.iter().enumerate() {
        let mut got = vec![];
        for (dim, v) in basis {
            ensure_eq!(*dim, k, "dimension of the simplex {v:?} in degree {k}");
            let mut f: Vec<usize> = v.iter().map(|l| m.labels.iter().position(|x| x == l).ok_or("unknown label")).collect::<Result<_, _>>()?;
            f.sort();
            got.push(f);
        }
        let set: BTreeSet<Vec<usize>> = got.iter().cloned().collect();
        ensure!(set.len() == got.len(), "degree {k}: repeated simplex in {got:?}");
        let want: BTreeSet<Vec<usize>> = m.faces.iter().filter(|f| f.len() == k + 1).cloned().collect();
        ensure_eq!(set, want, "simplices of degree {k}");
        bases.push(got);
    }
    ensure_eq!(b[0].0, vec![vec![0; bases[0].len()]], "degree 0 map");
    let mut low: Vec<Vec<(usize, i128)>> = vec![];
    for k in 1..b.len() {
        let mx = &b[k].0;
        ensure!(mx.len() == bases[k - 1].len() && mx.iter().all(|r| r.len() == bases[k].len()), "degree {k}: map has the wrong size");
        let mut columns: Vec<Vec<(usize, i128)>> = vec![vec![]; bases[k].len()];
        for (i, row) in mx.iter().enumerate() {
            for (j, x) in row.iter().enumerate() {
                if *x != 0 {
                    columns[j].push((i, *x));
                }
            }
        }
        for (f, col) in bases[k].iter().zip(&columns) {
            for (i, x) in col {
                let g = &bases[k - 1][*i];
                ensure!(x.abs() == 1 && g.iter().all(|x| f.contains(x)), "degree {k}: coefficient {x} of {g:?} in the boundary of {f:?}");
            }
            // the basis below lists every face once
            ensure_eq!(col.len(), k + 1, "degree {k}: number of faces in the boundary of {f:?}");
            let mut sum: BTreeMap<usize, i128> = BTreeMap::new();
            for (i, x) in col {
                if k == 1 {
                    *sum.entry(0).or_insert(0) += x;
                } else {
                    for (l, y) in &low[*i] {
                        *sum.entry(*l).or_insert(0) += x * y;
                    }
                }
            }
            ensure!(sum.values().all(|&x| x == 0), "the boundary of the boundary of {f:?} is not zero");
        }
        low = columns;
    }
    Ok(b.into_iter().map(|x| x.0).collect())
}

fn boundary(s: &mut Src, universe: usize, max_v: usize, steps: usize, homology: bool) -> Result<(), String> {
    // isolated vertices fill the low indices cheaply
    let lead = if universe > 20 { universe - s.usize(1, 20) } else { 0 };
    let mut seq: Vec<Vec<usize>> = (0..lead).map(|i| vec![i]).collect();
    for _ in 0..s.usize(1, steps) {
        let v = random_simplex(s, universe, max_v);
        seq.push(v);
    }
    let mut m = Model::new();
    seq.iter().for_each(|v| m.attach(v));
    s.note(|| format!("attach {seq:?}"));
    s.nontrivial_if(m.dim() >= 2);
    s.label_if(m.labels.len() > 64, "more than 64 vertices");
    let mut c: Option<Cx> = None;
    for v in &seq {
        match &mut c {
            None => c = Some(guarded(|| new_cplx(s, v))?),
            Some(c) => guarded(|| c.attach(v))?,
        }
    }
    let c = c.unwrap();
    check_boundary(&c, &m)?;
    if homology {
        let (dims, d) = m.standard_boundary();
        let Some(h) = homology_z(&dims, &d) else { return Ok(()) };
        let Cx::S(c) = c else { return Ok(()) };
        s.label("homology compared");
        ensure_eq!(guarded(|| H!(c).to_string())?, homology_text(&h), "homology");
    }
    Ok(())
}

fn boundary_small(s: &mut Src) -> Result<(), String> {
    let u = s.size(1, 8, 14);
    if s.chance(1, 150) {
        s.label("simplices with up to 11 vertices");
        let u = s.usize(9, 12);
        return boundary(s, u, 11, 3, false);
    }
    let (v, n) = (s.size(1, 5, 7), s.size_huge(1, 7, 14, 60));
    boundary(s, u, v, n, false)
}
fn boundary_large(s: &mut Src) -> Result<(), String> {
    let u = *s.pick(&[66, 70, 80, 130, 140]);
    boundary(s, u, 4, 8, false)
}

/// known spaces, up to renaming of the vertices, and random complexes
fn simplicial_homology(s: &mut Src) -> Result<(), String> {
    const RP2: [[usize; 3]; 10] = [[1, 3, 4], [2, 3, 4], [1, 4, 5], [2, 4, 6], [4, 5, 6], [1, 2, 6], [1, 3, 6], [3, 5, 6], [2, 3, 5], [1, 2, 5]];
    if s.chance(1, 8) {
        let p = s.perm(6);
        let order = s.perm(10);
        let with_extra = s.chance(1, 2);
        let mut m = Model::new();
        let mut c = SimplicialCplx::new();
        let mut add = |c: &mut SimplicialCplx<String>, v: Vec<usize>| {
            m.attach(&v);
            c.attach(Simplex::from(v.iter().map(|x| x.to_string()).collect()));
        };
        for i in order {
            add(&mut c, RP2[i].iter().map(|&x| p[x - 1]).collect());
        }
        if with_extra {
            add(&mut c, vec![p[0], 10]);
            add(&mut c, vec![10, 11]);
            add(&mut c, vec![11, p[1]]);
        }
        s.nontrivial();
        s.label("projective plane");
        s.note(|| format!("projective plane, vertices {p:?}, extra circle {with_extra}"));
        let want = if with_extra { "dim 0: Z,\ndim 1: Z + Z_2,\n" } else { "dim 0: Z,\ndim 1: Z_2,\n" };
        ensure_eq!(guarded(|| H!(c).to_string())?, want, "homology");
        return Ok(());
    }
    if s.chance(1, 60) {
        // a graph with many independent cycles
        let u = s.usize(6, 12);
        let n = s.usize(15, 60);
        return boundary(s, u, 2, n, true);
    }
    let u = s.size(1, 7, 11);
    let (v, n) = (s.size(1, 4, 5), s.size(1, 9, 24));
    boundary(s, u, v, n, true)
}

// ---------------------------------------------------------------- Laplacians

fn real(m: &Matrix<i64>) -> Matrix<f64> {
    let (r, c) = (**m).size();
    let mut out = Matrix::zero(r, c);
    for i in 0..r {
        for j in 0..c {
            out[(i, j)] = m[(i, j)] as f64;
        }
    }
    out
}

/// the spectrum of a Laplacian by one of the three routines offered
fn spectrum_of(s: &mut Src, lap: &Matrix<f64>) -> Result<Vec<f64>, String> {
    let n = (**lap).size().0;
    let trace: f64 = (0..n).map(|i| lap[(i, i)]).sum();
    let how = s.below(3);
    let m = lap.clone();
    let sp = guarded(|| match how {
        0 => m.spectrum(),
        1 => m.spectrum_symmetric(),
        _ => m.spectrum_with_n_smallest_eigenvecs_symmetric(1).0,
    })?;
    ensure_eq!((*sp).size(), (n, 1), "shape of the spectrum");
    let v: Vec<f64> = (0..n).map(|i| sp[(i, 0)]).collect();
    let tol = 1e-7 * (1.0 + trace);
    ensure!(v.windows(2).all(|w| w[0] <= w[1]), "spectrum {v:?} is not sorted");
    ensure!(v.iter().all(|&x| x > -tol), "a Laplacian got the negative eigenvalue {v:?}");
    ensure!((v.iter().sum::<f64>() - trace).abs() < tol, "eigenvalues {v:?} do not add up to the trace {trace}");
    Ok(v)
}

fn hodge(s: &mut Src) -> Result<(), String> {
    let u = s.size(2, 7, 9);
    let k = s.size(1, 7, 12);
    let m = random_model(s, u, 4, k);
    let (dims, d) = m.standard_boundary();
    if dims.iter().any(|&n| n > 24) {
        return Ok(());
    }
    let mut c: SimplicialCplx<usize> = SimplicialCplx::new();
    for v in &m.attached {
        guarded(|| c.attach(Simplex::from(v.clone())))?;
    }
    s.note(|| format!("attach {:?}", m.attached));
    let ranks: Vec<usize> = (0..=dims.len()).map(|i| if i == 0 || i == dims.len() { 0 } else { rank_q(&d[i]) }).collect();
    let betti: Vec<usize> = (0..dims.len()).map(|i| dims[i] - ranks[i] - ranks[i + 1]).collect();
    s.nontrivial_if(dims.iter().any(|&n| n >= 4) && (betti[0] > 1 || betti.iter().skip(1).any(|&x| x > 0)));
    let b = guarded(|| c.boundary_map())?;
    ensure_eq!(b.len(), dims.len(), "number of boundary maps");
    let mut spectra = vec![];
    for i in 0..dims.len() {
        let lap = guarded(|| {
            let x = &*b[i].0;
            let down = x.transpose() * x;
            if i + 1 < b.len() {
                let y = &*b[i + 1].0;
                down + y * y.transpose()
            } else {
                down
            }
        })?;
        ensure_eq!((*lap).size(), (dims[i], dims[i]), "size of the Laplacian in degree {i}");
        let v = spectrum_of(s, &real(&lap)).map_err(|e| format!("degree {i}: {e}"))?;
        ensure_eq!(v.iter().filter(|x| x.abs() < 1e-6).count(), betti[i], "number of zero eigenvalues in degree {i} of {v:?}");
        spectra.push(v);
    }
    // every non-zero eigenvalue belongs to a pair of neighbouring degrees: the alternating sum of their powers vanishes
    for p in 1..4 {
        let alt: f64 = spectra.iter().enumerate().map(|(i, v)| v.iter().map(|x| x.powi(p)).sum::<f64>() * if i % 2 == 0 { 1.0 } else { -1.0 }).sum();
        let all: f64 = spectra.iter().flatten().map(|x| x.abs().powi(p)).sum();
        ensure!(alt.abs() < 1e-6 * (1.0 + all), "alternating sum of the powers {p} of the eigenvalues is {alt}");
    }
    Ok(())
}

fn graph_spectrum(s: &mut Src) -> Result<(), String> {
    let n = s.size(2, 9, 24);
    let mut edges: Vec<(usize, usize, i64)> = vec![];
    for i in 0..n {
        for j in 0..i {
            if s.chance(1, 3) {
                let w = s.int(1, 4);
                edges.push(if s.bool() { (i, j, w) } else { (j, i, w) });
            }
        }
    }
    if edges.is_empty() {
        return Ok(());
    }
    let order = s.perm(edges.len());
    let edges: Vec<_> = order.into_iter().map(|i| edges[i]).collect();
    s.note(|| format!("weighted edges {edges:?}"));
    let mut uf = UnionFind::new(n);
    let mut used: Vec<usize> = edges.iter().flat_map(|e| [e.0, e.1]).collect();
    used.sort();
    used.dedup();
    edges.iter().for_each(|e| {
        uf.union(e.0, e.1);
    });
    let comps = uf.classes() - (n - used.len());
    s.nontrivial_if(used.len() >= 4 && (comps > 1 || edges.len() >= used.len()));
    let lap = guarded(|| topo_spaces::graph::WeightedSimpleGraph::from(edges.iter().map(|e| (e.0.to_string(), e.1.to_string(), e.2 as f64)).collect()).laplacian())?;
    ensure_eq!((*lap).size(), (used.len(), used.len()), "size of the Laplacian");
    let v = spectrum_of(s, &lap)?;
    ensure_eq!(v.iter().filter(|x| x.abs() < 1e-6).count(), comps, "number of zero eigenvalues of {v:?}, against connected components");
    Ok(())
}

#[allow(unused)]
fn macro_compiles() {
    let _ = simplex!("a", "b");
    let _: BTreeMap<u8, Vector<i64, Gen>> = BTreeMap::new();
}
