//! Configuration spaces of graphs: cube complexes, discrete Morse complexes, flows, edge paths.
use crate::engine::*;
use crate::graph_checks::{adjacency, good_graph, parents, G};
use crate::reference::*;
use crate::topo_checks::{check_cycles, parse_chains};
use alg::lin_alg::Vector;
use std::collections::{BTreeMap, BTreeSet};
use topo_spaces::cubical::{CubicalCplx, Cube, EdgePath, UdnMorseCplx};
use topo_spaces::graph::{CubeFactor, RawSimpleGraph, SimpleGraph};
use topo_spaces::{Complex, IntegralHomology};

const GRAPHS: &str = "the graph is connected, has an edge, and has a leaf or an essential vertex that separates nothing (the code refuses other graphs with an explicit message)";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "random multigraphs with 1-5 (sometimes up to 8) marked points: the printed cells of the cube complex against all sets of pairwise disjoint closed vertices and edges of the subdivided graph; non-trivial = the complex has a cell of dimension at least 2, or a loop or parallel edge in the graph",
            assumptions: &[GRAPHS, "at most 12000 cells"],
            subs: vec![Sub::new("cells", 600, 8000, udc_cells)],
        },
        Prop {
            id: "C02",
            rule: "boundary maps, boundaries of single cubes, ends of edges, integral homology and its printed cycles and boundaries of the cube complex of random multigraphs with 1-5 (sometimes up to 8) marked points, against the definition and against homology computed from an independently enumerated and reduced complex; non-trivial = dimension at least 2 or non-zero first homology",
            assumptions: &[GRAPHS, "at most 1500 cells for boundary maps (9000 for many points on tiny graphs), 400 for homology"],
            subs: vec![Sub::new("boundary map", 250, 3000, udc_boundary), Sub::new("many points", 20, 150, udc_boundary_many), Sub::new("cube boundary", 3000, 40000, cube_boundary), Sub::new("homology", 150, 2000, udc_homology)],
        },
        Prop {
            id: "C03",
            rule: "cells listed by the Morse complex of random multigraphs with 1-5 (sometimes up to 8) marked points, with and without a dimension limit, against the critical cells among all cells of the cube complex; for 4-8 points on larger graphs each listed cell is classified and the Euler characteristic compared with Gal's formula; non-trivial = at least 4 critical cells, 20 for the larger graphs",
            assumptions: &[GRAPHS, "at most 20000 cells in the cube complex, or about 30000 critical cells"],
            subs: vec![Sub::new("critical cells", 800, 10000, morse_cells), Sub::new("large", 900, 10000, morse_large)],
        },
        Prop {
            id: "C04",
            rule: "integral homology, its printed cycles and boundaries, and boundary maps of the Morse complex of random multigraphs with 1-5 (sometimes up to 8) marked points against homology of the independently enumerated cube complex; for 4-8 points on larger graphs, the boundary maps against the flow of the boundary, and their compositions against zero; non-trivial = first homology of rank at least 2, torsion, or second homology; for the larger graphs, at least two boundary maps",
            assumptions: &[GRAPHS, "at most 12000 cells in the cube complex", "an overflow report from the elimination of matrices with more than 15 rows and columns counts as no answer"],
            subs: vec![Sub::new("homology", 600, 8000, morse_homology), Sub::new("large", 200, 3000, morse_maps)],
        },
        Prop {
            id: "C05",
            rule: "the flow of random cells of random configuration spaces against plain iteration of the discrete gradient; non-trivial = the cell is redundant and its flow is not zero",
            assumptions: &[GRAPHS, "at most 20000 cells in the cube complex, or single cells of larger complexes whose flow takes at most 20000 steps"],
            subs: vec![Sub::new("flow", 600, 8000, flow), Sub::new("large", 600, 8000, flow_large)],
        },
        Prop {
            id: "C06",
            rule: "edge paths of critical 1-cells and of configurations in random configuration spaces, words in them and in their inverses, token walks that close up, and random token walks with inserted detours and exchanged independent moves, against simulation of the tokens and an independent normal form; non-trivial = at least 6 moves",
            assumptions: &[GRAPHS, "paths are sequences of legal moves"],
            subs: vec![Sub::new("generators", 500, 6000, generator_paths), Sub::new("large", 150, 2000, large_paths), Sub::new("words", 600, 8000, words), Sub::new("normal form", 4000, 50000, normal_form), Sub::new("token loops", 4000, 50000, token_loops)],
        },
    ]
}

// ---------------------------------------------------------------- reference model

/// vertex v is (v, v), edge [a, b] with a < b is (a, b); a cell is sorted by first component
type F = (usize, usize);
type Cell = Vec<F>;

fn f_of(f: &CubeFactor) -> F {
    match f {
        CubeFactor::Vertex(v) => (*v, *v),
        CubeFactor::Edge([a, b]) => (*a, *b),
    }
}

fn to_f(f: F) -> CubeFactor {
    if f.0 == f.1 {
        CubeFactor::Vertex(f.0)
    } else {
        CubeFactor::Edge([f.0, f.1])
    }
}

fn cell_of(c: &Cube) -> Cell {
    c.iter().map(f_of).collect()
}

fn to_cube(c: &[F]) -> Cube {
    Cube::from(c.iter().map(|&f| to_f(f)).collect::<Vec<_>>())
}

fn show(c: &[F]) -> String {
    format!("{{{}}}", c.iter().map(|&(a, b)| if a == b { a.to_string() } else { format!("[{a} {b}]") }).collect::<Vec<_>>().join(", "))
}

fn dim(c: &[F]) -> usize {
    c.iter().filter(|f| f.0 != f.1).count()
}

fn sorted(mut c: Cell) -> Cell {
    c.sort();
    c
}

pub struct Space {
    n: usize,
    nv: usize,
    edges: BTreeSet<(usize, usize)>,
    par: Vec<Option<usize>>,
    /// all cells of each dimension
    cells: Vec<Vec<Cell>>,
}

impl Space {
    fn read(g: &RawSimpleGraph, n: usize) -> Space {
        let edges = adjacency(g);
        let nv = g.n_vertices();
        let par = parents(nv, &edges);
        Space { n, nv, edges, par, cells: vec![] }
    }

    /// false when there are more than `limit` cells
    fn enumerate(&mut self, limit: usize) -> bool {
        let mut fs: Vec<F> = (0..self.nv).map(|v| (v, v)).chain(self.edges.iter().copied()).collect();
        fs.sort();
        let mut out = vec![vec![]; self.n + 1];
        let mut count = 0;
        let mut cur = vec![];
        fn go(fs: &[F], nv: usize, from: usize, left: usize, used: u128, cur: &mut Cell, out: &mut Vec<Vec<Cell>>, count: &mut usize, limit: usize) -> bool {
            if left == 0 {
                *count += 1;
                out[dim(cur)].push(cur.clone());
                return *count <= limit;
            }
            for i in from..fs.len() {
                // every factor takes a vertex that is still free, and none before the least one of this factor
                if nv - fs[i].0 < left + (used >> fs[i].0).count_ones() as usize {
                    break;
                }
                let m = 1u128 << fs[i].0 | 1u128 << fs[i].1;
                if used & m == 0 {
                    cur.push(fs[i]);
                    let ok = go(fs, nv, i + 1, left - 1, used | m, cur, out, count, limit);
                    cur.pop();
                    if !ok {
                        return false;
                    }
                }
            }
            true
        }
        if self.nv > 128 || !go(&fs, self.nv, 0, self.n, 0, &mut cur, &mut out, &mut count, limit) {
            return false;
        }
        while out.last().map_or(false, |l| l.is_empty()) {
            out.pop();
        }
        self.cells = out;
        true
    }

    fn n_cells(&self) -> usize {
        self.cells.iter().map(|c| c.len()).sum()
    }

    /// facets with signs: alternating over the edges in order, the end nearer the base point counted +
    fn boundary(&self, c: &[F]) -> Vec<(i64, Cell)> {
        let mut out = vec![];
        let mut sign = 1;
        for i in 0..c.len() {
            let (a, b) = c[i];
            if a != b {
                let mut x = c.to_vec();
                x[i] = (a, a);
                out.push((sign, sorted(x.clone())));
                x[i] = (b, b);
                out.push((-sign, sorted(x)));
                sign = -sign;
            }
        }
        out
    }

    fn occupied(&self, c: &[F]) -> Vec<bool> {
        let mut o = vec![false; self.nv];
        for &(a, b) in c {
            o[a] = true;
            o[b] = true;
        }
        o
    }

    /// a vertex of the cell cannot move towards the base point
    fn blocked(&self, v: usize, o: &[bool]) -> bool {
        v == 0 || o[self.par[v].unwrap()]
    }

    /// a tree edge of the cell that gives way to no vertex waiting at its end
    fn respectful(&self, (a, b): F, c: &[F]) -> bool {
        a != b && self.par[b] == Some(a) && !c.iter().any(|&(x, y)| x == y && a < x && x < b && self.par[x] == Some(a))
    }

    /// Farley-Sabalka: the first (by upper end) unblocked vertex or respectful edge decides
    fn class(&self, c: &[F]) -> Class {
        let o = self.occupied(c);
        let mut best: Option<(usize, Class)> = None;
        for (i, &f) in c.iter().enumerate() {
            let k = if f.0 == f.1 {
                if self.blocked(f.0, &o) {
                    continue;
                }
                Class::Redundant(i)
            } else if self.respectful(f, c) {
                Class::Collapsible
            } else {
                continue;
            };
            if best.map_or(true, |b| f.1 < b.0) {
                best = Some((f.1, k));
            }
        }
        best.map_or(Class::Critical, |b| b.1)
    }

    fn critical(&self) -> Vec<Vec<Cell>> {
        self.cells.iter().map(|cs| cs.iter().filter(|c| self.class(c) == Class::Critical).cloned().collect()).collect()
    }

    /// stable value of the gradient flow, by plain iteration of its definition
    fn flow(&self, c: &Cell, memo: &mut BTreeMap<Cell, BTreeMap<Cell, i64>>) -> BTreeMap<Cell, i64> {
        self.flow_within(c, memo, usize::MAX).unwrap()
    }

    /// the same, given up when more than so many cells would be visited
    fn flow_within(&self, c: &Cell, memo: &mut BTreeMap<Cell, BTreeMap<Cell, i64>>, limit: usize) -> Option<BTreeMap<Cell, i64>> {
        if let Some(x) = memo.get(c) {
            return Some(x.clone());
        }
        if memo.len() >= limit {
            return None;
        }
        let out = match self.class(c) {
            Class::Critical => BTreeMap::from([(c.clone(), 1)]),
            Class::Collapsible => BTreeMap::new(),
            Class::Redundant(i) => {
                let mut big = c.clone();
                big[i] = (self.par[c[i].0].unwrap(), c[i].0);
                let b = self.boundary(&sorted(big));
                let own = b.iter().find(|x| x.1 == *c).unwrap().0;
                let mut out: BTreeMap<Cell, i64> = BTreeMap::new();
                for (s, x) in b {
                    if x != *c {
                        for (y, k) in self.flow_within(&x, memo, limit)? {
                            *out.entry(y).or_insert(0) += -own * s * k;
                        }
                    }
                }
                out.retain(|_, k| *k != 0);
                out
            }
        };
        memo.insert(c.clone(), out.clone());
        Some(out)
    }

    fn homology(&self) -> Option<Vec<(usize, Vec<i128>)>> {
        let idx: Vec<BTreeMap<&Cell, usize>> = self.cells.iter().map(|cs| cs.iter().enumerate().map(|(i, c)| (c, i)).collect()).collect();
        let mut d: Vec<Vec<BTreeMap<usize, i128>>> = vec![];
        for k in 0..self.cells.len() {
            d.push(
                self.cells[k]
                    .iter()
                    .map(|c| {
                        let mut col = BTreeMap::new();
                        for (s, x) in self.boundary(c) {
                            *col.entry(idx[k - 1][&x]).or_insert(0) += s as i128;
                        }
                        col
                    })
                    .collect(),
            );
        }
        sparse_homology(d)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Critical,
    Collapsible,
    Redundant(usize),
}

/// Homology of a complex with sparse boundary columns: unit pivots are cancelled in
/// pairs, the rest is handed to the dense computation.
fn sparse_homology(mut d: Vec<Vec<BTreeMap<usize, i128>>>) -> Option<Vec<(usize, Vec<i128>)>> {
    let top = d.len();
    let mut alive: Vec<Vec<bool>> = d.iter().map(|c| vec![true; c.len()]).collect();
    for k in 1..top {
        let mut rows: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); d[k - 1].len()];
        for (j, c) in d[k].iter().enumerate() {
            for &i in c.keys() {
                rows[i].insert(j);
            }
        }
        for j in 0..d[k].len() {
            if !alive[k][j] {
                continue;
            }
            // cheapest unit pivot of the column
            let Some(p) = d[k][j].iter().filter(|x| x.1.abs() == 1).map(|x| *x.0).min_by_key(|&i| rows[i].len()) else { continue };
            let col = d[k][j].clone();
            let u = col[&p];
            let others: Vec<usize> = rows[p].iter().copied().filter(|&x| x != j).collect();
            for o in others {
                let c = d[k][o][&p] * u;
                for (&i, &v) in &col {
                    let e = d[k][o].entry(i).or_insert(0);
                    *e -= c * v;
                    if *e == 0 {
                        d[k][o].remove(&i);
                        rows[i].remove(&o);
                    } else {
                        rows[i].insert(o);
                    }
                }
            }
            for &i in col.keys() {
                rows[i].remove(&j);
            }
            d[k][j].clear();
            alive[k][j] = false;
            alive[k - 1][p] = false;
            if k > 1 {
                d[k - 1][p].clear();
            }
        }
        // cells removed from C_k no longer appear in boundaries of C_{k+1}
        if k + 1 < top {
            let dead = alive[k].clone();
            for c in d[k + 1].iter_mut() {
                c.retain(|i, _| dead[*i]);
            }
        }
    }
    let idx: Vec<Vec<usize>> = alive.iter().map(|a| (0..a.len()).filter(|&i| a[i]).collect()).collect();
    let dims: Vec<usize> = idx.iter().map(|x| x.len()).collect();
    let mut dense = vec![vec![]];
    for k in 1..top {
        dense.push(idx[k - 1].iter().map(|i| idx[k].iter().map(|j| *d[k][*j].get(i).unwrap_or(&0)).collect()).collect());
    }
    homology_z(&dims, &dense)
}

// ---------------------------------------------------------------- generation

/// complete, bipartite, theta, wheel, star, lollipop and barbell graphs, renamed at random
fn named_graph(s: &mut Src) -> G {
    let (kind, k) = (s.below(8), s.usize(2, 5));
    let mut e: Vec<(usize, usize)> = match kind {
        0 => (1..k.max(3)).flat_map(|j| (0..j).map(move |i| (i, j))).collect(),
        1 => (0..3).flat_map(|i| (3..6).map(move |j| (i, j))).collect(),
        2 => (0..k).map(|_| (0, 1)).collect(),
        3 => (1..=k).flat_map(|i| [(0, i), (i, i % k + 1)]).collect(),
        4 => (1..=k).map(|i| (0, i)).collect(),
        5 => (0..k).map(|i| (i, (i + 1) % k)).chain([(0, k), (k, k + 1)]).collect(),
        6 => vec![(0, 0), (0, 1), (1, 1), (1, 2)],
        _ => (0..k).map(|i| (i, i + 1)).chain((0..k).map(|i| (i, i))).collect(),
    };
    for x in e.iter_mut() {
        *x = (x.0.min(x.1), x.0.max(x.1));
    }
    let n = e.iter().map(|x| x.1).max().unwrap() + 1;
    let name = s.perm(n);
    let (mut names, mut edges, mut input) = (vec![], vec![], vec![]);
    let has = |d: usize| d == 1;
    let degree = |v: usize| e.iter().map(|&(a, b)| (a == v) as usize + (b == v) as usize).sum::<usize>();
    let mut all = e.clone();
    if !(0..n).any(|v| has(degree(v))) && s.bool() {
        all.push((s.usize(0, n - 1), n));
    }
    for i in s.perm(all.len()) {
        let (mut a, mut b) = all[i];
        if s.bool() {
            (a, b) = (b, a);
        }
        let mut at = |v: usize| {
            let l = if v == n { "leaf".to_string() } else { format!("v{}", name[v]) };
            names.iter().position(|x| *x == l).unwrap_or_else(|| {
                names.push(l);
                names.len() - 1
            })
        };
        let (ia, ib) = (at(a), at(b));
        edges.push((ia, ib));
        input.push((ia, ib));
    }
    let input = input.into_iter().map(|(a, b): (usize, usize)| (names[a].clone(), names[b].clone())).collect();
    let mut g = G { names, edges, input };
    if !g.has_base_point() {
        g.add_leaf(0);
    }
    g
}

/// a graph with its subdivision and all cells, small enough to enumerate
fn space(s: &mut Src, limit: usize, max_n: usize) -> Option<(G, SimpleGraph, Space)> {
    let many = s.chance(1, 20);
    let n = if many { s.usize(9, 24) } else { s.size(1, max_n, 8) };
    let g = if n <= 5 && s.chance(1, 4) {
        named_graph(s)
    } else if many {
        good_graph(s, 2, 1)
    } else {
        let (v, e) = match n {
            1 | 2 => (6, 10),
            3 => (5, 7),
            4 => (5, 6),
            5 => (4, 5),
            6 => (4, 3),
            _ => (3, 2),
        };
        good_graph(s, v, e)
    };
    s.note(|| format!("{} marked points on {}", n, g.show()));
    let sg = SimpleGraph::subdivided_graph_from(&g.build(), n);
    let mut sp = Space::read(&sg, n);
    if !sp.enumerate(limit) {
        s.label("too large, skipped");
        return None;
    }
    s.label(["1 point", "2 points", "3 points", "4 points", "5 points", "6 to 8 points", "more than 8 points", "more than 20 points"][if n < 6 { n - 1 } else { 5 + (n > 8) as usize + (n > 20) as usize }]);
    s.label_if(g.loops() > 0, "loops");
    Some((g, sg, sp))
}

/// "k-cells: ...\n\t{f, f, }, \n\t{...}" into cells per dimension and the counts printed with them
fn parse_display(text: &str) -> Result<Vec<(String, Vec<Cell>)>, String> {
    let mut out: Vec<(String, Vec<Cell>)> = vec![];
    for line in text.lines() {
        if let Some(l) = line.strip_prefix('\t') {
            let l = l.trim_end().trim_end_matches(',').trim_end();
            let body = l.strip_prefix('{').and_then(|x| x.strip_suffix('}')).ok_or_else(|| format!("unexpected line {line:?}"))?;
            let mut c = vec![];
            for p in body.split(", ").map(|p| p.trim()).filter(|p| !p.is_empty()) {
                let q = p.strip_prefix('[').and_then(|x| x.strip_suffix(']'));
                let f = match q {
                    Some(q) => q.split_once(' ').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))),
                    None => p.parse().ok().map(|v| (v, v)),
                };
                c.push(f.ok_or_else(|| format!("unexpected factor {p:?}"))?);
            }
            out.last_mut().ok_or("cell before header")?.1.push(c);
        } else {
            let want = format!("{}-cells:", out.len());
            let rest = line.strip_prefix(&want).ok_or_else(|| format!("unexpected line {line:?} instead of {want:?}"))?;
            out.push((rest.trim().to_string(), vec![]));
        }
    }
    Ok(out)
}

fn same_cells(got: &[Cell], want: &[Cell], what: &str) -> Result<(), String> {
    let g: BTreeSet<&Cell> = got.iter().collect();
    let w: BTreeSet<&Cell> = want.iter().collect();
    if let Some(c) = g.difference(&w).next() {
        return Err(format!("{what}: {} is listed and should not be", show(c)));
    }
    if let Some(c) = w.difference(&g).next() {
        return Err(format!("{what}: {} is missing", show(c)));
    }
    ensure_eq!(got.len(), want.len(), "{what}: number of listed cells");
    Ok(())
}

// ---------------------------------------------------------------- cube complexes

fn udc_cells(s: &mut Src) -> Result<(), String> {
    let Some((g, _, sp)) = space(s, 12000, 5) else { return Ok(()) };
    s.nontrivial_if(sp.cells.len() > 2 || g.loops() > 0);
    let (n, text) = guarded(|| {
        let c = CubicalCplx::udc(&g.build(), sp.n);
        (c.n_cells(), c.to_string())
    })?;
    ensure_eq!(n, sp.n_cells(), "number of cells");
    let got = parse_display(&text)?;
    ensure_eq!(got.len(), sp.cells.len(), "number of dimensions");
    for (k, (_, cs)) in got.iter().enumerate() {
        same_cells(cs, &sp.cells[k], &format!("{k}-cells"))?;
    }
    Ok(())
}

/// boundary maps against the definition; returns dimensions and matrices
fn check_maps(maps: &[(alg::lin_alg::Matrix<i64>, Vec<Cube>)], sp: &Space) -> Result<(), String> {
    ensure_eq!(maps.len(), sp.cells.len(), "number of boundary maps");
    for (k, (m, basis)) in maps.iter().enumerate() {
        let cells: Vec<Cell> = basis.iter().map(cell_of).collect();
        same_cells(&cells, &sp.cells[k], &format!("basis of degree {k}"))?;
        let (r, c) = (**m).size();
        ensure_eq!(c, cells.len(), "columns in degree {k}");
        if k == 0 {
            ensure!((0..r).all(|i| (0..c).all(|j| m[(i, j)] == 0)), "the map in degree 0 is not zero");
            continue;
        }
        let low: BTreeMap<Cell, usize> = maps[k - 1].1.iter().enumerate().map(|(i, x)| (cell_of(x), i)).collect();
        ensure_eq!(r, low.len(), "rows in degree {k}");
        for (j, x) in cells.iter().enumerate() {
            let mut want = vec![0i64; r];
            for (s, y) in sp.boundary(x) {
                want[low[&y]] += s;
            }
            for i in 0..r {
                ensure_eq!(m[(i, j)], want[i], "coefficient of {} in the boundary of {}", show(&cell_of(&maps[k - 1].1[i])), show(x));
            }
        }
    }
    Ok(())
}

fn udc_boundary(s: &mut Src) -> Result<(), String> {
    let Some((g, _, sp)) = space(s, 1500, 5) else { return Ok(()) };
    s.nontrivial_if(sp.cells.len() > 2);
    let maps = guarded(|| CubicalCplx::udc(&g.build(), sp.n).boundary_map())?;
    check_maps(&maps, &sp)
}

/// larger complexes: many points on very small graphs, so that edges come after many other factors
fn udc_boundary_many(s: &mut Src) -> Result<(), String> {
    let n = s.usize(4, 9);
    let (v, e) = match n {
        4 | 5 => (4, 4),
        6 => (3, 3),
        _ => (3, 2),
    };
    let g = good_graph(s, v, e);
    s.note(|| format!("{} marked points on {}", n, g.show()));
    let sg = SimpleGraph::subdivided_graph_from(&g.build(), n);
    let mut sp = Space::read(&sg, n);
    if !sp.enumerate(9000) {
        s.label("too large, skipped");
        return Ok(());
    }
    s.label(["4 to 5 points", "6 to 9 points"][(n > 5) as usize]);
    s.label_if(sp.n_cells() > 1500, "more than 1500 cells");
    s.nontrivial_if(sp.cells.len() > 2);
    let maps = guarded(|| CubicalCplx::udc(&g.build(), sp.n).boundary_map())?;
    check_maps(&maps, &sp)
}

fn vec_map(v: &Vector<i64, Cube>) -> Result<BTreeMap<Cell, i64>, String> {
    let mut out = BTreeMap::new();
    for (k, c) in v.iter() {
        ensure!(*k != 0, "zero coefficient listed");
        let c = cell_of(c);
        ensure!(c.windows(2).all(|w| w[0].0 < w[1].0), "{} is not sorted", show(&c));
        ensure!(out.insert(c.clone(), *k).is_none(), "{} is listed twice", show(&c));
    }
    Ok(out)
}

fn chain_text(m: &BTreeMap<Cell, i64>) -> String {
    if m.is_empty() {
        return "0".into();
    }
    m.iter().map(|(c, k)| format!("{k:+} {}", show(c))).collect::<Vec<_>>().join(" ")
}

fn cube_boundary(s: &mut Src) -> Result<(), String> {
    // any set of disjoint closed factors will do
    let nv = s.size_huge(2, 14, 40, 70);
    let mut o = s.perm(nv);
    let mut c: Cell = vec![];
    while !o.is_empty() && c.len() < if nv > 40 { 26 } else if nv > 14 { 12 } else { 6 } {
        let a = o.pop().unwrap();
        if !o.is_empty() && s.chance(2, 3) {
            let b = o.pop().unwrap();
            c.push((a.min(b), a.max(b)));
        } else if s.chance(1, 2) {
            c.push((a, a));
        }
    }
    if c.is_empty() {
        c.push((0, 0));
    }
    let c = sorted(c);
    s.note(|| show(&c));
    s.nontrivial_if(dim(&c) >= 2);
    let sp = Space { n: c.len(), nv, edges: BTreeSet::new(), par: vec![], cells: vec![] };
    let sum = |xs: Vec<(i64, Cell)>| {
        let mut m = BTreeMap::new();
        for (k, x) in xs {
            *m.entry(x).or_insert(0) += k;
        }
        m.retain(|_, k| *k != 0);
        m
    };
    let cube = to_cube(&c);
    ensure_eq!(cube.to_string(), show(&c), "printed cube");
    let b = guarded(|| cube.get_boundary())?;
    let got = vec_map(&b)?;
    let want = sum(sp.boundary(&c));
    ensure!(got == want, "boundary of {} is {} instead of {}", show(&c), chain_text(&got), chain_text(&want));
    let bb = guarded(|| b.into_iter().map(|(k, x)| x.get_boundary() * k).sum::<Vector<i64, Cube>>())?;
    ensure!(bb.len() == 0, "the boundary of the boundary of {} is {bb}", show(&c));
    if dim(&c) == 1 {
        let ends = guarded(|| cube.clone().get_ends())?;
        let want: Vec<BTreeSet<F>> = [0, 1].iter().map(|&i| c.iter().map(|&(a, b)| if i == 0 { (a, a) } else { (b, b) }).collect()).collect();
        let got: Vec<BTreeSet<F>> = ends.iter().map(|e| cell_of(e).into_iter().collect()).collect();
        ensure_eq!(got, want, "ends of {}", show(&c));
    } else {
        ensure!(guarded(|| cube.clone().get_ends()).is_err(), "ends of {}, which is not an edge", show(&c));
    }
    Ok(())
}

fn rich(h: &[(usize, Vec<i128>)]) -> bool {
    h.iter().enumerate().any(|(k, (f, t))| !t.is_empty() || (k == 1 && *f >= 2) || (k >= 2 && *f > 0))
}

fn udc_homology(s: &mut Src) -> Result<(), String> {
    let Some((g, _, sp)) = space(s, 400, 4) else { return Ok(()) };
    let Some(h) = sp.homology() else { return Ok(()) };
    s.nontrivial_if(rich(&h));
    let c = guarded(|| CubicalCplx::udc(&g.build(), sp.n))?;
    let got = guarded(|| IntegralHomology::new(&c, None))?;
    ensure_eq!(guarded(|| got.to_string())?, homology_text(&h), "homology of the configuration space");
    let maps = guarded(|| c.boundary_map())?;
    let (z, b) = guarded(|| (got.get_description_of_cycles(), got.get_description_of_boundaries()))?;
    check_generators(&z, &b, &maps, homology_text(&h).lines().count())
}

/// the printed cycles and boundaries generate kernels and images of the boundary maps
fn check_generators(cycles: &str, bounds: &str, maps: &[(alg::lin_alg::Matrix<i64>, Vec<Cube>)], shown: usize) -> Result<(), String> {
    let dims: Vec<usize> = maps.iter().map(|m| m.1.len()).collect();
    let d: Vec<Mx<i128>> = maps.iter().enumerate().map(|(k, (m, _))| if k == 0 { vec![] } else { (0..dims[k - 1]).map(|i| (0..dims[k]).map(|j| m[(i, j)] as i128).collect()).collect() }).collect();
    let names: Vec<BTreeMap<String, usize>> = maps.iter().map(|m| m.1.iter().enumerate().map(|(i, c)| (c.to_string(), i)).collect()).collect();
    let index = |k: usize, g: &str| names.get(k)?.get(g).copied();
    let cycles = parse_chains(cycles, "cycles", &index, &dims)?;
    let bounds = parse_chains(bounds, "boundaries", &index, &dims)?;
    check_cycles(&dims, &d, &cycles, &bounds, shown)
}

// ---------------------------------------------------------------- Morse complexes

fn morse_cells(s: &mut Src) -> Result<(), String> {
    let Some((g, _, sp)) = space(s, 20000, 5) else { return Ok(()) };
    let crit = sp.critical();
    s.nontrivial_if(crit.iter().map(|c| c.len()).sum::<usize>() >= 4);
    let limit = if s.chance(1, 3) { Some(s.usize(0, 4)) } else { None };
    s.note(|| format!("dimension limit {limit:?}"));
    let m = guarded(|| UdnMorseCplx::new(&g.build(), sp.n, limit))?;
    let top = limit.unwrap_or(sp.n).min(sp.n);
    for k in 0..=sp.n + 1 {
        let got: Vec<Cell> = guarded(|| m.get_cells_of_dim(k))?.iter().map(cell_of).collect();
        let want = if k <= top && k < crit.len() { &crit[k][..] } else { &[] };
        same_cells(&got, want, &format!("critical {k}-cells"))?;
    }
    let shown = parse_display(&guarded(|| m.to_string())?)?;
    let last = (0..=top.min(crit.len() - 1)).rev().find(|&k| !crit[k].is_empty()).unwrap_or(0);
    ensure_eq!(shown.len(), last + 1, "number of printed dimensions");
    for (k, (count, cs)) in shown.iter().enumerate() {
        same_cells(cs, &crit[k], &format!("printed {k}-cells"))?;
        ensure_eq!(count, &format!("{} cells in total", crit[k].len()), "printed number of {k}-cells");
    }
    let chi = |c: &Vec<Vec<Cell>>| c.iter().enumerate().map(|(k, x)| if k % 2 == 0 { x.len() as i64 } else { -(x.len() as i64) }).sum::<i64>();
    ensure_eq!(chi(&crit), chi(&sp.cells), "Euler characteristic (the reference is inconsistent)");
    Ok(())
}

fn morse_homology(s: &mut Src) -> Result<(), String> {
    let Some((g, _, sp)) = space(s, 12000, 5) else { return Ok(()) };
    let Some(h) = sp.homology() else { return Ok(()) };
    s.nontrivial_if(rich(&h));
    s.label_if(h.iter().any(|x| !x.1.is_empty()), "torsion");
    let limit = if s.chance(1, 3) { Some(s.usize(1, 4)) } else { None };
    let m = guarded(|| UdnMorseCplx::new(&g.build(), sp.n, limit))?;
    let maps = guarded(|| m.boundary_map())?;
    for k in 1..maps.len() {
        let (a, b) = (&maps[k - 1].0, &maps[k].0);
        let (r, c) = (**b).size();
        ensure_eq!(c, maps[k].1.len(), "columns in degree {k}");
        ensure_eq!(r, maps[k - 1].1.len(), "rows in degree {k}");
        if k > 1 {
            for j in 0..c {
                for i in 0..(**a).size().0 {
                    let x: i64 = (0..r).map(|l| a[(i, l)] * b[(l, j)]).sum();
                    ensure_eq!(x, 0, "composition of boundary maps in degree {k} at {i}, {j}");
                }
            }
        }
    }
    // homology of the boundary maps, computed independently
    let mut d: Vec<Vec<BTreeMap<usize, i128>>> = vec![];
    for (k, (b, _)) in maps.iter().enumerate() {
        let (r, c) = (**b).size();
        d.push((0..c).map(|j| (0..r).filter(|&i| k > 0 && b[(i, j)] != 0).map(|i| (i, b[(i, j)] as i128)).collect()).collect());
    }
    if limit.map_or(true, |d| d >= sp.n) {
        if let Some(x) = sparse_homology(d) {
            ensure_eq!(homology_text(&x), homology_text(&h), "homology of the boundary maps of the Morse complex");
        }
    }
    let large = maps.iter().any(|(b, _)| (**b).size().0.min((**b).size().1) > 15);
    let (text, cycles, bounds) = match guarded(|| {
        let h = IntegralHomology::new(&m, None);
        (h.to_string(), h.get_description_of_cycles(), h.get_description_of_boundaries())
    }) {
        Err(e) if large && e.contains("overflow") => {
            s.label("elimination overflowed, only the boundary maps compared");
            return Ok(());
        }
        x => x?,
    };
    match limit {
        Some(d) if d < sp.n => {
            // the top degree of a truncated complex has no incoming map
            let want = homology_text(&h[..d.min(h.len())]);
            let got: String = text.lines().take(d).map(|l| format!("{l}\n")).collect();
            let strip = |t: &str| {
                let mut l: Vec<&str> = t.lines().collect();
                while l.last().map_or(false, |x| x.ends_with(": 0,")) {
                    l.pop();
                }
                l.join("\n")
            };
            ensure_eq!(strip(&got), strip(&want), "homology below the dimension limit {d}");
        }
        _ => ensure_eq!(text, homology_text(&h), "homology of the configuration space from the Morse complex"),
    }
    check_generators(&cycles, &bounds, &maps, text.lines().count())
}

fn flow(s: &mut Src) -> Result<(), String> {
    let Some((_, sg, sp)) = space(s, 20000, 5) else { return Ok(()) };
    let mut memo = BTreeMap::new();
    for _ in 0..12 {
        let k = s.usize(0, sp.cells.len() - 1);
        let c = s.pick(&sp.cells[k]).clone();
        let want = sp.flow(&c, &mut memo);
        s.nontrivial_if(matches!(sp.class(&c), Class::Redundant(_)) && !want.is_empty());
        let v = guarded(|| to_cube(&c).flow(&sg)).map_err(|e| format!("flow of {}: {e}", show(&c)))?;
        let got = vec_map(&v)?;
        ensure!(got == want, "the flow of {} is {} instead of {}", show(&c), chain_text(&got), chain_text(&want));
        // a chain map: the flow of the boundary is the flowed boundary of the flow
        if k > 0 {
            let (l, r) = guarded(|| {
                let f = |v: Vector<i64, Cube>| v.into_iter().map(|(k, x)| x.flow(&sg) * k).sum::<Vector<i64, Cube>>();
                let l = f(to_cube(&c).get_boundary());
                let r = f(v.clone().into_iter().map(|(k, x)| x.get_boundary() * k).sum::<Vector<i64, Cube>>());
                (l, r)
            })?;
            ensure!(l == r, "flow and boundary do not commute at {}: {l} and {r}", show(&c));
        }
    }
    Ok(())
}

/// a random cell, of few vertices waiting at the base point and many edges
fn random_cell(s: &mut Src, sp: &Space) -> Cell {
    let edges: Vec<(usize, usize)> = sp.edges.iter().copied().collect();
    // edges outside of the tree, or with siblings
    let mut good: Vec<(usize, usize)> = edges.iter().copied().filter(|&(a, b)| sp.par[b] != Some(a) || (a + 1..b).any(|x| sp.par[x] == Some(a))).collect();
    if good.is_empty() {
        good = edges.clone();
    }
    let waiting = s.usize(0, sp.n - 1);
    let mut c: Cell = (0..waiting).map(|v| (v, v)).collect();
    let mut used = sp.occupied(&c);
    let mut tries = 0;
    while c.len() < sp.n {
        tries += 1;
        let f = if tries < 40 && s.chance(3, 4) {
            let from = if s.chance(2, 3) { &good } else { &edges };
            *s.pick(from)
        } else {
            let free: Vec<usize> = (0..sp.nv).filter(|&v| !used[v]).collect();
            let v = *s.pick(&free);
            (v, v)
        };
        if !used[f.0] && !used[f.1] {
            used[f.0] = true;
            used[f.1] = true;
            c.push(f);
            // a vertex waiting for the edge keeps it from collapsing
            if let Some(x) = (f.0 + 1..f.1).find(|&x| sp.par[x] == Some(f.0) && !used[x]) {
                if c.len() < sp.n && sp.par[f.1] == Some(f.0) {
                    used[x] = true;
                    c.push((x, x));
                }
            }
        }
    }
    sorted(c)
}

/// steps a recursion without memory would take, capped
fn flow_steps(sp: &Space, c: &Cell, memo: &mut BTreeMap<Cell, u64>, budget: &mut usize) -> Option<u64> {
    if let Some(x) = memo.get(c) {
        return Some(*x);
    }
    *budget = budget.checked_sub(1)?;
    let mut n = 1u64;
    if let Class::Redundant(i) = sp.class(c) {
        let mut big = c.clone();
        big[i] = (sp.par[c[i].0].unwrap(), c[i].0);
        for (_, x) in sp.boundary(&sorted(big)) {
            if x != *c {
                n = n.saturating_add(flow_steps(sp, &x, memo, budget)?);
            }
        }
    }
    memo.insert(c.clone(), n);
    Some(n)
}

/// cells of spaces too large to enumerate
fn flow_large(s: &mut Src) -> Result<(), String> {
    let many = s.chance(1, 8);
    let n = if many { s.usize(9, 26) } else { s.usize(3, 8) };
    let g = if s.chance(1, 4) {
        named_graph(s)
    } else if many {
        good_graph(s, 4, 4)
    } else {
        good_graph(s, 6, 9)
    };
    s.note(|| format!("{n} marked points on {}", g.show()));
    let sg = SimpleGraph::subdivided_graph_from(&g.build(), n);
    let sp = Space::read(&sg, n);
    s.label_if(n > 20, "more than 20 points");
    if sp.nv < 2 * n {
        return Ok(());
    }
    let (mut memo, mut steps) = (BTreeMap::new(), BTreeMap::new());
    for _ in 0..6 {
        let c = random_cell(s, &sp);
        let mut budget = 8000;
        if flow_steps(&sp, &c, &mut steps, &mut budget).map_or(true, |x| x > 20000) {
            s.label("flow takes too many steps, skipped");
            continue;
        }
        let want = sp.flow(&c, &mut memo);
        s.nontrivial_if(matches!(sp.class(&c), Class::Redundant(_)) && !want.is_empty());
        s.label_if(dim(&c) >= 2 && !want.is_empty(), "cell of dimension at least 2 with non-zero flow");
        let v = guarded(|| to_cube(&c).flow(&sg)).map_err(|e| format!("flow of {}: {e}", show(&c)))?;
        let got = vec_map(&v)?;
        ensure!(got == want, "the flow of {} is {} instead of {}", show(&c), chain_text(&got), chain_text(&want));
    }
    Ok(())
}

/// Gal: the Euler characteristics of the configuration spaces of a graph
fn gal(g: &G, n: usize) -> i128 {
    // product of 1 + (1 - degree) t over the vertices, divided by (1 - t)^edges
    let mut p = vec![0i128; n + 1];
    p[0] = 1;
    for v in 0..g.names.len() {
        let d: i128 = g.edges.iter().map(|e| (e.0 == v) as i128 + (e.1 == v) as i128).sum();
        for k in (1..=n).rev() {
            p[k] += (1 - d) * p[k - 1];
        }
    }
    for _ in &g.edges {
        for k in 1..=n {
            p[k] += p[k - 1];
        }
    }
    p[n]
}

/// a graph with many edges, most of them at few vertices
fn wide_space(s: &mut Src) -> G {
    let (v, k) = (s.usize(2, 6), s.usize(12, 45));
    let hub = s.below(4);
    let mut e: Vec<(usize, usize)> = (1..v).map(|i| (s.usize(0, i - 1), i)).collect();
    let mut n = v;
    for _ in 0..k {
        let a = if s.chance(3, 4) { 0 } else { s.usize(0, v - 1) };
        let b = match hub {
            0 => s.usize(0, v - 1),
            1 if s.chance(1, 2) => s.usize(0, v - 1),
            2 if s.chance(1, 6) => s.usize(0, v - 1),
            _ => {
                n += 1;
                n - 1
            }
        };
        e.push((a.min(b), a.max(b)));
    }
    let name = s.perm(n);
    let (mut names, mut edges): (Vec<String>, Vec<(usize, usize)>) = (vec![], vec![]);
    for i in s.perm(e.len()) {
        let (mut a, mut b) = e[i];
        if s.bool() {
            (a, b) = (b, a);
        }
        let mut at = |v: usize| {
            let l = format!("v{}", name[v]);
            names.iter().position(|x| *x == l).unwrap_or_else(|| {
                names.push(l);
                names.len() - 1
            })
        };
        let (ia, ib) = (at(a), at(b));
        edges.push((ia, ib));
    }
    let input = edges.iter().map(|&(a, b)| (names[a].clone(), names[b].clone())).collect();
    let mut g = G { names, edges, input };
    if !g.has_base_point() {
        g.add_leaf(0);
    }
    g
}

/// graphs and numbers of points whose cells need not be enumerable
fn large_space(s: &mut Src, max_cells: u64) -> Option<(G, usize, SimpleGraph, Space)> {
    let many = s.chance(1, 12);
    let wide = !many && s.chance(1, 8);
    let n = if many {
        s.usize(9, 26)
    } else if wide {
        s.usize(1, 3)
    } else {
        s.usize(4, 8)
    };
    let g = if wide {
        wide_space(s)
    } else if s.chance(1, 3) {
        named_graph(s)
    } else {
        let (v, e) = if many { (4, 3) } else { [(5, 8), (5, 7), (5, 6), (4, 5), (4, 4)][n - 4] };
        good_graph(s, v, e)
    };
    s.note(|| format!("{n} marked points on {}", g.show()));
    // an estimate of the number of critical cells: points are spread over the base and the essential directions
    let b1 = g.edges.len() + 1 - g.names.len();
    let dirs: usize = (0..g.names.len()).map(|v| g.edges.iter().map(|e| (e.0 == v) as usize + (e.1 == v) as usize).sum::<usize>().saturating_sub(1)).sum::<usize>() + b1 + 1;
    let mut c = 1u64;
    for i in 0..n as u64 {
        c = c.saturating_mul(dirs as u64 + i) / (i + 1);
    }
    if c > max_cells {
        s.label("too large, skipped");
        return None;
    }
    let sg = SimpleGraph::subdivided_graph_from(&g.build(), n);
    let sp = Space::read(&sg, n);
    s.label_if(n > 20, "more than 20 points");
    s.label_if(wide, "1 to 3 points on a wide graph");
    Some((g, n, sg, sp))
}

/// critical cells of complexes too large to enumerate, counted by the Euler characteristic
fn morse_large(s: &mut Src) -> Result<(), String> {
    let Some((g, n, _, sp)) = large_space(s, 30000) else { return Ok(()) };
    let m = guarded(|| UdnMorseCplx::new(&g.build(), n, None))?;
    let mut chi = 0i128;
    let mut count = 0;
    let mut listed = vec![];
    for k in 0..=n {
        let cells: Vec<Cell> = guarded(|| m.get_cells_of_dim(k))?.iter().map(cell_of).collect();
        count += cells.len();
        for c in &cells {
            ensure!(c.len() == n && dim(c) == k, "{} listed in dimension {k}", show(c));
            ensure!(c.windows(2).all(|w| w[0].0 < w[1].0), "{} is not sorted", show(c));
            ensure!(c.iter().all(|f| f.0 == f.1 && f.0 < sp.nv || sp.edges.contains(f)), "{} is not in the graph", show(c));
            let mut seen = BTreeSet::new();
            ensure!(c.iter().all(|f| seen.insert(f.0) && (f.0 == f.1 || seen.insert(f.1))), "{} meets itself", show(c));
            ensure!(sp.class(c) == Class::Critical, "{} is not critical", show(c));
        }
        ensure_eq!(cells.iter().collect::<BTreeSet<_>>().len(), cells.len(), "different {k}-cells");
        chi += if k % 2 == 0 { cells.len() as i128 } else { -(cells.len() as i128) };
        listed.push(cells);
    }
    s.nontrivial_if(count >= 20);
    ensure_eq!(chi, gal(&g, n), "Euler characteristic");
    if count <= 4000 {
        let shown = parse_display(&guarded(|| m.to_string())?)?;
        let last = (0..=n).rev().find(|&k| !listed[k].is_empty()).unwrap_or(0);
        ensure_eq!(shown.len(), last + 1, "number of printed dimensions");
        for (k, (text, cs)) in shown.iter().enumerate() {
            same_cells(cs, &listed[k], &format!("printed {k}-cells"))?;
            ensure_eq!(text, &format!("{} cells in total", listed[k].len()), "printed number of {k}-cells");
        }
    }
    Ok(())
}

/// boundary maps of large Morse complexes: the flow of the boundary, composing to zero
fn morse_maps(s: &mut Src) -> Result<(), String> {
    let Some((g, n, _, sp)) = large_space(s, 20000) else { return Ok(()) };
    let limit = if s.bool() { Some(2) } else { None };
    let m = guarded(|| UdnMorseCplx::new(&g.build(), n, limit))?;
    let cells: Vec<Vec<Cell>> = (0..=n).map(|k| guarded(|| m.get_cells_of_dim(k)).map(|v| v.iter().map(cell_of).collect())).collect::<Result<_, String>>()?;
    s.label(if cells.iter().any(|c| c.len() > 400) { "more than 400 cells" } else { "up to 400 cells" });
    if cells.iter().any(|c| c.len() > 1500) {
        s.label("too large, skipped");
        return Ok(());
    }
    let (mut memo, mut steps, mut total) = (BTreeMap::new(), BTreeMap::new(), 0u64);
    let mut budget = 100000;
    for c in cells.iter().flatten() {
        for (_, x) in sp.boundary(c) {
            let Some(k) = flow_steps(&sp, &x, &mut steps, &mut budget) else {
                s.label("flow takes too many steps, skipped");
                return Ok(());
            };
            total = total.saturating_add(k);
        }
    }
    if total > 200000 {
        s.label("flow takes too many steps, skipped");
        return Ok(());
    }
    let maps = guarded(|| m.boundary_map())?;
    s.nontrivial_if(maps.len() > 2);
    s.label_if(cells.iter().map(|c| c.len()).sum::<usize>() > 1024, "more than 1024 cells in all");
    ensure_eq!(maps.len(), 1 + cells.iter().rposition(|c| !c.is_empty()).unwrap(), "number of boundary maps");
    for (k, (_, basis)) in maps.iter().enumerate() {
        same_cells(&basis.iter().map(cell_of).collect::<Vec<_>>(), &cells[k], &format!("basis of degree {k}"))?;
    }
    let mut prev: Option<Vec<BTreeMap<Cell, i64>>> = None;
    for k in 1..maps.len() {
        let (b, basis) = &maps[k];
        let low: Vec<Cell> = maps[k - 1].1.iter().map(cell_of).collect();
        let (r, c) = (**b).size();
        ensure_eq!((r, c), (low.len(), basis.len()), "size of the boundary map in degree {k}");
        let mut now = vec![];
        for j in 0..c {
            let x = cell_of(&basis[j]);
            let got: BTreeMap<Cell, i64> = (0..r).filter(|&i| b[(i, j)] != 0).map(|i| (low[i].clone(), b[(i, j)])).collect();
            let mut want = BTreeMap::new();
            for (sg, y) in sp.boundary(&x) {
                for (z, q) in sp.flow(&y, &mut memo) {
                    *want.entry(z).or_insert(0) += sg * q;
                }
            }
            want.retain(|_, q| *q != 0);
            ensure!(got == want, "the boundary of {} in the Morse complex is {} instead of {}", show(&x), chain_text(&got), chain_text(&want));
            if let Some(p) = &prev {
                let mut bb: BTreeMap<&Cell, i64> = BTreeMap::new();
                for i in 0..r {
                    for (z, q) in &p[i] {
                        *bb.entry(z).or_insert(0) += b[(i, j)] * q;
                    }
                }
                ensure!(bb.values().all(|q| *q == 0), "the boundary of the boundary of {} is not zero", show(&x));
            }
            now.push(got);
        }
        prev = Some(now);
    }
    Ok(())
}

// ---------------------------------------------------------------- edge paths

type Move = [usize; 2];

fn indep(a: &Move, b: &Move) -> bool {
    a[0] != b[0] && a[0] != b[1] && a[1] != b[0] && a[1] != b[1]
}

/// cancel inverse moves separated only by independent ones, then pile into layers
fn reduced(w: &[Move]) -> Vec<BTreeSet<Move>> {
    let mut w = w.to_vec();
    'again: loop {
        for i in 0..w.len() {
            for j in i + 1..w.len() {
                if w[i][0] == w[j][1] && w[i][1] == w[j][0] {
                    w.remove(j);
                    w.remove(i);
                    continue 'again;
                }
                if !indep(&w[i], &w[j]) {
                    break;
                }
            }
        }
        break;
    }
    let mut out: Vec<BTreeSet<Move>> = vec![];
    for m in w {
        let at = (0..out.len()).rev().find(|&i| out[i].iter().any(|x| !indep(x, &m))).map_or(0, |i| i + 1);
        if at == out.len() {
            out.push(BTreeSet::new());
        }
        out[at].insert(m);
    }
    out
}

fn layers(p: &EdgePath) -> Vec<BTreeSet<Move>> {
    p.iter().map(|l| l.iter().copied().collect()).filter(|l: &BTreeSet<Move>| !l.is_empty()).collect()
}

fn word(p: &EdgePath) -> Vec<Move> {
    p.iter().flatten().copied().collect()
}

/// follow the tokens; returns where each starting token ends
fn simulate(start: &[usize], p: &EdgePath, edges: &BTreeSet<(usize, usize)>) -> Result<Vec<usize>, String> {
    let mut at = start.to_vec();
    for l in p.iter() {
        for (i, m) in l.iter().enumerate() {
            ensure!(edges.contains(&(m[0].min(m[1]), m[0].max(m[1]))), "{m:?} is not along an edge");
            ensure!(l[..i].iter().all(|x| indep(x, m)), "moves {l:?} made at once are not independent");
            let t = at.iter().position(|x| *x == m[0]).ok_or_else(|| format!("no token at the start of {m:?}"))?;
            ensure!(!at.contains(&m[1]), "{m:?} moves onto a token");
            at[t] = m[1];
        }
    }
    Ok(at)
}

/// the evaluated permutation of the tokens is `want`
fn perm_is(p: &EdgePath, want: &[usize], what: &str) -> Result<(), String> {
    use alg::non_commutative::permutation::ConstPermutation;
    fn same<const N: usize>(p: &EdgePath, want: &[usize], what: &str) -> Result<(), String> {
        let q: ConstPermutation<N> = guarded(|| p.evaluate_permutation::<N>())?;
        let w: [usize; N] = want.to_vec().try_into().unwrap();
        ensure!(q == ConstPermutation::from(w), "{what}: the tokens end at {want:?}, the evaluated permutation is {q:?}");
        Ok(())
    }
    match want.len() {
        1 => same::<1>(p, want, what),
        2 => same::<2>(p, want, what),
        3 => same::<3>(p, want, what),
        4 => same::<4>(p, want, what),
        5 => same::<5>(p, want, what),
        6 => same::<6>(p, want, what),
        7 => same::<7>(p, want, what),
        8 => same::<8>(p, want, what),
        9 => same::<9>(p, want, what),
        10 => same::<10>(p, want, what),
        11 => same::<11>(p, want, what),
        12 => same::<12>(p, want, what),
        13 => same::<13>(p, want, what),
        14 => same::<14>(p, want, what),
        15 => same::<15>(p, want, what),
        16 => same::<16>(p, want, what),
        17 => same::<17>(p, want, what),
        18 => same::<18>(p, want, what),
        19 => same::<19>(p, want, what),
        20 => same::<20>(p, want, what),
        21 => same::<21>(p, want, what),
        22 => same::<22>(p, want, what),
        23 => same::<23>(p, want, what),
        24 => same::<24>(p, want, what),
        25 => same::<25>(p, want, what),
        26 => same::<26>(p, want, what),
        n => panic!("harness: {n} tokens"),
    }
}

/// checks a path from one configuration to another and that it is in normal form
fn check_path(p: &EdgePath, start: &[usize], end: &BTreeSet<usize>, sp: &Space, what: &str) -> Result<Vec<usize>, String> {
    let at = simulate(start, p, &sp.edges).map_err(|e| format!("{what} {:?}: {e}", p.iter().collect::<Vec<_>>()))?;
    ensure_eq!(&at.iter().copied().collect::<BTreeSet<_>>(), end, "{what}: final configuration");
    let want = reduced(&word(p));
    ensure_eq!(layers(p), want, "{what}: shortest form");
    Ok(at)
}

fn base(n: usize) -> Vec<usize> {
    (0..n).collect()
}

fn generator_paths(s: &mut Src) -> Result<(), String> {
    let Some((g, sg, sp)) = space(s, 20000, 5) else { return Ok(()) };
    let k = sp.cells[0].len() - 1;
    let confs = (0..3).map(|_| sp.cells[0][s.usize(0, k)].clone()).collect();
    edge_paths(s, &g, &sg, &sp, confs, 12)
}

fn large_paths(s: &mut Src) -> Result<(), String> {
    let many = s.chance(1, 12);
    let n = if many { s.usize(9, 26) } else { s.usize(4, 8) };
    let g = if s.chance(1, 4) {
        named_graph(s)
    } else if many {
        good_graph(s, 4, 3)
    } else {
        good_graph(s, 6, 9)
    };
    s.note(|| format!("{n} marked points on {}", g.show()));
    s.label_if(n > 20, "more than 20 points");
    let sg = SimpleGraph::subdivided_graph_from(&g.build(), n);
    let sp = Space::read(&sg, n);
    let confs = (0..2)
        .map(|_| {
            let mut o = s.perm(sp.nv);
            o.truncate(n);
            sorted(o.into_iter().map(|v| (v, v)).collect())
        })
        .collect();
    edge_paths(s, &g, &sg, &sp, confs, 4)
}

fn edge_paths(s: &mut Src, g: &G, sg: &SimpleGraph, sp: &Space, confs: Vec<Cell>, max: usize) -> Result<(), String> {
    let n = sp.n;
    let m = guarded(|| UdnMorseCplx::new(&g.build(), n, Some(1)))?;
    let b: BTreeSet<usize> = base(n).into_iter().collect();
    let mut memo = BTreeMap::new();
    let mut cells = m.get_cells_of_dim(1);
    if cells.len() > max {
        let o = s.perm(cells.len());
        cells = o[..max].iter().map(|&i| cells[i].clone()).collect();
    }
    for c in cells {
        let cell = cell_of(&c);
        let what = format!("path of {}", show(&cell));
        let p = guarded(|| m.factor_pool.get_edge_path(c)).map_err(|e| format!("{what}: {e}"))?;
        s.nontrivial_if(word(&p).len() >= 6);
        let at = check_path(&p, &base(n), &b, sp, &what)?;
        perm_is(&p, &at, &format!("{what}"))?;
        // the loop is the generator of the cell: its 1-chain flows to the cell
        let mut conf: BTreeSet<usize> = b.clone();
        let mut sum: BTreeMap<Cell, i64> = BTreeMap::new();
        let mut all = true;
        for mv in word(&p) {
            conf.remove(&mv[0]);
            let mut e: Cell = conf.iter().map(|&v| (v, v)).collect();
            e.push((mv[0].min(mv[1]), mv[0].max(mv[1])));
            let sign = if mv[0] > mv[1] { 1 } else { -1 };
            match sp.flow_within(&sorted(e), &mut memo, 20000) {
                Some(f) => {
                    for (x, k) in f {
                        *sum.entry(x).or_insert(0) += sign * k;
                    }
                }
                None => {
                    all = false;
                    break;
                }
            }
            conf.insert(mv[1]);
        }
        if !all {
            s.label("class of a loop too expensive to compute");
            continue;
        }
        sum.retain(|_, k| *k != 0);
        ensure!(sum == BTreeMap::from([(cell.clone(), 1)]), "{what}: the loop represents {}", chain_text(&sum));
    }
    // paths between configurations and the base configuration
    for c in confs {
        let pos: Vec<usize> = c.iter().map(|f| f.0).collect();
        let what = format!("path of {}", show(&c));
        let to = guarded(|| sg.get_edge_path_to_from_base_pt(to_cube(&c), true))?;
        check_path(&to, &pos, &b, sp, &format!("{what} to the base"))?;
        let from = guarded(|| sg.get_edge_path_to_from_base_pt(to_cube(&c), false))?;
        check_path(&from, &base(n), &pos.iter().copied().collect(), sp, &format!("{what} from the base"))?;
        let back = guarded(|| to.clone().composed_with(from.clone()).reduce_to_geodesic())?;
        ensure!(layers(&back).is_empty(), "{what}: there and back does not reduce to nothing");
    }
    Ok(())
}

fn words(s: &mut Src) -> Result<(), String> {
    let Some((g, _, sp)) = space(s, 20000, 5) else { return Ok(()) };
    let n = sp.n;
    let m = guarded(|| UdnMorseCplx::new(&g.build(), n, Some(1)))?;
    let gens: Vec<EdgePath> = m.get_cells_of_dim(1).into_iter().take(8).map(|c| guarded(|| m.factor_pool.get_edge_path(c))).collect::<Result<_, _>>()?;
    if gens.is_empty() {
        return Ok(());
    }
    let mut p = EdgePath::trivial_path();
    let mut want = base(n);
    let mut raw: Vec<Move> = vec![];
    let b: BTreeSet<usize> = want.iter().copied().collect();
    ensure!(p.is_empty(), "the trivial path has moves");
    perm_is(&p, &base(n), &format!("permutation of the trivial path"))?;
    let mut log = vec![];
    for _ in 0..s.usize(1, 6) {
        let i = s.usize(0, gens.len() - 1);
        let inv = s.bool();
        log.push(format!("{}{i}", if inv { "-" } else { "" }));
        let q = if inv { guarded(|| gens[i].clone().inverse())? } else { gens[i].clone() };
        if inv {
            ensure_eq!(layers(&q), reduced(&word(&gens[i]).iter().rev().map(|m| [m[1], m[0]]).collect::<Vec<_>>()), "inverse of a path");
        }
        let at = simulate(&base(n), &q, &sp.edges)?;
        want = want.iter().map(|&x| at[x]).collect();
        raw.extend(word(&q));
        p = guarded(|| p.composed_with(q))?;
        ensure_eq!(word(&p), raw, "moves of a composed path");
        if s.chance(1, 3) {
            p = guarded(|| p.reduce_to_geodesic())?;
            raw = word(&p);
        }
    }
    s.note(|| format!("word {}", log.join(" ")));
    s.nontrivial_if(raw.len() >= 6);
    perm_is(&p, &want, &format!("permutation of a product of paths"))?;
    let r = guarded(|| p.clone().reduce_to_geodesic())?;
    check_path(&r, &base(n), &b, &sp, "product of paths")?;
    ensure_eq!(layers(&r), reduced(&raw), "reduced product");
    perm_is(&r, &want, &format!("permutation of a reduced product"))?;
    let i = guarded(|| r.clone().inverse())?;
    let mut inv = vec![0; n];
    want.iter().enumerate().for_each(|(k, &x)| inv[x] = k);
    perm_is(&i, &inv, &format!("permutation of the inverse"))?;
    ensure!(layers(&guarded(|| r.clone().composed_with(i.clone()).reduce_to_geodesic())?).is_empty(), "a path followed by its inverse does not reduce to nothing");
    ensure!(layers(&guarded(|| i.inverse())?) == layers(&r), "inverting twice changes the path");
    Ok(())
}

/// random walks of tokens that start at and return to the base configuration
fn token_loops(s: &mut Src) -> Result<(), String> {
    let nv = s.size(2, 7, 11);
    let mut edges: BTreeSet<(usize, usize)> = (1..nv).map(|v| (s.usize(0, v - 1), v)).collect();
    for _ in 0..s.usize(0, 5) {
        let b = s.usize(1, nv - 1);
        edges.insert((s.usize(0, b - 1), b));
    }
    let n = s.size(1, (nv - 1).min(4), (nv - 1).clamp(5, 8)).min(nv - 1);
    let start = base(n);
    let mut at = start.clone();
    let mut w: Vec<Move> = vec![];
    let go = |at: &mut Vec<usize>, w: &mut Vec<Move>, m: Move| {
        let t = at.iter().position(|x| *x == m[0]).unwrap();
        at[t] = m[1];
        w.push(m);
    };
    let options = |at: &[usize]| -> Vec<Move> { edges.iter().flat_map(|&(a, b)| [[a, b], [b, a]]).filter(|m| at.contains(&m[0]) && !at.contains(&m[1])).collect() };
    for _ in 0..s.usize(0, 24) {
        let opts = options(&at);
        if opts.is_empty() {
            break;
        }
        let m = *s.pick(&opts);
        go(&mut at, &mut w, m);
    }
    // back to the base configuration by a shortest way
    let key = |at: &[usize]| at.iter().fold(0u32, |k, v| k | 1 << v);
    let goal = key(&start);
    let mut from: BTreeMap<u32, Option<(u32, Move)>> = BTreeMap::from([(key(&at), None)]);
    let mut queue = std::collections::VecDeque::from([key(&at)]);
    while let Some(k) = queue.pop_front() {
        if k == goal {
            break;
        }
        let here: Vec<usize> = (0..nv).filter(|v| k >> v & 1 == 1).collect();
        for m in options(&here) {
            let x = k & !(1 << m[0]) | 1 << m[1];
            if let std::collections::btree_map::Entry::Vacant(e) = from.entry(x) {
                e.insert(Some((k, m)));
                queue.push_back(x);
            }
        }
    }
    let mut back = vec![];
    let mut k = goal;
    while let Some((p, m)) = from[&k] {
        back.push(m);
        k = p;
    }
    for m in back.into_iter().rev() {
        go(&mut at, &mut w, m);
    }
    s.note(|| format!("{n} tokens, moves {w:?}"));
    s.nontrivial_if(at != start);
    s.label_if(n > 4, "more than 4 tokens");
    // every grouping of independent neighbours into simultaneous steps is the same path
    let mut steps: Vec<Vec<Move>> = vec![];
    for &m in &w {
        match steps.last_mut() {
            Some(l) if s.chance(2, 3) && l.iter().all(|x| indep(x, &m)) => {
                // the moves of one step come in any order
                let i = s.usize(0, l.len());
                l.insert(i, m)
            }
            _ => steps.push(vec![m]),
        }
    }
    s.label_if(steps.iter().any(|l| l.len() > 2), "three simultaneous moves");
    let p = EdgePath::from(steps.clone());
    ensure_eq!(simulate(&start, &p, &edges)?, at, "the reference disagrees with itself");
    perm_is(&p, &at, &format!("steps {steps:?}"))?;
    perm_is(&EdgePath::from(w.iter().map(|m| vec![*m]).collect::<Vec<_>>()), &at, &format!("moves {w:?}"))?;
    perm_is(&guarded(|| p.clone().reduce_to_geodesic())?, &at, &format!("shortest form of {steps:?}"))?;
    let mut inv = vec![0; n];
    at.iter().enumerate().for_each(|(k, &x)| inv[x] = k);
    perm_is(&guarded(|| p.inverse())?, &inv, &format!("inverse of {steps:?}"))
}

fn normal_form(s: &mut Src) -> Result<(), String> {
    // tokens on a random simple graph
    let nv = s.size(2, 9, 20);
    let mut edges: BTreeSet<(usize, usize)> = (1..nv).map(|v| (s.usize(0, v - 1), v)).collect();
    for _ in 0..s.usize(0, 6) {
        let b = s.usize(1, nv - 1);
        edges.insert((s.usize(0, b - 1), b));
    }
    let n = s.usize(1, (nv - 1).min(if nv > 9 { 9 } else { 4 }));
    let start: Vec<usize> = s.perm(nv)[..n].to_vec();
    let mut at: BTreeSet<usize> = start.iter().copied().collect();
    let mut w: Vec<Move> = vec![];
    for _ in 0..s.size(0, 25, 70) {
        if s.chance(1, 5) && !w.is_empty() {
            // take back the last few moves
            let k = s.usize(1, w.len().min(4));
            for i in 0..k {
                let m = w[w.len() - 1 - 2 * i];
                w.push([m[1], m[0]]);
                at.remove(&m[0]);
                at.remove(&m[1]);
                at.insert(m[0]);
            }
            continue;
        }
        let opts: Vec<Move> = edges.iter().flat_map(|&(a, b)| [[a, b], [b, a]]).filter(|m| at.contains(&m[0]) && !at.contains(&m[1])).collect();
        if opts.is_empty() {
            break;
        }
        let m = *s.pick(&opts);
        at.remove(&m[0]);
        at.insert(m[1]);
        w.push(m);
    }
    let want = reduced(&w);
    s.note(|| format!("tokens at {start:?}, moves {w:?}"));
    s.nontrivial_if(w.len() >= 6);
    s.label_if(want.is_empty() && !w.is_empty(), "reduces to nothing");
    s.label_if(want.iter().any(|l| l.len() > 1), "simultaneous moves");
    // exchange neighbouring independent moves, and group some into one step
    let mut v = w.clone();
    for _ in 0..s.usize(0, 20) {
        if v.len() > 1 {
            let i = s.usize(0, v.len() - 2);
            if indep(&v[i], &v[i + 1]) {
                v.swap(i, i + 1);
            }
        }
    }
    let mut steps: Vec<Vec<Move>> = vec![];
    for m in v {
        match steps.last_mut() {
            Some(l) if s.chance(1, 2) && l.iter().all(|x| indep(x, &m)) => l.push(m),
            _ => steps.push(vec![m]),
        }
    }
    let p = EdgePath::from(steps);
    let end: BTreeSet<usize> = at;
    let r = guarded(|| p.clone().reduce_to_geodesic())?;
    ensure_eq!(layers(&r), want, "shortest form");
    let t = simulate(&start, &r, &edges)?;
    ensure_eq!(t.iter().copied().collect::<BTreeSet<_>>(), end, "final configuration");
    ensure_eq!(t, simulate(&start, &p, &edges)?, "final place of each token");
    ensure_eq!(guarded(|| r.clone().reduce_to_geodesic())?, r, "reducing twice");
    let back = guarded(|| p.clone().inverse())?;
    ensure_eq!(layers(&back), reduced(&w.iter().rev().map(|m| [m[1], m[0]]).collect::<Vec<_>>()), "inverse");
    ensure_eq!(guarded(|| p.clone().composed_with(back).reduce_to_geodesic())?, EdgePath::trivial_path(), "a path followed by its inverse");
    ensure_eq!(guarded(|| EdgePath::trivial_path().composed_with(r.clone()))?, r, "composition with the trivial path");
    Ok(())
}
