//! Graphs: construction, subdivision, maximal trees, mutation, Laplacians.
use crate::engine::*;
use crate::reference::*;
use alg::commutative::Rational;
use alg::lin_alg::ConstVector;
use alg::non_commutative::permutation::{Cycle, Permutation};
use alg::non_commutative::Group;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use topo_spaces::graph::{CubeFactor, Graph, RawSimpleGraph, SimpleGraph, SimpleVertex, WeightedSimpleGraph};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "G01",
            rule: "random connected multigraphs (parallel edges, loops, repeated loops, any vertex naming and edge order; up to 6 vertices and 9 edges, one case in twenty lopsided: paths, stars, bundles of parallel edges or loops with up to 18 edges) with 0-14 marked points: counts against the edge list, and the subdivided graph against the paths it must consist of, compared through vertex labels, positions and printed form; non-trivial = a loop or a parallel edge, or at least 3 edges",
            assumptions: &["the graph is connected, has an edge, and has a leaf or an essential vertex that separates nothing (the code refuses other graphs with an explicit message)"],
            subs: vec![Sub::new("counts", 6000, 60000, counts), Sub::new("subdivision", 4000, 40000, subdivision), Sub::new("embedding", 2000, 20000, embedding)],
        },
        Prop {
            id: "G02",
            rule: "the vertex order and maximal tree chosen for random subdivided multigraphs: depth-first preorder of a spanning tree whose root has tree-degree one, other edges joining ancestors and descendants; iterators, factor predicates and flow against that tree; non-trivial = the graph has a cycle and an essential vertex",
            assumptions: &["as for G01"],
            subs: vec![Sub::new("tree", 5000, 50000, tree), Sub::new("factors", 3000, 30000, factors)],
        },
        Prop {
            id: "G03",
            rule: "histories of adding and removing edges, exchanging vertices and acting by permutations on simple graphs of 1-12 (sometimes up to 36) vertices, compared with a set of pairs after every step (adjacency, degrees, edge lists, connectedness, printing, equality); non-trivial = an exchange or permutation moved an edge",
            assumptions: &["vertex pairs are given in increasing order", "connectedness is asked for at least two vertices"],
            subs: vec![Sub::new("history", 6000, 60000, raw_history), Sub::new("action", 4000, 40000, raw_action)],
        },
        Prop {
            id: "G04",
            rule: "weighted simple graphs given as edge lists in random order and orientation over integers and fractions: symmetric weight matrix, vertex list, Laplacian; non-trivial = at least 3 edges",
            assumptions: &["no loops, at most one edge per pair"],
            subs: vec![Sub::new("laplacian", 30000, 60000, laplacian)],
        },
    ]
}

// ---------------------------------------------------------------- generation

pub struct G {
    /// vertex names in order of first appearance
    pub names: Vec<String>,
    /// edges as indices into names
    pub edges: Vec<(usize, usize)>,
    pub input: Vec<(String, String)>,
}

impl G {
    pub fn build(&self) -> Graph<i64> {
        Graph::from(self.input.clone())
    }
    pub fn show(&self) -> String {
        self.input.iter().map(|(a, b)| format!("{a}-{b}")).collect::<Vec<_>>().join(" ")
    }
    pub fn loops(&self) -> usize {
        self.edges.iter().filter(|(a, b)| a == b).count()
    }
    pub fn add_leaf(&mut self, v: usize) {
        let leaf = "leaf".to_string();
        self.names.push(leaf.clone());
        self.edges.push((v, self.names.len() - 1));
        self.input.push((self.names[v].clone(), leaf));
    }
    pub fn degree(&self, v: usize) -> usize {
        self.edges.iter().map(|&(a, b)| (a == v) as usize + (b == v) as usize).sum()
    }
    /// a leaf, or an essential vertex whose removal leaves one piece
    pub fn has_base_point(&self) -> bool {
        (0..self.names.len()).any(|v| {
            let d = self.degree(v);
            if d == 1 {
                return true;
            }
            if d < 3 {
                return false;
            }
            let loops = self.edges.iter().filter(|&&(a, b)| a == v && b == v).count();
            let mut u = UnionFind::new(self.names.len());
            for &(a, b) in &self.edges {
                if a != v && b != v {
                    u.union(a, b);
                }
            }
            loops + u.classes() - 1 <= 1
        })
    }
}

/// connected multigraph
pub fn rand_graph(s: &mut Src, max_v: usize, max_e: usize, simple: bool) -> G {
    let n = s.usize(1, max_v);
    let mut e: Vec<(usize, usize)> = (1..n).map(|v| (s.usize(0, v - 1), v)).collect();
    let room = max_e.saturating_sub(e.len());
    let extra = s.usize(if n == 1 { 1 } else { 0 }, room.max(1));
    for _ in 0..extra {
        let (a, b) = (s.usize(0, n - 1), s.usize(0, n - 1));
        let (a, b) = if a == b && n > 1 && s.chance(1, 2) { (a, (a + 1) % n) } else { (a, b) };
        let p = (a.min(b), a.max(b));
        if simple && (a == b || e.contains(&p)) {
            continue;
        }
        e.push(p);
    }
    dress(s, n, e)
}

/// mostly `rand_graph`; one case in twenty is lopsided: a long path, a high-degree vertex,
/// or many parallel edges or loops in one place
pub fn wide_graph(s: &mut Src, max_v: usize, max_e: usize) -> G {
    if !s.chance(1, 20) {
        return rand_graph(s, max_v, max_e, false);
    }
    let kind = s.below(4);
    let mut e: Vec<(usize, usize)>;
    let n;
    match kind {
        0 => {
            n = s.usize(2, 18);
            e = (1..n).map(|v| (v - 1, v)).collect();
        }
        1 => {
            n = s.usize(2, 16);
            e = (1..n).map(|v| (0, v)).collect();
        }
        2 => {
            n = s.usize(2, 4);
            e = (1..n).map(|v| (s.usize(0, v - 1), v)).collect();
            let x = *s.pick(&e);
            e.extend(vec![x; s.usize(1, 14)]);
        }
        _ => {
            n = s.usize(1, 4);
            e = (1..n).map(|v| (s.usize(0, v - 1), v)).collect();
            let x = s.usize(0, n - 1);
            e.extend(vec![(x, x); s.usize(1, 14)]);
        }
    }
    for _ in 0..s.usize(0, 4) {
        let (a, b) = (s.usize(0, n - 1), s.usize(0, n - 1));
        e.push((a.min(b), a.max(b)));
    }
    dress(s, n, e)
}

/// random names, order and orientation
fn dress(s: &mut Src, n: usize, e: Vec<(usize, usize)>) -> G {
    let name = s.perm(n);
    let order = s.perm(e.len());
    let prefix = *s.pick(&["v", "", "x y"]);
    let mut names: Vec<String> = vec![];
    let mut edges = vec![];
    let mut input = vec![];
    for i in order {
        let (mut a, mut b) = e[i];
        if s.bool() {
            (a, b) = (b, a);
        }
        let mut at = |v: usize, names: &mut Vec<String>| {
            let l = format!("{prefix}{}", name[v]);
            match names.iter().position(|x| *x == l) {
                Some(i) => i,
                None => {
                    names.push(l);
                    names.len() - 1
                }
            }
        };
        let ia = at(a, &mut names);
        let ib = at(b, &mut names);
        edges.push((ia, ib));
        input.push((names[ia].clone(), names[ib].clone()));
    }
    G { names, edges, input }
}

/// a graph the configuration-space code accepts
pub fn good_graph(s: &mut Src, max_v: usize, max_e: usize) -> G {
    let g = rand_graph(s, max_v, max_e.saturating_sub(1).max(1), false);
    with_base_point(s, g)
}
fn good_wide_graph(s: &mut Src, max_v: usize, max_e: usize) -> G {
    let g = wide_graph(s, max_v, max_e.saturating_sub(1).max(1));
    with_base_point(s, g)
}
fn with_base_point(s: &mut Src, mut g: G) -> G {
    if !g.has_base_point() {
        s.label("leaf added to give a base point");
        let v = s.usize(0, g.names.len() - 1);
        g.add_leaf(v);
    }
    g
}

/// adjacency read through the public interface
pub fn adjacency(g: &RawSimpleGraph) -> BTreeSet<(usize, usize)> {
    let n = g.n_vertices();
    (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).filter(|&(i, j)| g.contains(i, j)).collect()
}

/// tree parent of each vertex: its largest smaller neighbour
pub fn parents(n: usize, e: &BTreeSet<(usize, usize)>) -> Vec<Option<usize>> {
    (0..n).map(|v| e.iter().filter(|x| x.1 == v).map(|x| x.0).max()).collect()
}

fn counts(s: &mut Src) -> Result<(), String> {
    let g = wide_graph(s, 6, 10);
    s.note(|| g.show());
    s.nontrivial_if(g.edges.len() >= 3);
    let loops = g.loops();
    let kinds: BTreeSet<(usize, usize)> = g.edges.iter().filter(|(a, b)| a != b).map(|&(a, b)| (a.min(b), a.max(b))).collect();
    s.label_if(g.edges.iter().enumerate().any(|(i, e)| e.0 == e.1 && g.edges[..i].contains(e)), "repeated loop");
    s.label_if(kinds.len() < g.edges.len() - loops, "parallel edges");
    let got = guarded(|| {
        let x = g.build();
        (x.n_vertices(), x.n_non_loop_edges(), x.n_non_loop_edges_up_to_multiplicity(), x.n_loops())
    })?;
    ensure_eq!(got, (g.names.len(), g.edges.len() - loops, kinds.len(), loops), "(vertices, non-loop edges, pairs joined, loops)");
    Ok(())
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Place {
    Old(String),
    /// unordered end labels, number of the parallel edge, position from the first end in lowest terms
    Mid(String, String, usize, (i128, i128)),
}

fn text_of(v: &SimpleVertex) -> String {
    v.to_string()
}

fn place(v: &SimpleVertex) -> Place {
    match v {
        SimpleVertex::Essential(l) => Place::Old(l.clone()),
        SimpleVertex::Redundant(r) => {
            let (n, d) = (r.pos.get_numerator() as i128, r.pos.get_denominator() as i128);
            let q = Q::new(n, d);
            if r.start <= r.end {
                Place::Mid(r.start.clone(), r.end.clone(), r.direction, (q.n, q.d))
            } else {
                let q = Q::int(1).sub(q);
                Place::Mid(r.end.clone(), r.start.clone(), r.direction, (q.n, q.d))
            }
        }
    }
}

fn subdivided(g: &G, n: usize) -> Result<SimpleGraph, String> {
    guarded(|| if n == usize::MAX { SimpleGraph::from(&g.build()) } else { SimpleGraph::subdivided_graph_from(&g.build(), n) })
}

fn subdivision(s: &mut Src) -> Result<(), String> {
    let g = good_wide_graph(s, 6, 9);
    let n = if s.chance(1, 8) { usize::MAX } else { s.size(0, 6, 14) };
    s.note(|| format!("{}, marked points {n}", g.show()));
    let loops = g.loops();
    s.nontrivial_if(g.edges.len() >= 3 || loops > 0);
    s.label_if(loops > 0, "loops");
    let sg = subdivided(&g, n)?;
    let m = if n == usize::MAX { 2 } else { n.max(2) };
    let mid_plain = (m - 2).max(1);
    let mid_loop = m;
    ensure_eq!(sg.n_vertices(), g.names.len() + (g.edges.len() - loops) * mid_plain + loops * mid_loop, "number of vertices");
    ensure_eq!((*sg).n_vertices(), sg.n_vertices(), "number of vertices of the underlying graph");
    ensure_eq!(sg.n_essential_vertices(), g.names.len(), "number of original vertices");
    ensure_eq!(sg.vertices_list().len(), sg.n_vertices(), "length of the vertex list");

    // number the parallel edges of each pair in order of appearance
    let mut want_edges: BTreeSet<(Place, Place)> = BTreeSet::new();
    let mut want_places: BTreeSet<Place> = g.names.iter().map(|l| Place::Old(l.clone())).collect();
    let mut mult: BTreeMap<(String, String), usize> = BTreeMap::new();
    let norm = |a: Place, b: Place| if a <= b { (a, b) } else { (b, a) };
    for &(a, b) in &g.edges {
        let (mut x, mut y) = (g.names[a].clone(), g.names[b].clone());
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        let k = mult.entry((x.clone(), y.clone())).or_insert(0);
        let mids = if a == b { mid_loop } else { mid_plain };
        let mut prev = Place::Old(x.clone());
        for i in 1..=mids {
            let q = Q::new(i as i128, mids as i128 + 1);
            let p = Place::Mid(x.clone(), y.clone(), *k, (q.n, q.d));
            want_places.insert(p.clone());
            want_edges.insert(norm(prev, p.clone()));
            prev = p;
        }
        want_edges.insert(norm(prev, Place::Old(y.clone())));
        *k += 1;
    }
    let places: Vec<Place> = sg.vertices_list().iter().map(place).collect();
    let set: BTreeSet<Place> = places.iter().cloned().collect();
    ensure_eq!(set, want_places, "places of the vertices");
    ensure_eq!(set.len(), places.len(), "number of distinct places");
    let adj = adjacency(&sg);
    let got: BTreeSet<(Place, Place)> = adj.iter().map(|&(i, j)| norm(places[i].clone(), places[j].clone())).collect();
    ensure_eq!(got, want_edges, "edges between places");
    ensure_eq!(sg.n_edges(), want_edges.len(), "number of edges");
    for (i, v) in sg.vertices_list().iter().enumerate() {
        ensure!(&sg[i] == v, "indexing disagrees with the vertex list at {i}");
    }
    // printed form
    let text = guarded(|| sg.to_string())?;
    let mut lines = text.lines();
    let vs = sg.vertices_list().iter().map(text_of).collect::<Vec<_>>().join(", ");
    ensure_eq!(lines.next().unwrap_or(""), format!("vertices: {vs}"), "printed vertices");
    let e = lines.next().unwrap_or("").to_string();
    let shown: Vec<(usize, usize)> = sg.edge_iter().map(|f| (f.edge()[0], f.edge()[1])).collect();
    let want = shown.iter().map(|&(i, j)| format!("[{}, {}]", sg[i], sg[j])).collect::<Vec<_>>().join(", ");
    ensure_eq!(e, format!("edges: {want}"), "printed edges");
    for v in sg.vertices_list() {
        if let SimpleVertex::Redundant(r) = v {
            let want = format!("({})({}, {}){}", r.pos, r.start, r.end, if r.direction > 0 { r.direction.to_string() } else { String::new() });
            ensure_eq!(v.to_string(), want, "printed vertex");
        } else if let SimpleVertex::Essential(l) = v {
            ensure_eq!(&v.to_string(), l, "printed vertex");
        }
    }
    Ok(())
}

fn embedding(s: &mut Src) -> Result<(), String> {
    let g = good_wide_graph(s, 5, 7);
    let n = s.size(1, 5, 14);
    let coords: Vec<[i64; 2]> = g.names.iter().map(|_| [s.int(-50, 50), s.int(-50, 50)]).collect();
    s.note(|| format!("{}, marked points {n}, coordinates {coords:?}", g.show()));
    s.nontrivial_if(g.edges.len() >= 3);
    let sg = subdivided(&g, n)?;
    let m = n.max(2);
    let at = |l: &str| {
        let c = coords[g.names.iter().position(|x| x == l).unwrap()];
        [c[0] as f64, c[1] as f64]
    };
    let emb: HashMap<String, ConstVector<f64, 2>> = g.names.iter().zip(&coords).map(|(l, c)| (l.clone(), ConstVector::from([c[0] as f64, c[1] as f64]))).collect();
    let out = guarded(|| sg.modify_embedding(emb))?;
    ensure_eq!(out.len(), sg.n_vertices(), "number of embedded vertices");
    for v in sg.vertices_list() {
        let p = out.get(v).ok_or_else(|| format!("{v} is missing from the embedding"))?;
        let want = match place(v) {
            Place::Old(l) => at(&l),
            Place::Mid(a, b, _, (n, d)) => {
                let (x, y, t) = (at(&a), at(&b), n as f64 / d as f64);
                [x[0] + (y[0] - x[0]) * t, x[1] + (y[1] - x[1]) * t]
            }
        };
        for i in 0..2 {
            ensure!((p[i] - want[i]).abs() < 1e-9, "{v} is placed at ({}, {}) instead of {want:?}", p[0], p[1]);
        }
    }
    // consecutive vertices of an edge are equally spaced
    for (i, j) in adjacency(&sg) {
        let (p, q) = (out[&sg[i]], out[&sg[j]]);
        let (a, b, mids) = match (place(&sg[i]), place(&sg[j])) {
            (Place::Mid(a, b, ..), _) | (_, Place::Mid(a, b, ..)) => (a.clone(), b.clone(), if a == b { m } else { (m - 2).max(1) }),
            _ => return Err("two original vertices are adjacent".into()),
        };
        let (x, y) = (at(&a), at(&b));
        let full = ((x[0] - y[0]).powi(2) + (x[1] - y[1]).powi(2)).sqrt();
        let len = ((p[0] - q[0]).powi(2) + (p[1] - q[1]).powi(2)).sqrt();
        ensure!((len - full / (mids as f64 + 1.0)).abs() < 1e-9, "the piece {}..{} has length {len}, the whole edge {full} has {} pieces", sg[i], sg[j], mids + 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- maximal trees

fn tree(s: &mut Src) -> Result<(), String> {
    let g = good_wide_graph(s, 6, 10);
    let n = s.size(1, 5, 12);
    s.note(|| format!("{}, marked points {n}", g.show()));
    let sg = subdivided(&g, n)?;
    let nv = sg.n_vertices();
    let e = adjacency(&sg);
    let par = parents(nv, &e);
    s.nontrivial_if(e.len() >= nv && (0..g.names.len()).any(|v| g.degree(v) > 2));
    ensure!(sg.is_maximal_tree_chosen, "no tree is chosen");
    // reported tree edges
    let t: BTreeSet<(usize, usize)> = (0..nv).flat_map(|j| (0..j).map(move |i| (i, j))).filter(|&(i, j)| sg.maximal_tree_contains([i, j])).collect();
    let want: BTreeSet<(usize, usize)> = (1..nv).filter_map(|v| par[v].map(|p| (p, v))).collect();
    ensure_eq!(t, want, "tree edges");
    ensure_eq!(t.len(), nv - 1, "number of tree edges");
    // depth-first preorder: the parent of v lies on the path from v-1 to the root
    let ancestors = |v: usize| {
        let mut out = vec![v];
        let mut x = v;
        while let Some(p) = par[x] {
            out.push(p);
            x = p;
        }
        out
    };
    for v in 1..nv {
        let p = par[v].ok_or_else(|| format!("vertex {v} has no smaller neighbour"))?;
        ensure!(ancestors(v - 1).contains(&p), "the order is not a depth-first order at {v}");
    }
    for &(i, j) in &e {
        ensure!(ancestors(j).contains(&i), "the edge [{i}, {j}] does not join an ancestor and a descendant");
    }
    let tdeg = |v: usize| t.iter().filter(|x| x.0 == v || x.1 == v).count();
    ensure_eq!(tdeg(0), 1, "degree of the base point in the tree");
    for v in 0..nv {
        ensure_eq!(sg.degree_in_maximal_tree(v), tdeg(v), "degree of {v} in the tree");
        ensure_eq!(sg.degree_of(v), e.iter().filter(|x| x.0 == v || x.1 == v).count(), "degree of {v}");
    }
    Ok(())
}

pub fn closure(f: &CubeFactor) -> Vec<usize> {
    match f {
        CubeFactor::Vertex(v) => vec![*v],
        CubeFactor::Edge([a, b]) => vec![*a, *b],
    }
}

fn factors(s: &mut Src) -> Result<(), String> {
    let g = good_wide_graph(s, 5, 8);
    let n = s.size(1, 4, 8);
    s.note(|| format!("{}, marked points {n}", g.show()));
    let sg = subdivided(&g, n)?;
    let raw: &RawSimpleGraph = &sg;
    let nv = sg.n_vertices();
    let e = adjacency(raw);
    let par = parents(nv, &e);
    s.nontrivial_if(e.len() >= nv && (0..g.names.len()).any(|v| g.degree(v) > 2));
    // iterators
    let order: Vec<CubeFactor> = {
        let mut x: Vec<(usize, usize)> = e.iter().copied().collect();
        x.sort_by_key(|&(i, j)| (j, std::cmp::Reverse(i)));
        x.into_iter().map(|(i, j)| CubeFactor::Edge([i, j])).collect()
    };
    let vs: Vec<CubeFactor> = (0..nv).map(CubeFactor::Vertex).collect();
    ensure_eq!(raw.edge_iter().collect::<Vec<_>>(), order, "edges in order");
    ensure_eq!(raw.vertex_iter().collect::<Vec<_>>(), vs, "vertices in order");
    let all: Vec<CubeFactor> = vs.iter().chain(&order).copied().collect();
    ensure_eq!(raw.iter().collect::<Vec<_>>(), all, "cells in order");
    for &f in &all {
        match f {
            CubeFactor::Vertex(v) => {
                ensure!(f.is_vertex() && !f.is_edge() && f.vertex() == v && f.get_order() == v, "predicates of {f}");
                ensure!(f.is_in_maximal_tree(raw), "{f} is not in the tree");
                ensure_eq!(f.to_string(), v.to_string(), "printed vertex");
                ensure!(guarded(|| f.edge()).is_err(), "{f} can be read as an edge");
                if v > 0 {
                    ensure_eq!(guarded(|| f.flow(raw))?, CubeFactor::Edge([par[v].unwrap(), v]), "flow of {f}");
                } else {
                    ensure!(guarded(|| f.flow(raw)).is_err(), "the base point flows");
                }
            }
            CubeFactor::Edge([a, b]) => {
                ensure!(f.is_edge() && !f.is_vertex() && f.edge() == [a, b] && f.get_order() == a, "predicates of {f}");
                ensure!(f.terminal() == CubeFactor::Vertex(a) && f.initial() == CubeFactor::Vertex(b), "ends of {f}");
                ensure_eq!(f.is_in_maximal_tree(raw), par[b] == Some(a), "{f} in the tree");
                ensure_eq!(f.is_order_respecting(), b - a == 1, "{f} order respecting");
                ensure_eq!(f.to_string(), format!("[{a} {b}]"), "printed edge");
                ensure!(guarded(|| f.vertex()).is_err(), "{f} can be read as a vertex");
                for v in 0..nv {
                    ensure_eq!(CubeFactor::Vertex(v).is_disrespected_by(f, raw), a < v && v < b && par[v] == Some(a), "{v} disrespected by {f}");
                }
            }
        }
    }
    for _ in 0..30 {
        let (x, y) = (*s.pick(&all), *s.pick(&all));
        let disjoint = closure(&x).iter().all(|v| !closure(&y).contains(v));
        ensure_eq!(x.is_disjoint_from(y), disjoint, "{x} disjoint from {y}");
        let want = if x == y {
            Some(std::cmp::Ordering::Equal)
        } else if !disjoint {
            None
        } else {
            Some(x.get_order().cmp(&y.get_order()))
        };
        ensure_eq!(x.partial_cmp(&y), want, "order of {x} and {y}");
        // blocking
        let v = s.usize(0, nv - 1);
        let fs: Vec<CubeFactor> = (0..s.size_huge(0, 4, 12, 50)).map(|_| *s.pick(&all)).collect();
        let want = v == 0 || fs.iter().any(|f| closure(f).contains(&par[v].unwrap()));
        ensure_eq!(guarded(|| CubeFactor::Vertex(v).is_blocked(&fs, raw))?, want, "{v} blocked by {fs:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- raw graphs

fn rand_pair(s: &mut Src, n: usize) -> (usize, usize) {
    let j = s.usize(1, n - 1);
    (s.usize(0, j - 1), j)
}

fn compare_raw(g: &RawSimpleGraph, m: &BTreeSet<(usize, usize)>, n: usize, what: &str) -> Result<(), String> {
    ensure_eq!(g.n_vertices(), n, "number of vertices after {what}");
    ensure_eq!(adjacency(g), *m, "edges after {what}");
    ensure_eq!(g.n_edges(), m.len(), "number of edges after {what}");
    for v in 0..n {
        let nb: Vec<usize> = (0..n).filter(|&w| m.contains(&(v.min(w), v.max(w)))).collect();
        ensure_eq!(g.adjacent_vertices_iter(v).collect::<Vec<_>>(), nb, "neighbours of {v} after {what}");
        ensure_eq!(g.get_adjacent_vertices(v), nb, "neighbours of {v} after {what}");
        ensure_eq!(g.degree_of(v), nb.len(), "degree of {v} after {what}");
    }
    let listed: Vec<(usize, usize)> = guarded(|| g.edge_iter().map(|f| (f.edge()[0], f.edge()[1])).collect())?;
    let mut want: Vec<(usize, usize)> = m.iter().copied().collect();
    want.sort_by_key(|&(i, j)| (j, std::cmp::Reverse(i)));
    ensure_eq!(listed, want, "edge list after {what}");
    if n >= 2 {
        let mut u = UnionFind::new(n);
        for &(i, j) in m {
            u.union(i, j);
        }
        ensure_eq!(guarded(|| g.is_connected())?, u.classes() == 1, "connectedness after {what}");
    }
    let text: String = (1..n).map(|j| (0..j).map(|i| if m.contains(&(i, j)) { '1' } else { '0' }).chain(['\n']).collect::<String>()).collect();
    ensure_eq!(g.to_string(), text, "printed form after {what}");
    // the debug form has one line per vertex, with the later neighbours marked from the diagonal on
    let text: String = (0..n)
        .map(|i| format!("{}{i:>2}{}\n", "  ".repeat(i), (i + 1..n).map(|j| if m.contains(&(i, j)) { " +" } else { "  " }).collect::<String>()))
        .collect();
    ensure_eq!(format!("{g:?}"), text, "debug form after {what}");
    Ok(())
}

fn relabel(m: &BTreeSet<(usize, usize)>, p: &[usize]) -> BTreeSet<(usize, usize)> {
    m.iter().map(|&(i, j)| (p[i].min(p[j]), p[i].max(p[j]))).collect()
}

/// a permutation of 0..n as disjoint cycles
fn rand_perm(s: &mut Src, n: usize) -> (Permutation, Vec<usize>) {
    let img = s.perm(n);
    let mut seen = vec![false; n];
    let mut cycles = vec![];
    for i in 0..n {
        let mut c = vec![];
        let mut x = i;
        while !seen[x] {
            seen[x] = true;
            c.push(x);
            x = img[x];
        }
        if c.len() > 1 {
            cycles.push(Cycle::from(c));
        }
    }
    let p = if cycles.is_empty() { Permutation::identity() } else { Permutation::from_disjoint_cycles(cycles) };
    (p, img)
}

fn raw_history(s: &mut Src) -> Result<(), String> {
    let n = s.size(1, 12, 75);
    let mut g = guarded(|| RawSimpleGraph::new(n))?;
    let mut m = BTreeSet::new();
    let mut log = vec![];
    compare_raw(&g, &m, n, "creation")?;
    if n < 2 {
        return Ok(());
    }
    for _ in 0..s.size(1, 25, 80) {
        let (i, j) = rand_pair(s, n);
        let before = m.clone();
        let what = match s.below(8) {
            0 => {
                guarded(|| g.remove_edge(i, j))?;
                m.remove(&(i, j));
                format!("remove {i} {j}")
            }
            1 | 2 => {
                guarded(|| g.swap(i, j))?;
                let mut p: Vec<usize> = (0..n).collect();
                p.swap(i, j);
                m = relabel(&m, &p);
                s.nontrivial_if(m != before);
                format!("swap {i} {j}")
            }
            3 => {
                let (p, img) = guarded(|| rand_perm(s, n))?;
                let text = p.to_string();
                guarded(|| g <<= p)?;
                m = relabel(&m, &img);
                s.nontrivial_if(m != before);
                format!("act {text}")
            }
            _ => {
                guarded(|| g.add_edge(i, j))?;
                m.insert((i, j));
                format!("add {i} {j}")
            }
        };
        log.push(what);
        if let Err(e) = compare_raw(&g, &m, n, log.last().unwrap()) {
            s.note(|| format!("{n} vertices: {}", log.join(", ")));
            return Err(e);
        }
    }
    s.note(|| format!("{n} vertices: {}", log.join(", ")));
    let mut h = RawSimpleGraph::new(n);
    for &(i, j) in &m {
        h.add_edge(i, j);
    }
    ensure!(h == g, "the same edges in the same graph compare unequal");
    let (i, j) = rand_pair(s, n);
    if m.contains(&(i, j)) {
        h.remove_edge(i, j)
    } else {
        h.add_edge(i, j)
    }
    ensure!(h != g, "graphs with different edges compare equal");
    Ok(())
}

fn raw_action(s: &mut Src) -> Result<(), String> {
    let n = s.size(2, 10, 75);
    let mut g = RawSimpleGraph::new(n);
    for _ in 0..s.size(1, 20, 80) {
        let (i, j) = rand_pair(s, n);
        g.add_edge(i, j);
    }
    let m = adjacency(&g);
    let (p, pi) = guarded(|| rand_perm(s, n))?;
    let (q, qi) = guarded(|| rand_perm(s, n))?;
    s.note(|| format!("edges {m:?} acted on by {p} then {q}"));
    s.nontrivial_if(relabel(&m, &pi) != m);
    let one = guarded(|| g.clone() << p.clone())?;
    ensure_eq!(adjacency(&one), relabel(&m, &pi), "action of {p}");
    let two = guarded(|| one.clone() << q.clone())?;
    ensure_eq!(adjacency(&two), relabel(&relabel(&m, &pi), &qi), "action of {p} then {q}");
    ensure!(guarded(|| g.clone() << (q * p.clone()))? == two, "acting by a product differs from acting twice");
    ensure!(guarded(|| one << p.inverse())? == g, "the inverse does not undo the action");
    ensure!(guarded(|| g.clone() << Permutation::identity())? == g, "the identity moves edges");
    Ok(())
}

// ---------------------------------------------------------------- weighted graphs

fn laplacian(s: &mut Src) -> Result<(), String> {
    let n = s.size(2, 7, 70);
    let mut pairs: Vec<(usize, usize)> = (1..n).flat_map(|j| (0..j).map(move |i| (i, j))).filter(|_| s.chance(1, 2)).collect();
    if pairs.is_empty() {
        pairs.push((0, 1));
    }
    let o = s.perm(pairs.len());
    let mut names: Vec<usize> = vec![];
    let mut input = vec![];
    for k in o {
        let (mut a, mut b) = pairs[k];
        if s.bool() {
            (a, b) = (b, a);
        }
        for x in [a, b] {
            if !names.contains(&x) {
                names.push(x);
            }
        }
        let w = Q::new(s.int(-9, 9) as i128, s.int(1, 4) as i128);
        input.push((a, b, w));
    }
    s.note(|| format!("edges {:?}", input.iter().map(|(a, b, w)| format!("{a}-{b}: {}/{}", w.n, w.d)).collect::<Vec<_>>()));
    s.nontrivial_if(input.len() >= 3);
    let k = names.len();
    let mut w = vec![vec![Q::int(0); k]; k];
    for &(a, b, q) in &input {
        let (i, j) = (names.iter().position(|x| *x == a).unwrap(), names.iter().position(|x| *x == b).unwrap());
        w[i][j] = q;
        w[j][i] = q;
    }
    let mut l = w.clone();
    for i in 0..k {
        for j in 0..k {
            l[i][j] = if i == j { w[i].iter().fold(Q::int(0), |a, b| a.add(*b)) } else { Q::int(0).sub(w[i][j]) };
        }
    }
    let (vs, data, lap) = guarded(|| {
        let g = WeightedSimpleGraph::from(input.iter().map(|&(a, b, q)| (format!("p{a}"), format!("p{b}"), Rational::new(q.n as i64, q.d as i64))).collect());
        assert_eq!(g.n_vertices(), g.vertices().len());
        (g.vertices().clone(), g.data().clone(), g.laplacian())
    })?;
    ensure_eq!(vs, names.iter().map(|x| format!("p{x}")).collect::<Vec<_>>(), "vertices");
    for i in 0..k {
        for j in 0..k {
            let r = |q: Q| Rational::new(q.n as i64, q.d as i64);
            ensure!(data[(i, j)] == r(w[i][j]), "weight of {i}, {j} is {}", data[(i, j)]);
            ensure!(lap[(i, j)] == r(l[i][j]), "Laplacian entry {i}, {j} is {} instead of {}", lap[(i, j)], r(l[i][j]));
        }
    }
    ensure_eq!((*lap).size(), (k, k), "size of the Laplacian");
    Ok(())
}
