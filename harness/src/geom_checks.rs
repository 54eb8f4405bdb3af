//! Planar geometry: circumcircles and Delaunay triangulations, decided with exact integer predicates.
use crate::engine::*;
use alg::lin_alg::ConstVector;
use geom::{delaunay_triangulation, Triangle};
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "D01",
        rule: "integer points in general position (no tie within rounding distance) against exact in-circle determinants: single circumcircle tests, and for whole triangulations every returned triangle is Delaunay, indices and triangles correspond, no two overlap, every Delaunay triangle is returned; inputs with ties, duplicates or few points give non-overlapping Delaunay triangles covering exactly the convex hull; non-trivial = at least 5 points",
        assumptions: &["coordinates are integers up to 10^6 (degenerate inputs: up to 8), shifted by up to 2^24 and scaled by a power of two from 2^-60 to 2^45", "ties closer than 1e-9 of the circumradius are not judged"],
        subs: vec![Sub::new("circumcircle", 20000, 200000, circle), Sub::new("triangulation", 3000, 30000, triangulation), Sub::new("degenerate", 3000, 30000, degenerate), Sub::new("many", 60, 600, many)],
    }]
}

type P = [i64; 2];

fn orient(a: P, b: P, c: P) -> i128 {
    let (a, b, c) = (a.map(i128::from), b.map(i128::from), c.map(i128::from));
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

/// > 0 iff p is strictly inside the circle through a, b, c (any orientation)
fn in_circle(a: P, b: P, c: P, p: P) -> i128 {
    let r = |q: P| {
        let (x, y) = ((q[0] - p[0]) as i128, (q[1] - p[1]) as i128);
        [x, y, x * x + y * y]
    };
    let (a3, b3, c3) = (r(a), r(b), r(c));
    let d = a3[0] * (b3[1] * c3[2] - b3[2] * c3[1]) - a3[1] * (b3[0] * c3[2] - b3[2] * c3[0]) + a3[2] * (b3[0] * c3[1] - b3[1] * c3[0]);
    d * orient(a, b, c).signum()
}

/// relative distance of p from the circle, in units of the radius (0 for collinear a, b, c)
fn margin(a: P, b: P, c: P, p: P) -> f64 {
    let o = orient(a, b, c).abs() as f64;
    if o == 0.0 {
        return 0.0;
    }
    let len = |x: P, y: P| (((x[0] - y[0]) as f64).powi(2) + ((x[1] - y[1]) as f64).powi(2)).sqrt();
    let rad = len(a, b) * len(b, c) * len(c, a) / (2.0 * o);
    // |p - centre|^2 - rad^2 = -det / orientation
    let d2 = in_circle(a, b, c, p).abs() as f64 / o;
    d2 / (rad + len(p, a)) / rad
}

fn point(src: &mut Src, r: i64) -> P {
    [src.int(-r, r), src.int(-r, r)]
}

fn to_f(p: P, scale: f64) -> ConstVector<f64, 2> {
    ConstVector::from([p[0] as f64 * scale, p[1] as f64 * scale])
}

fn scale(src: &mut Src) -> f64 {
    // powers of two keep the coordinates exact
    *src.pick(&[1.0, 0.0009765625, 0.125, 64.0, 1048576.0, 2f64.powi(-30), 2f64.powi(-60), 2f64.powi(45)])
}

fn circle(src: &mut Src) -> Res {
    let r = *src.pick(&[3, 10, 100, 2000, 1000000]);
    let (a, b, c, p) = (point(src, r), point(src, r), point(src, r), point(src, r));
    let s = scale(src);
    if orient(a, b, c) == 0 || margin(a, b, c, p) < 1e-9 {
        src.label("tie or collinear, not judged");
        return Ok(());
    }
    src.nontrivial();
    let want = in_circle(a, b, c, p) > 0;
    src.label(if want { "inside" } else { "outside" });
    src.note(|| format!("{a:?} {b:?} {c:?} scale {s} contains {p:?}: {want}"));
    for t in [[a, b, c], [b, a, c], [c, b, a], [b, c, a]] {
        let got = Triangle::new(t.map(|q| to_f(q, s))).circum_circle_contains(to_f(p, s));
        ensure_eq!(got, want, "circle through {t:?} contains {p:?} (scale {s})");
    }
    Ok(())
}

/// whether the last point is in general position to the others
fn general_last(pts: &[P]) -> bool {
    let (&q, rest) = pts.split_last().unwrap();
    let n = rest.len();
    for i in 0..n {
        if rest[i] == q {
            return false;
        }
        for j in i + 1..n {
            if orient(rest[i], rest[j], q) == 0 {
                return false;
            }
            for k in j + 1..n {
                // either way of reading the four points as a circle and a point
                let v = [rest[i], rest[j], rest[k], q];
                for l in 0..4 {
                    if margin(v[l], v[(l + 1) % 4], v[(l + 2) % 4], v[(l + 3) % 4]) < 1e-9 {
                        return false;
                    }
                }
            }
        }
    }
    true
}

/// twice the area of the convex hull
fn hull_area(pts: &[P]) -> i128 {
    let mut p = pts.to_vec();
    p.sort();
    p.dedup();
    if p.len() < 3 {
        return 0;
    }
    let half = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = vec![];
        for q in it {
            while h.len() >= 2 && orient(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
        h
    };
    let mut h = half(&mut p.iter().copied());
    h.extend(half(&mut p.iter().rev().copied()));
    (1..h.len().saturating_sub(1)).map(|i| orient(h[0], h[i], h[i + 1])).sum::<i128>().abs()
}

fn overlap(p: [P; 3], q: [P; 3]) -> bool {
    // open triangles are disjoint iff an edge line of one separates them
    let sep = |p: [P; 3], q: [P; 3]| {
        (0..3).any(|i| {
            let (a, b, c) = (p[i], p[(i + 1) % 3], p[(i + 2) % 3]);
            let s = orient(a, b, c).signum();
            q.iter().all(|&x| orient(a, b, x).signum() * s <= 0)
        })
    };
    !sep(p, q) && !sep(q, p)
}

fn triangulation(src: &mut Src) -> Res {
    let r = *src.pick(&[6, 20, 200, 2000, 1000000]);
    let n = src.size_huge(0, 12, 30, 70);
    // sometimes most points lie near one circle, so that inserting a point near its centre opens a large cavity
    let ring = src.chance(1, 5);
    let last = ring && src.chance(1, 3);
    let mut pts: Vec<P> = vec![];
    for i in 0..n {
        let p = if ring && if last { 5 * i < 4 * n } else { src.chance(3, 4) } {
            let a = src.int(0, 6283) as f64 / 1000.0;
            [(a.cos() * r as f64).round() as i64, (a.sin() * r as f64).round() as i64]
        } else {
            point(src, r)
        };
        pts.push(p);
        if !general_last(&pts) {
            pts.pop();
        }
    }
    let n = pts.len();
    let s = scale(src);
    let shift = *src.pick(&[0i64, 0, 0, 1 << 12]);
    src.note(|| format!("points {pts:?} scale {s} shift {shift}"));
    src.nontrivial_if(n >= 5);
    let f: Vec<_> = pts.iter().map(|&p| to_f([p[0] + shift, p[1] - shift], s)).collect();
    let (tri, idx) = delaunay_triangulation(&f);
    ensure_eq!(tri.len(), idx.len(), "number of triangles and index triples");
    let mut got = BTreeSet::new();
    for (t, k) in tri.iter().zip(&idx) {
        ensure!(k[0] < k[1] && k[1] < k[2] && k[2] < n, "index triple {k:?} of {n} points");
        ensure!(*t == Triangle::new(k.map(|i| f[i])), "triangle does not have the corners {k:?}");
        ensure!(got.insert(*k), "{k:?} listed twice");
        for (i, &p) in pts.iter().enumerate() {
            ensure!(k.contains(&i) || in_circle(pts[k[0]], pts[k[1]], pts[k[2]], p) < 0, "the circumcircle of {k:?} contains point {i}");
        }
    }
    for a in &got {
        for b in &got {
            ensure!(a >= b || !overlap(a.map(|i| pts[i]), b.map(|i| pts[i])), "{a:?} and {b:?} overlap");
        }
    }
    let mut want = BTreeSet::new();
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                if (0..n).all(|l| l == i || l == j || l == k || in_circle(pts[i], pts[j], pts[k], pts[l]) < 0) {
                    want.insert([i, j, k]);
                }
            }
        }
    }
    ensure_eq!(got, want, "the Delaunay triangles");
    Ok(())
}

fn degenerate(src: &mut Src) -> Res {
    let r = *src.pick(&[1, 2, 3, 5, 8]);
    let n = src.size_huge(0, 12, 40, 90);
    let dup = src.chance(1, 4);
    let kind = src.below(8);
    let head = src.usize(0, n);
    let mut circle: Vec<P> = vec![];
    if kind == 1 {
        // lattice points on a circle
        let q: i64 = *src.pick(&[25, 325, 1105, 5525, 27625]);
        let m = (q as f64).sqrt() as i64;
        circle = (-m..=m).flat_map(|x| (-m..=m).map(move |y| [x, y])).filter(|p| p[0] * p[0] + p[1] * p[1] == q).collect();
    }
    let mut pts: Vec<P> = vec![];
    for i in 0..n {
        let p = match kind {
            1 if i < head => *src.pick(&circle),
            // many points on one line, or many copies of a few points, come first
            2 if i < head => [src.int(-50, 50), 3],
            3 if i < head => [src.int(0, 1), 0],
            _ => point(src, r),
        };
        if dup || kind == 3 || !pts.contains(&p) {
            pts.push(p);
        }
    }
    covers_hull(src, &pts)
}

/// hundreds of points: clusters, grids, circles and their centres, in groups one after the other
fn many(src: &mut Src) -> Res {
    let mut pts: Vec<P> = vec![];
    let total = src.usize(60, 420);
    while pts.len() < total {
        let left = total - pts.len();
        let k = src.usize(1, left.min(250));
        let c = point(src, 800);
        match src.below(5) {
            0 => {
                let r = *src.pick(&[3, 12, 60, 200]);
                for _ in 0..k {
                    let p = point(src, r);
                    pts.push([c[0] + p[0], c[1] + p[1]]);
                }
            }
            1 => {
                let (q, w) = (src.int(1, 9), src.int(1, 15));
                pts.extend((0..k as i64).map(|i| [c[0] + q * (i % w), c[1] + q * (i / w)]).filter(|p| p[1].abs() <= 1000));
            }
            2 => {
                let r = src.int(20, 200) as f64;
                for i in 0..k {
                    let a = (i * src.usize(1, 2)) as f64 * 6.283185307179586 / k as f64;
                    pts.push([c[0] + (a.cos() * r).round() as i64, c[1] + (a.sin() * r).round() as i64]);
                }
                pts.push(c);
            }
            3 => {
                let d = [src.int(-3, 3), src.int(-3, 3)];
                pts.extend((0..k.min(60) as i64).map(|i| [c[0] + i * d[0], c[1] + i * d[1]]));
            }
            _ => pts.extend((0..k).map(|_| point(src, 1000))),
        }
    }
    let mut seen = BTreeSet::new();
    if src.chance(3, 4) {
        pts.retain(|p| seen.insert(*p));
    }
    covers_hull(src, &pts)
}

fn covers_hull(src: &mut Src, pts: &[P]) -> Res {
    let n = pts.len();
    let s = scale(src);
    let shift = *src.pick(&[0i64, 0, 0, 1 << 12, -(1 << 24)]);
    src.note(|| format!("points {pts:?} scale {s} shift {shift}"));
    src.nontrivial_if(n >= 5);
    let f: Vec<_> = pts.iter().map(|&p| to_f([p[0] + shift, p[1] - shift], s)).collect();
    let (tri, idx) = delaunay_triangulation(&f);
    ensure_eq!(tri.len(), idx.len(), "number of triangles and index triples");
    for (t, k) in tri.iter().zip(&idx) {
        ensure!(k[0] < k[1] && k[1] < k[2] && k[2] < n, "index triple {k:?} of {n} points");
        ensure!(*t == Triangle::new(k.map(|i| f[i])), "triangle does not have the corners {k:?}");
        let q = k.map(|i| pts[i]);
        ensure!(orient(q[0], q[1], q[2]) != 0, "degenerate triangle {k:?}");
        for (i, &p) in pts.iter().enumerate() {
            ensure!(in_circle(q[0], q[1], q[2], p) <= 0, "the circumcircle of {k:?} contains point {i}");
        }
    }
    ensure_eq!(idx.iter().collect::<BTreeSet<_>>().len(), idx.len(), "different triangles");
    // triangles with empty circumcircles overlap only if they have the same circle, which is left to the smaller inputs
    for (i, a) in idx.iter().enumerate().take(150) {
        for b in &idx[..i] {
            ensure!(!overlap(a.map(|i| pts[i]), b.map(|i| pts[i])), "{a:?} and {b:?} overlap");
        }
    }
    let covered: i128 = idx.iter().map(|k| orient(pts[k[0]], pts[k[1]], pts[k[2]]).abs()).sum();
    let hull = hull_area(pts);
    src.label_if(hull == 0, "all points on a line");
    ensure_eq!(covered, hull, "twice the covered area, against the convex hull");
    Ok(())
}
