use crate::engine::*;
use std::collections::BTreeSet;
use util::{BinaryPool, LabeledSet, TupleIterable};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "U01",
            rule: "histories of add/remove/fill/resize/union/intersection/subset/iterate on 1-3 fixed-universe sets (sizes around 0, 63..65, 127..129 and random up to 5000), with accesses outside the universe, each compared with an ordered-set model after every step; non-trivial = a binary operation between two non-empty sets that differ, or an element re-added/removed, in a universe of at least 2",
            assumptions: &[],
            subs: vec![
                Sub::new("pool_history", 6000, 120000, pool_history),
                Sub::new("labeled_history", 4000, 60000, labeled_history),
                Sub::new("count_ones", 4000, 60000, count_ones),
            ],
        },
        Prop {
            id: "U02",
            rule: "all (n,k) with 1<=k, n<=11, k<=12, then random slices (duplicate values included) of length up to 140 (subsets small or nearly everything when long), against a recursive enumeration of k-subsets; non-trivial = at least two subsets",
            assumptions: &["k >= 1"],
            subs: vec![Sub::all("all_small", 144, tuples_all), Sub::new("random", 1500, 20000, tuples_random)],
        },
    ]
}

fn universe(s: &mut Src) -> usize {
    match s.below(4) {
        0 => s.usize(0, 8),
        1 => *s.pick(&[63, 64, 65, 127, 128, 129, 192]),
        2 => s.usize(1, 80),
        _ => s.size(1, 300, 5000),
    }
}

fn same(p: &BinaryPool, m: &BTreeSet<usize>, n: usize, what: &str) -> Res {
    ensure_eq!(p.len(), n, "{what}: len");
    ensure_eq!(p.n_elements(), m.len(), "{what}: n_elements");
    ensure_eq!(p.is_full(), m.len() == n, "{what}: is_full");
    for i in 0..n {
        ensure_eq!(p.contains(i), m.contains(&i), "{what}: contains({i})");
    }
    ensure_eq!(p.iter().collect::<Vec<_>>(), m.iter().copied().collect::<Vec<_>>(), "{what}: iteration");
    if n > 140 {
        return Ok(());
    }
    let bits = (0..n).map(|i| if m.contains(&i) { "1" } else { "0" }).collect::<Vec<_>>().join(", ");
    ensure_eq!(format!("{p:?}"), format!("len = {n}, n_elements = {}, data = [{bits}]", m.len()), "{what}: debug form");
    Ok(())
}

fn pool_history(s: &mut Src) -> Res {
    let mut n = universe(s);
    let k = s.usize(1, 3);
    let mut pools = vec![];
    for _ in 0..k {
        let idx: Vec<usize> = if s.bool() {
            let den = s.usize(1, 4) as u64;
            s.subset(n, 1, den)
        } else {
            (0..if n == 0 { 0 } else { s.usize(0, 6) }).map(|_| s.usize(0, n - 1)).collect()
        };
        // duplicates in the list are allowed
        let m: BTreeSet<usize> = idx.iter().copied().collect();
        let p = BinaryPool::from(n, idx);
        same(&p, &m, n, "from")?;
        pools.push((p, m));
    }
    let steps = s.usize(1, 24);
    let mut hist = vec![];
    for _ in 0..steps {
        let a = s.usize(0, k - 1);
        let b = s.usize(0, k - 1);
        let op = if n == 0 { *s.pick(&[4u64, 5, 6, 7, 8, 9]) } else { s.below(10) };
        match op {
            0 | 1 => {
                let i = s.usize(0, n - 1);
                hist.push(format!("add {i} to {a}"));
                let (p, m) = &mut pools[a];
                p.add(i);
                if !m.insert(i) && n > 1 {
                    s.nontrivial();
                    s.label("re-add");
                }
            }
            2 | 3 => {
                let i = s.usize(0, n - 1);
                hist.push(format!("remove {i} from {a}"));
                let (p, m) = &mut pools[a];
                p.remove(i);
                if m.remove(&i) && n > 1 {
                    s.nontrivial();
                    s.label("removed present element");
                }
            }
            4 => {
                hist.push(format!("fill {a}"));
                pools[a].0.fill();
                pools[a].1 = (0..n).collect();
            }
            5 => {
                // all pools are resized together so that they stay comparable
                let to = s.usize(0, n + 130);
                hist.push(format!("resize to {to}"));
                for (p, _) in &mut pools {
                    p.resize(to);
                }
                // shrinking is documented by the code as a no-op
                n = n.max(to);
                s.label("resize");
            }
            6 | 7 => {
                hist.push(format!("{} {a} {b}", if op == 6 { "union" } else { "intersection" }));
                let (x, y) = (pools[a].clone(), pools[b].clone());
                if !x.1.is_empty() && !y.1.is_empty() && x.1 != y.1 {
                    s.nontrivial();
                    s.label("binary op on distinct non-empty sets");
                }
                pools[a] = if op == 6 {
                    (x.0.union(y.0), x.1.union(&y.1).copied().collect())
                } else {
                    (x.0.intersection(y.0), x.1.intersection(&y.1).copied().collect())
                };
            }
            9 => {
                let i = n + if s.bool() { s.usize(0, 3) } else { s.usize(0, 200) };
                hist.push(format!("index {i} outside the universe of {a}"));
                let before = pools[a].0.clone();
                let p = &mut pools[a].0;
                ensure!(guarded(|| p.contains(i)).is_err(), "contains({i}) accepted with universe {n}");
                ensure!(guarded(|| p.add(i)).is_err(), "add({i}) accepted with universe {n}");
                ensure!(guarded(|| p.remove(i)).is_err(), "remove({i}) accepted with universe {n}");
                ensure!(*p == before, "a rejected index {i} changed the set");
                let d = s.usize(1, 70);
                let mut q = before.clone();
                q.resize(n + d);
                ensure!(q != before, "sets over universes {n} and {} compare equal", n + d);
                ensure!(guarded(|| q.is_subset_of(&before)).is_err(), "subset test across universes {} and {n} accepted", n + d);
                ensure!(guarded(|| before.clone().union(q.clone())).is_err(), "union across universes {n} and {} accepted", n + d);
                ensure!(guarded(|| q.intersection(before)).is_err(), "intersection across universes {} and {n} accepted", n + d);
                s.label("outside the universe");
            }
            _ => {
                let (x, y) = (&pools[a], &pools[b]);
                ensure_eq!(x.0.is_subset_of(&y.0), x.1.is_subset(&y.1), "is_subset_of after {hist:?}");
                ensure_eq!(x.0 == y.0, x.1 == y.1, "equality after {hist:?}");
            }
        }
        let (p, m) = &pools[a];
        same(p, m, n, hist.last().map(|x| x.as_str()).unwrap_or(""))?;
    }
    for (p, m) in &pools {
        same(p, m, n, "end of history")?;
        // observational equality is structural equality
        ensure!(*p == BinaryPool::from(n, m.iter().copied().collect()), "a set built by a history differs from the same set built directly (n={n}, {m:?})");
    }
    s.note(|| format!("universe {n}, {} sets, history {hist:?}", k));
    Ok(())
}

fn labeled_history(s: &mut Src) -> Res {
    let n = s.size(1, 90, 400);
    let off = s.int(-50, 50);
    let order = s.perm(n);
    let labels: Vec<i64> = order.iter().map(|&i| off + i as i64).collect();
    let mut set = LabeledSet::new(labels.clone());
    let mut m: BTreeSet<usize> = BTreeSet::new(); // positions
    let steps = s.usize(1, 40);
    for _ in 0..steps {
        let i = s.usize(0, n - 1);
        if s.chance(1, 3) {
            set.remove(labels[i]);
            if m.remove(&i) {
                s.nontrivial_if(n > 1);
            }
        } else {
            set.add(labels[i]);
            m.insert(i);
        }
        ensure_eq!(set.n_elements(), m.len(), "n_elements");
        let want: Vec<i64> = m.iter().map(|&i| labels[i]).collect();
        ensure_eq!(set.iter().copied().collect::<Vec<_>>(), want, "labels in registration order");
        let disp = format!("{{{}}}", want.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
        ensure_eq!(format!("{set}"), disp, "display");
    }
    let (mut bad, out) = (set.clone(), off + n as i64 + s.int(0, 3));
    ensure!(guarded(|| bad.add(out)).is_err(), "adding the unregistered label {out} accepted");
    ensure!(guarded(|| bad.remove(out)).is_err(), "removing the unregistered label {out} accepted");
    ensure!(bad == set, "a rejected label changed the set");
    let mut other = LabeledSet::new(labels.clone());
    for &i in m.iter().rev() {
        other.add(labels[i]);
    }
    ensure!(other == set, "equal sets with equal labels compare different");
    s.note(|| format!("labels {labels:?}, {steps} steps, final positions {m:?}"));
    Ok(())
}

fn count_ones(s: &mut Src) -> Res {
    let mut x = 0u64;
    match s.below(3) {
        0 => {
            for _ in 0..s.usize(0, 12) {
                x |= 1 << s.below(64);
            }
        }
        1 => x = s.below(u64::MAX),
        _ => x = u64::MAX << s.below(64),
    }
    s.nontrivial_if(x != 0);
    s.note(|| format!("{x:#x}"));
    ensure_eq!(util::bitwise::count_ones(x), x.count_ones() as usize, "count_ones({x:#x})");
    Ok(())
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(start: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in start..(n + 1).saturating_sub(k) {
            cur.push(i);
            go(i + 1, n, k - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(0, n, k, &mut vec![], &mut out);
    out
}

fn tuples_check(v: &[i64], k: usize, s: &mut Src) -> Res {
    let want: Vec<Vec<i64>> = subsets(v.len(), k).into_iter().map(|t| t.into_iter().map(|i| v[i]).collect()).collect();
    s.nontrivial_if(want.len() > 1);
    s.label_if(v.len() < k, "k exceeds n");
    let mut got: Vec<Vec<i64>> = vec![];
    let mut it = v.tuple_iter(k);
    while let Some(t) = it.next() {
        got.push(t.into_iter().copied().collect());
        ensure!(got.len() <= want.len(), "more than C({}, {k}) tuples from {v:?}", v.len());
    }
    ensure_eq!(got, want, "{k}-subsets of {v:?}");
    ensure!(it.next().is_none(), "iterator yields again after the end");
    Ok(())
}

fn tuples_all(s: &mut Src) -> Res {
    let i = s.below(144);
    let (n, k) = ((i / 12) as usize, (i % 12) as usize + 1);
    let v: Vec<i64> = (0..n as i64).collect();
    s.note(|| format!("n={n}, k={k}"));
    tuples_check(&v, k, s)
}

fn tuples_random(s: &mut Src) -> Res {
    let n = s.size(0, 18, 140);
    let mut k = s.usize(1, n + 2);
    // few enough subsets to enumerate: very small ones, or nearly everything
    if n > 14 {
        let m = if n > 40 { 2 } else if n > 24 { 3 } else { 4 };
        k = if s.bool() { k.min(m) } else { k.max(n - m) };
    }
    let v: Vec<i64> = (0..n).map(|_| s.int(-3, 9)).collect();
    s.note(|| format!("{k}-subsets of {v:?}"));
    tuples_check(&v, k, s)
}
