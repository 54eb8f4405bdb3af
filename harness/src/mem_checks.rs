//! Storage of matrices: a guarding allocator under random programs of matrix operations.
use crate::engine::*;
use crate::mat_checks::{to_matrix, Obj};
use crate::reference::Mx;
use alg::commutative::{Rational, PID};
use alg::lin_alg::{Matrix, SparseMatrix, SubMatrix};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A19",
        rule: "programs of up to 30 operations (constructors, copies, owned and borrowed arithmetic, nested and transposed views, writes, row and column operations, decompositions, sparse conversions, drops; operands that do not fit and operations that panic included) on a pool of matrices of integers, fractions or floats, run several times under an allocator with red zones, recorded layouts, poisoned and quarantined freed blocks and two different fill patterns: all reported values agree between the fill patterns, no red zone or freed block is written, every release has the layout of its allocation, and repeating the program does not leave more blocks behind; non-trivial = at least four operations that produce a matrix",
        assumptions: &["operations that draw random numbers are left out of the comparison of values"],
        subs: vec![
            Sub::new("programs_i64", 2000, 60000, |s| programs::<i64>(s)),
            Sub::new("programs_rational", 1000, 30000, |s| programs::<Rational>(s)),
            Sub::new("programs_f64", 2000, 60000, |s| programs::<f64>(s)),
        ],
    }]
}

// ---------------------------------------------------------------- the allocator

/// Passes everything to the system allocator, except in guarded sections, where blocks
/// get red zones and an entry in a table.
pub struct Guard;

const ZONE: usize = 64;
const SLOTS: usize = 1 << 15;
const CANARY: u8 = 0xC5;
const POISON: u8 = 0xDB;

#[derive(Clone, Copy)]
struct Block {
    ptr: usize, // 0: never used
    size: usize,
    align: usize,
    state: u8, // 0 removed, 1 live, 2 quarantined
}
struct Table {
    slots: UnsafeCell<[Block; SLOTS]>,
    lock: AtomicBool,
}
unsafe impl Sync for Table {}
const NONE: Block = Block { ptr: 0, size: 0, align: 0, state: 0 };
static TABLE: Table = Table { slots: UnsafeCell::new([NONE; SLOTS]), lock: AtomicBool::new(false) };
/// scratch space, used under the lock of the table
static KEPT: Table = Table { slots: UnsafeCell::new([NONE; SLOTS]), lock: AtomicBool::new(false) };
/// live and quarantined entries
static USED: AtomicUsize = AtomicUsize::new(0);
/// slots that are not empty
static TOUCHED: AtomicUsize = AtomicUsize::new(0);
/// 0 nothing wrong, else the first thing that went wrong
static WRONG: AtomicUsize = AtomicUsize::new(0);
const WHAT: [&str; 7] = [
    "",
    "a block was released with another layout than it was obtained with",
    "memory before a block was overwritten",
    "memory after a block was overwritten",
    "a block was released twice",
    "a block was written after its release",
    "a pointer into the middle of a block was released",
];
thread_local! { static FILL: Cell<Option<u8>> = const { Cell::new(None) }; }

fn wrong(k: usize) {
    let _ = WRONG.compare_exchange(0, k, Ordering::SeqCst, Ordering::SeqCst);
}
fn slot_of(ptr: usize) -> usize {
    (ptr >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 15)
}
fn with_table<R>(f: impl FnOnce(&mut [Block; SLOTS]) -> R) -> R {
    while TABLE.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *TABLE.slots.get() });
    TABLE.lock.store(false, Ordering::Release);
    r
}
fn front(align: usize) -> usize {
    ZONE.max(align)
}
unsafe fn outer(b: &Block) -> (*mut u8, Layout) {
    let f = front(b.align);
    ((b.ptr - f) as *mut u8, Layout::from_size_align_unchecked(f + b.size + ZONE, b.align))
}
unsafe fn zones(b: &Block) {
    let f = front(b.align);
    let before = std::slice::from_raw_parts((b.ptr - f) as *const u8, f);
    let after = std::slice::from_raw_parts((b.ptr + b.size) as *const u8, ZONE);
    if before.iter().any(|&x| x != CANARY) {
        wrong(2);
    }
    if after.iter().any(|&x| x != CANARY) {
        wrong(3);
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let fill = FILL.try_with(|f| f.get()).unwrap_or(None);
        let Some(fill) = fill else { return System.alloc(l) };
        if TOUCHED.load(Ordering::Relaxed) > SLOTS / 2 || l.size() > 1 << 20 {
            return System.alloc(l);
        }
        let f = front(l.align());
        let p = System.alloc(Layout::from_size_align_unchecked(f + l.size() + ZONE, l.align()));
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p, CANARY, f);
        std::ptr::write_bytes(p.add(f), fill, l.size());
        std::ptr::write_bytes(p.add(f + l.size()), CANARY, ZONE);
        let ptr = p as usize + f;
        with_table(|t| {
            let mut k = slot_of(ptr);
            while t[k].ptr != 0 && t[k].state != 0 {
                k = (k + 1) % SLOTS;
            }
            if t[k].ptr == 0 {
                TOUCHED.fetch_add(1, Ordering::Relaxed);
            }
            t[k] = Block { ptr, size: l.size(), align: l.align(), state: 1 };
        });
        USED.fetch_add(1, Ordering::Relaxed);
        ptr as *mut u8
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if USED.load(Ordering::Relaxed) > 0 {
            let found = with_table(|t| {
                let mut k = slot_of(p as usize);
                while t[k].ptr != 0 {
                    if t[k].ptr == p as usize && t[k].state != 0 {
                        let b = t[k];
                        if b.state == 2 {
                            wrong(4);
                            return true;
                        }
                        if b.size != l.size() || b.align != l.align() {
                            wrong(1);
                        }
                        zones(&b);
                        std::ptr::write_bytes(p, POISON, b.size);
                        t[k].state = 2;
                        return true;
                    }
                    k = (k + 1) % SLOTS;
                }
                // not the start of a guarded block: is it inside one?
                if TOUCHED.load(Ordering::Relaxed) <= SLOTS / 2 && FILL.try_with(|f| f.get()).unwrap_or(None).is_some() {
                    let x = p as usize;
                    if t.iter().any(|b| b.state != 0 && b.ptr - front(b.align) <= x && x < b.ptr + b.size + ZONE) {
                        wrong(6);
                        return true;
                    }
                }
                false
            });
            if found {
                return;
            }
        }
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let guarding = FILL.try_with(|f| f.get()).unwrap_or(None).is_some();
        if !guarding && USED.load(Ordering::Relaxed) == 0 {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static GUARD: Guard = Guard;

/// Runs `f` with every allocation guarded and pre-filled; returns its result, by how many
/// guarded blocks more are live than before, and what went wrong with the memory.
fn guarding<R>(fill: u8, f: impl FnOnce() -> R) -> (R, usize, usize) {
    WRONG.store(0, Ordering::SeqCst);
    let before = USED.load(Ordering::Relaxed);
    FILL.with(|x| x.set(Some(fill)));
    let r = f();
    FILL.with(|x| x.set(None));
    let mut live = 0;
    with_table(|t| {
        if TOUCHED.load(Ordering::Relaxed) == 0 {
            return;
        }
        // the live blocks move to an empty table
        let kept = unsafe { &mut *KEPT.slots.get() };
        for b in t.iter_mut() {
            match b.state {
                1 => {
                    unsafe { zones(b) };
                    kept[live] = *b;
                    live += 1;
                }
                2 => unsafe {
                    zones(b);
                    if std::slice::from_raw_parts(b.ptr as *const u8, b.size).iter().any(|&x| x != POISON) {
                        wrong(5);
                    }
                    let (p, l) = outer(b);
                    System.dealloc(p, l);
                },
                _ => (),
            }
            *b = NONE;
        }
        for b in &kept[..live] {
            let mut k = slot_of(b.ptr);
            while t[k].ptr != 0 {
                k = (k + 1) % SLOTS;
            }
            t[k] = *b;
        }
        TOUCHED.store(live, Ordering::Relaxed);
        USED.store(live, Ordering::Relaxed);
    });
    (r, live.saturating_sub(before), WRONG.load(Ordering::SeqCst))
}

// ---------------------------------------------------------------- programs

#[derive(Clone, Debug)]
enum Op {
    New(Mx<i64>),
    Zero(usize, usize),
    Identity(usize),
    Clone(usize),
    Transpose(usize),
    Drop(usize),
    /// operation, form (owned or borrowed), operands, transposed views of them
    Binary(u64, u64, usize, usize, bool, bool),
    Scale(u64, usize, i64),
    View(usize, [u64; 4], bool),
    Write(usize, usize, [u64; 4]),
    Set(usize, u64, u64, i64),
    Line(u64, usize, usize, usize, i64),
    Equal(usize, usize),
    Dot(usize, usize),
    Print(usize),
    Sparse(u64, usize, usize),
    Special(u64, usize, usize),
}

fn program(s: &mut Src, n_special: u64) -> Vec<Op> {
    let side = s.size(1, 4, 12);
    let mut ops = vec![];
    let len = s.usize(1, 30);
    for k in 0..len {
        let (a, b) = (s.usize(0, 7), s.usize(0, 7));
        let sq = s.bool();
        let dim = |s: &mut Src| if sq { side } else { s.usize(1, side) };
        let w = |s: &mut Src| [s.below(64), s.below(64), s.below(64), s.below(64)];
        ops.push(match if k < 2 { 0 } else { s.below(20) } {
            0..=3 => {
                let (n, m) = (dim(s), dim(s));
                Op::New(crate::mat_checks::rand_mx(s, n, m, 9))
            }
            4 => Op::Zero(dim(s), dim(s)),
            5 => Op::Identity(side),
            6 => Op::Clone(a),
            7 => Op::Transpose(a),
            8 => Op::Drop(a),
            9..=11 => Op::Binary(s.below(5), s.below(4), a, b, s.bool(), s.bool()),
            12 => Op::Scale(s.below(4), a, s.int(-4, 4)),
            13 => Op::View(a, w(s), s.bool()),
            14 => Op::Write(a, b, w(s)),
            15 => Op::Set(a, s.below(64), s.below(64), s.int(-9, 9)),
            16 => Op::Line(s.below(4), a, s.usize(0, side), s.usize(0, side), s.int(-3, 3)),
            17 => match s.below(3) {
                0 => Op::Equal(a, b),
                1 => Op::Dot(a, b),
                _ => Op::Print(a),
            },
            18 => Op::Sparse(s.below(4), a, b),
            _ => Op::Special(s.below(n_special), a, b),
        });
    }
    ops
}

trait Entry: PID + Debug + std::fmt::Display + Copy {
    const SPECIAL: u64;
    fn of(x: i64) -> Self;
    fn bits(&self) -> String;
    /// operations only this type has; results go to the pool
    fn special(k: u64, pool: &mut Vec<Matrix<Self>>, a: usize, b: usize, out: &mut Vec<String>);
}

fn window(n: usize, a: u64, b: u64) -> (usize, usize) {
    let (x, y) = (a as usize % n, b as usize % n);
    (x.min(y), x.max(y) + 1)
}
fn read<T: Entry>(m: &SubMatrix<T>) -> String {
    let (n, k) = m.size();
    format!("{:?}", (0..n).map(|i| (0..k).map(|j| m[(i, j)].bits()).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn view<'a, T: Entry>(m: &'a SubMatrix<T>, w: &[u64; 4], trans: bool) -> &'a SubMatrix<T> {
    let (n, k) = m.size();
    let ((r0, r1), (c0, c1)) = (window(n, w[0], w[1]), window(k, w[2], w[3]));
    let v = &m[(r0..r1, c0..c1)];
    if trans { v.transpose() } else { v }
}

/// Runs the program and reports what it computed. Everything it creates is dropped.
fn run<T: Entry>(ops: &[Op]) -> Vec<String> {
    let mut pool: Vec<Matrix<T>> = vec![];
    let mut out = vec![];
    for op in ops {
        let r = catch_unwind(AssertUnwindSafe(|| step(op, &mut pool, &mut out)));
        if r.is_err() {
            out.push("panic".to_string());
        }
        if pool.len() > 8 {
            pool.remove(0);
        }
    }
    for m in &pool {
        out.push(read(m));
    }
    // dropped in an order that differs from the order of creation
    while !pool.is_empty() {
        let k = (pool.len() * 7 + 3) % pool.len();
        drop(pool.swap_remove(k));
    }
    out
}

fn step<T: Entry>(op: &Op, pool: &mut Vec<Matrix<T>>, out: &mut Vec<String>) {
    let n = pool.len();
    if n == 0 && !matches!(op, Op::New(_) | Op::Zero(..) | Op::Identity(_)) {
        return;
    }
    match op {
        Op::New(a) => pool.push(to_matrix(a, |x| T::of(*x))),
        Op::Zero(r, c) => pool.push(Matrix::zero(*r, *c)),
        Op::Identity(k) => pool.push(Matrix::identity(*k)),
        Op::Clone(a) => {
            let m = pool[a % n].clone();
            pool.push(m)
        }
        Op::Transpose(a) => {
            let m = pool.swap_remove(a % n);
            pool.push(m.transpose())
        }
        Op::Drop(a) => drop(pool.swap_remove(a % n)),
        Op::Binary(k, form, a, b, ta, tb) => {
            let (x, y) = (&pool[a % n], &pool[b % n]);
            let (xv, yv): (&SubMatrix<T>, &SubMatrix<T>) = (if *ta { (**x).transpose() } else { x }, if *tb { (**y).transpose() } else { y });
            let (xo, yo) = (|| xv.as_matrix(), || if *tb { y.clone().transpose() } else { y.clone() });
            let r = match (k, form) {
                (0, 0) => xv + yv,
                (0, 1) => xo() + yv,
                (0, 2) => xv + yo(),
                (0, _) => xo() + yo(),
                (1, 0) => xv - yv,
                (1, 1) => xo() - yv,
                (1, 2) => xv - yo(),
                (1, _) => xo() - yo(),
                (2, 0) => xv * yv,
                (2, 1) => xo() * yv,
                (2, 2) => xv * yo(),
                (2, _) => xo() * yo(),
                (3, f) => {
                    let mut m = xo();
                    if *f < 2 { m += yv } else { m += yo() }
                    m
                }
                (_, f) => {
                    let mut m = xo();
                    if *f < 2 { m -= yv } else { m -= yo() }
                    m
                }
            };
            out.push(read(&r));
            pool.push(r);
        }
        Op::Scale(form, a, x) => {
            let x = T::of(*x);
            let r = match form {
                0 => pool[a % n].clone() * x,
                1 => &*pool[a % n] * x,
                2 => {
                    let mut m = pool[a % n].clone();
                    m[(.., ..)] *= x;
                    m
                }
                _ => {
                    let mut m = pool[a % n].clone();
                    m *= x;
                    m
                }
            };
            out.push(read(&r));
            pool.push(r);
        }
        Op::View(a, w, t) => {
            let r = view(&pool[a % n], w, *t).as_matrix();
            out.push(read(&r));
            pool.push(r);
        }
        Op::Write(a, b, w) => {
            let v = view(&pool[b % n], w, w[0] % 2 == 1).as_matrix();
            let (h, l) = v.size_of();
            let m = &mut pool[a % n];
            let (p, q) = m.size_of();
            // the place may stick out of the matrix
            let (r0, c0) = (w[1] as usize % p, w[2] as usize % q);
            if w[3] % 2 == 0 { m[(r0..r0 + h, c0..c0 + l)].write(&v) } else { m[(r0..r0 + h, c0..c0 + l)].write_and_move(v) }
            out.push(read(&pool[a % n]));
        }
        Op::Set(a, i, j, x) => {
            let m = &mut pool[a % n];
            let (p, q) = m.size_of();
            // one index in a few lies just outside
            let (i, j) = ((*i as usize) % (p + (*j as usize) / 60), (*j as usize) % (q + (*i as usize) / 60));
            m[(i, j)] = T::of(*x);
            out.push(read(&pool[a % n]));
        }
        Op::Line(k, a, i, j, x) => {
            let m = &mut pool[a % n];
            let x = T::of(*x);
            match k {
                0 => m.swap_rows(*i, *j),
                1 => m.swap_cols(*i, *j),
                2 => m.row_operation(*i, *j, x),
                _ => m.col_operation(*i, *j, x),
            }
            out.push(read(&pool[a % n]));
        }
        Op::Equal(a, b) => out.push(format!("{} {}", pool[a % n] == pool[b % n], *pool[a % n] == *(*pool[b % n]).transpose())),
        Op::Dot(a, b) => {
            let (x, y) = (&pool[a % n], &pool[b % n]);
            out.push(x[(0, ..)].dot(&y[(.., 0)]).bits())
        }
        Op::Print(a) => out.push(format!("{} {:?}", pool[a % n], pool[a % n])),
        Op::Sparse(k, a, b) => {
            let sparse = |m: &Matrix<T>| SparseMatrix::from((m.size_of(), |p| if m[p] == T::zero() { None } else { Some(m[p]) }));
            let x = sparse(&pool[a % n]);
            let r = match k {
                0 => return out.push(x.to_string()),
                1 => x * sparse(&pool[b % n]),
                2 => x * pool[b % n].clone(),
                _ => pool[b % n].clone() * x.transpose(),
            };
            out.push(read(&r));
            pool.push(r)
        }
        Op::Special(k, a, b) => T::special(*k % T::SPECIAL, pool, a % n, b % n, out),
    }
}
trait SizeOf {
    fn size_of(&self) -> (usize, usize);
}
impl<T: PID> SizeOf for Matrix<T> {
    fn size_of(&self) -> (usize, usize) {
        (**self).size()
    }
}

fn largest<T: Entry>(m: &Matrix<T>, abs: impl Fn(&T) -> f64) -> f64 {
    let (n, k) = m.size_of();
    (0..n).flat_map(|i| (0..k).map(move |j| (i, j))).map(|p| abs(&m[p])).fold(0.0, f64::max)
}
fn smith<T: Entry>(m: Matrix<T>, pool: &mut Vec<Matrix<T>>, out: &mut Vec<String>) {
    let (a, b, c, d, e) = m.smith_normal_form();
    for x in [a, b, c, d, e] {
        out.push(read(&x));
        pool.push(x);
    }
}

impl Entry for i64 {
    const SPECIAL: u64 = 2;
    fn of(x: i64) -> i64 {
        x
    }
    fn bits(&self) -> String {
        self.to_string()
    }
    fn special(k: u64, pool: &mut Vec<Matrix<i64>>, a: usize, b: usize, out: &mut Vec<String>) {
        match k {
            0 if largest(&pool[a], |x| x.abs() as f64) < 1e3 => smith(pool[a].clone(), pool, out),
            _ => {
                let basis: Vec<Obj> = (0..pool[b].size_of().0 as u8).map(Obj).collect();
                out.push(format!("{:?}", pool[a].clone() * basis));
            }
        }
    }
}
impl Entry for Rational {
    const SPECIAL: u64 = 3;
    fn of(x: i64) -> Rational {
        Rational::new(x, 1 + x.abs() % 3)
    }
    fn bits(&self) -> String {
        self.to_string()
    }
    fn special(k: u64, pool: &mut Vec<Matrix<Rational>>, a: usize, b: usize, out: &mut Vec<String>) {
        match k {
            0 => out.push(pool[a].rank_as_linear_map().to_string()),
            1 => smith(pool[a].clone(), pool, out),
            _ => {
                let x = pool[b][(0, 0)];
                let mut m = &*pool[a] / x;
                m /= x;
                out.push(read(&m));
                pool.push(m / x);
            }
        }
    }
}
impl Entry for f64 {
    const SPECIAL: u64 = 12;
    fn of(x: i64) -> f64 {
        x as f64 / 2.0
    }
    fn bits(&self) -> String {
        format!("{:x}", self.to_bits())
    }
    fn special(k: u64, pool: &mut Vec<Matrix<f64>>, a: usize, b: usize, out: &mut Vec<String>) {
        let mut m = pool[a].clone();
        let big = largest(&m, |x| if x.is_finite() { x.abs() } else { 1e300 });
        if big > 1e6 {
            return;
        }
        let (n, k2) = m.size_of();
        let r = match k {
            0 => {
                m.lu();
                m
            }
            1 => {
                out.push(m.det().bits());
                return;
            }
            2 => m.solve(pool[b].clone()),
            3 => {
                m.hessenberg_form();
                m
            }
            4 => {
                let q = m[(.., ..)].qr_with_op();
                out.push(read(&m));
                q
            }
            5 => m.gram_schmidt(),
            6 => {
                for v in [m.one_norm(), m.inf_norm(), m.frobenius_norm(), m[(.., 0)].two_norm(), (m.rank_as_linear_map() as f64)] {
                    out.push(v.bits());
                }
                return;
            }
            7 => {
                let (v, x) = m[(.., 0)].householder_vec();
                out.push(x.bits());
                v
            }
            8..=10 if n == k2 && n > 1 => {
                let mut t = m.clone().transpose();
                t += &*m;
                match k {
                    8 => {
                        t[(.., ..)].householder_tridiagonalization(true);
                        out.push(read(&t));
                        t.extract_householder_vecs()
                    }
                    9 => {
                        let q = t[(.., ..)].symmetric_qr(true);
                        out.push(read(&t));
                        q
                    }
                    _ => t.spectrum_symmetric(),
                }
            }
            11 if n >= 3 && n == k2 => {
                m.francis_step();
                m
            }
            _ => return,
        };
        out.push(read(&r));
        pool.push(r);
    }
}

fn programs<T: Entry>(s: &mut Src) -> Res {
    let ops = program(s, T::SPECIAL);
    s.note(|| format!("{ops:?}"));
    let d = || format!("program {ops:?}");
    let makes = ops.iter().filter(|o| matches!(o, Op::New(_) | Op::Clone(_) | Op::Binary(..) | Op::Scale(..) | Op::View(..) | Op::Special(..))).count();
    s.nontrivial_if(makes >= 4);
    // also settles what is allocated once and kept
    let (plain, _, w) = guarding(0x5B, || run::<T>(&ops));
    ensure!(w == 0, "{} in {}", WHAT[w], d());
    let differs = |n: usize| {
        (0..n).fold(None, |r: Option<(usize, String)>, _| {
            let x = run::<T>(&ops);
            r.or_else(|| if x.len() == plain.len() { (0..x.len()).find(|&k| x[k] != plain[k]).map(|k| (k, x[k].clone())) } else { Some((0, String::new())) })
        })
    };
    for (fill, n) in [(0x00, 1), (0xA7, 3)] {
        let (r, left, w) = guarding(fill, || differs(n));
        ensure!(w == 0, "{} in {}", WHAT[w], d());
        if let Some((k, x)) = &r {
            return Err(format!("the results depend on what the memory held before: {} and {x} are reported by the same step of {}", plain[*k], d()));
        }
        // what stays behind once, for instance the message of a panic, is not a leak
        ensure!(n == 1 || left < n, "{left} blocks are never released when the program runs {n} times: {}", d());
    }
    Ok(())
}
