//! Property-based testing engine.
//!
//! A check is a set of *subs*; a sub is a function over a choice source [`Src`].
//! Every generated value is drawn from the source, so a test case *is* its tape of
//! choices: recording it gives replay, editing it gives shrinking (choices shrink
//! towards 0, the tape shrinks by deletion), independent of how values are built.
//!
//! The parent process never executes code under test: it spawns workers, each of
//! which runs a range of case indices. Case `i` of sub `s` under seed `k` is a pure
//! function of (k, property, s, i).

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    /// number of cases in the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// `true`: case i has its first choice forced to i (enumeration of a finite space)
    pub enumerate: bool,
    pub f: fn(&mut Src) -> Res,
}

impl Sub {
    pub const fn new(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Src) -> Res) -> Sub {
        // the counts in the tables are units of roughly 10 ms of work
        Sub { name, quick: quick * 20, thorough: thorough * 100, enumerate: false, f }
    }
    pub const fn all(name: &'static str, n: u64, f: fn(&mut Src) -> Res) -> Sub {
        Sub { name, quick: n, thorough: n, enumerate: true, f }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

// ---------------------------------------------------------------- the choice source

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Src {
    rng: u64,
    /// choices to replay; after they run out: rng (if `random_tail`) or zeros
    replay: Vec<u64>,
    random_tail: bool,
    pub tape: Vec<u64>,
    stream: Option<fs::File>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub notes: Vec<String>,
    keep_notes: bool,
}

impl Src {
    fn new(rng: u64, replay: Vec<u64>, random_tail: bool, keep_notes: bool) -> Src {
        Src { rng, replay, random_tail, tape: vec![], stream: None, nontrivial: false, labels: vec![], notes: vec![], keep_notes }
    }

    /// uniform in 0..n, shrinks to 0
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "harness: below(0)");
        let i = self.tape.len();
        let v = if i < self.replay.len() {
            self.replay[i].min(n - 1)
        } else if self.random_tail {
            // multiply-shift; the bias is irrelevant here
            ((splitmix(&mut self.rng) as u128 * n as u128) >> 64) as u64
        } else {
            0
        };
        self.tape.push(v);
        if let Some(f) = &mut self.stream {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// mostly lo..=typical, in one case of twenty typical+1..=tail (one draw, so it shrinks well)
    pub fn size(&mut self, lo: usize, typical: usize, tail: usize) -> usize {
        let (w, t) = ((typical - lo + 1) as u64, (tail - typical) as u64);
        let v = self.below(20 * w * t);
        if v < 19 * w * t {
            lo + (v / (19 * t)) as usize
        } else {
            typical + 1 + ((v - 19 * w * t) / w) as usize
        }
    }
    /// as `size`, and in one case of 400 anything up to `huge`
    pub fn size_huge(&mut self, lo: usize, typical: usize, tail: usize, huge: usize) -> usize {
        if self.chance(1, 400) {
            self.usize(lo, huge)
        } else {
            self.size(lo, typical, tail)
        }
    }
    /// lo..=hi; shrinks towards 0 when 0 is in range (zig-zag), else towards lo
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if lo > 0 || hi < 0 {
            let v = self.below(span.min(u64::MAX as u128) as u64);
            if hi < 0 { return hi - v as i64; }
            return lo + v as i64;
        }
        let v = self.below(span.min(u64::MAX as u128) as u64) as u128;
        let (neg, pos) = ((-(lo as i128)) as u128, hi as u128);
        let m = neg.min(pos);
        if v <= 2 * m {
            let k = v.div_ceil(2) as i128;
            (if v % 2 == 1 { k } else { -k }) as i64
        } else {
            let k = (v - m) as i128;
            (if pos > neg { k } else { -k }) as i64
        }
    }
    /// integers of mixed magnitude
    pub fn int_mixed(&mut self, max: i64) -> i64 {
        match self.below(6) {
            0 => self.int(-1, 1),
            1 | 2 => self.int(-(4.min(max)), 4.min(max)),
            3 | 4 => self.int(-(12.min(max)), 12.min(max)),
            _ => self.int(-max, max),
        }
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den (shrinks to false)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// a permutation of 0..n (shrinks to the identity)
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below((n - i) as u64) as usize;
            v.swap(i, j);
        }
        v
    }
    /// subset of 0..n, each element with probability num/den
    pub fn subset(&mut self, n: usize, num: u64, den: u64) -> Vec<usize> {
        (0..n).filter(|_| self.chance(num, den)).collect()
    }
    /// finite float in [-r, r] on a grid of 1/1024-ths, shrinks to 0
    pub fn float(&mut self, r: i64) -> f64 {
        self.int(-r * 1024, r * 1024) as f64 / 1024.0
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, s: &'static str) {
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
    pub fn label_if(&mut self, b: bool, s: &'static str) {
        if b {
            self.label(s)
        }
    }
    /// human-readable description of the case, only evaluated when it is kept
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.keep_notes {
            let mut s = f();
            if s.len() > 4000 {
                let mut k = 4000;
                while !s.is_char_boundary(k) { k -= 1; }
                s.truncate(k);
                s.push('…');
            }
            if self.stream.is_some() {
                // single-case mode: show the input before running it
                eprintln!("{s}");
            }
            self.notes.push(s);
        }
    }
}

// ---------------------------------------------------------------- running one case

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let (loc, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, format!("{loc}:{line}"))));
    }));
}
fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

pub enum Outcome {
    Pass,
    Fail(String),
}

fn run_case(sub: &Sub, src: &mut Src) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sub.f)(src)));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                // values of the wrong shape (a short vector, a missing key) trip the oracle
                Outcome::Fail(format!("the oracle could not digest what the code under test returned: panic in the harness at {loc}: {msg}"))
            } else {
                Outcome::Fail(format!("code under test panicked at {loc}: {msg}"))
            }
        }
    }
}

/// Runs `f`, turning a panic of the code under test into Err(message).
#[allow(dead_code)]
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
        if loc.starts_with("src/") || loc.contains("/verif/harness/") {
            panic!("harness panic at {loc}: {msg}");
        }
        format!("panicked at {loc}: {msg}")
    })
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut x = seed ^ hash_str(prop).rotate_left(17) ^ hash_str(sub).rotate_left(41);
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut y)
}

fn src_for(seed: u64, prop: &str, sub: &Sub, idx: u64, notes: bool) -> Src {
    let pre = if sub.enumerate { vec![idx] } else { vec![] };
    Src::new(case_seed(seed, prop, sub.name, idx), pre, true, notes)
}

// ---------------------------------------------------------------- shrinking

fn fails(sub: &Sub, t: &[u64]) -> Option<(Vec<u64>, String)> {
    let mut s = Src::new(0, t.to_vec(), false, false);
    match run_case(sub, &mut s) {
        Outcome::Fail(m) => Some((s.tape, m)),
        _ => None,
    }
}

/// (length, lexicographic) order on tapes: a candidate is accepted only if smaller.
fn smaller(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn shrink_with(mut best: Vec<u64>, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>, budget: usize, time: Duration) -> Vec<u64> {
    let t0 = Instant::now();
    let mut n = 0;
    loop {
        let before = best.clone();
        let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
            if n >= budget || t0.elapsed() > time || !smaller(&cand, best) {
                return false;
            }
            n += 1;
            if let Some(t) = test(&cand) {
                if smaller(&t, best) {
                    *best = t;
                    return true;
                }
            }
            false
        };
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if !attempt(c, &mut best) {
                    i += k.max(1);
                }
            }
            k /= 2;
        }
        // delete one choice and decrement an earlier one (length prefixes)
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                for j in (i + 1..best.len().min(i + 12)).rev() {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.remove(j);
                    if attempt(c, &mut best) {
                        break;
                    }
                }
            }
            i += 1;
        }
        // zero blocks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|&x| x > 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    attempt(c, &mut best);
                }
                i += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if attempt(c, &mut best) {
                    if i >= best.len() { break; }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            // the last few values, linearly
            for d in 1..=3u64 {
                if i < best.len() && best[i] >= d {
                    let mut c = best.clone();
                    c[i] -= d;
                    attempt(c, &mut best);
                }
            }
            i += 1;
        }
        if best == before || n >= budget || t0.elapsed() > time {
            return best;
        }
    }
}

// ---------------------------------------------------------------- worker

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tape_str(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

/// cap on the fingerprints of distinct cases that are kept
const MAX_DISTINCT: usize = 50_000_000;

/// Line-based worker report: `key<TAB>value`, text escaped as JSON strings.
pub fn worker(p: &Prop, sub: &Sub, start: u64, end: u64, seed: u64, out: &Path) {
    install_panic_hook();
    let mut rep = String::new();
    let journal = fs::File::create(out.with_extension("journal")).unwrap();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    // tuning aid: a file that collects the cases taking longer than so many milliseconds
    let slow = std::env::var("VP_SLOW").ok().and_then(|v| v.split_once(':').map(|(ms, f)| (ms.parse::<u128>().unwrap_or(1000), f.to_string())));
    for idx in start..end {
        use std::os::unix::fs::FileExt;
        let _ = journal.write_all_at(&idx.to_le_bytes(), 0);
        let keep = samples.len() < 2;
        let mut src = src_for(seed, p.id, sub, idx, keep);
        let t = Instant::now();
        let o = run_case(sub, &mut src);
        if let Some((ms, f)) = &slow {
            if t.elapsed().as_millis() >= *ms {
                if let Ok(mut f) = fs::OpenOptions::new().create(true).append(true).open(f) {
                    let _ = writeln!(f, "{:6} ms {} {} {}", t.elapsed().as_millis(), p.id, sub.name, idx);
                }
            }
        }
        evals += 1;
        match o {
            Outcome::Pass => {
                for l in &src.labels {
                    *labels.entry(l).or_default() += 1;
                }
                if src.nontrivial {
                    nontriv += 1;
                    let mut h = 0xcbf29ce484222325u64;
                    for v in &src.tape {
                        h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
                    }
                    distinct.insert(h);
                    if keep && !src.notes.is_empty() {
                        samples.push(format!("{}#{}: {}", sub.name, idx, src.notes.join("; ")));
                    }
                }
            }
            Outcome::Fail(m) => {
                let first = src.tape.clone();
                // in case shrinking runs into something that kills or hangs the process
                let _ = fs::write(out, format!("fail\t{}\t{}\t{}\t{}\n", idx, tape_str(&first), esc(&m), esc("")));
                let best = shrink_with(first.clone(), |c| fails(sub, c).map(|x| x.0), 4000, Duration::from_secs(45));
                // final run of the minimal case, with notes
                let mut s = Src::new(0, best.clone(), false, true);
                let (tape, msg, notes) = match run_case(sub, &mut s) {
                    Outcome::Fail(m2) => (best, m2, s.notes),
                    // not reproducible from the shrunk tape: keep the original
                    _ => {
                        let mut s = Src::new(0, first.clone(), false, true);
                        run_case(sub, &mut s);
                        (first, m, s.notes)
                    }
                };
                let _ = writeln!(rep, "fail\t{}\t{}\t{}\t{}", idx, tape_str(&tape), esc(&msg), esc(&notes.join("\n")));
                break;
            }
        }
    }
    let _ = writeln!(rep, "evals\t{evals}");
    let _ = writeln!(rep, "nontrivial\t{nontriv}");
    for (l, n) in &labels {
        let _ = writeln!(rep, "label\t{}\t{}", n, esc(l));
    }
    for s in &samples {
        let _ = writeln!(rep, "sample\t{}", esc(s));
    }
    let mut hs: Vec<u8> = Vec::with_capacity(distinct.len() * 8);
    for h in &distinct {
        hs.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(out.with_extension("hashes"), hs).unwrap();
    let _ = writeln!(rep, "done\t1");
    fs::write(out, rep).unwrap();
}

/// Runs one case given by its tape. Exit code 0 pass, 1 fail.
pub fn single(p: &Prop, sub: &Sub, tape: Vec<u64>, out: &Path) -> i32 {
    install_panic_hook();
    let _ = p;
    let mut s = Src::new(0, tape, false, true);
    match run_case(sub, &mut s) {
        Outcome::Pass => {
            fs::write(out, "pass").unwrap();
            0
        }
        Outcome::Fail(m) => {
            fs::write(out, format!("{m}\n--- case ---\n{}", s.notes.join("\n"))).unwrap();
            1
        }
    }
}

/// Re-executes case `idx` streaming every choice to `out` as it is drawn, so that the
/// tape of a case that kills the process is known.
pub fn stream(p: &Prop, sub: &Sub, idx: u64, seed: u64, out: &Path) {
    install_panic_hook();
    let mut s = src_for(seed, p.id, sub, idx, true);
    s.stream = Some(fs::File::create(out).unwrap());
    run_case(sub, &mut s);
}

// ---------------------------------------------------------------- parent

struct Job {
    sub: usize,
    start: u64,
    end: u64,
}

struct Running {
    child: Child,
    job: Job,
    out: PathBuf,
    last_idx: u64,
    last_progress: Instant,
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim_matches('"').chars();
    // the value is quoted; inner quotes are escaped, so trimming outer ones is safe
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some('u') => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
                }
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// How a worker ended without a verdict of its own.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Death {
    Signal(i32),
    /// no progress within the limit
    Hang,
}

fn is_crash_signal(sig: i32) -> bool {
    // SEGV, ABRT (also: allocation refused under the address-space limit), BUS, ILL, FPE, TRAP
    matches!(sig, 4 | 5 | 6 | 7 | 8 | 11)
}


pub fn check(p: &Prop, tier: &str, seed: u64, verif: &Path, known: &[Known]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let scratch = verif.join("work").join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    // the slowest case on the repaired tree takes a few seconds
    let hang_limit = Duration::from_secs(if tier == "quick" { 100 } else { 300 });
    // a run that is much slower than it should be still ends with an answer
    let deadline = if tier == "quick" { Some(Duration::from_secs(600)) } else { None };
    let mut jobs: Vec<Job> = vec![];
    for (i, s) in p.subs.iter().enumerate() {
        // VP_PERCENT: a tuning aid, for slow (instrumented) builds of the harness
        let percent: u64 = std::env::var("VP_PERCENT").ok().and_then(|x| x.parse().ok()).unwrap_or(100);
        let n = if tier == "quick" { s.quick } else { s.thorough } * percent / 100;
        let chunks = if n < 16 { 1 } else { 8 };
        let mut a = 0;
        for c in 0..chunks {
            let b = n * (c + 1) / chunks;
            if b > a {
                jobs.push(Job { sub: i, start: a, end: b });
            }
            a = b;
        }
    }
    jobs.reverse();
    let ncpu = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 8);
    let mut running: Vec<Running> = vec![];
    let mut serial = 0;
    let (mut evals, mut errors): (u64, Vec<String>) = (0, vec![]);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_sub: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
    let mut samples: BTreeMap<&'static str, Vec<String>> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    // (sub, idx, tape, msg, notes)
    let mut failures: Vec<(usize, u64, Vec<u64>, String, String)> = vec![];
    let mut crashes: Vec<(usize, u64, Death)> = vec![];
    while !jobs.is_empty() || !running.is_empty() {
        while running.len() < ncpu && !jobs.is_empty() {
            let job = jobs.pop().unwrap();
            serial += 1;
            let out = scratch.join(format!("w{serial}.txt"));
            let err = fs::File::create(out.with_extension("err")).unwrap();
            let child = Command::new(&exe)
                .args(["worker", p.id, p.subs[job.sub].name, &job.start.to_string(), &job.end.to_string(), &seed.to_string()])
                .arg(&out)
                .current_dir(&scratch)
                .env("VP_TIER", tier)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(err)
                .spawn()
                .expect("spawn worker");
            running.push(Running { child, last_idx: u64::MAX, last_progress: Instant::now(), job, out });
        }
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            match r.child.try_wait().unwrap() {
                None => {
                    let idx = fs::read(r.out.with_extension("journal")).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(u64::MAX);
                    if idx != r.last_idx {
                        r.last_idx = idx;
                        r.last_progress = Instant::now();
                    } else if r.last_progress.elapsed() > hang_limit {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        if let Some(f) = early_fail(&r.out, r.job.sub) {
                            failures.push(f);
                            running.swap_remove(i);
                            continue;
                        }
                        crashes.push((r.job.sub, idx, Death::Hang));
                        running.swap_remove(i);
                        jobs.clear();
                        continue;
                    } else if deadline.is_some_and(|d| t0.elapsed() > d) {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        match early_fail(&r.out, r.job.sub) {
                            Some(f) => failures.push(f),
                            None => errors.push(format!("{}: stopped at case {} after {:?}", p.subs[r.job.sub].name, idx, t0.elapsed())),
                        }
                        running.swap_remove(i);
                        jobs.clear();
                        continue;
                    }
                    i += 1;
                }
                Some(st) => {
                    let r = running.swap_remove(i);
                    let sname = p.subs[r.job.sub].name;
                    let text = fs::read_to_string(&r.out).unwrap_or_default();
                    let complete = text.lines().any(|l| l == "done\t1");
                    if st.success() && complete {
                        for l in text.lines() {
                            let f: Vec<&str> = l.split('\t').collect();
                            match f[0] {
                                "evals" => {
                                    let n: u64 = f[1].parse().unwrap();
                                    evals += n;
                                    per_sub.entry(sname).or_default().0 += n;
                                }
                                "nontrivial" => per_sub.entry(sname).or_default().1 += f[1].parse::<u64>().unwrap(),
                                "label" => *labels.entry(format!("{}: {}", sname, unesc(f[2]))).or_default() += f[1].parse::<u64>().unwrap(),
                                "sample" => samples.entry(sname).or_default().push(unesc(f[1])),
                                "fail" => failures.push((
                                    r.job.sub,
                                    f[1].parse().unwrap(),
                                    f[2].split_whitespace().map(|x| x.parse().unwrap()).collect(),
                                    unesc(f[3]),
                                    unesc(f[4]),
                                )),
                                _ => {}
                            }
                        }
                        let hs = fs::read(r.out.with_extension("hashes")).unwrap_or_default();
                        for c in hs.chunks_exact(8) {
                            // beyond this many the set is not grown further, and the count is a lower bound
                            if distinct.len() < MAX_DISTINCT {
                                let h = u64::from_le_bytes(c.try_into().unwrap());
                                distinct.insert(h ^ (r.job.sub as u64 + 1).wrapping_mul(0xD6E8FEB86659FD93));
                            }
                        }
                    } else if let Some(f) = early_fail(&r.out, r.job.sub) {
                        failures.push(f);
                    } else {
                        let err = fs::read_to_string(r.out.with_extension("err")).unwrap_or_default();
                        let idx = fs::read(r.out.with_extension("journal")).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes);
                        match (st.signal(), idx) {
                            (Some(sig), Some(idx)) if is_crash_signal(sig) => crashes.push((r.job.sub, idx, Death::Signal(sig))),
                            _ => errors.push(format!("{sname}: worker ended with {st} at case {idx:?}: {}", err.lines().last().unwrap_or(""))),
                        }
                    }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(4));
    }
    // a worker that died or hung: reproduce the case in a process of its own
    crashes.sort();
    crashes.dedup_by_key(|c| c.0);
    for &(sub, idx, how) in &crashes {
        let s = &p.subs[sub];
        let tp = scratch.join("stream.bin");
        // Some(true): died the same way
        let died = |args: &[&str], limit: u64| -> bool {
            match run_child(&exe, args, &scratch, Duration::from_secs(limit)) {
                Ok(st) => matches!(how, Death::Signal(sig) if st.signal() == Some(sig)),
                Err(timed_out) => timed_out && how == Death::Hang,
            }
        };
        let again = died(&["stream", p.id, s.name, &idx.to_string(), &seed.to_string(), tp.to_str().unwrap()], 60);
        let tape: Vec<u64> = fs::read(&tp).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        if !again {
            errors.push(format!("{}: case {} ended with {:?} once, but not again", s.name, idx, how));
            continue;
        }
        let one = |t: &[u64], limit: u64| -> bool {
            let rp = scratch.join("cand.txt");
            fs::write(&rp, tape_str(t)).unwrap();
            died(&["single", p.id, s.name, rp.to_str().unwrap(), scratch.join("single.out").to_str().unwrap()], limit)
        };
        let short = if how == Death::Hang { 4 } else { 60 };
        let mut best = if one(&tape, 60) { shrink_with(tape.clone(), |c| if one(c, short) { Some(c.to_vec()) } else { None }, 300, Duration::from_secs(60)) } else { tape.clone() };
        if how == Death::Hang && best != tape && !one(&best, 60) {
            best = tape;
        }
        let msg = match how {
            Death::Signal(sig) => format!("the process was killed by signal {sig} inside the code under test (memory corruption, stack overflow or exhausted memory)"),
            Death::Hang => "the code under test did not return within 60 s (the same cases take well under a second on a correct tree)".to_string(),
        };
        failures.push((sub, idx, best, msg, String::new()));
    }
    failures.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    // one report per sub: the first failing case
    failures.dedup_by_key(|f| f.0);

    let mut violations = 0;
    for k in known.iter().filter(|k| k.property == p.id) {
        // a listed finding: re-executed from its own input, reported while it fails
        let Some(s) = p.subs.iter().find(|s| s.name == k.sub) else {
            // findings may use dedicated subs that the random search does not visit
            errors.push(format!("known finding names an unknown sub {}", k.sub));
            continue;
        };
        let rp = scratch.join("known.txt");
        fs::write(&rp, tape_str(&k.tape)).unwrap();
        let st = run_child(&exe, &["single", p.id, s.name, rp.to_str().unwrap(), scratch.join("single.out").to_str().unwrap()], &scratch, Duration::from_secs(60)).ok();
        match st {
            Some(st) if st.code() == Some(1) || st.signal().is_some() => println!("KNOWN-FINDING: property={} {}", p.id, k.what),
            Some(st) if st.code() == Some(0) => {}
            _ => errors.push(format!("known finding {} could not be replayed", k.what)),
        }
    }
    let rdir = verif.join("replays");
    for (sub, idx, tape, msg, notes) in &failures {
        let s = &p.subs[*sub];
        if known.iter().any(|k| k.property == p.id && k.sub == s.name && &k.tape == tape) {
            continue;
        }
        violations += 1;
        fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{}.replay", p.id, s.name));
        let body = format!(
            "property {}\nsub {}\nseed {}\ncase {}\ntape {}\n# {}\n# replay: /verif/check.sh replay {}\n{}\n",
            p.id,
            s.name,
            seed,
            idx,
            tape_str(tape),
            msg.replace('\n', "\n# "),
            path.display(),
            notes.lines().map(|l| format!("# {l}")).collect::<Vec<_>>().join("\n")
        );
        fs::write(&path, body).unwrap();
        println!("VIOLATION property={} replay={}", p.id, path.display());
        println!("  {} (case {}): {}", s.name, idx, msg);
        for l in notes.lines().take(12) {
            println!("    {l}");
        }
    }
    let _ = fs::remove_dir_all(&scratch);

    // evidence
    let mut ev = String::new();
    let _ = writeln!(ev, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",", esc(p.id), esc(tier), seed);
    let _ = writeln!(ev, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},", evals, distinct.len(), esc(p.rule));
    let all: Vec<String> = samples.values().flat_map(|v| v.iter().take(2)).map(|s| esc(s)).collect();
    let _ = writeln!(ev, "  \"samples\": [\n   {}\n  ],", all.join(",\n   "));
    let sp: Vec<String> = per_sub.iter().map(|(k, v)| format!("{}: {{\"evaluations\": {}, \"nontrivial\": {}}}", esc(k), v.0, v.1)).collect();
    let _ = writeln!(ev, "  \"per_sub\": {{\n   {}\n  }},", sp.join(",\n   "));
    let lb: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let _ = writeln!(ev, "  \"classes\": {{\n   {}\n  }}\n }},", lb.join(",\n   "));
    let asum: Vec<String> = p.assumptions.iter().map(|s| esc(s)).collect();
    let _ = writeln!(ev, " \"assumptions\": [{}],", asum.join(", "));
    let _ = writeln!(ev, " \"wall_s\": {:.3},\n \"violations\": {}\n}}", t0.elapsed().as_secs_f64(), violations);
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(verif.join("evidence").join(format!("{}.json", p.id)), ev).unwrap();

    println!("{} [{} seed {}]: {} cases, {} distinct non-trivial, {} violation(s), {} error(s), {:.1}s", p.id, tier, seed, evals, distinct.len(), violations, errors.len(), t0.elapsed().as_secs_f64());
    for e in &errors {
        println!("ERROR {e}");
    }
    if violations > 0 {
        1
    } else if !errors.is_empty() {
        3
    } else {
        0
    }
}

/// The failing case a worker had found before it died while shrinking it.
fn early_fail(out: &Path, sub: usize) -> Option<(usize, u64, Vec<u64>, String, String)> {
    let text = fs::read_to_string(out).ok()?;
    let l = text.lines().find(|l| l.starts_with("fail\t"))?;
    let f: Vec<&str> = l.split('\t').collect();
    Some((sub, f[1].parse().ok()?, f[2].split_whitespace().map(|x| x.parse().unwrap()).collect(), unesc(f[3]), unesc(f[4])))
}

/// Err(true) when the time ran out.
fn run_child(exe: &Path, args: &[&str], cwd: &Path, limit: Duration) -> Result<std::process::ExitStatus, bool> {
    let mut c = Command::new(exe).args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|_| false)?;
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().map_err(|_| false)? {
            return Ok(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return Err(true);
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

/// One open entry of known_findings.txt.
pub struct Known {
    pub property: String,
    pub sub: String,
    pub tape: Vec<u64>,
    pub what: String,
}

/// Lines: `finding: property=<id> sub=<sub> tape=<comma separated> <what fails>`.
/// `fixed:` lines and comments suppress nothing and are skipped.
pub fn read_known(path: &Path) -> Vec<Known> {
    let mut out = vec![];
    for l in fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let mut w = rest.splitn(4, ' ');
        let f = |w: &mut std::str::SplitN<char>, k: &str| w.next().and_then(|x| x.strip_prefix(k).map(|s| s.to_string())).unwrap_or_else(|| panic!("bad line in known findings: {l}"));
        let property = f(&mut w, "property=");
        let sub = f(&mut w, "sub=");
        let tape = f(&mut w, "tape=");
        out.push(Known { property, sub, tape: tape.split(',').filter(|s| !s.is_empty()).map(|x| x.parse().unwrap()).collect(), what: w.next().unwrap_or("").to_string() });
    }
    out
}
