//! C25, beyond one array: operations on other arrays before, inside the callbacks of, and at the
//! same time as an operation, and operations that a callback's panic cut short.
use crate::engine::{Checker, apart, payload};
use crate::gens;
use crate::ops::trap;
use crate::par;
use crate::util::show;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayViewMut1, s};
use rayon_core::model::{self, Config, Policy, Trace};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// An element without bookkeeping of its own.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct P {
    key: u32,
    id: u32,
}

/// What operations work on.
trait Elem: Copy + Send + Sync {
    fn make(key: u32, id: u32) -> Self;
    fn key(&self) -> u32;
    fn id(&self) -> u32;
}
impl Elem for P {
    fn make(key: u32, id: u32) -> P {
        P { key, id }
    }
    fn key(&self) -> u32 {
        self.key
    }
    fn id(&self) -> u32 {
        self.id
    }
}
impl Elem for () {
    fn make(_: u32, _: u32) {}
    fn key(&self) -> u32 {
        0
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Elem for u8 {
    fn make(key: u32, _: u32) -> u8 {
        key as u8
    }
    fn key(&self) -> u32 {
        *self as u32
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
impl Elem for [u64; 5] {
    fn make(key: u32, id: u32) -> [u64; 5] {
        [key as u64, id as u64, !(key as u64), !(id as u64), 7]
    }
    fn key(&self) -> u32 {
        self[0] as u32
    }
    fn id(&self) -> u32 {
        self[1] as u32
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum N {
    Sort,
    Cached,
    Unst,
    Select,
    Many,
    Dedup,
    IsSorted,
    Search,
    ParSort,
    ParCached,
    ParUnst,
    ParMany,
}
use N::*;
const ALL: [N; 12] = [Sort, Cached, Unst, Select, Many, Dedup, IsSorted, Search, ParSort, ParCached, ParUnst, ParMany];
const FEW: [N; 8] = [Sort, Cached, Unst, Select, Many, ParSort, ParCached, ParUnst];

type Cb<'a> = &'a (dyn Fn() + Sync);

fn indices(n: usize) -> Array1<usize> {
    (0..n).step_by(n / 5 + 1).collect()
}

/// One operation; every callback of it calls `cb` first.
fn run<T: Elem>(op: N, v: &mut ArrayViewMut1<T>, cb: Cb) -> Vec<usize> {
    let n = v.len();
    let by = |a: &T, b: &T| {
        cb();
        a.key().cmp(&b.key())
    };
    let key = |a: &T| {
        cb();
        a.key()
    };
    match op {
        Sort => v.sort_by(by),
        Cached => v.sort_by_cached_key(key),
        Unst => v.sort_unstable_by(by),
        ParSort => v.par_sort_by(by),
        ParCached => v.par_sort_by_cached_key(key),
        ParUnst => v.par_sort_unstable_by(by),
        Select => {
            if n > 0 {
                let (l, e, r) = v.select_nth_unstable_by(n / 3, by);
                return vec![l.len(), e.id() as usize, r.len()];
            }
        }
        Many => {
            let mut out: Vec<(usize, &mut T)> = Vec::new();
            v.select_many_nth_unstable_by(&indices(n), &mut out, by);
            return out.iter().flat_map(|(i, e)| [*i, e.id() as usize]).collect();
        }
        ParMany => {
            let mut out: Vec<&mut T> = Vec::new();
            v.par_select_many_nth_unstable_by(&indices(n), &mut out, by);
            return out.iter().map(|e| e.id() as usize).collect();
        }
        Dedup => {
            let (a, b) = v.partition_dedup_by(|a, b| {
                cb();
                a.key() == b.key()
            });
            return vec![a.len(), b.len()];
        }
        IsSorted => {
            return vec![v.is_sorted_by(|a, b| {
                cb();
                a.key() <= b.key()
            }) as usize];
        }
        Search => {
            // On an array in no order, any answer will do that is the same every time.
            let t = n as u32 / 2;
            return match v.binary_search_by(|e| {
                cb();
                e.key().cmp(&t)
            }) {
                Ok(i) => vec![0, i],
                Err(i) => vec![1, i],
            };
        }
    }
    vec![]
}

/// What an operation leaves behind.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Left {
    ids: Vec<u32>,
    out: Vec<usize>,
}

/// An array to operate on: every `stride`-th (or reversed) element of a larger one.
struct Arr {
    a: Array1<P>,
    stride: isize,
}

impl Arr {
    fn new(keys: &[u32], stride: isize) -> Arr {
        let k = stride.unsigned_abs();
        let n = keys.len();
        let total = if n == 0 { 0 } else { (n - 1) * k + 1 };
        let mut a = Array1::from_elem(total, P { key: u32::MAX, id: u32::MAX });
        if n > 0 {
            for (i, e) in a.slice_mut(s![..;stride]).iter_mut().enumerate() {
                *e = P { key: keys[i], id: i as u32 };
            }
        }
        Arr { a, stride }
    }
    fn view(&mut self) -> ArrayViewMut1<'_, P> {
        if self.a.is_empty() { self.a.view_mut() } else { self.a.slice_mut(s![..;self.stride]) }
    }
    fn go(&mut self, op: N, cb: Cb) -> Vec<usize> {
        run(op, &mut self.view(), cb)
    }
    fn left(&mut self, out: Vec<usize>) -> Left {
        Left { ids: self.view().iter().map(|e| e.id).collect(), out }
    }
}

fn nothing() {}

fn cfg(workers: usize, policy: Policy) -> Config {
    Config { workers, policy, script: vec![] }
}

/// The reference: the operation alone, on a thread that has not run any other.
fn alone(op: N, keys: &[u32], stride: isize) -> Result<Left, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || {
                let mut a = Arr::new(keys, stride);
                let (r, _) = model::run(&cfg(1, Policy::Owner), || trap(|| a.go(op, &nothing)));
                match r.and_then(|x| x) {
                    Ok(out) => Ok(a.left(out)),
                    Err(p) => Err(format!("{op:?} of {} panicked: {}", show(keys), payload(&*p))),
                }
            })
            .expect("thread")
            .join()
            .expect("join")
    })
    .and_then(|l| {
        sound(op, keys, &l).map_err(|e| format!("{op:?} of {}: {e}", show(keys)))?;
        Ok(l)
    })
}

/// The bare minimum every outcome must meet.
fn sound(op: N, keys: &[u32], l: &Left) -> Result<(), String> {
    let n = keys.len();
    let mut seen = vec![false; n];
    for &i in &l.ids {
        if i as usize >= n || std::mem::replace(&mut seen[i as usize], true) {
            return Err(format!("not a permutation: {}", show(&l.ids)));
        }
    }
    if l.ids.len() != n {
        return Err("length changed".into());
    }
    let k = |i: u32| keys[i as usize];
    let ok = match op {
        Sort | Cached | ParSort | ParCached => l.ids.windows(2).all(|w| (k(w[0]), w[0]) < (k(w[1]), w[1])),
        Unst | ParUnst => l.ids.windows(2).all(|w| k(w[0]) <= k(w[1])),
        Select if n > 0 => {
            let m = k(l.ids[n / 3]);
            l.ids[..n / 3].iter().all(|&i| k(i) <= m) && l.ids[n / 3..].iter().all(|&i| k(i) >= m)
        }
        IsSorted => l.out == [keys.windows(2).all(|w| w[0] <= w[1]) as usize],
        _ => true,
    };
    if ok { Ok(()) } else { Err(format!("wrong outcome {} {:?}", show(&l.ids), l.out)) }
}

/// References by operation, made once for each case.
#[derive(Default)]
struct Refs(HashMap<(N, Vec<u32>, isize), Left>);

impl Refs {
    fn get(&mut self, op: N, keys: &[u32], stride: isize) -> Result<Left, String> {
        let k = (op, keys.to_vec(), stride);
        if let Some(l) = self.0.get(&k) {
            return Ok(l.clone());
        }
        let l = alone(op, keys, stride)?;
        self.0.insert(k, l.clone());
        Ok(l)
    }
}

impl Refs {
    /// Whether all references are still what they were.
    fn recheck(&self) -> Result<(), String> {
        for ((op, keys, stride), l) in &self.0 {
            let again = alone(*op, keys, *stride)?;
            same(&format!("{op:?} of {} with stride {stride}, repeated after other operations,", show(keys)), &again, l)?;
        }
        Ok(())
    }
}

fn same(what: &str, got: &Left, want: &Left) -> Result<(), String> {
    if got.ids != want.ids {
        return Err(format!("{what} leaves {}, on its own {}", show(&got.ids), show(&want.ids)));
    }
    if got.out != want.out {
        return Err(format!("{what} returns {:?}, on its own {:?}", got.out, want.out));
    }
    Ok(())
}

/// An operation with its input.
#[derive(Clone)]
struct Job {
    op: N,
    keys: Vec<u32>,
    stride: isize,
}

impl Job {
    fn new(op: N, keys: &[u32], stride: isize) -> Job {
        Job { op, keys: keys.to_vec(), stride }
    }
    fn name(&self) -> String {
        format!("{:?} of {} with stride {}", self.op, show(&self.keys), self.stride)
    }
    fn alone(&self, r: &mut Refs) -> Result<Left, String> {
        r.get(self.op, &self.keys, self.stride)
    }
}

/// When a callback does something: the callbacks `first`, `first + step`, ... (counted from 1).
#[derive(Clone, Copy, Debug)]
struct When {
    first: usize,
    step: usize,
}

impl When {
    fn at(&self, k: usize) -> bool {
        k >= self.first && (k - self.first).is_multiple_of(self.step)
    }
}

struct Cut;

/// `jobs[0]` with `jobs[1]` run inside its callbacks, with `jobs[2]` inside those of `jobs[1]`, and
/// so on. With `cut`, each inner run is ended by a panic of its callback of that number, caught in
/// the outer callback, and only the outer outcome is judged.
fn nested(c: &mut Checker, refs: &mut Refs, jobs: &[Job], when: When, cut: usize, config: &Config) -> (Result<(), String>, Trace) {
    let mut want = Vec::new();
    for j in jobs {
        match j.alone(refs) {
            Ok(l) => want.push(l),
            Err(e) => return (Err(e), Trace::default()),
        }
    }
    let wrong: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
    let runs = AtomicUsize::new(0);
    let mut a = Arr::new(&jobs[0].keys, jobs[0].stride);
    let (r, t) = model::run(config, || trap(|| level(jobs, &want, 0, when, cut, &mut a, &wrong, &runs)));
    c.evaluations += runs.load(Relaxed) as u64;
    let res = match r.and_then(|x| x) {
        Err(p) => Err(format!("panicked: {}", payload(&*p))),
        Ok(out) => match wrong.into_inner().unwrap() {
            Some(e) => Err(e),
            None => same(&format!("the outer operation {}", jobs[0].name()), &a.left(out), &want[0]),
        },
    };
    let names = || jobs.iter().map(Job::name).collect::<Vec<_>>().join(" inside ");
    (res.map_err(|e| format!("{e} (nesting {}, callbacks {when:?}, cut {cut})", names())), t)
}

#[allow(clippy::too_many_arguments)]
fn level(jobs: &[Job], want: &[Left], d: usize, when: When, cut: usize, a: &mut Arr, wrong: &std::sync::Mutex<Option<String>>, runs: &AtomicUsize) -> Vec<usize> {
    runs.fetch_add(1, Relaxed);
    let calls = AtomicUsize::new(0);
    let cb = || {
        model::yield_point();
        let k = calls.fetch_add(1, Relaxed) + 1;
        if d > 0 && cut != 0 && d + 1 == jobs.len() && k == cut {
            std::panic::resume_unwind(Box::new(Cut));
        }
        if d + 1 == jobs.len() || !when.at(k) {
            return;
        }
        let j = &jobs[d + 1];
        let mut b = Arr::new(&j.keys, j.stride);
        let r = trap(|| level(jobs, want, d + 1, when, cut, &mut b, wrong, runs));
        let verdict = match r {
            Ok(out) => same(&format!("{} inside callback {k}", j.name()), &b.left(out), &want[d + 1]),
            Err(p) if cut != 0 && p.is::<Cut>() => Ok(()),
            Err(p) => Err(format!("{} inside callback {k} panicked: {}", j.name(), payload(&*p))),
        };
        if let Err(e) = verdict {
            wrong.lock().unwrap().get_or_insert(e);
        }
    };
    a.go(jobs[d].op, &cb)
}

/// Number of callbacks of a job on its own.
fn callbacks(j: &Job) -> usize {
    let calls = AtomicUsize::new(0);
    let mut a = Arr::new(&j.keys, j.stride);
    let _ = model::run(&cfg(1, Policy::Owner), || {
        a.go(j.op, &|| {
            calls.fetch_add(1, Relaxed);
        })
    });
    calls.load(Relaxed)
}

fn book(c: &mut Checker, t: &Trace, what: u64) {
    par::book(c, t, t.options.len());
    c.trace(what ^ t.hash);
}

/// Keys for a length: a few shapes, told apart by `i`.
fn input(n: usize, i: usize) -> Vec<u32> {
    let s = gens::shapes(n);
    s[i % s.len()].1.clone()
}

/// Some number for a job, for the trace fingerprints.
fn tag(j: &Job) -> u64 {
    j.keys.iter().fold(j.op as u64 + 99, |h, &k| gens::mix(h, k as u64))
}

fn within(c: &mut Checker) {
    c.section("operations inside callbacks: small arrays, all pairs, every callback alone and all together");
    for n in 2..=c.pick(4usize, 5) {
        gens::weak_orders(n, &mut |k| {
            for op in ALL {
                for m in c.pick(vec![3usize, 25, 60], vec![2, 3, 5, 13, 25, 60, 130]) {
                    if !c.next() {
                        continue;
                    }
                    c.run(|| format!("{op:?} of {} with {m} inside", show(k)), |c| {
                        let mut refs = Refs::default();
                        for (i, inner) in ALL.into_iter().enumerate() {
                            let outer = Job::new(op, k, [1, -1, 2][(i + n) % 3]);
                            let j = Job::new(inner, &input(m, i + k[0] as usize), [1, 3, -2][i % 3]);
                            let total = callbacks(&outer);
                            let mut whens = vec![When { first: 1, step: 1 }];
                            whens.extend((1..=total).map(|f| When { first: f, step: usize::MAX }));
                            for w in whens {
                                let (r, t) = nested(c, &mut refs, &[outer.clone(), j.clone()], w, 0, &cfg(2, Policy::Thief));
                                r?;
                                book(c, &t, tag(&outer) ^ tag(&j).rotate_left(9));
                            }
                        }
                        refs.recheck()
                    });
                }
            }
        });
    }
    c.section("operations inside callbacks: larger arrays, all pairs");
    for n in c.pick(vec![13usize, 24, 70, 150, 300, 2100, 4100], vec![13, 21, 24, 51, 60, 70, 100, 150, 300, 700, 2100, 4100, 6100, 8100]) {
        for m in c.pick(vec![13usize, 24, 70, 300], vec![13, 21, 24, 51, 60, 70, 150, 300, 700, 2100, 4100]) {
            for op in ALL {
                for (i, inner) in ALL.into_iter().enumerate() {
                    if !c.next() {
                        continue;
                    }
                    c.run(|| format!("{inner:?} of {m} inside {op:?} of {n}"), |c| {
                        let mut refs = Refs::default();
                        for shape in 0..c.pick(2, 4) {
                            let x = shape * 5 + i + op as usize;
                            let outer = Job::new(op, &input(n, x), [1, -1, 2][(i + n + shape) % 3]);
                            // The same length as well: what is kept by length must not be shared.
                            let j = Job::new(inner, &input(m, x + 3), [1, 3, -2][(i + shape) % 3]);
                            let total = callbacks(&outer);
                            let runs = if m > 300 { 6 } else if m > 70 { 12 } else { 30 };
                            let step = total / runs + 1;
                            for first in [1, step / 2 + 1] {
                                let w = When { first, step };
                                let policy = [Policy::Thief, Policy::Owner, Policy::RoundRobin][(shape + i) % 3];
                                let (r, t) = nested(c, &mut refs, &[outer.clone(), j.clone()], w, 0, &cfg(1 + (shape + i) % 3, policy));
                                r?;
                                book(c, &t, tag(&outer) ^ tag(&j).rotate_left(9));
                            }
                        }
                        refs.recheck()
                    });
                }
            }
        }
    }
    c.section("operations inside callbacks: three levels");
    for n in c.pick(vec![24usize, 30, 60], vec![13, 24, 30, 60, 120, 300]) {
        for a in ALL {
            for b in ALL {
                if !c.next() {
                    continue;
                }
                c.run(|| format!("anything inside {b:?} inside {a:?}, {n} elements"), |c| {
                    let mut refs = Refs::default();
                    for (i, d) in ALL.into_iter().enumerate() {
                        let jobs = [Job::new(a, &input(n, i), 1), Job::new(b, &input(n + 1, i + 1), 2), Job::new(d, &input(n, i + 2), -1)];
                        let step = callbacks(&jobs[0]).max(callbacks(&jobs[1])) / 7 + 1;
                        let (r, t) = nested(c, &mut refs, &jobs, When { first: 2, step }, 0, &cfg(2, Policy::Thief));
                        r?;
                        book(c, &t, tag(&jobs[0]) ^ tag(&jobs[1]).rotate_left(9) ^ tag(&jobs[2]).rotate_left(18));
                    }
                    refs.recheck()
                });
            }
        }
    }
    c.section("operations inside callbacks: every schedule within one deviation");
    for n in c.pick(vec![24usize], vec![13, 24, 40, 60, 100]) {
        for op in [ParSort, ParUnst, ParMany, ParCached] {
            for inner in FEW {
                for (w, policy) in c.pick(vec![(2, Policy::Owner), (2, Policy::Thief), (3, Policy::Late)], vec![(2, Policy::Owner), (2, Policy::Thief), (3, Policy::Late), (3, Policy::RoundRobin), (4, Policy::Thief)]) {
                    if !c.next() {
                        continue;
                    }
                    c.run(|| format!("{inner:?} inside {op:?}, {n} elements, {w} workers, {policy:?}"), |c| {
                        let mut refs = Refs::default();
                        let jobs = [Job::new(op, &gens::perm(n, 5), 1), Job::new(inner, &gens::perm(n, 7), 1)];
                        let total = callbacks(&jobs[0]);
                        let when = When { first: 1, step: total / 3 + 1 };
                        par::explore(c, (w, policy), 1, &mut |c, config| nested(c, &mut refs, &jobs, when, 0, config)).and_then(|_| refs.recheck())
                    });
                }
            }
        }
    }
}

fn cut_short(c: &mut Checker) {
    c.section("operations cut short by a panic, then others");
    for n in c.pick(vec![5usize, 13, 25, 60, 300], vec![2, 3, 4, 5, 8, 13, 21, 25, 40, 60, 150, 300, 700, 2100]) {
        for op in ALL {
            for (i, next) in ALL.into_iter().enumerate() {
                if !c.next() {
                    continue;
                }
                c.run(|| format!("{op:?} of {n} is cut short, then {next:?}"), |c| {
                    let mut refs = Refs::default();
                    let first = Job::new(op, &input(n, i + 1), 1);
                    let total = callbacks(&first);
                    let step = if n <= 25 { 1 } else { total / c.pick(40, 400) + 1 };
                    for m in [n, 24, 70] {
                        let job = Job::new(next, &input(m, i + 7), [1, 2, -1][i % 3]);
                        let want = job.alone(&mut refs)?;
                        for k in (1..=total).step_by(step) {
                            let calls = AtomicUsize::new(0);
                            let mut a = Arr::new(&first.keys, first.stride);
                            let mut b = Arr::new(&job.keys, job.stride);
                            let (r, t) = model::run(&cfg(1 + k % 2, Policy::Thief), || {
                                let cb = || {
                                    if calls.fetch_add(1, Relaxed) + 1 == k {
                                        std::panic::resume_unwind(Box::new(Cut));
                                    }
                                };
                                let r = trap(|| a.go(op, &cb));
                                (r.is_err(), trap(|| b.go(next, &nothing)))
                            });
                            c.evaluations += 1;
                            book(c, &t, gens::mix(tag(&first), k as u64) ^ tag(&job).rotate_left(7));
                            let what = || format!("after {} was cut short at callback {k}: {}", first.name(), job.name());
                            let (died, r) = r.map_err(|p| format!("{}: {}", what(), payload(&*p)))?;
                            if !died {
                                return Err(format!("{}: the panic was lost", first.name()));
                            }
                            let out = r.map_err(|p| format!("{} panicked: {}", what(), payload(&*p)))?;
                            same(&what(), &b.left(out), &want)?;
                            // What is left of the first array sorts as ever.
                            let state: Vec<u32> = a.view().iter().map(|e| e.key).collect();
                            for (j, e) in a.view().iter_mut().enumerate() {
                                e.id = j as u32;
                            }
                            let again = [Sort, Unst, ParSort, ParUnst, Select, Many, Cached, ParCached][k % 8];
                            if k % c.pick(4, 2) == 0 {
                                let want = alone(again, &state, first.stride)?;
                                let (r, t) = model::run(&cfg(2, Policy::Thief), || trap(|| a.go(again, &nothing)));
                                c.evaluations += 1;
                                book(c, &t, k as u64);
                                let what = || format!("{again:?} of the same array after {} was cut short at callback {k}", first.name());
                                let out = r.and_then(|x| x).map_err(|p| format!("{} panicked: {}", what(), payload(&*p)))?;
                                same(&what(), &a.left(out), &want)?;
                            }
                        }
                    }
                    refs.recheck()
                });
            }
        }
    }
    c.section("operations cut short inside callbacks");
    for n in c.pick(vec![13usize, 30, 70], vec![5, 13, 24, 30, 70, 150, 300, 700]) {
        for op in ALL {
            for (i, inner) in ALL.into_iter().enumerate() {
                if !c.next() {
                    continue;
                }
                c.run(|| format!("{inner:?} cut short inside {op:?}, {n} elements"), |c| {
                    let mut refs = Refs::default();
                    let jobs = [Job::new(op, &input(n, i + 2), 1), Job::new(inner, &input(n, i + 5), 2)];
                    let (outer, total) = (callbacks(&jobs[0]), callbacks(&jobs[1]));
                    for cut in (1..=total).step_by(total / c.pick(20, 150) + 1) {
                        let when = When { first: 1 + cut % (outer / 5 + 1), step: outer / 5 + 1 };
                        let (r, t) = nested(c, &mut refs, &jobs, when, cut, &cfg(2, Policy::Thief));
                        r?;
                        book(c, &t, gens::mix(tag(&jobs[0]), cut as u64) ^ tag(&jobs[1]).rotate_left(7));
                    }
                    refs.recheck()
                });
            }
        }
    }
}

fn in_turn(c: &mut Checker) {
    c.section("arrays of different lengths in turn");
    let lens = c.pick(vec![5usize, 30, 70, 300, 2100], vec![2, 5, 15, 21, 30, 51, 70, 150, 300, 700, 2100, 4100]);
    let letters: Vec<(usize, N)> = lens.iter().flat_map(|&n| ALL.map(|op| (n, op))).collect();
    for (x, &(n, op)) in letters.iter().enumerate() {
        // Every word of two, and of three at the shorter lengths, that begins with this letter.
        if c.next() {
            c.run(|| format!("words that begin with {op:?} of {n}"), |c| {
                let mut refs = Refs::default();
                for (y, &(m, second)) in letters.iter().enumerate() {
                    let mut thirds: Vec<Option<usize>> = vec![None];
                    if n <= 300 && m <= 300 {
                        thirds.extend((0..letters.len()).filter(|&z| letters[z].0 <= c.pick(70, 150) && (!c.quick() || (x + y + z) % 3 == 0)).map(Some));
                    }
                    for z in thirds {
                        let mut word = vec![Job::new(op, &input(n, x), 1), Job::new(second, &input(m, y + 4), [1, 2, -1][(x + y) % 3])];
                        if let Some(z) = z {
                            word.push(Job::new(letters[z].1, &input(letters[z].0, z + 9), 1));
                        }
                        let mut want = Vec::new();
                        for j in &word {
                            want.push(j.alone(&mut refs)?);
                        }
                        let mut arrays: Vec<Arr> = word.iter().map(|j| Arr::new(&j.keys, j.stride)).collect();
                        let (r, t) = model::run(&cfg(1 + (x + y) % 2, Policy::Thief), || trap(|| word.iter().zip(&mut arrays).map(|(j, a)| a.go(j.op, &nothing)).collect::<Vec<_>>()));
                        c.evaluations += word.len() as u64;
                        book(c, &t, word.iter().fold(1, |h: u64, j| gens::mix(h, tag(j))));
                        let names = || word.iter().map(Job::name).collect::<Vec<_>>().join("; ");
                        let outs = r.and_then(|x| x).map_err(|p| format!("{} panicked: {}", names(), payload(&*p)))?;
                        for (i, out) in outs.into_iter().enumerate() {
                            same(&format!("operation {} of {}", i + 1, names()), &arrays[i].left(out), &want[i])?;
                        }
                    }
                }
                refs.recheck()
            });
        }
    }
}

/// An operation on an array of another type, of its own order and length.
fn other<T: Elem>(op: N, keys: &[u32]) -> Result<(Vec<u32>, Vec<usize>), Box<dyn std::any::Any + Send>> {
    let mut a: Array1<T> = keys.iter().enumerate().map(|(i, &k)| T::make(k % 256, i as u32)).collect();
    let (r, _) = model::run(&cfg(2, Policy::Thief), || trap(|| run(op, &mut a.view_mut(), &nothing)));
    let out = r.and_then(|x| x)?;
    Ok((a.iter().map(|e| e.id()).collect(), out))
}

type Other = fn(N, &[u32]) -> Result<(Vec<u32>, Vec<usize>), Box<dyn std::any::Any + Send>>;
const OTHERS: [(&str, Other); 4] = [("()", other::<()>), ("u8", other::<u8>), ("[u64; 5]", other::<[u64; 5]>), ("(u32, u32)", other::<P>)];

fn types_in_turn(c: &mut Checker) {
    c.section("element types in turn");
    for n in c.pick(vec![30usize, 300, 2100], vec![5, 30, 70, 300, 700, 2100, 4100]) {
        for (i, (a, f)) in OTHERS.into_iter().enumerate() {
            for op in ALL {
                for (j, (b, g)) in OTHERS.into_iter().enumerate() {
                    if i == j || !c.next() {
                        continue;
                    }
                    // First one type, then the other; and the other way round in a case of its own.
                    c.run(|| format!("{op:?} of {n} {a}, then operations on {b}"), |c| {
                        let what = |e: Box<dyn std::any::Any + Send>| payload(&*e);
                        let keys: Vec<u32> = (0..n as u32).map(|k| gens::mix(k as u64, n as u64) as u32 % 256).collect();
                        // Numbers that the operation alone determines tell which outcome is meant.
                        let first = f(op, &keys).map_err(what)?;
                        for second in ALL {
                            let got = g(second, &keys).map_err(what)?;
                            c.evaluations += 1;
                            c.trace(gens::mix((n * 64 + i * 8 + j) as u64, second as u64 * 16 + op as u64));
                            let want = on_paper(second, &keys, b);
                            if let Some(w) = want
                                && got.0 != w
                            {
                                return Err(format!("{second:?} of {n} {b} after {op:?} of {a} leaves {} instead of {}", show(&got.0), show(&w)));
                            }
                            if g(second, &keys).map_err(what)? != got {
                                return Err(format!("{second:?} of {n} {b} after {op:?} of {a} differs from its repetition"));
                            }
                            let again = f(op, &keys).map_err(what)?;
                            if again != first {
                                return Err(format!("{op:?} of {n} {a} after {second:?} of {b} differs from the first one"));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("element types in turn: each operation as on its own");
    for n in c.pick(vec![30usize, 300, 2100], vec![5, 30, 70, 300, 700, 2100, 4100]) {
        for (a, f) in OTHERS {
            for op in ALL {
                if !c.next() {
                    continue;
                }
                c.run(|| format!("{op:?} of {n} {a}, then all operations"), |c| {
                    // What comes first in a process of its own is the reference.
                    let keys = input(n, op as usize);
                    let flat = |op: N| match other::<P>(op, &keys) {
                        Ok((ids, out)) => ids.iter().map(|&i| i as u64).chain([u64::MAX]).chain(out.iter().map(|&i| i as u64)).collect(),
                        Err(_) => vec![],
                    };
                    let mut lone: HashMap<N, Vec<u64>> = HashMap::new();
                    for second in ALL {
                        lone.insert(second, apart(|| flat(second))?);
                    }
                    f(op, &input(n + 1, op as usize + 2)).map_err(|e| payload(&*e))?;
                    for second in ALL {
                        let got = flat(second);
                        c.evaluations += 1;
                        c.trace(gens::mix(n as u64 * 16 + op as u64, second as u64 * 16 + a.len() as u64));
                        if got != lone[&second] {
                            return Err(format!("{second:?} of {n} (u32, u32) after {op:?} of {a} gives {got:?}, in a process of its own {:?}", lone[&second]));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

/// The arrangement an operation must leave if its contract leaves no choice.
fn on_paper(op: N, keys: &[u32], kind: &str) -> Option<Vec<u32>> {
    let mut ids: Vec<u32> = (0..keys.len() as u32).collect();
    match op {
        Sort | Cached | ParSort | ParCached => ids.sort_by_key(|&i| keys[i as usize]),
        Unst | ParUnst if kind == "u8" => ids.sort_by_key(|&i| keys[i as usize]),
        IsSorted | Search => {}
        _ => return None,
    }
    Some(match kind {
        "()" => vec![0; keys.len()],
        "u8" => ids.into_iter().map(|i| keys[i as usize]).collect(),
        _ => ids,
    })
}

/// Two jobs on arrays of their own at the same time.
fn both(c: &mut Checker, refs: &mut Refs, x: &Job, y: &Job, stride: usize, config: &Config) -> (Result<(), String>, Trace) {
    let (wx, wy) = match (x.alone(refs), y.alone(refs)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return (Err(e), Trace::default()),
    };
    let calls = AtomicUsize::new(0);
    let cb = || {
        if calls.fetch_add(1, Relaxed).is_multiple_of(stride) {
            model::yield_point();
        }
    };
    let (mut a, mut b) = (Arr::new(&x.keys, x.stride), Arr::new(&y.keys, y.stride));
    let (r, t) = {
        let (a, b) = (&mut a, &mut b);
        model::run(config, || trap(|| rayon::join(move || a.go(x.op, &cb), move || b.go(y.op, &cb))))
    };
    c.evaluations += 1;
    c.trace(t.hash ^ tag(x) ^ tag(y).rotate_left(5));
    let names = format!("{} at the same time as {}", x.name(), y.name());
    let res = match r.and_then(|x| x) {
        Err(p) => Err(format!("{names} panicked: {}", payload(&*p))),
        Ok((o, q)) => same(&format!("the first of {names}"), &a.left(o), &wx).and_then(|_| same(&format!("the second of {names}"), &b.left(q), &wy)),
    };
    (res, t)
}

/// The same on parts of one array: alternating elements, the second part from the end.
fn meshed(c: &mut Checker, refs: &mut Refs, x: &Job, y: &Job, stride: usize, config: &Config) -> (Result<(), String>, Trace) {
    let (wx, wy) = match (x.alone(refs), y.alone(refs)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return (Err(e), Trace::default()),
    };
    let calls = AtomicUsize::new(0);
    let cb = || {
        if calls.fetch_add(1, Relaxed).is_multiple_of(stride) {
            model::yield_point();
        }
    };
    let n = x.keys.len();
    assert_eq!(n, y.keys.len());
    let mut all = Array1::from_elem(2 * n, P { key: u32::MAX, id: u32::MAX });
    for i in 0..n {
        all[2 * i] = P { key: x.keys[i], id: i as u32 };
        all[2 * (n - 1 - i) + 1] = P { key: y.keys[i], id: i as u32 };
    }
    let (r, t) = {
        let (mut a, mut b) = all.multi_slice_mut((s![..;2], s![1..;-2]));
        let (a, b) = (&mut a, &mut b);
        model::run(config, || trap(|| rayon::join(move || run(x.op, a, &cb), move || run(y.op, b, &cb))))
    };
    c.evaluations += 1;
    c.trace(t.hash ^ tag(x) ^ tag(y).rotate_left(7));
    let names = format!("{} at the same time as {}, on alternating elements of one array,", x.name(), y.name());
    let ids = |v: ndarray_slice::ndarray::ArrayView1<P>| v.iter().map(|e| e.id).collect();
    let res = match r.and_then(|x| x) {
        Err(p) => Err(format!("{names} panicked: {}", payload(&*p))),
        Ok((o, q)) => same(&format!("the first of {names}"), &Left { ids: ids(all.slice(s![..;2])), out: o }, &wx)
            .and_then(|_| same(&format!("the second of {names}"), &Left { ids: ids(all.slice(s![1..;-2])), out: q }, &wy)),
    };
    (res, t)
}

fn at_once(c: &mut Checker) {
    c.section("two operations at once, every schedule within one deviation");
    for n in c.pick(vec![8usize, 24, 60, 150], vec![3, 5, 8, 13, 21, 24, 40, 60, 100, 150, 300, 700]) {
        for (i, x) in ALL.into_iter().enumerate() {
            for (j, y) in ALL.into_iter().enumerate() {
                for (w, policy) in c.pick(vec![(2, Policy::RoundRobin), (3, Policy::Late)], vec![(2, Policy::Owner), (2, Policy::RoundRobin), (2, Policy::Thief), (3, Policy::Late), (4, Policy::RoundRobin)]) {
                    if !c.next() {
                        continue;
                    }
                    c.run(|| format!("{x:?} and {y:?} of {n}, {w} workers, {policy:?}"), |c| {
                        let mut refs = Refs::default();
                        let a = Job::new(x, &input(n, i + j), 1);
                        let b = Job::new(y, &input(n, i + 2 * j + 3), [1, -1, 2][(i + j) % 3]);
                        let stride = (callbacks(&a) + callbacks(&b)) / c.pick(40, 300) + 1;
                        par::explore(c, (w, policy), 1, &mut |c, config| both(c, &mut refs, &a, &b, stride, config)).and_then(|_| refs.recheck())
                    });
                }
            }
        }
    }
    c.section("two operations at once, every schedule within two deviations");
    for n in c.pick(vec![5usize, 24], vec![5, 8, 13, 24, 60]) {
        for (i, x) in FEW.into_iter().enumerate() {
            for (j, y) in FEW.into_iter().enumerate() {
                if j < i || !c.next() {
                    continue;
                }
                c.run(|| format!("{x:?} and {y:?} of {n}"), |c| {
                    let mut refs = Refs::default();
                    let a = Job::new(x, &gens::perm(n, i as u64 + 1), 1);
                    let b = Job::new(y, &gens::perm(n, j as u64 + 5), 1);
                    let stride = (callbacks(&a) + callbacks(&b)) / c.pick(20, 60) + 1;
                    par::explore(c, (2, Policy::RoundRobin), 2, &mut |c, config| both(c, &mut refs, &a, &b, stride, config)).and_then(|_| refs.recheck())
                });
            }
        }
    }
    c.section("at once on alternating elements of one array, every schedule within one deviation");
    for n in c.pick(vec![5usize, 24, 150], vec![2, 3, 5, 8, 13, 24, 60, 150, 300, 2100, 4100]) {
        for (i, x) in ALL.into_iter().enumerate() {
            for (j, y) in ALL.into_iter().enumerate() {
                if !c.next() {
                    continue;
                }
                c.run(|| format!("{x:?} and {y:?} of {n}, alternating"), |c| {
                    let mut refs = Refs::default();
                    let a = Job::new(x, &input(n, i + j), 1);
                    let b = Job::new(y, &input(n, i + 2 * j + 3), 1);
                    let stride = (callbacks(&a) + callbacks(&b)) / c.pick(20, 100) + 1;
                    par::explore(c, (2, Policy::RoundRobin), 1, &mut |c, config| meshed(c, &mut refs, &a, &b, stride, config)).and_then(|_| refs.recheck())
                });
            }
        }
    }
    c.section("two parallel operations at once");
    for n in c.pick(vec![2100usize, 4100], vec![300, 700, 2100, 4100, 6100, 8100, 16_100]) {
        for (i, x) in FEW.into_iter().enumerate() {
            for (j, y) in FEW.into_iter().enumerate() {
                if !c.next() {
                    continue;
                }
                c.run(|| format!("{x:?} and {y:?} of {n}"), |c| {
                    let mut refs = Refs::default();
                    let a = Job::new(x, &input(n, i + j), 1);
                    let b = Job::new(y, &input(n + i * 7, i + 2 * j + 3), 1);
                    let stride = (callbacks(&a) + callbacks(&b)) / c.pick(200, 400) + 1;
                    for cf in par::CFGS_WIDE {
                        par::explore(c, cf, 0, &mut |c, config| both(c, &mut refs, &a, &b, stride, config))?;
                    }
                    if !c.quick() {
                        let stride = stride * 8;
                        par::explore(c, (2, Policy::RoundRobin), 1, &mut |c, config| both(c, &mut refs, &a, &b, stride, config))?;
                    }
                    refs.recheck()
                });
            }
        }
    }
}

pub fn c25(c: &mut Checker) {
    within(c);
    cut_short(c);
    in_turn(c);
    types_in_turn(c);
    at_once(c);
}
