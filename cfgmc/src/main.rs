//! One feature set and build profile of the crate, on the inputs all of them get. Prints one line per
//! section and operation: `section TAB operation TAB cases TAB digest`, or with arguments
//! `list SECTION OPERATION` one line per case.
#[allow(dead_code)]
#[path = "../../mc/src/gens.rs"]
mod gens;

use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayBase, ArrayView1, DataMut, Ix1, s};
use std::cmp::Ordering;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Callbacks so far, and the one that panics.
static CALLS: AtomicU64 = AtomicU64::new(0);
static FUSE: AtomicU64 = AtomicU64::new(u64::MAX);

struct Fault;

fn tick() {
    if CALLS.fetch_add(1, Relaxed) == FUSE.load(Relaxed) {
        std::panic::resume_unwind(Box::new(Fault));
    }
}

#[derive(Debug)]
struct El {
    key: u32,
    id: u32,
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        tick();
        self.key == o.key
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> Ordering {
        cmp(self, o)
    }
}
fn cmp(a: &El, b: &El) -> Ordering {
    tick();
    a.key.cmp(&b.key)
}
fn key(a: &El) -> u32 {
    tick();
    a.key
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Sort,
    Select,
    Many,
    Query,
    Dedup,
    Reverse,
}

type View<'a> = ndarray_slice::ndarray::ArrayViewMut1<'a, El>;

struct Op {
    name: &'static str,
    kind: Kind,
    run: fn(&mut View<'_>, &Arg) -> Vec<u64>,
    par: bool,
}

#[derive(Clone, Default)]
struct Arg {
    at: usize,
    list: Vec<usize>,
    key: u32,
}

macro_rules! op {
    ($name:ident, $kind:ident, $f:expr) => {
        op!($name, $kind, $f, false)
    };
    ($name:ident, $kind:ident, $f:expr, $par:expr) => {
        Op { name: stringify!($name), kind: Kind::$kind, run: $f, par: $par }
    };
}

fn ptr<S: ndarray_slice::ndarray::RawData<Elem = El>>(base: usize, step: isize, v: &ArrayBase<S, Ix1>, p: *const El) -> [u64; 2] {
    [rel(base, step, p), v.len() as u64]
}
fn rel(base: usize, step: isize, p: *const El) -> u64 {
    ((p as isize - base as isize) / (step * size_of::<El>() as isize)) as u64
}
fn geo(v: &View<'_>) -> (usize, isize) {
    (v.as_ptr() as usize, if v.len() > 1 { v.strides()[0] } else { 1 })
}
fn tri(g: (usize, isize), t: (View<'_>, &mut El, View<'_>)) -> Vec<u64> {
    let mut o = vec![t.0.len() as u64, rel(g.0, g.1, t.1), t.2.len() as u64];
    if !t.2.is_empty() {
        o.extend(ptr(g.0, g.1, &t.2, t.2.as_ptr()));
    }
    o
}
fn two(g: (usize, isize), t: (View<'_>, View<'_>)) -> Vec<u64> {
    let mut o = vec![t.0.len() as u64];
    if !t.1.is_empty() {
        o.extend(ptr(g.0, g.1, &t.1, t.1.as_ptr()));
    }
    o
}
fn list(g: (usize, isize), l: Vec<(usize, &mut El)>) -> Vec<u64> {
    l.into_iter().flat_map(|(i, p)| [i as u64, rel(g.0, g.1, p)]).collect()
}
fn res(r: Result<usize, usize>) -> Vec<u64> {
    match r {
        Ok(i) => vec![1, i as u64],
        Err(i) => vec![0, i as u64],
    }
}
fn probe(key: u32) -> El {
    El { key, id: u32::MAX }
}

fn ops() -> Vec<Op> {
    let mut o = vec![
        op!(sort_unstable, Sort, |v, _| { v.sort_unstable(); vec![] }),
        op!(sort_unstable_by, Sort, |v, _| { v.sort_unstable_by(cmp); vec![] }),
        op!(sort_unstable_by_key, Sort, |v, _| { v.sort_unstable_by_key(key); vec![] }),
        op!(select_nth_unstable, Select, |v, a| { let g = geo(v); tri(g, v.select_nth_unstable(a.at)) }),
        op!(select_nth_unstable_by, Select, |v, a| { let g = geo(v); tri(g, v.select_nth_unstable_by(a.at, cmp)) }),
        op!(select_nth_unstable_by_key, Select, |v, a| { let g = geo(v); tri(g, v.select_nth_unstable_by_key(a.at, key)) }),
        op!(select_many_nth_unstable, Many, |v, a| {
            let g = geo(v);
            let mut l = Vec::new();
            v.select_many_nth_unstable(&ArrayView1::from(&a.list), &mut l);
            list(g, l)
        }),
        op!(select_many_nth_unstable_by, Many, |v, a| {
            let g = geo(v);
            let mut l = Vec::new();
            v.select_many_nth_unstable_by(&ArrayView1::from(&a.list), &mut l, cmp);
            list(g, l)
        }),
        op!(select_many_nth_unstable_by_key, Many, |v, a| {
            let g = geo(v);
            let mut l = Vec::new();
            v.select_many_nth_unstable_by_key(&ArrayView1::from(&a.list), &mut l, key);
            list(g, l)
        }),
        op!(is_sorted, Query, |v, _| vec![v.is_sorted() as u64]),
        op!(is_sorted_by, Query, |v, _| vec![v.is_sorted_by(|a, b| cmp(a, b) == Ordering::Less) as u64]),
        op!(is_sorted_by_key, Query, |v, _| vec![v.is_sorted_by_key(key) as u64]),
        op!(partition_point, Query, |v, a| vec![v.partition_point(|e| key(e) < a.key) as u64]),
        op!(contains, Query, |v, a| vec![v.contains(&probe(a.key)) as u64]),
        op!(binary_search, Query, |v, a| res(v.binary_search(&probe(a.key)))),
        op!(binary_search_by, Query, |v, a| res(v.binary_search_by(|e| key(e).cmp(&a.key)))),
        op!(binary_search_by_key, Query, |v, a| res(v.binary_search_by_key(&a.key, key))),
        op!(partition_dedup, Dedup, |v, _| { let g = geo(v); two(g, v.partition_dedup()) }),
        op!(partition_dedup_by, Dedup, |v, _| { let g = geo(v); two(g, v.partition_dedup_by(|a, b| cmp(a, b) == Ordering::Equal)) }),
        op!(partition_dedup_by_key, Dedup, |v, _| { let g = geo(v); two(g, v.partition_dedup_by_key(|e| key(e))) }),
        op!(reverse, Reverse, |v, _| { v.reverse(); vec![] }),
    ];
    #[cfg(feature = "alloc")]
    o.extend([
        op!(sort, Sort, |v, _| { v.sort(); vec![] }),
        op!(sort_by, Sort, |v, _| { v.sort_by(cmp); vec![] }),
        op!(sort_by_key, Sort, |v, _| { v.sort_by_key(key); vec![] }),
    ]);
    #[cfg(feature = "std")]
    o.extend([op!(sort_by_cached_key, Sort, |v, _| { v.sort_by_cached_key(key); vec![] })]);
    #[cfg(feature = "rayon")]
    o.extend([
        op!(par_sort, Sort, |v, _| { v.par_sort(); vec![] }, true),
        op!(par_sort_by, Sort, |v, _| { v.par_sort_by(cmp); vec![] }, true),
        op!(par_sort_by_key, Sort, |v, _| { v.par_sort_by_key(key); vec![] }, true),
        op!(par_sort_by_cached_key, Sort, |v, _| { v.par_sort_by_cached_key(key); vec![] }, true),
        op!(par_sort_unstable, Sort, |v, _| { v.par_sort_unstable(); vec![] }, true),
        op!(par_sort_unstable_by, Sort, |v, _| { v.par_sort_unstable_by(cmp); vec![] }, true),
        op!(par_sort_unstable_by_key, Sort, |v, _| { v.par_sort_unstable_by_key(key); vec![] }, true),
        op!(par_select_many_nth_unstable, Many, |v, a| {
            let g = geo(v);
            let mut l = Vec::new();
            v.par_select_many_nth_unstable(&ArrayView1::from(&a.list), &mut l);
            l.into_iter().map(|p: &mut El| rel(g.0, g.1, p)).collect()
        }, true),
        op!(par_select_many_nth_unstable_by, Many, |v, a| {
            let g = geo(v);
            let mut l = Vec::new();
            v.par_select_many_nth_unstable_by(&ArrayView1::from(&a.list), &mut l, cmp);
            l.into_iter().map(|p: &mut El| rel(g.0, g.1, p)).collect()
        }, true),
        op!(par_select_many_nth_unstable_by_key, Many, |v, a| {
            let g = geo(v);
            let mut l = Vec::new();
            v.par_select_many_nth_unstable_by_key(&ArrayView1::from(&a.list), &mut l, key);
            l.into_iter().map(|p: &mut El| rel(g.0, g.1, p)).collect()
        }, true),
    ]);
    o
}

/// Runs the operation; what it left and returned, or that it panicked.
fn once(op: &Op, keys: &[u32], a: &Arg, stride: isize, fuse: u64) -> Outcome {
    let k = stride.unsigned_abs();
    let n = keys.len();
    let total = if n == 0 { 0 } else { (n - 1) * k + 1 };
    let mut arr: Array1<El> = (0..total).map(|_| El { key: 0, id: u32::MAX }).collect();
    CALLS.store(0, Relaxed);
    FUSE.store(u64::MAX, Relaxed);
    let r = {
        let mut v = arr.view_mut();
        let mut v = if n == 0 { v.view_mut() } else { v.slice_mut(s![..;stride]) };
        fill(&mut v, keys);
        FUSE.store(fuse, Relaxed);
        exec(op, &mut v, a)
    };
    FUSE.store(u64::MAX, Relaxed);
    let v = if n == 0 { arr.view() } else { arr.slice(s![..;stride]) };
    let ids: Vec<u32> = v.iter().map(|e| e.id).collect();
    let mut seen = vec![false; n];
    let whole = ids.iter().all(|&i| (i as usize) < n && !std::mem::replace(&mut seen[i as usize], true)) && v.iter().all(|e| e.key == keys[e.id as usize]);
    Outcome { ret: r, ids, whole, calls: CALLS.load(Relaxed) }
}

struct Outcome {
    ret: Result<Vec<u64>, bool>,
    ids: Vec<u32>,
    whole: bool,
    calls: u64,
}

impl Outcome {
    fn show(&self) -> String {
        let r = match &self.ret {
            Ok(v) => format!("{v:?}"),
            Err(_) => "panic".into(),
        };
        if self.ids.len() > 40 {
            format!("{r} arrangement {:016x}", self.ids.iter().fold(0, |h, &i| gens::mix(h, i as u64)))
        } else {
            format!("{r} {:?}", self.ids)
        }
    }
    fn digest(&self) -> u64 {
        let mut h = match &self.ret {
            Ok(v) => v.iter().fold(1, |h, &x| gens::mix(h, x)),
            Err(_) => 2,
        };
        for &i in &self.ids {
            h = gens::mix(h, i as u64);
        }
        h
    }
}

fn fill<S: DataMut<Elem = El>>(v: &mut ArrayBase<S, Ix1>, keys: &[u32]) {
    for (i, e) in v.iter_mut().enumerate() {
        *e = El { key: keys[i], id: i as u32 };
    }
}

fn exec(op: &Op, v: &mut View<'_>, a: &Arg) -> Result<Vec<u64>, bool> {
    let mut f = || catch_unwind(AssertUnwindSafe(|| (op.run)(v, a)));
    let r = if op.par { pooled(f) } else { f() };
    r.map_err(|p| p.is::<Fault>())
}

#[cfg(feature = "rayon")]
fn pooled<R>(f: impl FnOnce() -> R) -> R {
    use rayon_core::model::{Config, Policy, run};
    match run(&Config { workers: 3, policy: Policy::Thief, script: vec![] }, f).0 {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}
#[cfg(not(feature = "rayon"))]
fn pooled<R>(f: impl FnOnce() -> R) -> R {
    f()
}

/// Runs `f` on a thread with about `room` bytes of stack left.
fn deep<R: Send>(room: usize, f: impl FnOnce() -> R + Send) -> R {
    fn down<R>(start: usize, total: usize, room: usize, f: impl FnOnce() -> R) -> R {
        let pad = [0u8; 2048];
        let here = std::hint::black_box(&pad) as *const _ as usize;
        if start - here + room + 8192 > total {
            return f();
        }
        let r = down(start, total, room, f);
        std::hint::black_box(&pad);
        r
    }
    let total = 512 << 10;
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(total)
            .spawn_scoped(s, move || {
                let x = 0u8;
                down(std::hint::black_box(&x) as *const u8 as usize, total, room, f)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

struct Out {
    list: Option<(String, String)>,
    section: &'static str,
    op: &'static str,
    cases: u64,
    hash: u64,
    bad: u64,
    total: u64,
}

impl Out {
    fn wants(&self) -> bool {
        self.list.as_ref().is_none_or(|l| l.0 == self.section && l.1 == self.op)
    }
    fn put(&mut self, what: impl Fn() -> String, o: &Outcome) {
        self.cases += 1;
        self.total += 1;
        self.hash = gens::mix(self.hash, o.digest());
        if !o.whole {
            self.bad += 1;
            if self.bad < 4 {
                println!("BAD\t{}\t{}\t{}\t{}", self.section, self.op, what(), o.show());
            }
        }
        if self.list.is_some() {
            println!("{}\t{}", what(), o.show());
        }
    }
    fn flush(&mut self) {
        if self.list.is_none() && self.cases > 0 {
            println!("D\t{}\t{}\t{}\t{:016x}", self.section, self.op, self.cases, self.hash);
        }
        self.cases = 0;
        self.hash = 0;
    }
}

fn args(op: &Op, n: usize, all: bool) -> Vec<Arg> {
    let one = |at| Arg { at, ..Arg::default() };
    match op.kind {
        Kind::Select if all => (0..n + 2).chain([usize::MAX]).map(one).collect(),
        Kind::Select => [0, 1, n / 3, n / 2, n - 2, n - 1, n].map(one).to_vec(),
        Kind::Many => {
            let mut l: Vec<Vec<usize>> = if all && n <= 4 {
                (0..1usize << n).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect()
            } else {
                vec![vec![], (0..n).collect(), (0..n).step_by(3).collect(), (n / 2..n).collect(), vec![n / 2]]
            };
            l.extend([vec![n], vec![0, 0], vec![1, 0], vec![0, n], vec![usize::MAX]]);
            l.into_iter().map(|list| Arg { list, ..Arg::default() }).collect()
        }
        Kind::Query => (0..if all { n as u32 + 1 } else { 2 }).map(|k| Arg { key: k * if all { 1 } else { n as u32 / 2 }, ..Arg::default() }).collect(),
        _ => vec![Arg::default()],
    }
}

/// Inputs an adversary fixes while the unstable sort and the selection ask, so that pivots are bad
/// and the fallbacks run.
fn write_killers(file: &str, thorough: bool) {
    let mut o = String::new();
    for n in if thorough { vec![60, 100, 150, 300, 500, 1000, 3000] } else { vec![100, 300, 1000] } {
        for variant in 0..if thorough { 8u8 } else { 2 } {
            for select in [false, true] {
                let mut adv = gens::Adversary::new(n, variant);
                let mut ids: Array1<u32> = (0..n as u32).collect();
                let mut ask = |a: &u32, b: &u32| adv.bounded(*a as usize, *b as usize, usize::MAX, None);
                if select {
                    ids.select_nth_unstable_by(n / 2, ask);
                } else {
                    ids.sort_unstable_by(&mut ask);
                }
                let keys: Vec<String> = adv.keys(None).iter().map(u32::to_string).collect();
                o += &format!("adversary {variant} {}:{}\n", if select { "selection" } else { "sort" }, keys.join(" "));
            }
        }
    }
    std::fs::write(file, o).expect("killers");
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut out = Out { list: (a.get(1).map(String::as_str) == Some("list")).then(|| (a[2].clone(), a[3].clone())), section: "", op: "", cases: 0, hash: 0, bad: 0, total: 0 };
    let ops = ops();
    let file = std::env::var("CFG_KILLERS").unwrap_or_default();
    if a.get(1).map(String::as_str) == Some("killers") {
        return write_killers(&file, thorough);
    }
    // The same inputs for all configurations.
    let killers: Vec<(String, Vec<u32>)> = std::fs::read_to_string(&file).expect("killers").lines().map(|l| {
        let (name, keys) = l.split_once(':').unwrap();
        (name.to_string(), keys.split_whitespace().map(|x| x.parse().unwrap()).collect())
    }).collect();

    for op in &ops {
        out.op = op.name;

        out.section = "weak orders";
        if out.wants() {
            let top = match (op.kind, thorough) {
                (Kind::Select | Kind::Many, false) => 5,
                (Kind::Select | Kind::Many, true) => 6,
                (_, false) => 6,
                (_, true) => 7,
            };
            for n in 0..=top {
                gens::weak_orders(n, &mut |k| {
                    for arg in args(op, n, true) {
                        for stride in [1, -2] {
                            let o = once(op, k, &arg, stride, u64::MAX);
                            out.put(|| format!("keys {k:?} at {} list {:?} key {} stride {stride}", arg.at, arg.list, arg.key), &o);
                        }
                    }
                });
            }
            out.flush();
        }

        out.section = "shapes";
        if out.wants() {
            let sizes: &[usize] = if thorough {
                &[8, 11, 20, 21, 22, 33, 49, 50, 51, 52, 70, 99, 100, 128, 129, 200, 257, 400, 513, 600, 1000, 1999, 2001, 2100, 4001, 5001, 6001, 10_007]
            } else {
                &[8, 20, 21, 50, 129, 257, 600, 2100]
            };
            for &n in sizes {
                for (name, k) in gens::shapes(n) {
                    for arg in args(op, n, false) {
                        let o = once(op, &k, &arg, 1, u64::MAX);
                        out.put(|| format!("n={n} {name} at {} list {:?} key {}", arg.at, arg.list, arg.key), &o);
                    }
                }
            }
            out.flush();
        }

        out.section = "killer";
        if out.wants() && matches!(op.kind, Kind::Sort | Kind::Select) {
            for (name, k) in &killers {
                for arg in args(op, k.len(), false) {
                    let o = once(op, k, &arg, 1, u64::MAX);
                    out.put(|| format!("n={} {name} at {}", k.len(), arg.at), &o);
                }
            }
            out.flush();
        }

        // A callback panics; which one it is may depend on the configuration, what is promised may not.
        out.section = "panics";
        if out.wants() {
            for &n in if thorough { &[3usize, 10, 25, 60, 130, 300, 2100][..] } else { &[3, 25, 130, 2100][..] } {
                for (name, k) in gens::shapes(n).into_iter().filter(|s| ["asc", "desc", "mix 0", "saw up 10", "mix 5 of 2 values", "zigzag"].contains(&s.0.as_str())) {
                    for arg in args(op, n, false).into_iter().take(3) {
                        let calls = once(op, &k, &arg, 1, u64::MAX).calls;
                        for at in [0, 1, 2, calls / 4, calls / 3, calls / 2, calls * 2 / 3, calls - calls.min(2), calls.saturating_sub(1)] {
                            if at >= calls {
                                continue;
                            }
                            let mut o = once(op, &k, &arg, 1, at);
                            let ours = o.ret == Err(true);
                            o.whole &= ours;
                            // Only these count: that it came through and nothing was lost.
                            let flat = Outcome { ret: o.ret.clone(), ids: vec![o.whole as u32], whole: o.whole, calls: 0 };
                            if flat.ret != Err(true) {
                                println!("BAD\t{}\t{}\tn={n} {name} callback {at}\tno panic", out.section, out.op);
                                out.bad += 1;
                            }
                            out.total += 1;
                            if !flat.whole && out.bad < 4 {
                                println!("BAD\t{}\t{}\tn={n} {name} callback {at}\tlost or duplicated an element", out.section, out.op);
                            }
                            out.bad += !flat.whole as u64;
                        }
                    }
                }
            }
            out.flush();
        }

        // Little stack left: with stacker the operation continues on a new stack; without it the
        // rest of the thread's stack has to do, and is made large enough.
        out.section = "little stack";
        if out.wants() {
            let room = if cfg!(feature = "stacker") { 24 << 10 } else { 300 << 10 };
            for &n in if thorough { &[2usize, 20, 21, 60, 130, 600, 2100, 5001][..] } else { &[21, 130, 2100][..] } {
                for (name, k) in gens::shapes(n) {
                    for arg in args(op, n, false) {
                        let o = if op.par { once(op, &k, &arg, 1, u64::MAX) } else { deep(room, || once(op, &k, &arg, 1, u64::MAX)) };
                        out.put(|| format!("n={n} {name} at {} list {:?} key {}", arg.at, arg.list, arg.key), &o);
                    }
                }
            }
            out.flush();
        }
    }
    if out.list.is_none() {
        println!("T\t{}\t{}", out.total, out.bad);
    }
}
