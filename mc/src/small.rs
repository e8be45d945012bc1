//! C03 (cached keys), C23 (degenerate inputs), C25 (histories).
use crate::ctx::{self, El, Setup};
use crate::engine::{Checker, payload};
use crate::gens;
use crate::grid::{FLAT, Grid, LAYS, Lay};
use crate::ops::{self, FORMS, Form, Op, Out, Sort, trap};
use crate::par::{self, Act, CFGS, CFGS_WIDE, Cfg};
use crate::types;
use crate::util::*;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayBase, DataMut, Ix1, s};
use rayon_core::model::{self, Config, Policy, Trace};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

// --- C03 -------------------------------------------------------------------------------------

/// A key type made from a number.
pub trait CKey: Ord + Send + 'static {
    const NAME: &'static str;
    fn of(x: u32) -> Self;
}
macro_rules! ckey {
    ($($t:ty, $n:expr, $f:expr;)*) => {$(
        impl CKey for $t {
            const NAME: &'static str = $n;
            fn of(x: u32) -> $t {
                let f: fn(u32) -> $t = $f;
                f(x)
            }
        }
    )*};
}
#[derive(PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(32))]
pub struct AlignedKey(u32);
ckey! {
    (), "()", |_| ();
    u8, "u8", |x| (x % 251) as u8;
    [u8; 3], "[u8; 3]", |x| [(x >> 16) as u8, (x >> 8) as u8, x as u8];
    u16, "u16", |x| (x % 65521) as u16;
    u32, "u32", |x| x;
    u64, "u64", |x| (x as u64) << 20;
    String, "String", |x| format!("{:07}", x / 2);
    AlignedKey, "32-aligned", AlignedKey;
}

/// One cached-key sort with keys of type `K`: sequential, or under a schedule.
fn cached<K: CKey>(c: &mut Checker, keys: &[u32], lay: Lay, st: &Setup, _: Option<&Config>) -> (Result<(), String>, Trace) {
    let mut g = Grid::new(keys, lay);
    ctx::reset(st);
    let r = trap(|| g.view_mut().sort_by_cached_key(look::<K>));
    c.evaluations += 1;
    verdict::<K>(c, keys, g, r, Trace::default(), "sort_by_cached_key")
}

fn par_cached<K: CKey>(c: &mut Checker, keys: &[u32], lay: Lay, st: &Setup, sched: Option<&Config>) -> (Result<(), String>, Trace) {
    let mut g = Grid::new(keys, lay);
    ctx::reset(st);
    let (r, t) = {
        let mut v = g.view_mut();
        model::run(sched.expect("a schedule"), || trap(|| v.par_sort_by_cached_key(look::<K>)))
    };
    verdict::<K>(c, keys, g, r.and_then(|x| x), t, "par_sort_by_cached_key")
}

fn look<K: CKey>(e: &El) -> K {
    ctx::pred(e);
    e.hits.fetch_add(1, Relaxed);
    K::of(e.key)
}

fn verdict<K: CKey>(c: &mut Checker, keys: &[u32], g: Grid, r: Result<(), Box<dyn std::any::Any + Send>>, t: Trace, what: &str) -> (Result<(), String>, Trace) {
    let n = keys.len();
    c.trace(ctx::trace() ^ gens::mix(n as u64, K::NAME.len() as u64));
    let judge = || -> Result<(), String> {
        if let Err(p) = r {
            return Err(format!("panicked: {}", payload(&*p)));
        }
        g.intact(keys)?;
        let mut want: Vec<u32> = (0..n as u32).collect();
        want.sort_by(|&a, &b| K::of(keys[a as usize]).cmp(&K::of(keys[b as usize])));
        for (i, &w) in want.iter().enumerate() {
            if g.id_at(i) != w {
                return Err(format!("position {i} has element {} instead of {w}", g.id_at(i)));
            }
        }
        let v = g.view();
        for e in v.iter() {
            let h = e.hits.load(Relaxed);
            if h > 1 {
                return Err(format!("the key function was called {h} times on element {}", e.id));
            }
        }
        Ok(())
    };
    let res = judge().map_err(|e| format!("{what} of {n} with keys {}: {e}", K::NAME));
    (res, t)
}

type CachedFn = fn(&mut Checker, &[u32], Lay, &Setup, Option<&Config>) -> (Result<(), String>, Trace);

fn key_types() -> Vec<(&'static str, CachedFn)> {
    vec![
        (u32::NAME, cached::<u32>),
        (<()>::NAME, cached::<()>),
        (u8::NAME, cached::<u8>),
        (u16::NAME, cached::<u16>),
        (<[u8; 3]>::NAME, cached::<[u8; 3]>),
        (u64::NAME, cached::<u64>),
        (String::NAME, cached::<String>),
        (AlignedKey::NAME, cached::<AlignedKey>),
    ]
}

/// The parallel form: one type for each set of index widths, and owned data.
fn par_key_types() -> Vec<(&'static str, CachedFn)> {
    vec![(u32::NAME, par_cached::<u32>), (<()>::NAME, par_cached::<()>), (u8::NAME, par_cached::<u8>), (u16::NAME, par_cached::<u16>), (String::NAME, par_cached::<String>)]
}

pub fn c03(c: &mut Checker) {
    let kinds = key_types();
    c.section("all weak orders, every key type");
    for n in 0..=c.pick(6usize, 8) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for (i, (_, f)) in kinds.iter().enumerate() {
                        if n <= 6 || i < 4 {
                            f(c, k, if n <= 4 { LAYS[(i + n) % LAYS.len()] } else { FLAT }, &setup(n), None).0?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("all permutations");
    // The elements are put in place along the cycles of the permutation.
    for n in 7..=c.pick(8usize, 9) {
        let mut p: Vec<u32> = (0..n as u32).collect();
        loop {
            if c.next() {
                c.run(|| format!("keys {}", show(&p)), |c| {
                    cached::<u32>(c, &p, FLAT, &setup(n), None).0?;
                    cached::<u8>(c, &p, FLAT, &setup(n), None).0
                });
            }
            // Next permutation in lexicographic order.
            let Some(i) = (1..n).rev().find(|&i| p[i - 1] < p[i]) else { break };
            let j = (i..n).rev().find(|&j| p[j] > p[i - 1]).unwrap();
            p.swap(i - 1, j);
            p[i..].reverse();
        }
    }
    c.section("every length, every key type");
    let sizes: Vec<usize> = (0..=c.pick(300usize, 700)).chain([511, 512, 513, 1000, 2003]).collect();
    for n in sizes {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            let edge = (250..=262).contains(&n);
            if !edge && c.quick() && si % 3 != n % 3 {
                continue;
            }
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for (i, (_, f)) in kinds.iter().enumerate() {
                        if edge || i < 4 || (i + n) % 3 == 0 {
                            f(c, &k, LAYS[(n + si + i) % LAYS.len()], &setup(n), None).0?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("beyond 16 bits");
    for n in c.pick(vec![65_534usize, 65_535, 65_536, 65_537, 65_538], vec![65_533, 65_534, 65_535, 65_536, 65_537, 65_538, 65_600, 70_001, 131_071, 131_072, 131_073, 200_003]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if si % c.pick(4, 1) != 1 % c.pick(4, 1) {
                continue;
            }
            for (kn, f) in &kinds {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {kn}"), |c| f(c, &k, FLAT, &setup(n), None).0);
                }
            }
        }
    }
    let kinds = par_key_types();
    c.section("parallel: all weak orders, every key type");
    for n in 0..=c.pick(4usize, 5) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for (i, (_, f)) in kinds.iter().enumerate() {
                        let cfgs = if i == 0 { &CFGS[..] } else { &CFGS_WIDE[1..4] };
                        for &cfg in cfgs {
                            par::explore(c, cfg, 0, &mut |c, config| f(c, k, FLAT, &par::par_setup(n, 1), Some(config)))?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("parallel: every schedule within two deviations");
    for n in c.pick(vec![2usize, 3, 5], vec![2, 3, 4, 5, 6, 8]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 3 && si % 3 != 0 {
                continue;
            }
            for cfg in [(2, Policy::Owner), (2, Policy::Thief), (3, Policy::RoundRobin), (3, Policy::Late)] {
                for (kn, f) in [kinds[0], kinds[1], kinds[4]] {
                    if c.next() {
                        c.run(|| format!("n={n} {name}, {kn}, {cfg:?}"), |c| {
                            par::explore(c, cfg, 2, &mut |c, config| f(c, &k, FLAT, &par::par_setup(n, 1), Some(config))).map(|_| ())
                        });
                    }
                }
            }
        }
    }
    c.section("parallel: every length, every key type");
    let sizes: Vec<usize> = c.pick(
        (0..=40).chain([64, 100, 253, 254, 255, 256, 257, 258, 300, 513, 1000, 2001, 4003]).collect(),
        (0..=300).chain([511, 513, 1000, 1999, 2000, 2001, 4003, 6001, 10_001]).collect(),
    );
    for n in sizes {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if si % c.pick(5, 2) != n % c.pick(5, 2) {
                continue;
            }
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for (i, (_, f)) in kinds.iter().enumerate() {
                        let cfg: Cfg = CFGS[(i + si + n) % CFGS.len()];
                        par::explore(c, cfg, 0, &mut |c, config| f(c, &k, LAYS[(n + i) % LAYS.len()], &par::par_setup(n, n as u64 / 40 + 1), Some(config)))?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("parallel: one deviation anywhere");
    for n in c.pick(vec![20usize, 256], vec![10, 20, 40, 100, 255, 256, 257, 1000]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for cfg in [(2, Policy::Owner), (3, Policy::Thief)] {
                let f = kinds[(n + si) % 4].1;
                if si % c.pick(4, 1) == 0 && c.next() {
                    c.run(|| format!("n={n} {name}, {cfg:?}"), |c| {
                        par::explore(c, cfg, 1, &mut |c, config| f(c, &k, FLAT, &par::par_setup(n, n as u64 / 12 + 1), Some(config))).map(|_| ())
                    });
                }
            }
        }
    }
    c.section("parallel: beyond 16 bits");
    for n in c.pick(vec![65_535usize, 65_536, 65_537], vec![65_534, 65_535, 65_536, 65_537, 65_538, 70_001]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if si % c.pick(8, 2) != 1 {
                continue;
            }
            for (ki, (kn, f)) in kinds.iter().enumerate() {
                if c.next() {
                    let cfg = CFGS_WIDE[(si + ki) % CFGS_WIDE.len()];
                    c.run(|| format!("n={n} {name}, {kn}, {cfg:?}"), |c| {
                        par::explore(c, cfg, 0, &mut |c, config| f(c, &k, FLAT, &par::par_setup(n, n as u64 / 30), Some(config))).map(|_| ())
                    });
                }
            }
        }
    }
    types::sweep(c, &|_| vec![types::TOp::Cached, types::TOp::ParCached], false);
}

// --- C23 -------------------------------------------------------------------------------------

static ZLIVE: AtomicI64 = AtomicI64::new(0);
static ZCALLS: AtomicU64 = AtomicU64::new(0);
/// What comparisons of zero-sized elements answer: 0 equal, 1 less, 2 greater, 3 cyclic.
static ZMODE: AtomicU64 = AtomicU64::new(0);

fn zanswer() -> Ordering {
    let n = ZCALLS.fetch_add(1, Relaxed);
    match ZMODE.load(Relaxed) {
        0 => Ordering::Equal,
        1 => Ordering::Less,
        2 => Ordering::Greater,
        _ => [Ordering::Less, Ordering::Equal, Ordering::Greater, Ordering::Greater, Ordering::Equal][(n % 5) as usize],
    }
}

pub trait Zst: Ord + Send + Sync + 'static {
    const NAME: &'static str;
    fn make() -> Self;
}
macro_rules! zst {
    ($t:ident, $n:expr) => {
        impl Zst for $t {
            const NAME: &'static str = $n;
            fn make() -> $t {
                ZLIVE.fetch_add(1, Relaxed);
                $t
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                ZLIVE.fetch_sub(1, Relaxed);
            }
        }
        impl PartialEq for $t {
            fn eq(&self, _: &$t) -> bool {
                zanswer() == Ordering::Equal
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, _: &$t) -> Ordering {
                assert!((self as *const $t as usize).is_multiple_of(align_of::<$t>()), "misaligned element");
                zanswer()
            }
        }
    };
}
#[repr(align(64))]
pub struct WideNil;
zst!(WideNil, "zero-sized elements aligned to 64");

#[derive(Debug, PartialEq)]
enum ZOut {
    Unit,
    Lens(Vec<usize>),
    Num(usize),
    Bool(bool),
    Found(Result<usize, usize>),
}

#[derive(Debug, Clone)]
enum ZOp {
    Sort(Sort),
    Select(Form, usize),
    Many(Form, Vec<usize>),
    ParMany(Form, Vec<usize>),
    Dedup(Form),
    Reverse,
    Search(Form),
    Point,
    Contains,
    IsSorted(Form),
}

/// Key of a zero-sized element whose comparisons answer likewise.
struct ZKey;
impl PartialEq for ZKey {
    fn eq(&self, _: &ZKey) -> bool {
        zanswer() == Ordering::Equal
    }
}
impl Eq for ZKey {}
impl PartialOrd for ZKey {
    fn partial_cmp(&self, o: &ZKey) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for ZKey {
    fn cmp(&self, _: &ZKey) -> Ordering {
        zanswer()
    }
}

fn zapply<T: Zst, S: DataMut<Elem = T>>(op: &ZOp, v: &mut ArrayBase<S, Ix1>) -> ZOut {
    let kf = |_: &T| ZKey;
    let cf = |_: &T, _: &T| zanswer();
    match op {
        ZOp::Sort(s) => {
            match s {
                Sort::Plain => v.sort(),
                Sort::SortBy => v.sort_by(cf),
                Sort::SortByKey => v.sort_by_key(kf),
                // Keys of any order: the arrangement must follow them, not the elements.
                Sort::Cached => v.sort_by_cached_key(|_| 0u8),
                Sort::Unst => v.sort_unstable(),
                Sort::UnstBy => v.sort_unstable_by(cf),
                Sort::UnstByKey => v.sort_unstable_by_key(kf),
                Sort::ParSort => v.par_sort(),
                Sort::ParSortBy => v.par_sort_by(cf),
                Sort::ParSortByKey => v.par_sort_by_key(kf),
                Sort::ParCached => v.par_sort_by_cached_key(|_| 0u8),
                Sort::ParUnst => v.par_sort_unstable(),
                Sort::ParUnstBy => v.par_sort_unstable_by(cf),
                Sort::ParUnstByKey => v.par_sort_unstable_by_key(kf),
            }
            ZOut::Unit
        }
        ZOp::Select(f, i) => {
            let (l, _, r) = match f {
                Form::Ord => v.select_nth_unstable(*i),
                Form::By => v.select_nth_unstable_by(*i, cf),
                Form::Key => v.select_nth_unstable_by_key(*i, kf),
            };
            ZOut::Lens(vec![l.len(), r.len()])
        }
        ZOp::Many(f, idx) => {
            let idx = Array1::from_vec(idx.clone());
            let mut got: Vec<(usize, &mut T)> = Vec::new();
            match f {
                Form::Ord => v.select_many_nth_unstable(&idx, &mut got),
                Form::By => v.select_many_nth_unstable_by(&idx, &mut got, cf),
                Form::Key => v.select_many_nth_unstable_by_key(&idx, &mut got, kf),
            }
            ZOut::Lens(got.iter().map(|x| x.0).collect())
        }
        ZOp::ParMany(f, idx) => {
            let idx = Array1::from_vec(idx.clone());
            let mut got: Vec<&mut T> = Vec::new();
            match f {
                Form::Ord => v.par_select_many_nth_unstable(&idx, &mut got),
                Form::By => v.par_select_many_nth_unstable_by(&idx, &mut got, cf),
                Form::Key => v.par_select_many_nth_unstable_by_key(&idx, &mut got, kf),
            }
            ZOut::Num(got.len())
        }
        ZOp::Dedup(f) => {
            let (a, b) = match f {
                Form::Ord => v.partition_dedup(),
                Form::By => v.partition_dedup_by(|_, _| zanswer() == Ordering::Equal),
                Form::Key => v.partition_dedup_by_key(|_| ZKey),
            };
            ZOut::Lens(vec![a.len(), b.len()])
        }
        ZOp::Reverse => {
            v.reverse();
            ZOut::Unit
        }
        ZOp::Search(f) => {
            let t = T::make();
            ZOut::Found(match f {
                Form::Ord => v.binary_search(&t),
                Form::By => v.binary_search_by(|_| zanswer()),
                Form::Key => v.binary_search_by_key(&ZKey, kf),
            })
        }
        ZOp::Point => ZOut::Num(v.partition_point(|_| zanswer() == Ordering::Less)),
        ZOp::Contains => {
            let t = T::make();
            ZOut::Bool(v.contains(&t))
        }
        ZOp::IsSorted(f) => ZOut::Bool(match f {
            Form::Ord => v.is_sorted(),
            Form::By => v.is_sorted_by(|_, _| zanswer() != Ordering::Greater),
            Form::Key => v.is_sorted_by_key(kf),
        }),
    }
}

/// What the general rule prescribes; None where the answers fit no order.
fn zwant(op: &ZOp, n: usize, mode: u64) -> Result<Option<ZOut>, ()> {
    let cyc = |k: usize| [Ordering::Less, Ordering::Equal, Ordering::Greater, Ordering::Greater, Ordering::Equal][k % 5];
    let ans = |k: usize| match mode {
        0 => Ordering::Equal,
        1 => Ordering::Less,
        2 => Ordering::Greater,
        _ => cyc(k),
    };
    Ok(match op {
        ZOp::Sort(_) | ZOp::Reverse => Some(ZOut::Unit),
        ZOp::Select(_, i) => {
            if *i >= n {
                return Err(());
            }
            Some(ZOut::Lens(vec![*i, n - i - 1]))
        }
        ZOp::Many(_, l) => {
            if !valid(l, n) {
                return Err(());
            }
            Some(ZOut::Lens(l.clone()))
        }
        ZOp::ParMany(_, l) => {
            if !valid(l, n) {
                return Err(());
            }
            Some(ZOut::Num(l.len()))
        }
        ZOp::Dedup(_) => {
            // The k-th comparison decides whether element k + 1 repeats the one before.
            let kept = (0..n).filter(|&i| i == 0 || ans(i - 1) != Ordering::Equal).count();
            Some(ZOut::Lens(vec![kept, n - kept]))
        }
        ZOp::Search(_) => match mode {
            0 if n > 0 => None,
            0 => Some(ZOut::Found(Err(0))),
            1 => Some(ZOut::Found(Err(n))),
            2 => Some(ZOut::Found(Err(0))),
            _ => None,
        },
        ZOp::Point => match mode {
            0 | 2 => Some(ZOut::Num(0)),
            1 => Some(ZOut::Num(n)),
            _ => None,
        },
        ZOp::Contains => Some(ZOut::Bool((0..n).any(|i| ans(i) == Ordering::Equal))),
        ZOp::IsSorted(_) => Some(ZOut::Bool((1..n).all(|i| ans(i - 1) != Ordering::Greater))),
    })
}

fn zonce<T: Zst>(c: &mut Checker, op: &ZOp, n: usize, mode: u64, stride: isize) -> Result<(), String> {
    let k = stride.unsigned_abs();
    let total = if n == 0 { 0 } else { (n - 1) * k + 1 };
    ZLIVE.store(0, Relaxed);
    let mut a: Array1<T> = Array1::from_shape_simple_fn(total, T::make);
    ZMODE.store(mode, Relaxed);
    ZCALLS.store(0, Relaxed);
    ctx::reset(&setup(n));
    let par = matches!(op, ZOp::ParMany(..)) || matches!(op, ZOp::Sort(s) if s.par());
    let r = {
        let mut v = if n == 0 { a.view_mut() } else { a.slice_mut(s![..;stride]) };
        let mut f = || trap(|| zapply(op, &mut v));
        if par {
            model::run(&Config { workers: 2, policy: Policy::Thief, script: vec![] }, f).0.and_then(|x| x)
        } else {
            f()
        }
    };
    c.evaluations += 1;
    c.trace(gens::mix(n as u64 * 8 + mode, stride as u64) ^ gens::mix(ZCALLS.load(Relaxed), format!("{op:?}").bytes().fold(7u64, |h, b| h.wrapping_mul(31) + b as u64)));
    let what = |e: String| format!("{op:?} on {n} {} (answers {mode}, stride {stride}): {e}", T::NAME);
    if a.len() != total || ZLIVE.load(Relaxed) != total as i64 {
        return Err(what(format!("{} elements are live instead of {total}", ZLIVE.load(Relaxed))));
    }
    if n < 2 && matches!(op, ZOp::Sort(_)) && ZCALLS.load(Relaxed) != 0 {
        return Err(what("used the comparator".into()));
    }
    match (r, zwant(op, n, mode)) {
        (Err(_), Err(())) => {}
        (Ok(o), Err(())) => return Err(what(format!("gave {o:?} instead of a panic"))),
        (Err(p), Ok(_)) => return Err(what(format!("panicked: {}", payload(&*p)))),
        (Ok(o), Ok(w)) => {
            if let Some(w) = w
                && o != w
            {
                return Err(what(format!("gave {o:?} instead of {w:?}")));
            }
            if let (ZOut::Found(r), ZOp::Search(_)) = (&o, op)
                && !(matches!(r, Ok(i) if *i < n) || matches!(r, Err(i) if *i <= n))
            {
                return Err(what(format!("gave {o:?}")));
            }
            if let (ZOut::Num(i), ZOp::Point) = (&o, op)
                && *i > n
            {
                return Err(what(format!("gave {o:?}")));
            }
        }
    }
    drop(a);
    if ZLIVE.load(Relaxed) != 0 {
        return Err(what("elements live after the array was dropped".into()));
    }
    match crate::alloc::broken() {
        Some(m) => Err(what(m.into())),
        None => Ok(()),
    }
}

fn zops(n: usize, all: bool) -> Vec<ZOp> {
    let mut o: Vec<ZOp> = ops::ALL_SORTS.into_iter().map(ZOp::Sort).collect();
    let mut idx = if all { (0..n + 3).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, n, n + 1] };
    idx.push(usize::MAX);
    let mut lists: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), vec![n], vec![usize::MAX], vec![0, 0], vec![1, 0], vec![0, n], (0..n).step_by(2).collect()];
    if n > 2 {
        lists.extend([vec![0, n - 1], vec![n / 2], vec![n - 1, 0], vec![1, n / 2, n / 2, n - 1], vec![0, n / 2, n - 1, n]]);
    }
    for f in FORMS {
        o.extend(idx.iter().map(|&i| ZOp::Select(f, i)));
        for l in &lists {
            o.push(ZOp::Many(f, l.clone()));
            o.push(ZOp::ParMany(f, l.clone()));
        }
        o.extend([ZOp::Dedup(f), ZOp::Search(f), ZOp::IsSorted(f)]);
    }
    o.extend([ZOp::Reverse, ZOp::Point, ZOp::Contains]);
    o
}

pub fn c23(c: &mut Checker) {
    c.section("zero-sized elements, every operation");
    let sizes: Vec<usize> = c.pick(
        (0..=40).chain([49, 50, 51, 52, 64, 65, 99, 127, 128, 129, 130, 255, 256, 257, 300, 513, 1999, 2000, 2001, 4001, 5001, 6001, 70_003]).collect(),
        (0..=300).chain([511, 512, 513, 1000, 1999, 2000, 2001, 3999, 4000, 4001, 4999, 5000, 5001, 6001, 8001, 10_001, 65_535, 65_536, 70_003, 1_000_003]).collect(),
    );
    for n in sizes {
        for mode in 0..4 {
            for stride in [1isize, 2, -1] {
                if n > 300 && stride == 2 && c.quick() {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} answers {mode} stride {stride}"), |c| {
                        for op in zops(n, n <= c.pick(12, 24)) {
                            zonce::<WideNil>(c, &op, n, mode, stride)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("few elements, every operation in every layout");
    for n in 0..=3usize {
        let lists: Vec<Vec<usize>> = (0..1usize << n).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect();
        gens::weak_orders(n, &mut |k| {
            for lay in LAYS {
                if c.next() {
                    c.run(|| format!("keys {} {lay:?}", show(k)), |c| {
                        for op in ops::all_ops(n, n as u32, &lists, &[0, 1, 2]) {
                            few(c, &op, k, lay)?;
                        }
                        for f in FORMS {
                            for i in 0..n + 2 {
                                select_once(c, f, k, i, lay)?;
                            }
                            for l in &lists {
                                for cfg in [(1, Policy::Owner), (2, Policy::Thief)] {
                                    let st = par::par_setup(n, 1);
                                    par::each_policy(c, &[cfg], &Act::Many(f, l.clone()), k, lay, &st)?;
                                }
                            }
                            for bad in [vec![n], vec![0, 0], vec![n, 0], vec![usize::MAX]] {
                                select_many_once(c, f, k, &bad, lay, false)?;
                                let st = par::par_setup(n, 1);
                                par::each_policy(c, &[(2, Policy::Thief)], &Act::Many(f, bad), k, lay, &st)?;
                            }
                        }
                        for op in ops::ALL_SORTS {
                            let mut st = par::par_setup(n, 1);
                            if n < 2 && !op.cached() {
                                st.fault = 1; // a comparator that must not be needed
                            }
                            if op.par() {
                                par::each_policy(c, &[(1, Policy::Owner), (2, Policy::Thief)], &Act::Sort(op), k, lay, &st)?;
                            } else {
                                let mut g = Grid::new(k, lay);
                                ctx::reset(&st);
                                trap(|| ops::sort(op, &mut g.view_mut())).map_err(|p| format!("{op:?} of {n} panicked: {}", payload(&*p)))?;
                                c.evaluations += 1;
                                after_sort(op, &g, k).map_err(|e| format!("{op:?}: {e}"))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        });
    }
}

fn few(c: &mut Checker, op: &Op, keys: &[u32], lay: Lay) -> Result<(), String> {
    let n = keys.len();
    let mut g = Grid::new(keys, lay);
    let before: Vec<u32> = (0..n as u32).collect();
    let mut st = setup(n);
    if n < 2 && matches!(op, Op::Sort(s) if !s.cached()) {
        st.fault = 1;
    }
    ctx::reset(&st);
    let r = trap(|| ops::apply(op, &mut g.view_mut()));
    c.evaluations += 1;
    c.trace(ctx::trace() ^ n as u64);
    match r {
        Err(p) => Err(format!("{op:?} of {n} panicked: {}", payload(&*p))),
        Ok(out) => ops::contract(op, keys, &before, &g, &out),
    }
}

// --- C25 -------------------------------------------------------------------------------------

/// One step of a history.
#[derive(Clone, Debug)]
enum Step {
    Op(Op),
    Par(Sort),
    ParMany(Form, Vec<usize>),
}

fn step_ops(n: usize, k: u32, full: bool) -> Vec<Step> {
    let lists: Vec<Vec<usize>> = if full { vec![vec![], (0..n).collect(), (0..n).step_by(2).collect()] } else { vec![(0..n).step_by(n / 5 + 1).collect()] };
    let idx: Vec<usize> = if full { vec![0, n / 2, n.saturating_sub(1)] } else { vec![n / 3] };
    let mut o: Vec<Step> = Vec::new();
    if full {
        o.extend(ops::all_ops(n, k, &lists, &idx).into_iter().map(Step::Op));
        for s in ops::ALL_SORTS {
            if s.par() {
                o.push(Step::Par(s));
            }
        }
        for l in &lists {
            o.push(Step::ParMany(FORMS[l.len() % 3], l.clone()));
        }
    } else {
        for s in [Sort::SortBy, Sort::Cached, Sort::UnstBy] {
            o.push(Step::Op(Op::Sort(s)));
        }
        o.push(Step::Op(Op::Select(Form::By, idx[0])));
        o.push(Step::Op(Op::Select(Form::By, n / 2)));
        o.push(Step::Op(Op::Many(Form::By, lists[0].clone())));
        o.push(Step::Op(Op::Dedup(Form::By)));
        o.push(Step::Op(Op::Reverse));
        o.push(Step::Op(Op::Search(Form::By, k / 2)));
        o.push(Step::Op(Op::Point(k / 3)));
        o.push(Step::Op(Op::Contains(k / 2)));
        o.push(Step::Op(Op::IsSorted(Form::By)));
        o.push(Step::Par(Sort::ParSortBy));
        o.push(Step::Par(Sort::ParUnstBy));
        o.push(Step::ParMany(Form::By, lists[0].clone()));
    }
    o
}

/// Applies a step to the array at hand and judges it by its contract.
fn advance(c: &mut Checker, g: &mut Grid, keys: &[u32], step: &Step) -> Result<Out, String> {
    let before = g.ids();
    let n = before.len();
    let cfg = Config { workers: 2, policy: Policy::Thief, script: vec![] };
    match step {
        Step::Op(op) => {
            ctx::reset(&setup(n));
            let r = trap(|| ops::apply(op, &mut g.view_mut()));
            c.evaluations += 1;
            let out = r.map_err(|p| format!("{op:?} panicked: {}", payload(&*p)))?;
            ops::contract(op, keys, &before, g, &out)?;
            Ok(out)
        }
        Step::Par(s) => {
            ctx::reset(&par::par_setup(n, n as u64 / 4 + 1));
            let (r, t) = {
                let mut v = g.view_mut();
                model::run(&cfg, || trap(|| ops::sort(*s, &mut v)))
            };
            par::book(c, &t, t.options.len());
            r.and_then(|x| x).map_err(|p| format!("{s:?} panicked: {}", payload(&*p)))?;
            ops::contract(&Op::Sort(*s), keys, &before, g, &Out::Unit)?;
            Ok(Out::Unit)
        }
        Step::ParMany(f, idx) => {
            ctx::reset(&par::par_setup(n, n as u64 / 4 + 1));
            let iv = Array1::from_vec(idx.clone());
            let size = g.lay.stride * size_of::<El>() as isize;
            let (r, t, got) = {
                let mut v = g.view_mut();
                let base = v.as_ptr() as usize;
                let mut out = Vec::new();
                let (r, t) = {
                    let v = unsafe { &mut *(&mut v as *mut ndarray_slice::ndarray::ArrayViewMut1<El>) };
                    let o = &mut out;
                    model::run(&cfg, move || trap(|| ops::par_select_many(*f, v, iv.view(), o)))
                };
                let got: Vec<(usize, usize)> = out.iter().enumerate().map(|(j, e)| (idx.get(j).copied().unwrap_or(usize::MAX), ((&**e as *const El as isize - base as isize) / size) as usize)).collect();
                (r, t, got)
            };
            par::book(c, &t, t.options.len());
            r.and_then(|x| x).map_err(|p| format!("{step:?} panicked: {}", payload(&*p)))?;
            let out = Out::List(got);
            ops::contract(&Op::Many(*f, idx.clone()), keys, &before, g, &out)?;
            Ok(out)
        }
    }
}

/// Arrangement `state` of elements with these keys on a fresh array.
fn fresh(keys: &[u32], state: &[u32], lay: Lay) -> Grid {
    let k: Vec<u32> = state.iter().map(|&i| keys[i as usize]).collect();
    let mut g = Grid::new(&k, lay);
    for e in g.view_mut().iter_mut() {
        e.id = state[e.id as usize];
    }
    g
}

type Model = HashMap<(Vec<u32>, usize), (Vec<u32>, Out)>;

/// The transition from `state` by step number `i`, taken on a fresh array the first time.
fn transition<'m>(c: &mut Checker, m: &'m mut Model, keys: &[u32], state: &[u32], i: usize, steps: &[Step], lay: Lay) -> Result<&'m (Vec<u32>, Out), String> {
    let key = (state.to_vec(), i);
    if !m.contains_key(&key) {
        let mut g = fresh(keys, state, lay);
        let out = advance(c, &mut g, keys, &steps[i]).map_err(|e| format!("from {state:?}: {e}"))?;
        c.add("transitions", 1);
        m.insert(key.clone(), (g.ids(), out));
    }
    Ok(&m[&key])
}

/// Every history of `depth` steps from the first arrangement: along each, one array goes through
/// all steps and must go where the model of fresh arrays goes, with the same results.
fn histories(c: &mut Checker, keys: &[u32], steps: &[Step], first: &[usize], depth: usize, lay: Lay) -> Result<(), String> {
    let n = keys.len();
    let mut m: Model = HashMap::new();
    let mut seen: HashMap<Vec<u32>, ()> = HashMap::new();
    let rest = depth - first.len();
    let total = steps.len().pow(rest as u32);
    for no in 0..total {
        let mut h: Vec<usize> = first.to_vec();
        let mut x = no;
        for _ in 0..rest {
            h.push(x % steps.len());
            x /= steps.len();
        }
        let mut g = Grid::new(keys, lay);
        let mut state: Vec<u32> = (0..n as u32).collect();
        for (j, &i) in h.iter().enumerate() {
            let names = || h[..=j].iter().map(|&i| format!("{:?}", steps[i])).collect::<Vec<_>>().join("; ");
            let (to, want) = transition(c, &mut m, keys, &state, i, steps, lay)?.clone();
            let out = advance(c, &mut g, keys, &steps[i]).map_err(|e| format!("{}: {e}", names()))?;
            c.trace(ctx::trace() ^ gens::mix(state.iter().fold(3u64, |a, &b| a.wrapping_mul(131) + b as u64), i as u64));
            if g.ids() != to {
                return Err(format!("{}: leaves {} while a fresh array in the same state becomes {}", names(), show(&g.ids()), show(&to)));
            }
            if out != want {
                return Err(format!("{}: returns {out:?}, on a fresh array {want:?}", names()));
            }
            if seen.insert(to.clone(), ()).is_none() {
                c.add("states", 1);
            }
            state = to;
        }
        c.add("traces_validated_against_impl", 1);
    }
    Ok(())
}

pub fn c25(c: &mut Checker) {
    // What one case leaves behind must not hide from another.
    c.apart = true;
    c.section("all small arrays, all histories");
    for n in 0..=c.pick(3usize, 4) {
        let steps = step_ops(n, n as u32, true);
        let depth = if n <= 3 { c.pick(2, 3) } else { 2 };
        gens::weak_orders(n, &mut |k| {
            for i in 0..steps.len() {
                if c.next() {
                    let lay = LAYS[(i + n) % LAYS.len()];
                    c.run(|| format!("keys {} from {:?} {lay:?}", show(k), steps[i]), |c| histories(c, k, &steps, &[i], depth, lay));
                }
            }
        });
    }
    c.section("all small arrays, longer histories of representative operations");
    for n in 2..=c.pick(4usize, 5) {
        let steps = step_ops(n, n as u32, false);
        gens::weak_orders(n, &mut |k| {
            for i in 0..steps.len() {
                if c.next() {
                    c.run(|| format!("keys {} from {:?}", show(k), steps[i]), |c| histories(c, k, &steps, &[i], c.pick(3, 4), FLAT));
                }
            }
        });
    }
    c.section("larger arrays, histories of representative operations");
    for n in c.pick(vec![13usize, 25, 60, 150, 300], vec![12, 13, 21, 25, 40, 51, 60, 100, 130, 150, 257, 300, 600]) {
        let steps = step_ops(n, n as u32, false);
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 60 && si % c.pick(6, 2) != n % c.pick(6, 2) {
                continue;
            }
            for i in 0..steps.len() {
                if c.next() {
                    let lay = LAYS[(i + n + si) % LAYS.len()];
                    let depth = if n <= 25 || !c.quick() && n <= 300 { 3 } else { 2 };
                    c.run(|| format!("n={n} {name} from {:?} {lay:?}", steps[i]), |c| histories(c, &k, &steps, &[i], depth, lay));
                }
            }
        }
    }
    c.section("parallel sizes");
    for n in c.pick(vec![2003usize, 4003], vec![2001, 2003, 4003, 6003, 8001]) {
        let steps = step_ops(n, n as u32, false);
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if si % c.pick(6, 2) != 0 {
                continue;
            }
            for i in 0..steps.len() {
                if c.next() {
                    c.run(|| format!("n={n} {name} from {:?}", steps[i]), |c| histories(c, &k, &steps, &[i], 2, FLAT));
                }
            }
        }
    }
    c.section("adversarial inputs, histories");
    for n in c.pick(vec![77usize, 300], vec![60, 77, 150, 300, 700]) {
        let steps = step_ops(n, n as u32, false);
        for variant in 0..8u8 {
            for i in 0..steps.len() {
                if c.next() {
                    c.run(|| format!("n={n} adversary {variant} from {:?}", steps[i]), |c| {
                        let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                            ops::select(Form::By, &mut g.view_mut(), n / 3);
                        });
                        histories(c, &k, &steps, &[i], 2, FLAT)
                    });
                }
            }
        }
    }
    crate::nest::c25(c);
}
