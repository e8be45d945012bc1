//! C29: the values key functions return. Each is owned by the operation from then on: it is dropped exactly
//! once, before the operation returns or unwinds, whichever call of the key function, comparison or drop
//! of a key panics.
use crate::engine::{Checker, payload};
use crate::gens;
use crate::ops::trap;
use crate::par::{Cfg, POLICIES};
use crate::util::*;
use ndarray_slice::{
    Slice1Ext,
    ndarray::{Array1, ArrayViewMut1, s},
};
use rayon_core::model::{self, Config, Policy};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicU32, AtomicU64, Ordering::Relaxed};

/// Injected panic.
struct Fault;

const SLOTS: usize = 1 << 20;
static SLOT: [AtomicU8; SLOTS] = [const { AtomicU8::new(0) }; SLOTS];
static NEXT: AtomicU32 = AtomicU32::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static FAULT: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicBool = AtomicBool::new(false);
static STRIDE: AtomicU64 = AtomicU64::new(0);
static TRACE: AtomicU64 = AtomicU64::new(0);
/// First thing wrong: 1 dropped twice, 2 compared when dead, 3 no key at all.
static WRONG: AtomicU8 = AtomicU8::new(0);
/// Live keys of the zero-sized kind.
static EMPTY: AtomicU64 = AtomicU64::new(0);

fn event(kind: u64) {
    let n = EVENTS.fetch_add(1, Relaxed) + 1;
    TRACE.store((TRACE.load(Relaxed) ^ kind).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(7), Relaxed);
    if n == FAULT.load(Relaxed) && !std::thread::panicking() {
        FIRED.store(true, Relaxed);
        std::panic::panic_any(Fault);
    }
    let st = STRIDE.load(Relaxed);
    if st != 0 && n % st == 0 && kind >> 60 != 3 {
        model::yield_point();
    }
}

fn wrong(w: u8) {
    let _ = WRONG.compare_exchange(0, w, Relaxed, Relaxed);
}

trait Key: Ord + Send {
    fn make(key: u32) -> Self;
    const SIZED: bool;
}

/// A key that knows whether it is live.
struct K {
    id: u32,
    key: u32,
    magic: u32,
}
const MAGIC: u32 = 0x6B65_7921;

impl Key for K {
    fn make(key: u32) -> K {
        event(1 << 60 | key as u64);
        let id = NEXT.fetch_add(1, Relaxed);
        SLOT[id as usize % SLOTS].store(1, Relaxed);
        K { id, key, magic: MAGIC }
    }
    const SIZED: bool = true;
}
impl K {
    fn check(&self) {
        if self.magic != MAGIC || self.id >= NEXT.load(Relaxed) {
            wrong(3);
        } else if SLOT[self.id as usize % SLOTS].load(Relaxed) != 1 {
            wrong(2);
        }
    }
}
impl Drop for K {
    fn drop(&mut self) {
        if self.magic != MAGIC || self.id >= NEXT.load(Relaxed) {
            wrong(3);
            return;
        }
        if SLOT[self.id as usize % SLOTS].swap(2, Relaxed) != 1 {
            wrong(1);
        }
        event(3 << 60 | self.key as u64);
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.check();
        o.check();
        event(2 << 60 | (self.key as u64) << 20 | o.key as u64);
        self.key == o.key
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.check();
        o.check();
        event(2 << 60 | (self.key as u64) << 20 | o.key as u64);
        self.key.cmp(&o.key)
    }
}

/// A key without size: all are equal.
struct Z;
impl Key for Z {
    fn make(_: u32) -> Z {
        event(1 << 60);
        EMPTY.fetch_add(1, Relaxed);
        Z
    }
    const SIZED: bool = false;
}
impl Drop for Z {
    fn drop(&mut self) {
        EMPTY.fetch_sub(1, Relaxed);
        event(3 << 60);
    }
}
impl PartialEq for Z {
    fn eq(&self, _: &Z) -> bool {
        event(2 << 60);
        true
    }
}
impl Eq for Z {}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, _: &Z) -> Ordering {
        event(2 << 60);
        Ordering::Equal
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum O {
    Sort,
    Cached,
    Unst,
    Select(usize),
    Many,
    Dedup,
    IsSorted,
    Search(u32),
    ParSort,
    ParCached,
    ParUnst,
    ParMany,
}

type P = (u32, u32);

fn indices(n: usize) -> Array1<usize> {
    (0..n).step_by(n / 5 + 1).collect()
}

fn run<T: Key>(op: O, v: &mut ArrayViewMut1<P>) {
    let n = v.len();
    let f = |p: &P| T::make(p.0);
    match op {
        O::Sort => v.sort_by_key(f),
        O::Cached => v.sort_by_cached_key(f),
        O::Unst => v.sort_unstable_by_key(f),
        O::Select(i) => {
            let _ = v.select_nth_unstable_by_key(i, f);
        }
        O::Many => {
            let mut out: Vec<(usize, &mut P)> = Vec::new();
            v.select_many_nth_unstable_by_key(&indices(n), &mut out, f);
        }
        O::Dedup => {
            v.partition_dedup_by_key(|p| T::make(p.0));
        }
        O::IsSorted => {
            let _ = v.is_sorted_by_key(f);
        }
        O::Search(t) => {
            let t = T::make(t);
            let _ = v.binary_search_by_key(&t, f);
        }
        O::ParSort => v.par_sort_by_key(f),
        O::ParCached => v.par_sort_by_cached_key(f),
        O::ParUnst => v.par_sort_unstable_by_key(f),
        O::ParMany => {
            let mut out: Vec<&mut P> = Vec::new();
            v.par_select_many_nth_unstable_by_key(&indices(n), &mut out, f);
        }
    }
}

/// One execution with a panic at event `fault` (0: none). Returns the number of events.
fn once<T: Key>(c: &mut Checker, op: O, keys: &[u32], stride: isize, fault: u64, cfg: Option<(Cfg, u64)>) -> Result<u64, String> {
    let n = keys.len();
    let k = stride.unsigned_abs();
    let mut a: Array1<P> = Array1::from_elem(if n == 0 { 0 } else { (n - 1) * k + 1 }, (u32::MAX, u32::MAX));
    let mut v = if n == 0 { a.view_mut() } else { a.slice_mut(s![..;stride]) };
    for (i, (e, &k)) in v.iter_mut().zip(keys).enumerate() {
        *e = (k, i as u32);
    }
    let used = NEXT.swap(0, Relaxed);
    for s in &SLOT[..(used as usize).min(SLOTS)] {
        s.store(0, Relaxed);
    }
    EMPTY.store(0, Relaxed);
    WRONG.store(0, Relaxed);
    EVENTS.store(0, Relaxed);
    TRACE.store(0, Relaxed);
    FAULT.store(fault, Relaxed);
    FIRED.store(false, Relaxed);
    STRIDE.store(cfg.map_or(0, |x| x.1), Relaxed);
    let mut forked = model::Trace::default();
    let r = match cfg {
        None => trap(|| run::<T>(op, &mut v)),
        Some((cfg, _)) => {
            let (r, t) = model::run(&Config { workers: cfg.0, policy: cfg.1, script: vec![] }, || trap(|| run::<T>(op, &mut v)));
            forked = t;
            r.and_then(|x| x)
        }
    };
    FAULT.store(0, Relaxed);
    let events = EVENTS.load(Relaxed);
    let fired = FIRED.load(Relaxed);
    c.evaluations += 1;
    c.trace(TRACE.load(Relaxed) ^ forked.hash);
    let what = || format!("{op:?} of {n} elements{}", if fault > 0 { format!(", event {fault} panics") } else { String::new() });
    match &r {
        Err(p) if !fired => return Err(format!("{} panicked: {}", what(), payload(&**p))),
        Err(p) if !p.is::<Fault>() => return Err(format!("{} panicked with something else: {}", what(), payload(&**p))),
        Ok(()) if fired => return Err(format!("{}: the panic was swallowed", what())),
        _ => {}
    }
    drop(r);
    match WRONG.load(Relaxed) {
        0 => {}
        1 => return Err(format!("{}: a key was dropped twice", what())),
        2 => return Err(format!("{}: a key was compared after it was dropped", what())),
        _ => return Err(format!("{}: something that is no key was compared or dropped as one", what())),
    }
    if T::SIZED {
        let made = NEXT.load(Relaxed) as usize;
        if made > SLOTS {
            return Err(format!("{}: {made} keys", what()));
        }
        let kept = SLOT[..made].iter().filter(|s| s.load(Relaxed) != 2).count();
        if kept > 0 {
            return Err(format!("{}: {kept} of {made} keys were not dropped", what()));
        }
    } else if EMPTY.load(Relaxed) != 0 {
        return Err(format!("{}: {} more keys made than dropped", what(), EMPTY.load(Relaxed) as i64));
    }
    // The elements: all there, and in order if that was asked for.
    let mut seen = vec![false; n];
    for &(k, i) in &v {
        if i as usize >= n || seen[i as usize] || keys[i as usize] != k {
            return Err(format!("{}: elements lost or there twice", what()));
        }
        seen[i as usize] = true;
    }
    if !fired && T::SIZED {
        let stable = matches!(op, O::Sort | O::Cached | O::ParSort | O::ParCached);
        if stable || matches!(op, O::Unst | O::ParUnst) {
            for i in 1..n {
                if v[i - 1].0 > v[i].0 || stable && v[i - 1].0 == v[i].0 && v[i - 1].1 > v[i].1 {
                    return Err(format!("{}: not in order at {i}", what()));
                }
            }
        }
    } else if !fired && matches!(op, O::Sort | O::Cached | O::ParSort | O::ParCached) && (0..n).any(|i| v[i].1 != i as u32) {
        return Err(format!("{}: equal elements moved", what()));
    }
    if k > 1 {
        let pos = |j: usize| if stride > 0 { j } else { a.len() - 1 - j };
        if (0..a.len()).any(|j| j % k != 0 && a[pos(j)] != (u32::MAX, u32::MAX)) {
            return Err(format!("{}: changed something between the elements", what()));
        }
    }
    Ok(events)
}

/// Without a fault, then with one at each event: all of them up to `every`, beyond that about as many spread out.
fn all<T: Key>(c: &mut Checker, op: O, keys: &[u32], stride: isize, every: u64, shift: u64, cfg: Option<(Cfg, u64)>) -> Result<(), String> {
    let e = once::<T>(c, op, keys, stride, 0, cfg)?;
    c.add("events (key function, comparison, drop)", e);
    let step = e / every + 1;
    let mut k = 1 + shift % step;
    while k <= e {
        once::<T>(c, op, keys, stride, k, cfg)?;
        c.add("faults", 1);
        k += if k <= 4 || k + 4 >= e { 1 } else { step };
    }
    Ok(())
}

fn seq_ops(n: usize) -> Vec<O> {
    let mut o = vec![O::Sort, O::Cached, O::Unst, O::Many, O::Dedup, O::IsSorted, O::Search(0), O::Search(n as u32 / 2), O::Search(u32::MAX >> 12)];
    let mut at = vec![0, n / 2, n.wrapping_sub(1)];
    at.retain(|&i| i < n);
    at.dedup();
    o.extend(at.into_iter().map(O::Select));
    o
}

const PAR: [O; 4] = [O::ParSort, O::ParCached, O::ParUnst, O::ParMany];

pub fn c29(c: &mut Checker) {
    c.section("all weak orders");
    for n in 0..=c.pick(5usize, 6) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for stride in [1, -2] {
                        for op in seq_ops(n) {
                            all::<K>(c, op, k, stride, u64::MAX, 0, None)?;
                        }
                        for op in PAR {
                            all::<K>(c, op, k, stride, u64::MAX, 0, Some(((2, Policy::Thief), 3)))?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("keys without size");
    for n in (0..=c.pick(40usize, 130)).chain([64, 200, 254, 255, 256, 257, 300]) {
        if c.next() {
            c.run(|| format!("n={n}"), |c| {
                let k = gens::perm(n, 3);
                for op in seq_ops(n).into_iter().chain(PAR) {
                    all::<Z>(c, op, &k, 1, c.pick(60, 500), n as u64, matches!(op, O::ParSort | O::ParCached | O::ParUnst | O::ParMany).then_some(((3, Policy::RoundRobin), 5)))?;
                }
                Ok(())
            });
        }
    }
    c.section("shapes");
    for n in c.pick(vec![12usize, 21, 25, 50, 64, 130, 255, 256], vec![8, 11, 12, 20, 21, 22, 25, 30, 50, 51, 64, 100, 129, 130, 200, 255, 256, 257, 300, 600]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for op in seq_ops(n) {
                        all::<K>(c, op, &k, [1, -1, 3][(si + n) % 3], c.pick(300, 1000), si as u64, None)?;
                    }
                    for (oi, op) in PAR.into_iter().enumerate() {
                        let cfg = (2 + oi % 3, POLICIES[(si + oi) % 4]);
                        all::<K>(c, op, &k, 1, c.pick(80, 300), si as u64, Some((cfg, n as u64)))?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("long arrays");
    for n in c.pick(vec![2003usize, 70_003], vec![1030, 2003, 20_011, 65_535, 65_536, 65_537, 70_003, 140_003]) {
        for (si, (name, k)) in gens::long(n, c.pick(2, 10)).into_iter().enumerate() {
            for op in [O::Sort, O::Cached, O::Unst, O::Dedup, O::IsSorted, O::ParCached] {
                // As many keys as comparisons ask for would be too many.
                if n > 20_011 && matches!(op, O::Sort | O::Unst) {
                    continue;
                }
                if c.next() {
                    let cfg = matches!(op, O::ParCached).then_some(((2 + si % 3, POLICIES[si % 4]), n as u64 / 4));
                    c.run(|| format!("n={n} {name} {op:?}"), |c| all::<K>(c, op, &k, [1, -2][si % 2], c.pick(12, 40), si as u64 * 37, cfg));
                }
            }
        }
    }
    c.section("adversarial inputs");
    for n in c.pick(vec![60usize, 150], vec![40, 60, 90, 150, 200, 300]) {
        for variant in 0..8u8 {
            if c.next() {
                c.run(|| format!("n={n} adversary {variant}"), |c| {
                    let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                        crate::ops::apply(&crate::ops::Op::Sort(crate::ops::Sort::UnstBy), &mut g.view_mut());
                    });
                    for op in [O::Unst, O::ParUnst] {
                        all::<K>(c, op, &k, 1, c.pick(100, 1000), variant as u64, None)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("parallel parts");
    for n in c.pick(vec![300usize, 2003, 4300], vec![257, 300, 1999, 2003, 3000, 4300, 6003, 9001]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if c.quick() && si % 4 != n % 4 {
                continue;
            }
            for (oi, op) in PAR.into_iter().enumerate() {
                for w in [2usize, 4] {
                    if c.next() {
                        let cfg = (w, POLICIES[(si + oi + w) % 4]);
                        c.run(|| format!("n={n} {name} {op:?} {cfg:?}"), |c| all::<K>(c, op, &k, 1, c.pick(20, 60), (si + w) as u64 * 37, Some((cfg, n as u64 / 4))));
                    }
                }
            }
        }
    }
}
