//! Other element types than the instrumented one: sizes, alignments, owned heap data.
use crate::alloc;
use crate::engine::{Checker, payload};
use crate::gens;
use crate::grid::{LAYS, Lay};
use crate::ops::trap;
use crate::par::Cfg;
use crate::util::*;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayViewMut1, s};
use rayon_core::model::{self, Config, Policy};
use std::cmp::Ordering;

pub trait Elem: Ord + Send + Sync + 'static {
    const NAME: &'static str;
    fn make(key: u32, id: u32) -> Self;
    /// Key and identity (0 for types that have none).
    fn parts(&self) -> (u32, u32);
}

macro_rules! ordered_by_key {
    ($($t:ty),*) => {$(
        impl PartialEq for $t { fn eq(&self, o: &$t) -> bool { self.parts().0 == o.parts().0 } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &$t) -> Ordering { self.parts().0.cmp(&o.parts().0) } }
    )*};
}

impl Elem for u8 {
    const NAME: &'static str = "u8";
    fn make(key: u32, _: u32) -> u8 {
        key as u8
    }
    fn parts(&self) -> (u32, u32) {
        (*self as u32, 0)
    }
}
/// Five bytes, alignment one.
pub struct Five([u8; 5]);
impl Elem for Five {
    const NAME: &'static str = "five bytes";
    fn make(key: u32, id: u32) -> Five {
        let (k, i) = ((key as u16).to_le_bytes(), id.to_le_bytes());
        Five([i[0], k[0], i[1], k[1], i[2]])
    }
    fn parts(&self) -> (u32, u32) {
        let b = &self.0;
        (u16::from_le_bytes([b[1], b[3]]) as u32, u32::from_le_bytes([b[0], b[2], b[4], 0]))
    }
}
/// Heap data in each element.
pub struct Text(String);
impl Elem for Text {
    const NAME: &'static str = "owned text";
    fn make(key: u32, id: u32) -> Text {
        Text(format!("{key:010} with identity {id}"))
    }
    fn parts(&self) -> (u32, u32) {
        let mut w = self.0.split(' ');
        let k = w.next().and_then(|x| x.parse().ok());
        let i = w.next_back().and_then(|x| x.parse().ok());
        (k.unwrap_or(u32::MAX), i.unwrap_or(u32::MAX))
    }
}
/// Large, with an unusual alignment.
#[repr(align(64))]
pub struct Big {
    id: u32,
    pad: [u64; 40],
    key: u32,
}
impl Elem for Big {
    const NAME: &'static str = "large elements aligned to 64";
    fn make(key: u32, id: u32) -> Big {
        Big { id, pad: [id as u64 * 31 + key as u64; 40], key }
    }
    fn parts(&self) -> (u32, u32) {
        assert!((self as *const Big as usize).is_multiple_of(64), "misaligned element");
        let ok = self.pad.iter().all(|&x| x == self.id as u64 * 31 + self.key as u64);
        if ok { (self.key, self.id) } else { (u32::MAX, u32::MAX) }
    }
}
ordered_by_key!(Five, Text, Big);

/// Operations in their plain form: the others differ in the comparator only.
#[derive(Clone, Debug)]
pub enum TOp {
    Stable,
    Unstable,
    Cached,
    ParStable,
    ParUnstable,
    ParCached,
    Select(usize),
    Many(Vec<usize>),
    ParMany(Vec<usize>),
    Dedup,
    Reverse,
    Search(u32),
    IsSorted,
}

impl TOp {
    fn par(&self) -> bool {
        matches!(self, TOp::ParStable | TOp::ParUnstable | TOp::ParCached | TOp::ParMany(_))
    }
}

fn kf<T: Elem>(a: &T) -> u32 {
    a.parts().0
}

#[derive(Debug)]
enum TOut {
    Unit,
    Lens(Vec<usize>),
    List(Vec<(usize, usize)>),
    Refs(Vec<usize>),
    Found(Result<usize, usize>),
    Bool(bool),
}

fn apply<T: Elem>(op: &TOp, v: &mut ArrayViewMut1<'_, T>) -> TOut {
    match op {
        TOp::Stable => v.sort(),
        TOp::Unstable => v.sort_unstable(),
        TOp::Cached => v.sort_by_cached_key(kf),
        TOp::ParStable => v.par_sort(),
        TOp::ParUnstable => v.par_sort_unstable(),
        TOp::ParCached => v.par_sort_by_cached_key(kf),
        TOp::Select(i) => {
            let (l, m, r) = v.select_nth_unstable(*i);
            let (a, b, m) = (l.len(), r.len(), m as *mut T as usize);
            return TOut::Lens(vec![a, b, m]);
        }
        TOp::Many(idx) => {
            let idx = Array1::from_vec(idx.clone());
            let mut got: Vec<(usize, &mut T)> = Vec::new();
            v.select_many_nth_unstable(&idx, &mut got);
            return TOut::List(got.into_iter().map(|(i, e)| (i, e as *mut T as usize)).collect());
        }
        TOp::ParMany(idx) => {
            let idx = Array1::from_vec(idx.clone());
            let mut got: Vec<&mut T> = Vec::new();
            v.par_select_many_nth_unstable(&idx, &mut got);
            return TOut::Refs(got.into_iter().map(|e| e as *mut T as usize).collect());
        }
        TOp::Dedup => {
            let (a, b) = v.partition_dedup();
            return TOut::Lens(vec![a.len(), b.len()]);
        }
        TOp::Reverse => v.reverse(),
        TOp::Search(k) => return TOut::Found(v.binary_search(&T::make(*k, 0))),
        TOp::IsSorted => return TOut::Bool(v.is_sorted()),
    }
    TOut::Unit
}

/// What must hold of (key, identity) before and after.
fn contract(op: &TOp, before: &[(u32, u32)], after: &[(u32, u32)], out: &TOut, at: &dyn Fn(usize) -> usize) -> Result<(), String> {
    let n = before.len();
    let (mut x, mut y) = (before.to_vec(), after.to_vec());
    x.sort_unstable();
    y.sort_unstable();
    if x != y {
        return Err("the elements afterwards are not the ones before".into());
    }
    let mut max = vec![0; n + 1];
    let mut min = vec![u32::MAX; n + 1];
    for i in 0..n {
        max[i + 1] = after[i].0.max(max[i]);
    }
    for i in (0..n).rev() {
        min[i] = after[i].0.min(min[i + 1]);
    }
    let placed = |i: usize| max[i] <= after[i].0 && after[i].0 <= min[i + 1];
    let same = || if before == after { Ok(()) } else { Err("a read-only operation changed the array".to_string()) };
    match (op, out) {
        (TOp::Stable | TOp::Cached | TOp::ParStable | TOp::ParCached, _) => {
            let mut w = before.to_vec();
            w.sort_by_key(|e| e.0);
            if w != after {
                return Err("not the stable order".into());
            }
        }
        (TOp::Unstable | TOp::ParUnstable, _) => {
            if !after.is_sorted_by_key(|e| e.0) {
                return Err("not in order".into());
            }
        }
        (TOp::Select(i), TOut::Lens(l)) => {
            if !placed(*i) {
                return Err(format!("index {i} is not in place"));
            }
            if *l != [*i, n - i - 1, at(*i)] {
                return Err(format!("returned views of {} and {} elements, or another element", l[0], l[1]));
            }
        }
        (TOp::Many(idx), TOut::List(got)) => {
            let want: Vec<(usize, usize)> = idx.iter().map(|&i| (i, at(i))).collect();
            if *got != want {
                return Err("collected other indices or elements than selected".into());
            }
            if let Some(i) = idx.iter().find(|&&i| !placed(i)) {
                return Err(format!("index {i} is not in place"));
            }
        }
        (TOp::ParMany(idx), TOut::Refs(got)) => {
            let want: Vec<usize> = idx.iter().map(|&i| at(i)).collect();
            if *got != want {
                return Err("collected other elements than selected".into());
            }
            if let Some(i) = idx.iter().find(|&&i| !placed(i)) {
                return Err(format!("index {i} is not in place"));
            }
        }
        (TOp::Dedup, TOut::Lens(l)) => {
            let mut w = before.to_vec();
            w.dedup_by_key(|e| e.0);
            if *l != [w.len(), n - w.len()] || after[..w.len()] != w[..] {
                return Err("did not keep the first of each run in order".into());
            }
        }
        (TOp::Reverse, _) => {
            if !after.iter().eq(before.iter().rev()) {
                return Err("not reversed".into());
            }
        }
        (TOp::Search(k), TOut::Found(r)) => {
            same()?;
            if before.is_sorted_by_key(|e| e.0) {
                let ok = match *r {
                    Ok(i) => i < n && before[i].0 == *k,
                    Err(i) => i <= n && before[..i].iter().all(|e| e.0 < *k) && before[i..].iter().all(|e| e.0 > *k),
                };
                if !ok {
                    return Err(format!("found {r:?}"));
                }
            }
        }
        (TOp::IsSorted, TOut::Bool(b)) => {
            same()?;
            if *b != before.is_sorted_by_key(|e| e.0) {
                return Err(format!("returned {b}"));
            }
        }
        _ => return Err(format!("returned {out:?}")),
    }
    Ok(())
}

/// One operation on an array of `T`, in a watched heap: everything released, every block with
/// its own layout, cells outside the view untouched.
pub fn once<T: Elem>(c: &mut Checker, op: &TOp, keys: &[u32], lay: Lay, cfg: Cfg) -> Result<(), String> {
    let n = keys.len();
    let k = lay.stride.unsigned_abs();
    let span = if n == 0 { 0 } else { (n - 1) * k + 1 };
    let total = lay.off + span + lay.tail;
    let pos = |i: usize| lay.off + if lay.stride > 0 { i * k } else { (n - 1 - i) * k };
    let mut src: Vec<T> = (0..total).map(|x| T::make(251, x as u32 % 99)).collect();
    for (i, &x) in keys.iter().enumerate() {
        src[pos(i)] = T::make(x, i as u32);
    }
    let mut a = Array1::from_vec(src);
    let all = |a: &Array1<T>| -> Vec<(u32, u32)> { a.iter().map(T::parts).collect() };
    let start = all(&a);
    let sel = |x: &[(u32, u32)]| -> Vec<(u32, u32)> { (0..n).map(|i| x[pos(i)]).collect() };
    let base = a.as_ptr() as usize;
    crate::ctx::reset(&setup(n));
    alloc::start(0);
    let r = {
        let mut f = || {
            let mut w = if n == 0 {
                a.slice_mut(s![lay.off as isize..lay.off as isize])
            } else {
                a.slice_mut(s![lay.off as isize..(lay.off + span) as isize;lay.stride])
            };
            trap(|| apply(op, &mut w))
        };
        if op.par() {
            model::run(&Config { workers: cfg.0, policy: cfg.1, script: vec![] }, f).0.and_then(|x| x)
        } else {
            f()
        }
    };
    alloc::stop();
    c.evaluations += 1;
    let what = |e: String| format!("{op:?} on {n} {}, {lay:?}: {e}", T::NAME);
    let out = r.map_err(|p| what(format!("panicked: {}", payload(&*p))))?;
    let end = all(&a);
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for e in &end {
        h = (h ^ ((e.0 as u64) << 32 | e.1 as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(19);
    }
    c.trace(h ^ (T::NAME.len() as u64) << 40 ^ gens::mix(n as u64, format!("{op:?}").len() as u64));
    let at = |i: usize| base + pos(i) * size_of::<T>();
    contract(op, &sel(&start), &sel(&end), &out, &at).map_err(what)?;
    let mut inside = vec![false; total];
    (0..n).for_each(|i| inside[pos(i)] = true);
    if let Some(x) = (0..total).find(|&x| !inside[x] && start[x] != end[x]) {
        return Err(what(format!("cell {x} outside the view was changed")));
    }
    // Releasing the elements shows duplicated or lost heap data.
    drop(a);
    match alloc::broken() {
        Some(m) => Err(what(m.into())),
        None => Ok(()),
    }
}

/// Runs a list of operations made for a length on every type.
pub fn sweep(c: &mut Checker, ops: &dyn Fn(usize) -> Vec<TOp>, large: bool) {
    fn on<T: Elem>(c: &mut Checker, keys: &[u32], ops: &[TOp], lay: Lay, cfg: Cfg, name: &str) {
        if c.next() {
            let k: Vec<u32> = keys.iter().map(|x| x % 250).collect();
            c.run(|| format!("{}: n={} {name} {lay:?}", T::NAME, k.len()), |c| {
                for op in ops {
                    once::<T>(c, op, &k, lay, cfg)?;
                }
                Ok(())
            });
        }
    }
    fn all(c: &mut Checker, keys: &[u32], ops: &[TOp], lay: Lay, cfg: Cfg, name: &str) {
        on::<u8>(c, keys, ops, lay, cfg, name);
        on::<Five>(c, keys, ops, lay, cfg, name);
        on::<Text>(c, keys, ops, lay, cfg, name);
        on::<Big>(c, keys, ops, lay, cfg, name);
    }
    c.section("element types: all weak orders");
    for n in 0..=c.pick(4usize, 5) {
        let o = ops(n);
        gens::weak_orders(n, &mut |k| {
            for lay in [LAYS[0], LAYS[5]] {
                all(c, k, &o, lay, (2, Policy::Thief), "weak order");
            }
        });
    }
    c.section("element types: shapes");
    let mut sizes = vec![11usize, 20, 21, 22, 40, 51, 64, 130, 257, 300];
    if !c.quick() {
        sizes.extend([10, 12, 23, 33, 50, 52, 65, 100, 128, 129, 200, 255, 256, 258, 259, 400, 513, 700]);
    }
    if large {
        sizes.extend(c.pick(vec![2001, 4003], vec![1999, 2001, 2500, 4001, 5001, 6003, 10_001]));
    }
    for n in sizes {
        let o = ops(n);
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 300 && si % c.pick(5, 1) != n % c.pick(5, 1) {
                continue;
            }
            let cfg = [(2, Policy::Thief), (3, Policy::RoundRobin), (1, Policy::Owner), (4, Policy::Late)][si % 4];
            all(c, &k, &o, LAYS[(si + n) % LAYS.len()], cfg, &name);
        }
    }
}

pub fn selects(n: usize) -> Vec<TOp> {
    let idx: Vec<usize> = if n <= 6 { (0..n).collect() } else { vec![0, 1, n / 3, n / 2, n - 2, n - 1] };
    idx.into_iter().map(TOp::Select).collect()
}

pub fn manys(n: usize, par: bool) -> Vec<TOp> {
    let mut lists: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), (0..n).step_by(3).collect(), (0..n).filter(|i| i.is_power_of_two()).collect()];
    if n > 2 {
        lists.push(vec![n / 2]);
        lists.push(vec![0, n / 2, n - 1]);
    }
    lists.into_iter().map(|l| if par { TOp::ParMany(l) } else { TOp::Many(l) }).collect()
}

pub fn searches(n: usize) -> Vec<TOp> {
    let mut k: Vec<u32> = [0, 1, 2, n as u32 / 2, n as u32].iter().map(|x| x % 250).collect();
    k.dedup();
    k.into_iter().map(TOp::Search).collect()
}
