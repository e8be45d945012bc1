//! Operations, element types and layouts.
use crate::env::{Env, Thrown, Way};
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayViewMut1, s};
use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

/// An element with an order and an identity.
pub trait Elem: Send + Sized + 'static {
    fn make(key: u32, id: usize) -> Self;
    fn see(&self) -> (u32, usize);
}

/// Owns memory: freed twice, lost, or read before it is written, Miri tells.
impl Elem for Box<(u32, usize)> {
    fn make(key: u32, id: usize) -> Self {
        Box::new((key, id))
    }
    fn see(&self) -> (u32, usize) {
        **self
    }
}
/// With padding, which is never initialised.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Padded(u16, u32, u8);
impl Elem for Padded {
    fn make(key: u32, id: usize) -> Self {
        Self(key as u16, id as u32, 1)
    }
    fn see(&self) -> (u32, usize) {
        (self.0 as u32 + self.2 as u32, self.1 as usize)
    }
}
/// Send, not Sync: callbacks write to it.
pub struct Shown(u32, usize, Cell<u32>);
impl Elem for Shown {
    fn make(key: u32, id: usize) -> Self {
        Self(key, id, Cell::new(0))
    }
    fn see(&self) -> (u32, usize) {
        self.2.set(self.2.get() + 1);
        (self.0, self.1)
    }
}
/// Large.
pub struct Large([u32; 40]);
impl Elem for Large {
    fn make(key: u32, id: usize) -> Self {
        let mut a = [0; 40];
        (a[0], a[39]) = (key, id as u32);
        Self(a)
    }
    fn see(&self) -> (u32, usize) {
        (self.0[0], self.0[39] as usize)
    }
}
/// Without size.
pub struct Void;
impl Elem for Void {
    fn make(_: u32, _: usize) -> Self {
        Self
    }
    fn see(&self) -> (u32, usize) {
        (0, 0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Boxed,
    Padded,
    Shown,
    Large,
    Void,
}

#[derive(Clone, Debug)]
pub enum Op {
    Sort,
    SortPlain,
    SortKey,
    Cached,
    CachedByte,
    Unst,
    UnstPlain,
    UnstKey,
    Select(usize),
    SelectPlain(usize),
    SelectKey(usize),
    Many(Vec<usize>),
    ManyPlain(Vec<usize>),
    ManyKey(Vec<usize>),
    Dedup,
    DedupPlain,
    DedupKey,
    Reverse,
    IsSorted,
    IsSortedPlain,
    IsSortedKey,
    Search(u32),
    SearchPlain(u32),
    SearchKey(u32),
    Point(u32),
    Contains(u32),
    ParSort,
    ParSortKey,
    ParCached,
    ParCachedByte,
    ParUnst,
    ParUnstKey,
    ParMany(Vec<usize>),
    ParManyKey(Vec<usize>),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub op: Op,
    pub ty: Ty,
    pub keys: Vec<u32>,
    pub stride: isize,
    pub way: Way,
}

fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23)
}

/// Everything returned is looked at and, where it may be, written to.
fn touch<T: Elem>(v: ArrayViewMut1<T>) -> u64 {
    let mut h = v.len() as u64;
    for x in v {
        let (k, i) = x.see();
        *x = T::make(k, i);
        h = mix(h, i as u64);
    }
    h
}

fn run_by<T: Elem>(op: &Op, mut v: ArrayViewMut1<T>, e: &Env) -> u64 {
    let mut cmp = |a: &T, b: &T| e.cmp(a.see(), b.see());
    let par = |a: &T, b: &T| e.cmp(a.see(), b.see());
    let key = |a: &T| {
        e.step();
        Box::new(a.see().0)
    };
    let byte = |a: &T| {
        e.step();
        a.see().0 as u8
    };
    let found = |r: Result<usize, usize>| r.map_or_else(|i| 2 * i as u64, |i| 2 * i as u64 + 1);
    let refs = |c: Vec<(usize, &mut T)>| {
        c.into_iter().fold(0, |h, (i, x)| {
            let (k, id) = x.see();
            *x = T::make(k, id);
            mix(mix(h, i as u64), id as u64)
        })
    };
    match op {
        Op::Sort => v.sort_by(&mut cmp),
        Op::SortKey => v.sort_by_key(key),
        Op::Cached => v.sort_by_cached_key(key),
        Op::CachedByte => v.sort_by_cached_key(byte),
        Op::Unst => v.sort_unstable_by(&mut cmp),
        Op::UnstKey => v.sort_unstable_by_key(key),
        Op::Select(i) => {
            let (l, x, r) = v.select_nth_unstable_by(*i, &mut cmp);
            let (k, id) = x.see();
            *x = T::make(k, id);
            return mix(touch(l), touch(r));
        }
        Op::SelectKey(i) => {
            let (l, x, r) = v.select_nth_unstable_by_key(*i, key);
            let (k, id) = x.see();
            *x = T::make(k, id);
            return mix(touch(l), touch(r));
        }
        Op::Many(l) => {
            let l = Array1::from(l.clone());
            let mut c = Vec::new();
            v.select_many_nth_unstable_by(&l, &mut c, &mut cmp);
            return refs(c);
        }
        Op::ManyKey(l) => {
            let l = Array1::from(l.clone());
            let mut c = Vec::new();
            v.select_many_nth_unstable_by_key(&l, &mut c, key);
            return refs(c);
        }
        Op::Dedup => {
            let (a, b) = v.partition_dedup_by(|a, b| cmp(a, b) == Ordering::Equal);
            return mix(touch(a), touch(b));
        }
        Op::DedupKey => {
            let (a, b) = v.partition_dedup_by_key(|a| key(a));
            return mix(touch(a), touch(b));
        }
        Op::Reverse => v.reverse(),
        Op::IsSorted => return v.is_sorted_by(|a, b| cmp(a, b) != Ordering::Greater) as u64,
        Op::IsSortedKey => return v.is_sorted_by_key(key) as u64,
        Op::Search(k) => return found(v.binary_search_by(|x| e.cmp(x.see(), (*k, 0)))),
        Op::SearchKey(k) => return found(v.binary_search_by_key(&Box::new(*k), key)),
        Op::Point(k) => return v.partition_point(|x| e.cmp(x.see(), (*k, 0)) == Ordering::Less) as u64,
        Op::ParSort => v.par_sort_by(par),
        Op::ParSortKey => v.par_sort_by_key(key),
        Op::ParUnst => v.par_sort_unstable_by(par),
        Op::ParUnstKey => v.par_sort_unstable_by_key(key),
        Op::ParMany(l) => {
            let l = Array1::from(l.clone());
            let mut c = Vec::new();
            v.par_select_many_nth_unstable_by(&l, &mut c, par);
            return refs(c.into_iter().map(|x| (0, x)).collect());
        }
        Op::ParManyKey(l) => {
            let l = Array1::from(l.clone());
            let mut c = Vec::with_capacity(1);
            v.par_select_many_nth_unstable_by_key(&l, &mut c, key);
            return refs(c.into_iter().map(|x| (0, x)).collect());
        }
        _ => unreachable!(),
    }
    touch(v)
}

/// The forms by the order of the type itself.
fn run_plain(op: &Op, mut v: ArrayViewMut1<Box<(u32, usize)>>) -> u64 {
    let found = |r: Result<usize, usize>| r.map_or_else(|i| 2 * i as u64, |i| 2 * i as u64 + 1);
    match op {
        Op::SortPlain => v.sort(),
        Op::UnstPlain => v.sort_unstable(),
        Op::SelectPlain(i) => {
            let (l, x, r) = v.select_nth_unstable(*i);
            *x = Box::new(**x);
            return mix(touch(l), touch(r));
        }
        Op::ManyPlain(l) => {
            let mut c = std::collections::BTreeMap::new();
            v.select_many_nth_unstable(&Array1::from(l.clone()), &mut c);
            return c.into_values().fold(0, |h, x| {
                **x = (x.0, x.1);
                mix(h, x.1 as u64)
            });
        }
        Op::DedupPlain => {
            let (a, b) = v.partition_dedup();
            return mix(touch(a), touch(b));
        }
        Op::IsSortedPlain => return v.is_sorted() as u64,
        Op::SearchPlain(k) => return found(v.binary_search(&Box::new((*k, 1)))),
        Op::Contains(k) => return v.contains(&Box::new((*k, 1))) as u64,
        _ => unreachable!(),
    }
    touch(v)
}

/// Cached keys in parallel want elements that are `Sync`.
fn run_sync<T: Elem + Sync>(op: &Op, mut v: ArrayViewMut1<T>, e: &Env) -> u64 {
    if let Op::ParCached = op {
        v.par_sort_by_cached_key(|a| {
            e.step();
            Box::new(a.see().0)
        });
        return touch(v);
    }
    if let Op::ParCachedByte = op {
        v.par_sort_by_cached_key(|a| {
            e.step();
            a.see().0 as u8
        });
        return touch(v);
    }
    run_by(op, v, e)
}

fn arrange<T: Elem>(c: &Case, f: impl FnOnce(ArrayViewMut1<T>, &Env) -> u64) -> u64 {
    let n = c.keys.len();
    let step = c.stride.unsigned_abs();
    let offset = (step != 1) as usize;
    let e = Env::new(&c.way, n);
    // Other elements of the parent: identities past the view's.
    let mut a: Array1<T> = (0..n * step + 2 * offset)
        .map(|i| match (i.wrapping_sub(offset) % step, i.wrapping_sub(offset) / step) {
            (0, j) if j < n => {
                let j = if c.stride < 0 { n - 1 - j } else { j };
                T::make(c.keys[j], j)
            }
            _ => T::make(7, n),
        })
        .collect();
    let end = offset + n * step;
    let r = catch_unwind(AssertUnwindSafe(|| f(if c.stride < 0 { a.slice_mut(s![offset..end - (step - 1).min(end - offset); -1]) } else { a.slice_mut(s![offset..end]) }.slice_move(s![..; step]), &e)));
    let mut h = match r {
        Ok(h) => h,
        Err(p) if p.is::<Thrown>() || c.way == Way::Invalid => 1,
        Err(p) => resume_unwind(p),
    };
    for x in &a {
        h = mix(h, x.see().1 as u64);
    }
    mix(h, e.calls() as u64)
}

impl Case {
    pub fn run(&self) -> u64 {
        let plain = matches!(self.op, Op::SortPlain | Op::UnstPlain | Op::SelectPlain(_) | Op::ManyPlain(_) | Op::DedupPlain | Op::IsSortedPlain | Op::SearchPlain(_) | Op::Contains(_));
        match self.ty {
            Ty::Boxed if plain => arrange::<Box<(u32, usize)>>(self, |v, _| run_plain(&self.op, v)),
            Ty::Boxed => arrange::<Box<(u32, usize)>>(self, |v, e| run_sync(&self.op, v, e)),
            Ty::Padded => arrange::<Padded>(self, |v, e| run_sync(&self.op, v, e)),
            Ty::Shown => arrange::<Shown>(self, |v, e| run_by(&self.op, v, e)),
            Ty::Large => arrange::<Large>(self, |v, e| run_sync(&self.op, v, e)),
            Ty::Void => arrange::<Void>(self, |v, e| run_sync(&self.op, v, e)),
        }
    }
}
