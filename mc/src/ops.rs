//! The public operations under a uniform interface.
use crate::ctx::{self, El};
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{ArrayBase, ArrayView1, ArrayViewMut1, DataMut, Ix1};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sort {
    Plain,
    SortBy,
    SortByKey,
    Cached,
    Unst,
    UnstBy,
    UnstByKey,
    ParSort,
    ParSortBy,
    ParSortByKey,
    ParCached,
    ParUnst,
    ParUnstBy,
    ParUnstByKey,
}
use Sort::*;

pub const STABLE_SEQ: [Sort; 3] = [SortBy, Plain, SortByKey];
pub const UNST_SEQ: [Sort; 3] = [UnstBy, Unst, UnstByKey];
pub const STABLE_PAR: [Sort; 3] = [ParSortBy, ParSort, ParSortByKey];
pub const UNST_PAR: [Sort; 3] = [ParUnstBy, ParUnst, ParUnstByKey];
pub const ALL_SORTS: [Sort; 14] = [
    Sort::Plain, SortBy, SortByKey, Cached, Unst, UnstBy, UnstByKey, ParSort, ParSortBy, ParSortByKey, ParCached, ParUnst, ParUnstBy, ParUnstByKey,
];

impl Sort {
    pub fn stable(self) -> bool {
        matches!(self, Sort::Plain | SortBy | SortByKey | Cached | ParSort | ParSortBy | ParSortByKey | ParCached)
    }
    pub fn cached(self) -> bool {
        matches!(self, Cached | ParCached)
    }
    pub fn by_key(self) -> bool {
        matches!(self, SortByKey | UnstByKey | ParSortByKey | ParUnstByKey | Cached | ParCached)
    }
    pub fn par(self) -> bool {
        matches!(self, ParSort | ParSortBy | ParSortByKey | ParCached | ParUnst | ParUnstBy | ParUnstByKey)
    }
}

pub fn sort<S: DataMut<Elem = El>>(op: Sort, v: &mut ArrayBase<S, Ix1>) {
    match op {
        Sort::Plain => v.sort(),
        SortBy => v.sort_by(ctx::cmp),
        SortByKey => v.sort_by_key(ctx::key),
        Cached => v.sort_by_cached_key(ctx::key),
        Unst => v.sort_unstable(),
        UnstBy => v.sort_unstable_by(ctx::cmp),
        UnstByKey => v.sort_unstable_by_key(ctx::key),
        _ => par_sort(op, v.view_mut()),
    }
}

// One instance for all storages: their code is the same.
fn par_sort(op: Sort, mut v: ArrayViewMut1<'_, El>) {
    match op {
        ParSort => v.par_sort(),
        ParSortBy => v.par_sort_by(ctx::cmp),
        ParSortByKey => v.par_sort_by_key(ctx::key),
        ParCached => v.par_sort_by_cached_key(ctx::key),
        ParUnst => v.par_sort_unstable(),
        ParUnstBy => v.par_sort_unstable_by(ctx::cmp),
        ParUnstByKey => v.par_sort_unstable_by_key(ctx::key),
        _ => unreachable!(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Ord,
    By,
    Key,
}
pub const FORMS: [Form; 3] = [Form::By, Form::Ord, Form::Key];

/// A view of part of the array as observed from outside: address of the first element, length,
/// stride in elements.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Span {
    pub ptr: usize,
    pub len: usize,
    pub stride: isize,
}

pub fn span<S: ndarray_slice::ndarray::Data<Elem = El>>(v: &ArrayBase<S, Ix1>) -> Span {
    Span { ptr: v.as_ptr() as usize, len: v.len(), stride: if v.len() > 1 { v.strides()[0] } else { 0 } }
}

/// Runs select_nth; returns the left view, address of the element, right view.
pub fn select<S: DataMut<Elem = El>>(form: Form, v: &mut ArrayBase<S, Ix1>, index: usize) -> (Span, usize, Span) {
    let (l, m, r) = match form {
        Form::Ord => v.select_nth_unstable(index),
        Form::By => v.select_nth_unstable_by(index, ctx::cmp),
        Form::Key => v.select_nth_unstable_by_key(index, ctx::key),
    };
    (span(&l), m as *mut El as usize, span(&r))
}

/// Collection for bulk selection: records what it was extended with; every `extend` is a callback.
#[derive(Default)]
pub struct Sink<'a> {
    pub got: Vec<(usize, &'a mut El)>,
    pub quiet: bool,
}
impl<'a> Extend<(usize, &'a mut El)> for Sink<'a> {
    fn extend<T: IntoIterator<Item = (usize, &'a mut El)>>(&mut self, iter: T) {
        for x in iter {
            if !self.quiet {
                ctx::bare(0x3_0000_0000 | x.0 as u64);
            }
            self.got.push(x);
        }
    }
}

pub fn select_many<'a, S: DataMut<Elem = El>>(form: Form, v: &'a mut ArrayBase<S, Ix1>, idx: ArrayView1<'_, usize>, sink: &mut Sink<'a>) {
    match form {
        Form::Ord => v.select_many_nth_unstable(&idx, sink),
        Form::By => v.select_many_nth_unstable_by(&idx, sink, ctx::cmp),
        Form::Key => v.select_many_nth_unstable_by_key(&idx, sink, ctx::key),
    }
}

pub fn par_select_many<'a, S: DataMut<Elem = El>>(form: Form, v: &'a mut ArrayBase<S, Ix1>, idx: ArrayView1<'_, usize>, out: &mut Vec<&'a mut El>) {
    match form {
        Form::Ord => v.par_select_many_nth_unstable(&idx, out),
        Form::By => v.par_select_many_nth_unstable_by(&idx, out, ctx::cmp),
        Form::Key => v.par_select_many_nth_unstable_by_key(&idx, out, ctx::key),
    }
}

pub fn dedup<S: DataMut<Elem = El>>(form: Form, v: &mut ArrayBase<S, Ix1>) -> (Span, Span) {
    let (a, b) = match form {
        Form::Ord => v.partition_dedup(),
        Form::By => v.partition_dedup_by(|a, b| ctx::eq(a, b)),
        Form::Key => v.partition_dedup_by_key(|a| ctx::key(a)),
    };
    (span(&a), span(&b))
}

/// Runs `f`, telling a return from an unwind.
pub fn trap<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}

/// Every sequential operation.
#[derive(Clone, Debug)]
pub enum Op {
    Sort(Sort),
    Select(Form, usize),
    Many(Form, Vec<usize>),
    Dedup(Form),
    Search(Form, u32),
    Point(u32),
    Contains(u32),
    IsSorted(Form),
    Reverse,
}

/// What an operation returned, in positions relative to the array.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Unit,
    Found(Result<usize, usize>),
    Pos(usize),
    Bool(bool),
    /// Lengths of the views, position of the element.
    Tri(usize, usize, usize),
    Two(usize, usize),
    List(Vec<(usize, usize)>),
    /// Something that does not denote what it should.
    Odd(String),
}

fn rel(addr: usize, base: usize, stride: isize) -> usize {
    let d = addr as isize - base as isize;
    let step = stride * std::mem::size_of::<El>() as isize;
    if step != 0 && d % step == 0 && d / step >= 0 { (d / step) as usize } else { usize::MAX }
}

fn covers(s: Span, from: usize, base: usize, stride: isize) -> bool {
    (s.len == 0 || rel(s.ptr, base, stride) == from) && (s.len < 2 || s.stride == stride)
}

pub fn probe(key: u32) -> std::mem::ManuallyDrop<El> {
    std::mem::ManuallyDrop::new(El::new(key, ctx::PROBE))
}

/// Applies `op` to `v`. `sink_first`: room so that collecting does not allocate.
pub fn apply<S: DataMut<Elem = El>>(op: &Op, v: &mut ArrayBase<S, Ix1>) -> Out {
    let n = v.len();
    let geo = |v: &ArrayBase<S, Ix1>| (v.as_ptr() as usize, if n > 1 { v.strides()[0] } else { 1 });
    match op {
        Op::Sort(s) => {
            sort(*s, v);
            Out::Unit
        }
        Op::Select(f, i) => {
            let (l, m, r) = select(*f, v, *i);
            let (b, st) = geo(v);
            if !covers(l, 0, b, st) || !covers(r, i + 1, b, st) || l.len != *i || l.len + 1 + r.len != n {
                return Out::Odd(format!("views of {} and {} elements around index {i} of {n} do not cover the rest of the array", l.len, r.len));
            }
            Out::Tri(l.len, rel(m, b, st), r.len)
        }
        Op::Many(f, idx) => {
            let iv = ndarray_slice::ndarray::ArrayView1::from(&idx[..]);
            let mut sink = Sink { got: Vec::with_capacity(idx.len() + 1), quiet: false };
            select_many(*f, unsafe { &mut *(v as *mut ArrayBase<S, Ix1>) }, iv, &mut sink);
            let got: Vec<(usize, usize)> = sink.got.iter().map(|(i, e)| (*i, &**e as *const El as usize)).collect();
            drop(sink);
            let (b, st) = geo(v);
            Out::List(got.into_iter().map(|(i, a)| (i, rel(a, b, st))).collect())
        }
        Op::Dedup(f) => {
            let (a, d) = dedup(*f, v);
            let (b, st) = geo(v);
            if a.len + d.len != n || !covers(a, 0, b, st) || !covers(d, a.len, b, st) {
                return Out::Odd(format!("views of {} and {} elements do not cover the array of {n}", a.len, d.len));
            }
            Out::Two(a.len, d.len)
        }
        Op::Search(f, k) => Out::Found(search(*f, v, *k)),
        Op::Point(k) => Out::Pos(v.partition_point(|e| {
            ctx::pred(e);
            e.key < *k
        })),
        Op::Contains(k) => Out::Bool(v.contains(&*probe(*k))),
        Op::IsSorted(f) => Out::Bool(sorted_check(*f, v)),
        Op::Reverse => {
            v.reverse();
            Out::Unit
        }
    }
}

pub fn search<S: ndarray_slice::ndarray::Data<Elem = El>>(f: Form, v: &ArrayBase<S, Ix1>, k: u32) -> Result<usize, usize> {
    match f {
        Form::Ord => v.binary_search(&*probe(k)),
        Form::By => v.binary_search_by(|e| {
            ctx::pred(e);
            e.key.cmp(&k)
        }),
        Form::Key => v.binary_search_by_key(&ctx::FKey(k), ctx::key),
    }
}

pub fn sorted_check<S: ndarray_slice::ndarray::Data<Elem = El>>(f: Form, v: &ArrayBase<S, Ix1>) -> bool {
    match f {
        Form::Ord => v.is_sorted(),
        Form::By => v.is_sorted_by(|a, b| ctx::cmp(a, b) != std::cmp::Ordering::Greater),
        Form::Key => v.is_sorted_by_key(ctx::key),
    }
}

pub const SEQ_SORTS: [Sort; 7] = [Sort::Plain, Sort::SortBy, Sort::SortByKey, Sort::Cached, Sort::Unst, Sort::UnstBy, Sort::UnstByKey];

/// All sequential operations on an array of n elements with keys 0..k.
pub fn all_ops(n: usize, k: u32, lists: &[Vec<usize>], idx: &[usize]) -> Vec<Op> {
    let mut o = Vec::new();
    for s in SEQ_SORTS {
        o.push(Op::Sort(s));
    }
    for f in FORMS {
        for &i in idx {
            if i < n {
                o.push(Op::Select(f, i));
            }
        }
        for l in lists {
            o.push(Op::Many(f, l.clone()));
        }
        o.push(Op::Dedup(f));
        o.push(Op::IsSorted(f));
        for x in [0, k / 2, k] {
            o.push(Op::Search(f, x));
        }
    }
    for x in [0, k / 2, k] {
        o.push(Op::Point(x));
        o.push(Op::Contains(x));
    }
    o.push(Op::Reverse);
    o
}

/// The contract of `op`: before (keys by id, arrangement) to after, with what it returned.
/// `g` is the array afterwards, `before` the ids before.
pub fn contract(op: &Op, keys: &[u32], before: &[u32], g: &crate::grid::Grid, out: &Out) -> Result<(), String> {
    let n = before.len();
    g.intact(keys)?;
    let kb = |i: usize| keys[before[i] as usize];
    let after = g.ids();
    let unchanged = || if after == before { Ok(()) } else { Err(format!("{op:?} changed the array: {before:?} -> {after:?}")) };
    let place: Vec<usize> = {
        let mut p = vec![0; n];
        for (i, &b) in before.iter().enumerate() {
            p[b as usize] = i;
        }
        p
    };
    if let Out::Odd(m) = out {
        return Err(format!("{op:?}: {m}"));
    }
    match (op, out) {
        (Op::Sort(s), Out::Unit) => {
            g.sorted().map_err(|e| format!("{op:?}: {e}"))?;
            if s.stable() {
                for i in 1..n {
                    if g.key_at(i - 1) == g.key_at(i) && place[after[i - 1] as usize] > place[after[i] as usize] {
                        return Err(format!("{op:?}: not stable at {i}: {before:?} -> {after:?}"));
                    }
                }
            }
            Ok(())
        }
        (Op::Select(_, i), Out::Tri(l, m, r)) => {
            g.selected(0, *i, n).map_err(|e| format!("{op:?}: {e}"))?;
            if (*l, *m, *r) != (*i, *i, n - i - 1) {
                return Err(format!("{op:?}: returned views of {l} and {r}, element at {m}"));
            }
            Ok(())
        }
        (Op::Many(_, idx), Out::List(got)) => {
            crate::util::segments_ok(g, idx).map_err(|e| format!("{op:?}: {e}"))?;
            let want: Vec<(usize, usize)> = idx.iter().map(|&i| (i, i)).collect();
            if *got != want {
                return Err(format!("{op:?}: collected {got:?}"));
            }
            Ok(())
        }
        (Op::Dedup(_), Out::Two(a, b)) => {
            let mut want = vec![];
            for i in 0..n {
                if i == 0 || kb(i) != kb(i - 1) {
                    want.push(before[i]);
                }
            }
            if *a != want.len() || a + b != n || after[..*a] != want[..] {
                return Err(format!("{op:?}: kept {:?} of {before:?}, expected {want:?}", &after[..*a]));
            }
            Ok(())
        }
        (Op::Search(_, k), Out::Found(r)) => {
            unchanged()?;
            let sorted = (1..n).all(|i| kb(i - 1) <= kb(i));
            let ok = match *r {
                Ok(i) => i < n && kb(i) == *k,
                Err(i) => i <= n && (!sorted || (0..i).all(|j| kb(j) < *k) && (i..n).all(|j| kb(j) > *k)),
            };
            if ok { Ok(()) } else { Err(format!("{op:?}: {r:?} in {before:?}")) }
        }
        (Op::Point(k), Out::Pos(i)) => {
            unchanged()?;
            let part = (1..n).all(|j| kb(j - 1) < *k || kb(j) >= *k);
            let ok = *i <= n && (!part || (0..n).filter(|&j| kb(j) < *k).count() == *i);
            if ok { Ok(()) } else { Err(format!("{op:?}: {i} in {before:?}")) }
        }
        (Op::Contains(k), Out::Bool(b)) => {
            unchanged()?;
            if *b == (0..n).any(|i| kb(i) == *k) { Ok(()) } else { Err(format!("{op:?}: {b} in {before:?}")) }
        }
        (Op::IsSorted(_), Out::Bool(b)) => {
            unchanged()?;
            if *b == (1..n).all(|i| kb(i - 1) <= kb(i)) { Ok(()) } else { Err(format!("{op:?}: {b} for {before:?}")) }
        }
        (Op::Reverse, Out::Unit) => {
            if after.iter().eq(before.iter().rev()) { Ok(()) } else { Err(format!("{op:?}: {before:?} -> {after:?}")) }
        }
        _ => Err(format!("{op:?}: returned {out:?}")),
    }
}
