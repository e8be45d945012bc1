//! Common pieces of the checks: one execution of one operation with all its obligations.
use crate::ctx::{self, Setup};
use crate::engine::{Checker, payload};
use crate::gens::{self, Adversary};
use crate::grid::{FLAT, Grid, Lay};
use crate::ops::{self, Form, Sort, trap};
use ndarray_slice::ndarray::{Array1, ArrayView1, s};
use std::sync::{Arc, Mutex};

pub fn show(k: &[u32]) -> String {
    if k.len() <= 64 {
        format!("{k:?}")
    } else {
        format!("{:?}… ({} keys)", &k[..48], k.len())
    }
}

pub fn log2(n: usize) -> f64 {
    ((n.max(2)) as f64).log2()
}

/// A cap on callbacks far above any correct run.
pub fn cap(n: usize) -> u64 {
    4000 + (120.0 * n as f64 * log2(n + 2)) as u64
}

pub fn setup(n: usize) -> Setup {
    Setup { cap: cap(n), ids: n, ..Setup::default() }
}

/// What remains to be checked after a sort returned.
pub fn after_sort(op: Sort, g: &Grid, keys: &[u32]) -> Result<(), String> {
    g.intact(keys)?;
    if op.stable() {
        g.stable()?;
    } else {
        g.sorted()?;
    }
    if op.cached() && ctx::key_calls() > keys.len() as u64 {
        return Err(format!("key function called {} times for {} elements", ctx::key_calls(), keys.len()));
    }
    Ok(())
}

/// One sequential sort of `keys`.
pub fn sort_once(c: &mut Checker, op: Sort, keys: &[u32], lay: Lay) -> Result<(), String> {
    let mut g = Grid::new(keys, lay);
    ctx::reset(&setup(keys.len()));
    let r = trap(|| ops::sort(op, &mut g.view_mut()));
    c.evaluations += 1;
    c.trace(ctx::trace() ^ (op as u64 + 1).wrapping_mul(0x1234_5677));
    if let Err(p) = r {
        return Err(format!("{op:?} panicked: {}", payload(&*p)));
    }
    after_sort(op, &g, keys).map_err(|e| format!("{op:?}: {e}"))
}

/// One selection.
pub fn select_once(c: &mut Checker, form: Form, keys: &[u32], index: usize, lay: Lay) -> Result<(), String> {
    let mut g = Grid::new(keys, lay);
    let n = keys.len();
    ctx::reset(&setup(n));
    let base = g.view().as_ptr() as usize;
    let step = lay.stride * std::mem::size_of::<ctx::El>() as isize;
    let at = |i: usize| (base as isize + step * i as isize) as usize;
    let r = trap(|| ops::select(form, &mut g.view_mut(), index));
    c.evaluations += 1;
    c.trace(ctx::trace() ^ (index as u64).wrapping_add(1).wrapping_mul(0x1234_5677) ^ form as u64);
    match r {
        Err(p) => {
            if index < n {
                return Err(format!("select({form:?}, {index}) of {n} panicked: {}", payload(&*p)));
            }
            g.intact(keys)
        }
        Ok((l, m, r)) => {
            if index >= n {
                return Err(format!("select({form:?}, {index}) of {n} did not panic"));
            }
            g.intact(keys)?;
            g.selected(0, index, n).map_err(|e| format!("select({form:?}, {index}): {e}"))?;
            if m != at(index) {
                return Err(format!("select({form:?}, {index}): the returned element is not the one at the index"));
            }
            if l.len != index || r.len != n - index - 1 {
                return Err(format!("select({form:?}, {index}) of {n}: views of {} and {} elements", l.len, r.len));
            }
            for (v, from) in [(l, 0), (r, index + 1)] {
                if v.len > 0 && v.ptr != at(from) || v.len > 1 && v.stride != lay.stride {
                    return Err(format!("select({form:?}, {index}): a returned view does not cover positions {from}.."));
                }
            }
            Ok(())
        }
    }
}

/// Index list validity as documented.
pub fn valid(idx: &[usize], n: usize) -> bool {
    idx.windows(2).all(|w| w[0] < w[1]) && idx.iter().all(|&i| i < n)
}

pub fn segments_ok(g: &Grid, idx: &[usize]) -> Result<(), String> {
    // Prefix maxima and suffix minima decide all of it in one pass.
    let n = g.n;
    let mut max = vec![0u32; n + 1];
    for i in 0..n {
        max[i + 1] = max[i].max(g.key_at(i));
    }
    let mut min = vec![u32::MAX; n + 1];
    for i in (0..n).rev() {
        min[i] = min[i + 1].min(g.key_at(i));
    }
    for &i in idx {
        let k = g.key_at(i);
        if max[i] > k {
            return Err(format!("an element before selected index {i} is greater than the one at it"));
        }
        if min[i + 1] < k {
            return Err(format!("an element after selected index {i} is smaller than the one at it"));
        }
    }
    Ok(())
}

/// One sequential bulk selection.
/// The indices in an array of stride 1, -1, 2, -2 or 3; what lies in between is not an index.
pub fn index_array(idx: &[usize], layout: usize) -> Array1<usize> {
    let step = [1isize, -1, 2, -2, 3][layout];
    let by = step.unsigned_abs();
    let mut v = vec![usize::MAX; idx.len() * by];
    for (k, &i) in idx.iter().enumerate() {
        let at = if step > 0 { by * k } else { v.len() - 1 - by * k };
        v[at] = i;
    }
    Array1::from_vec(v).slice_move(s![..;step])
}

pub fn select_many_once(c: &mut Checker, form: Form, keys: &[u32], idx: &[usize], lay: Lay, strided_idx: bool) -> Result<(), String> {
    let mut g = Grid::new(keys, lay);
    let n = keys.len();
    ctx::reset(&setup(n + idx.len()));
    let base = g.view().as_ptr() as usize;
    let step = lay.stride * std::mem::size_of::<ctx::El>() as isize;
    let holder = index_array(idx, if strided_idx { 1 + (n + idx.len()) % 4 } else { 0 });
    let iv: ArrayView1<usize> = holder.view();
    let mut pre = ctx::El::new(1, ctx::PROBE);
    let (r, got) = {
        let mut view = g.view_mut();
        let mut sink = ops::Sink::default();
        sink.got.push((usize::MAX, &mut pre));
        let r = trap(|| ops::select_many(form, &mut view, iv, &mut sink));
        let got: Vec<(usize, usize)> = sink.got.iter().map(|(i, e)| (*i, &**e as *const ctx::El as usize)).collect();
        (r, got)
    };
    c.evaluations += 1;
    c.trace(ctx::trace() ^ form as u64);
    let what = || format!("select_many({form:?}, {})", if idx.len() < 40 { format!("{idx:?}") } else { format!("{} indices", idx.len()) });
    let ok = valid(idx, n);
    match (r, ok) {
        (Err(p), true) => return Err(format!("{} of {n} panicked: {}", what(), payload(&*p))),
        (Ok(()), false) => return Err(format!("{} of {n} did not panic", what())),
        _ => {}
    }
    g.intact(keys).map_err(|e| format!("{}: {e}", what()))?;
    if got[0] != (usize::MAX, &pre as *const ctx::El as usize) {
        return Err(format!("{}: previous contents of the collection changed", what()));
    }
    if ok {
        segments_ok(&g, idx).map_err(|e| format!("{}: {e}", what()))?;
        if got.len() != idx.len() + 1 {
            return Err(format!("{}: collection extended {} times", what(), got.len() - 1));
        }
        for (k, &i) in idx.iter().enumerate() {
            if got[k + 1].0 != i {
                return Err(format!("{}: entry {k} is for index {}, expected {i}", what(), got[k + 1].0));
            }
            if got[k + 1].1 != (base as isize + step * i as isize) as usize {
                return Err(format!("{}: entry {k} does not refer to position {i}", what()));
            }
        }
    }
    Ok(())
}

/// Adversarial static keys against `op` run with a comparator (sequentially): the adversary
/// freezes at most `budget` elements, the others take the order of `tail` above all frozen ones.
pub fn adversarial(n: usize, variant: u8, budget: usize, tail: Option<&[u32]>, op: &mut dyn FnMut(&mut Grid)) -> Vec<u32> {
    let adv = Arc::new(Mutex::new((Adversary::new(n, variant), tail.map(|t| t.to_vec()))));
    let keys: Vec<u32> = vec![0; n];
    let mut g = Grid::new(&keys, FLAT);
    let mut st = setup(n);
    st.flags |= ctx::F_CUSTOM;
    st.cap = 400 * cap(n);
    ctx::reset(&st);
    let a2 = adv.clone();
    ctx::set_custom(Some(Box::new(move |x, y| {
        let mut g = a2.lock().unwrap_or_else(|e| e.into_inner());
        let (adv, tail) = &mut *g;
        adv.bounded(x.id as usize, y.id as usize, budget, tail.as_deref())
    })));
    let _ = trap(|| op(&mut g));
    ctx::set_custom(None);
    let g = adv.lock().unwrap_or_else(|e| e.into_inner());
    g.0.keys(g.1.as_deref())
}

pub fn adv_family(c: &Checker) -> Vec<(u8, &'static str)> {
    let _ = c;
    (0..8u8).map(|v| (v, "")).collect()
}

pub fn boundary_sizes() -> Vec<usize> {
    vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 19, 20, 21, 22, 23, 31, 32, 33, 49, 50, 51, 52, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 258, 259, 511, 512, 513, 514]
}

pub fn _unused() {
    let _ = gens::RELS;
}
