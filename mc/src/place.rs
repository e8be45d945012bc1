//! Where the data lies must not matter (C12), nor anything else but order and answers (C21).
use crate::ctx::{self, El, GAP, LIVE};
use crate::engine::{Checker, payload};
use crate::gens;
use crate::grid::{FLAT, Grid, LAYS, Lay};
use crate::ops::{self, FORMS, Form, Op, Out, Sort, trap};
use crate::par::{self, Act, Chunk};
use crate::seq::index_lists;
use crate::util::*;
use ndarray_slice::ndarray::{ArcArray, Array1, Array2, Array3, ArrayBase, ArrayView1, ArrayViewMut1, Axis, CowArray, DataMut, Ix1, ShapeBuilder, s};
use rayon_core::model::Policy;

/// What an operation on an array leaves: elements in order, what it returned, panic or not.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Res {
    ids: Vec<u32>,
    out: Result<Out, ()>,
}

fn shorten(r: &Res) -> String {
    let s = format!("{r:?}");
    if s.len() > 300 { format!("{}…", &s[..300]) } else { s }
}

fn sane() -> Result<(), String> {
    if let Some(m) = ctx::unsound() {
        return Err(m);
    }
    if let Some(m) = crate::alloc::broken() {
        return Err(m.into());
    }
    Ok(())
}

fn run<S: DataMut<Elem = El>>(op: &Op, v: &mut ArrayBase<S, Ix1>) -> Result<Out, ()> {
    trap(|| ops::apply(op, v)).map_err(|_| ())
}

fn on_grid(c: &mut Checker, op: &Op, keys: &[u32], lay: Lay) -> Result<Res, String> {
    let mut g = Grid::new(keys, lay);
    ctx::reset(&setup(keys.len()));
    let out = run(op, &mut g.view_mut());
    c.evaluations += 1;
    c.trace(ctx::trace() ^ (lay.stride as u64).wrapping_mul(0x1357_9BDF));
    g.intact(keys).map_err(|e| format!("{op:?} on {lay:?}: {e}"))?;
    Ok(Res { ids: g.ids(), out })
}

fn same(what: &str, op: &dyn std::fmt::Debug, a: &Res, b: &Res) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = (0..a.ids.len().min(b.ids.len())).find(|&i| a.ids[i] != b.ids[i]);
    Err(match i {
        Some(i) => format!("{op:?} {what}: position {i} ends up with element {} instead of {}", b.ids[i], a.ids[i]),
        None => format!("{op:?} {what}: gives {} instead of {}", shorten(b), shorten(a)),
    })
}

fn els(keys: &[u32]) -> Vec<El> {
    keys.iter().enumerate().map(|(i, &k)| El::new(k, i as u32)).collect()
}

fn ids<S: ndarray_slice::ndarray::Data<Elem = El>>(v: &ArrayBase<S, Ix1>) -> Vec<u32> {
    v.iter().map(|e| if e.magic == LIVE { e.id } else { u32::MAX }).collect()
}

fn reads(op: &Op) -> bool {
    matches!(op, Op::Search(..) | Op::Point(_) | Op::Contains(_) | Op::IsSorted(_))
}

/// The same operation on other storage: owned, shared, borrowed.
fn on_storage(c: &mut Checker, op: &Op, keys: &[u32], want: &Res) -> Result<(), String> {
    let n = keys.len();
    let before: Vec<u32> = (0..n as u32).collect();
    let keep = |c: &mut Checker, what: &str, r: Res| -> Result<(), String> {
        c.evaluations += 1;
        c.trace(ctx::trace() ^ 0x55);
        sane().map_err(|e| format!("{op:?} on {what}: {e}"))?;
        same(&format!("on {what}"), op, want, &r)
    };
    // Owned, the operation called on the array itself.
    let mut a: Array1<El> = Array1::from_vec(els(keys));
    ctx::reset(&setup(n));
    let out = run(op, &mut a);
    keep(c, "an owned array", Res { ids: ids(&a), out })?;
    // Shared, alone and with another holder.
    for holders in 0..3 {
        let mut a: ArcArray<El, Ix1> = Array1::from_vec(els(keys)).into_shared();
        let others: Vec<ArcArray<El, Ix1>> = (0..holders).map(|_| a.clone()).collect();
        ctx::reset(&setup(n));
        let out = run(op, &mut a);
        keep(c, "shared storage", Res { ids: ids(&a), out })?;
        for o in &others {
            if ids(o) != before || o.iter().zip(keys).any(|(e, &k)| e.key != k) {
                return Err(format!("{op:?} on shared storage changed the data of another holder: {:?}", ids(o)));
            }
        }
        if reads(op) && holders > 0 && a.as_ptr() != others[0].as_ptr() {
            return Err(format!("{op:?} on shared storage, a read-only operation, copied the data"));
        }
        drop(a);
        for o in &others {
            if ids(o) != before {
                return Err(format!("{op:?} on shared storage: another holder's data is gone"));
            }
        }
    }
    // A part of shared storage, strided.
    for (lay, holders) in [(LAYS[4], 1), (LAYS[5], 1), (LAYS[1], 0)] {
        let g = Grid::new(keys, lay);
        let (total, pos): (usize, Vec<usize>) = (g.arr.len(), (0..n).map(|i| g.pos(i)).collect());
        let mut a: ArcArray<El, Ix1> = g.arr.into_shared();
        let all = a.clone();
        let k = lay.stride.unsigned_abs();
        let (lo, hi) = (lay.off as isize, (lay.off + if n == 0 { 0 } else { (n - 1) * k + 1 }) as isize);
        a.slice_collapse(s![lo..hi;lay.stride]);
        let others: Vec<_> = (0..holders).map(|_| a.clone()).collect();
        ctx::reset(&setup(n));
        let out = run(op, &mut a);
        keep(c, "a part of shared storage", Res { ids: ids(&a), out })?;
        for o in &others {
            if ids(o) != before {
                return Err(format!("{op:?} on a part of shared storage changed the data of another holder"));
            }
        }
        let mut cells: Vec<u32> = (0..total as u32).map(|cell| GAP + cell).collect();
        pos.iter().enumerate().for_each(|(i, &p)| cells[p] = i as u32);
        for (cell, &want) in cells.iter().enumerate() {
            let e = &all[cell];
            if e.id != want || e.magic != LIVE {
                return Err(format!("{op:?} on a part of shared storage changed cell {cell} of the whole"));
            }
        }
    }
    // Copy on write: borrowed and owned.
    let src: Array1<El> = Array1::from_vec(els(keys));
    {
        let mut a: CowArray<El, Ix1> = CowArray::from(src.view());
        ctx::reset(&setup(n));
        let out = run(op, &mut a);
        keep(c, "borrowed storage", Res { ids: ids(&a), out })?;
        if reads(op) && !a.is_view() {
            return Err(format!("{op:?}, a read-only operation, copied borrowed storage"));
        }
    }
    if ids(&src) != before {
        return Err(format!("{op:?} on borrowed storage changed what it was borrowed from"));
    }
    let mut a: CowArray<El, Ix1> = CowArray::from(src);
    ctx::reset(&setup(n));
    let out = run(op, &mut a);
    keep(c, "owned copy-on-write storage", Res { ids: ids(&a), out })
}

/// The same operation on a lane of an n-dimensional array.
fn on_lane(c: &mut Checker, op: &Op, keys: &[u32], want: &Res, axis: usize, fortran: bool, invert: u32) -> Result<(), String> {
    let n = keys.len();
    let mut dim = [2usize, 3, 2];
    dim[axis] = n;
    let lane = match axis {
        0 => (0, 1, 1),
        1 => (1, 0, 0),
        _ => (1, 2, 0),
    };
    let cell = |i: usize| {
        let mut p = [lane.0, lane.1, lane.2];
        p[axis] = i;
        p
    };
    let mut no = 0;
    let mut a: Array3<El> = Array3::from_shape_simple_fn((dim[0], dim[1], dim[2]).set_f(fortran), || {
        no += 1;
        El::new(0xFFF0_0000 | no, GAP + no)
    });
    for x in 0..3 {
        if invert >> x & 1 == 1 {
            a.invert_axis(Axis(x));
        }
    }
    for (i, &k) in keys.iter().enumerate() {
        let e = &mut a[cell(i)];
        e.key = k;
        e.id = i as u32;
    }
    let around = |a: &Array3<El>| -> Vec<(u32, u32, u32)> {
        a.indexed_iter()
            .filter(|((x, y, z), _)| {
                let p = [*x, *y, *z];
                (0..3).any(|d| d != axis && p[d] != [lane.0, lane.1, lane.2][d])
            })
            .map(|(_, e)| (e.key, e.id, e.magic))
            .collect()
    };
    let before = around(&a);
    ctx::reset(&setup(n));
    let (out, after) = {
        let mut m = a.view_mut();
        let mut v: ArrayViewMut1<El> = match axis {
            0 => m.slice_mut(s![.., lane.1, lane.2]),
            1 => m.slice_mut(s![lane.0, .., lane.2]),
            _ => m.slice_mut(s![lane.0, lane.1, ..]),
        };
        let out = run(op, &mut v);
        let after = ids(&v);
        (out, after)
    };
    c.evaluations += 1;
    c.trace(ctx::trace() ^ (axis as u64 + 3).wrapping_mul(0x2468_ACE1) ^ invert as u64);
    sane().map_err(|e| format!("{op:?} on a lane: {e}"))?;
    if around(&a) != before {
        return Err(format!("{op:?} on a lane along axis {axis} (column-major {fortran}, inverted {invert:b}) changed elements of other lanes"));
    }
    same(&format!("on a lane along axis {axis} (column-major {fortran}, inverted {invert:b})"), op, want, &Res { ids: after, out })
}

fn ops_for(c: &Checker, n: usize) -> Vec<Op> {
    let lists: Vec<Vec<usize>> = if n <= 5 {
        (0u32..1 << n).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).chain([vec![0, 0], vec![n]]).collect()
    } else {
        index_lists(n).into_iter().step_by(c.pick(5, 2)).collect()
    };
    let idx: Vec<usize> = if n <= 5 { (0..=n).collect() } else { vec![0, n / 3, n / 2, n - 1] };
    let mut o = ops::all_ops(n, n as u32, &lists, &idx);
    if n <= 5 {
        for f in FORMS {
            o.push(Op::Select(f, n));
        }
    }
    o
}

pub fn c12(c: &mut Checker) {
    c.section("every layout, small arrays");
    for n in 0..=c.pick(4usize, 5) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}, every operation, layout and storage", show(k)), |c| {
                    for op in ops_for(c, n) {
                        let want = on_grid(c, &op, k, FLAT)?;
                        for lay in &LAYS[1..] {
                            same(&format!("on {lay:?}"), &op, &want, &on_grid(c, &op, k, *lay)?)?;
                        }
                        on_storage(c, &op, k, &want)?;
                        for axis in 0..3 {
                            on_lane(c, &op, k, &want, axis, false, 0)?;
                            on_lane(c, &op, k, &want, axis, true, 1 << axis)?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("every layout, shapes");
    for n in c.pick(vec![7usize, 12, 21, 33, 64, 130, 257, 300, 520], vec![6, 7, 8, 11, 12, 20, 21, 22, 33, 50, 51, 64, 100, 130, 200, 257, 258, 300, 520, 1100]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 100 && (si + n) % c.pick(3, 1) != 0 {
                continue;
            }
            for (oi, op) in ops_for(c, n).into_iter().enumerate() {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| {
                        let want = on_grid(c, &op, &k, FLAT)?;
                        for lay in &LAYS[1..] {
                            same(&format!("on {lay:?}"), &op, &want, &on_grid(c, &op, &k, *lay)?)?;
                        }
                        if n <= 64 || oi % 5 == si % 5 {
                            on_storage(c, &op, &k, &want)?;
                            let inv = (si + oi) as u32 % 8;
                            for axis in 0..3 {
                                on_lane(c, &op, &k, &want, axis, inv % 2 == 1, inv)?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("every layout, long arrays");
    for n in c.pick(vec![5003usize, 70_003], vec![2003, 5003, 20_011, 65_537, 70_003, 140_003]) {
        for (name, k) in gens::long(n, c.pick(3, 10)) {
            for op in [Op::Sort(Sort::SortBy), Op::Sort(Sort::UnstBy), Op::Sort(Sort::Cached), Op::Select(Form::By, n / 3), Op::Many(Form::By, vec![n / 5, n / 2, n - 2]), Op::Many(Form::By, (0..n).step_by(3).collect()), Op::Dedup(Form::By), Op::Reverse, Op::IsSorted(Form::By), Op::Search(Form::By, n as u32 / 2)] {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| {
                        let want = on_grid(c, &op, &k, FLAT)?;
                        for lay in &LAYS[1..] {
                            same(&format!("on {lay:?}"), &op, &want, &on_grid(c, &op, &k, *lay)?)?;
                        }
                        on_storage(c, &op, &k, &want)
                    });
                }
            }
        }
    }
    c.section("adversarial inputs in every layout");
    for n in c.pick(vec![60usize, 150, 300], vec![40, 60, 100, 150, 200, 300, 500]) {
        for variant in 0..8u8 {
            for op in [Op::Sort(Sort::UnstBy), Op::Select(Form::By, n / 2), Op::Many(Form::By, vec![n / 3, n / 2])] {
                if c.next() {
                    c.run(|| format!("n={n} adversary {variant} against {op:?}"), |c| {
                        let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                            ops::apply(&op, &mut g.view_mut());
                        });
                        let want = on_grid(c, &op, &k, FLAT)?;
                        for lay in &LAYS[1..] {
                            same(&format!("on {lay:?}"), &op, &want, &on_grid(c, &op, &k, *lay)?)?;
                        }
                        on_storage(c, &op, &k, &want)
                    });
                }
            }
        }
    }
    c.section("parallel operations in every layout");
    for n in c.pick(vec![0usize, 1, 30, 300, 2001, 5003], vec![0, 1, 2, 21, 30, 300, 1999, 2001, 4003, 5001, 5003, 8001]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 10 && si % c.pick(6, 2) != 0 {
                continue;
            }
            for act in par_acts(n) {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {}", act.name()), |c| {
                        let st = par::par_setup(n, 0);
                        let cfg = rayon_core::model::Config { workers: 2, policy: Policy::Thief, script: vec![] };
                        let mut want = None;
                        for lay in &LAYS {
                            let d = par::execute(&act, &k, *lay, &st, Some(&cfg));
                            par::book(c, &d.trace, d.trace.options.len());
                            par::verify(&d, &act, &k).map_err(|e| format!("{e} on {lay:?}"))?;
                            let h = d.grid.ids();
                            match &want {
                                None => want = Some(h),
                                Some(w) if *w != h => return Err(format!("{} on {lay:?}: another arrangement than on a contiguous array", act.name())),
                                _ => {}
                            }
                        }
                        par_storage(c, &act, &k, &want.unwrap())
                    });
                }
            }
        }
    }
    c.section("nothing else readable: protected memory around every element");
    for n in c.pick(vec![0usize, 1, 2, 3, 5, 12, 21, 33, 64, 130, 300, 520], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 20, 21, 22, 33, 50, 51, 64, 100, 130, 200, 257, 258, 300, 520, 1100]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 5 && (si + n) % c.pick(3, 1) != 0 || n == 0 && si > 0 {
                continue;
            }
            for op in ops_for(c, n) {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}, protected memory around"), |c| guarded(c, &op, &k));
                }
            }
        }
    }
    for n in c.pick(vec![60usize, 300], vec![40, 60, 100, 150, 200, 300, 500]) {
        for variant in 0..8u8 {
            for op in [Op::Sort(Sort::UnstBy), Op::Select(Form::By, n / 2), Op::Many(Form::By, vec![n / 3, n / 2])] {
                if c.next() {
                    c.run(|| format!("n={n} adversary {variant} against {op:?}, protected memory around"), |c| {
                        let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                            ops::apply(&op, &mut g.view_mut());
                        });
                        guarded(c, &op, &k)
                    });
                }
            }
        }
    }
    for n in c.pick(vec![0usize, 1, 30, 300, 2001, 5003], vec![0, 1, 2, 21, 30, 300, 1999, 2001, 4003, 5001, 5003, 8001]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 10 && si % c.pick(11, 4) != 0 {
                continue;
            }
            for act in par_acts(n) {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {}, protected memory around", act.name()), |c| par_guarded(c, &act, &k));
                }
            }
        }
    }
    c.section("index arrays in every layout");
    index_layouts(c);
    c.section("overlapping (broadcast) views, read-only operations");
    for n in [0usize, 1, 2, 3, 10, 100, 1000, 1 << 40] {
        for key in 0..3u32 {
            for x in 0..4u32 {
                for f in FORMS {
                    if c.next() {
                        c.run(|| format!("{n} times the same element {key}, target {x}, {f:?}"), |c| broadcast(c, n, key, x, f));
                    }
                }
            }
        }
    }
}

/// Elements with memory around them that can be neither read nor written.
struct Arena<T> {
    map: *mut u8,
    bytes: usize,
    base: *mut T,
    stride: usize,
    reversed: bool,
    n: usize,
}

const PAGE: usize = 4096;
/// Contiguous, up to the end of the accessible memory; from its start; reversed; each element alone in
/// its page, last there; first there and reversed.
const ARENAS: std::ops::Range<u8> = 0..5;

impl<T> Arena<T> {
    fn new(items: Vec<T>, kind: u8) -> Arena<T> {
        let n = items.len();
        let size = size_of::<T>();
        assert!(PAGE.is_multiple_of(size));
        let apart = kind > 2;
        let open = if apart { 2 * PAGE * n } else { (n * size).next_multiple_of(PAGE) };
        let bytes = open + 2 * PAGE;
        unsafe {
            let map = libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8;
            assert!(map as isize != -1, "mmap");
            let rw = libc::PROT_READ | libc::PROT_WRITE;
            let mut base = map.add(PAGE);
            let mut stride = 1;
            if apart {
                stride = 2 * PAGE / size;
                for i in 0..n {
                    assert_eq!(libc::mprotect(base.add(2 * PAGE * i) as *mut _, PAGE, rw), 0, "mprotect");
                }
                if kind == 3 {
                    base = base.add(PAGE - size);
                }
            } else {
                if open > 0 {
                    assert_eq!(libc::mprotect(base as *mut _, open, rw), 0, "mprotect");
                }
                if kind != 1 {
                    base = base.add(open - n * size);
                }
            }
            let mut a = Arena { map, bytes, base: base as *mut T, stride, reversed: kind == 2 || kind == 4, n };
            let reversed = a.reversed;
            for (i, x) in items.into_iter().enumerate() {
                let at = if reversed { n - 1 - i } else { i };
                a.base.add(at * stride).write(x);
            }
            a.n = n;
            a
        }
    }
    fn view(&mut self) -> ArrayViewMut1<'_, T> {
        let mut v = unsafe { ArrayViewMut1::from_shape_ptr([self.n].strides([self.stride]), self.base) };
        if self.reversed {
            v.invert_axis(Axis(0));
        }
        v
    }
}
impl<T> Drop for Arena<T> {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.map as *mut _, self.bytes) };
    }
}

fn guarded(c: &mut Checker, op: &Op, keys: &[u32]) -> Result<(), String> {
    let want = on_grid(c, op, keys, FLAT)?;
    for kind in ARENAS {
        let mut a = Arena::new(els(keys), kind);
        ctx::reset(&setup(keys.len()));
        let out = run(op, &mut a.view());
        c.evaluations += 1;
        c.trace(ctx::trace() ^ 0x9A6E);
        sane().map_err(|e| format!("{op:?} in protected memory {kind}: {e}"))?;
        let got = Res { ids: ids(&a.view()), out };
        same(&format!("in protected memory {kind}"), op, &want, &got)?;
        if let Op::Many(f, list) = op {
            // The index array likewise.
            if got.out.is_ok() {
                let mut a = Arena::new(els(keys), kind);
                let mut idx = Arena::new(list.clone(), kind);
                ctx::reset(&setup(keys.len()));
                let mut v = a.view();
                let mut sink = ops::Sink { quiet: true, ..Default::default() };
                trap(|| ops::select_many(*f, &mut v, idx.view().view(), &mut sink)).map_err(|p| format!("{op:?} with indices in protected memory {kind}: panicked: {}", payload(&*p)))?;
                drop(sink);
                c.evaluations += 1;
                if ids(&a.view()) != want.ids {
                    return Err(format!("{op:?} with indices in protected memory {kind}: another arrangement"));
                }
            }
        }
    }
    Ok(())
}

fn par_guarded(c: &mut Checker, act: &Act, keys: &[u32]) -> Result<(), String> {
    let cfg = rayon_core::model::Config { workers: 2, policy: Policy::Thief, script: vec![] };
    let mut want: Option<Vec<u32>> = None;
    for kind in ARENAS {
        let mut a = Arena::new(els(keys), kind);
        let mut iv = Arena::new(if let Act::Many(_, l) = act { l.clone() } else { vec![] }, kind);
        ctx::reset(&par::par_setup(keys.len(), 0));
        let mut v = a.view();
        let indices = iv.view();
        let (r, _) = rayon_core::model::run(&cfg, || {
            trap(|| match act {
                Act::Sort(o) => ops::sort(*o, &mut v),
                Act::Many(f, l) => {
                    let mut out = Vec::with_capacity(l.len());
                    ops::par_select_many(*f, &mut v, indices.view(), &mut out);
                    assert!(out.len() == l.len(), "{} entries for {} indices", out.len(), l.len());
                }
            })
            .map_err(|p| payload(&*p))
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(p)) => return Err(format!("{} in protected memory {kind}: panicked: {p}", act.name())),
            Err(_) => return Err(format!("{} in protected memory {kind}: does not end", act.name())),
        }
        c.evaluations += 1;
        c.trace(ctx::trace());
        sane()?;
        let h = ids(&a.view());
        match &want {
            None => want = Some(h),
            Some(w) if *w != h => return Err(format!("{} in protected memory {kind}: another arrangement", act.name())),
            _ => {}
        }
    }
    let d = par::execute(act, keys, FLAT, &par::par_setup(keys.len(), 0), Some(&cfg));
    if d.grid.ids() != want.unwrap() { Err(format!("{}: another arrangement than in protected memory", act.name())) } else { Ok(()) }
}

fn broadcast(c: &mut Checker, n: usize, key: u32, x: u32, f: Form) -> Result<(), String> {
    use ndarray_slice::Slice1Ext;
    let one = Array1::from_vec(els(&[key]));
    let v = one.broadcast(n).expect("broadcast");
    ctx::reset(&setup(64));
    let r = ops::search(f, &v, x);
    let ok = match r {
        Ok(i) => i < n && key == x,
        Err(i) => n == 0 && i == 0 || key != x && i == if key < x { n } else { 0 },
    };
    if !ok {
        return Err(format!("search for {x} gave {r:?}"));
    }
    let p = v.partition_point(|e| {
        ctx::pred(e);
        e.key < x
    });
    if p != if key < x { n } else { 0 } {
        return Err(format!("partition_point < {x} gave {p}"));
    }
    if n <= 1000 {
        if !ops::sorted_check(f, &v) {
            return Err("is_sorted gave false".into());
        }
        if v.contains(&*ops::probe(x)) != (n > 0 && x == key) {
            return Err("contains is wrong".into());
        }
    }
    c.trace(ctx::trace());
    sane()
}

fn par_acts(n: usize) -> Vec<Act> {
    let mut o: Vec<Act> = ops::ALL_SORTS.into_iter().filter(|s| s.par()).map(Act::Sort).collect();
    for (i, l) in index_lists(n).into_iter().enumerate() {
        if i % 6 == 1 {
            o.push(Act::Many(FORMS[i / 6 % 3], l));
        }
    }
    o
}

fn par_storage(c: &mut Checker, act: &Act, keys: &[u32], want: &[u32]) -> Result<(), String> {
    let n = keys.len();
    let before: Vec<u32> = (0..n as u32).collect();
    fn go<S: DataMut<Elem = El>>(act: &Act, a: &mut ArrayBase<S, Ix1>) -> Result<(), String> {
        trap(|| match act {
            Act::Sort(o) => ops::sort(*o, a),
            Act::Many(f, idx) => {
                let iv = ArrayView1::from(&idx[..]);
                let mut out = Vec::with_capacity(3);
                ops::par_select_many(*f, a, iv, &mut out);
                assert!(out.len() == idx.len(), "{} entries for {} indices", out.len(), idx.len());
            }
        })
        .map_err(|p| format!("{} panicked: {}", act.name(), payload(&*p)))
    }
    for holders in 0..2 {
        let mut a: ArcArray<El, Ix1> = Array1::from_vec(els(keys)).into_shared();
        let others: Vec<_> = (0..holders).map(|_| a.clone()).collect();
        ctx::reset(&par::par_setup(n, 0));
        go(act, &mut a)?;
        c.evaluations += 1;
        sane()?;
        if ids(&a) != want {
            return Err(format!("{} on shared storage: another arrangement than on an owned array", act.name()));
        }
        if others.iter().any(|o| ids(o) != before) {
            return Err(format!("{} on shared storage changed the data of another holder", act.name()));
        }
    }
    let src: Array1<El> = Array1::from_vec(els(keys));
    let mut a: CowArray<El, Ix1> = CowArray::from(src.view());
    ctx::reset(&par::par_setup(n, 0));
    go(act, &mut a)?;
    c.evaluations += 1;
    sane()?;
    if ids(&a) != want {
        return Err(format!("{} on borrowed storage: another arrangement than on an owned array", act.name()));
    }
    if ids(&src) != before {
        return Err(format!("{} on borrowed storage changed what it was borrowed from", act.name()));
    }
    Ok(())
}

fn index_layouts(c: &mut Checker) {
    for n in c.pick(vec![1usize, 2, 3, 12, 60, 300, 4300], vec![1, 2, 3, 4, 12, 30, 60, 130, 300, 2100, 4300, 6100]) {
        for (li, list) in index_lists(n).into_iter().enumerate() {
            for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
                if si % 7 != li % 7 || n > 2000 && si % 2 != 0 {
                    continue;
                }
                if c.next() {
                    let f = FORMS[(si + li) % 3];
                    c.run(|| format!("n={n} {name}, index list {li} in every layout, {f:?}"), |c| many_index_layouts(c, f, &k, &list));
                }
            }
        }
    }
}

fn many_index_layouts(c: &mut Checker, f: Form, keys: &[u32], list: &[usize]) -> Result<(), String> {
    let n = keys.len();
    for parallel in [false, true] {
        let mut want: Option<Vec<u32>> = None;
        for lay in &LAYS {
            // A parent full of wrong indices with the list laid into it.
            let m = list.len();
            let kk = lay.stride.unsigned_abs();
            let span = if m == 0 { 0 } else { (m - 1) * kk + 1 };
            let mut cells = vec![n * 3 + 7; lay.off + span + lay.tail];
            for (i, &x) in list.iter().enumerate() {
                cells[lay.off + if lay.stride > 0 { i * kk } else { (m - 1 - i) * kk }] = x;
            }
            let arr = Array1::from_vec(cells);
            let (lo, hi) = (lay.off as isize, (lay.off + span) as isize);
            let iv = arr.slice(s![lo..hi;lay.stride]);
            let mut a: Array1<El> = Array1::from_vec(els(keys));
            let base = a.as_ptr() as usize;
            ctx::reset(&par::par_setup(n, 0));
            let mut quiet = ops::Sink { quiet: true, ..Default::default() };
            let mut out: Vec<&mut El> = Vec::new();
            let r = trap(|| {
                if parallel {
                    ops::par_select_many(f, &mut a, iv, &mut out)
                } else {
                    ops::select_many(f, &mut a, iv, &mut quiet)
                }
            });
            if let Err(p) = r {
                return Err(format!("index array {lay:?} (parallel {parallel}): panicked: {}", payload(&*p)));
            }
            let at: Vec<usize> = if parallel { out.iter().map(|e| (&**e as *const El as usize - base) / size_of::<El>()).collect() } else { quiet.got.iter().map(|(_, e)| (&**e as *const El as usize - base) / size_of::<El>()).collect() };
            if at != list {
                return Err(format!("index array {lay:?} (parallel {parallel}): entries refer to {at:?}"));
            }
            drop((out, quiet));
            c.evaluations += 1;
            sane()?;
            let h = ids(&a);
            match &want {
                None => want = Some(h),
                Some(w) if *w != h => return Err(format!("index array {lay:?} (parallel {parallel}): another arrangement than with a contiguous one")),
                _ => {}
            }
            c.trace(ctx::trace());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// Other keys of the same order, as different as may be.
fn stretched(keys: &[u32], how: u32) -> Vec<u32> {
    keys.iter().map(|&k| if how == 0 { k * 3 + 5 } else { (1 << 20) + k * 257 }).collect()
}

pub fn c21(c: &mut Checker) {
    c.section("small arrays: address, layout, storage, key values, thread, history");
    for n in 0..=c.pick(5usize, 6) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}, every operation", show(k)), |c| {
                    for op in ops_for(c, n).into_iter().step_by(if n > 4 { 3 } else { 1 }) {
                        repeat(c, &op, k, n < 4)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("shapes: address, layout, storage, key values, thread, history");
    for n in c.pick(vec![12usize, 21, 33, 64, 130, 300, 1100], vec![8, 11, 12, 20, 21, 22, 33, 50, 51, 64, 100, 130, 257, 300, 520, 1100, 2500]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for (oi, op) in ops_for(c, n).into_iter().enumerate() {
                if n > 64 && (si + oi) % c.pick(4, 1) != 0 {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| repeat(c, &op, &k, (si + oi) % 7 == 0));
                }
            }
        }
    }
    c.section("long arrays: address, layout, storage, key values, thread, history");
    for n in c.pick(vec![5003usize, 70_003], vec![5003, 20_011, 65_537, 70_003, 140_003]) {
        for (ki, (name, k)) in gens::long(n, c.pick(3, 10)).into_iter().enumerate() {
            for (oi, op) in [Op::Sort(Sort::SortBy), Op::Sort(Sort::UnstBy), Op::Sort(Sort::Cached), Op::Select(Form::By, n / 3), Op::Many(Form::By, vec![n / 5, n / 2, n - 2]), Op::Many(Form::By, (0..n).step_by(3).collect()), Op::Dedup(Form::By), Op::Reverse, Op::IsSorted(Form::By), Op::Search(Form::By, n as u32 / 2)].into_iter().enumerate() {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| repeat(c, &op, &k, (ki + oi) % 4 == 0));
                }
            }
        }
    }
    c.section("adversarial inputs");
    for n in c.pick(vec![60usize, 120, 300, 1000], vec![40, 60, 80, 100, 120, 150, 200, 300, 500, 1000, 2000]) {
        for variant in 0..8u8 {
            for op in [Op::Sort(Sort::UnstBy), Op::Select(Form::By, n / 2), Op::Many(Form::By, vec![n / 3, n / 2])] {
                if c.next() {
                    c.run(|| format!("n={n} adversary {variant} against {op:?}"), |c| {
                        let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                            ops::apply(&op, &mut g.view_mut());
                        });
                        repeat(c, &op, &k, true)
                    });
                }
            }
        }
    }
    c.section("parallel operations: every policy and worker count");
    for n in c.pick(vec![12usize, 64, 300, 2001, 4003, 5003, 8002], vec![5, 12, 21, 64, 300, 1999, 2000, 2001, 2002, 4003, 5001, 5003, 8002, 12_001]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for (ai, act) in par_acts(n).into_iter().enumerate() {
                if (si + ai) % c.pick(8, 2) != 0 {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} {name}, {}", act.name()), |c| {
                        let g = par::stride(&act, &k, 12);
                        let st = par::par_setup(n, g);
                        let mut want: Option<Vec<u32>> = None;
                        for (ci, &cfg) in par::CFGS.iter().enumerate() {
                            par::explore(c, cfg, 0, &mut |_, config| {
                                let d = par::execute(&act, &k, LAYS[ci % LAYS.len()], &st, Some(config));
                                (agree(&d, &act, &k, &mut want), d.trace)
                            })?;
                        }
                        let key = stretched(&k, 1);
                        let d = par::execute(&act, &key, FLAT, &st, Some(&rayon_core::model::Config { workers: 2, policy: Policy::Late, script: vec![] }));
                        agree(&d, &act, &key, &mut want)
                    });
                }
            }
        }
    }
    c.section("parallel operations: every schedule within one deviation");
    for (n, kinds, rel) in [
        (2100usize, vec![Chunk::Mix], 2usize),
        (4100, vec![Chunk::Asc, Chunk::Desc, Chunk::Mix], 2),
        (6100, vec![Chunk::Mix, Chunk::Asc], 3),
        (5100, vec![Chunk::Flat, Chunk::Desc], 1),
    ] {
        let keys = par::blocks(n, 2000, &kinds, rel);
        let acts = [Act::Sort(Sort::ParSortBy), Act::Sort(Sort::ParUnstBy), Act::Sort(Sort::ParCached), Act::Many(Form::By, vec![1000, 2050, 2060]), Act::Many(Form::By, vec![0, n / 2, n - 1])];
        for act in acts {
            for cfg in [(2, Policy::Owner), (2, Policy::Thief), (3, Policy::RoundRobin), (4, Policy::Late)] {
                if c.next() {
                    c.run(|| format!("n={n} {kinds:?} relation {rel}, {}, {cfg:?}", act.name()), |c| {
                        let g = par::stride(&act, &keys, c.pick(12, 40));
                        let st = par::par_setup(n, g);
                        let mut want = None;
                        par::explore(c, cfg, 1, &mut |_, config| {
                            let d = par::execute(&act, &keys, FLAT, &st, Some(config));
                            (agree(&d, &act, &keys, &mut want), d.trace)
                        })
                        .map(|_| ())
                    });
                }
            }
        }
    }
    c.section("parallel operations: free-running pools");
    for n in [300, 2001, 5003, 20_011] {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for (ai, act) in par_acts(n).into_iter().enumerate() {
                if (si * 3 + ai) % c.pick(16, 4) != 0 {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} {name}, {}, pools of 1, 2, 3 and 8 threads", act.name()), |c| {
                        let st = ctx::Setup { flags: 0, ..par::par_setup(n, 0) };
                        let mut want = None;
                        for (_, p) in par::pools() {
                            for _ in 0..2 {
                                let d = p.install(|| par::execute(&act, &k, FLAT, &st, None));
                                c.evaluations += 1;
                                c.add("free-running executions", 1);
                                agree(&d, &act, &k, &mut want)?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

fn agree(d: &par::Done, act: &Act, keys: &[u32], want: &mut Option<Vec<u32>>) -> Result<(), String> {
    par::verify(d, act, keys)?;
    let h = d.grid.ids();
    match want {
        None => *want = Some(h),
        Some(w) if *w != h => {
            let i = (0..h.len()).find(|&i| h[i] != w[i]).unwrap_or(0);
            return Err(format!("{}: element {} at position {i}, but {} under another schedule", act.name(), h[i], w[i]));
        }
        _ => {}
    }
    Ok(())
}

/// Runs `op` again and again in other circumstances.
fn repeat(c: &mut Checker, op: &Op, keys: &[u32], threads: bool) -> Result<(), String> {
    let n = keys.len();
    let want = on_grid(c, op, keys, FLAT)?;
    let found = |r: &Res| r.out.clone();
    // Again, right away; and after other operations, at another address.
    same("a second time", op, &want, &on_grid(c, op, keys, FLAT)?)?;
    let hold: Vec<u8> = Vec::with_capacity(48 + 16 * (n % 5));
    let other: Vec<u32> = keys.iter().rev().copied().collect();
    on_grid(c, &Op::Sort(Sort::UnstBy), &other, FLAT)?;
    on_grid(c, &Op::Sort(Sort::SortBy), &other, FLAT)?;
    same("after other operations, at another address", op, &want, &on_grid(c, op, keys, FLAT)?)?;
    drop(hold);
    for lay in &LAYS[1..] {
        same(&format!("on {lay:?}"), op, &want, &on_grid(c, op, keys, *lay)?)?;
    }
    // Other key values in the same order. Targets are key values: those operations aside.
    if !matches!(op, Op::Search(..) | Op::Point(_) | Op::Contains(_)) {
        for how in 0..2 {
            same("with other keys of the same order", op, &want, &on_grid(c, op, &stretched(keys, how), FLAT)?)?;
        }
    }
    // Another storage.
    let mut a: ArcArray<El, Ix1> = Array1::from_vec(els(keys)).into_shared();
    let o = a.clone();
    ctx::reset(&setup(n));
    let out = run(op, &mut a);
    same("on shared storage", op, &want, &Res { ids: ids(&a), out })?;
    drop(o);
    let mut w: Array2<El> = Array2::from_shape_simple_fn((n, 2), || El::new(0, GAP));
    for (i, &k) in keys.iter().enumerate() {
        w[[i, 1]] = El::new(k, i as u32);
    }
    ctx::reset(&setup(n));
    let mut col = w.column_mut(1);
    let out = run(op, &mut col);
    same("on a column", op, &want, &Res { ids: ids(&col), out })?;
    c.evaluations += 2;
    if threads {
        // Another thread, with another name, stack and position in a pool.
        let r = std::thread::scope(|s| s.spawn(|| on_plain(op, keys)).join()).map_err(|_| "thread".to_string())?;
        same("on another thread", op, &want, &r)?;
        for (k, p) in par::pools().iter().take(3) {
            let r = p.install(|| on_plain(op, keys));
            same(&format!("within a pool of {k}"), op, &want, &r)?;
        }
        c.evaluations += 4;
    }
    let _ = found;
    Ok(())
}

fn on_plain(op: &Op, keys: &[u32]) -> Res {
    let mut g = Grid::new(keys, FLAT);
    ctx::reset(&setup(keys.len()));
    let out = run(op, &mut g.view_mut());
    Res { ids: g.ids(), out }
}
