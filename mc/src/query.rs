//! Searches (C14), is_sorted (C15), dedup (C16), reverse (C17).
use crate::ctx::{self, El, Setup};
use crate::engine::{Checker, payload};
use crate::gens;
use crate::grid::{FLAT, Grid, LAYS, Lay};
use crate::ops::{self, FORMS, Form, Op, trap};
use crate::types;
use crate::util::*;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayView1, ArrayViewMut1, s};
use std::cmp::Ordering;

fn sane() -> Result<(), String> {
    if let Some(m) = ctx::unsound() {
        return Err(m);
    }
    if let Some(m) = crate::alloc::broken() {
        return Err(m.into());
    }
    Ok(())
}

/// Probes a bisection may take.
fn probes(n: usize) -> u64 {
    2 * (usize::BITS - n.leading_zeros()) as u64 + 4
}

fn bounded(c: &mut Checker, n: usize) -> Result<(), String> {
    let p = ctx::calls();
    if n > 0 {
        c.maximum("probes over bits of the length", p as f64 / (usize::BITS - n.leading_zeros()) as f64);
    }
    if p > probes(n) { Err(format!("{p} probes in {n} elements")) } else { Ok(()) }
}

/// `lo` elements below, `eq` equal, the rest above the target, told apart by position alone.
fn bisect(c: &mut Checker, v: &ArrayView1<El>, st: &Setup, lo: usize, eq: usize) -> Result<(), String> {
    let n = v.len();
    ctx::reset(st);
    let r = v.binary_search_by(|e| {
        ctx::pred(e);
        let i = e.id as usize;
        if i < lo {
            Ordering::Less
        } else if i < lo + eq {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    });
    match r {
        Ok(i) if i >= lo && i < lo + eq => {}
        Err(i) if eq == 0 && i == lo => {}
        _ => return Err(format!("binary_search_by gave {r:?} with {lo} smaller and {eq} equal of {n}")),
    }
    bounded(c, n)?;
    c.trace(ctx::trace());
    c.evaluations += 1;
    if eq == 0 {
        ctx::reset(st);
        let p = v.partition_point(|e| {
            ctx::pred(e);
            (e.id as usize) < lo
        });
        if p != lo {
            return Err(format!("partition_point gave {p} with {lo} leading elements of {n}"));
        }
        bounded(c, n)?;
        c.evaluations += 1;
    }
    sane()
}

fn beyond(c: &mut Checker, n: usize) -> Result<(), String> {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    if p == libc::MAP_FAILED {
        return Err("harness: no address space".into());
    }
    let v: ArrayView1<u8> = unsafe { ArrayView1::from_shape_ptr(n, p as *const u8) };
    let mut los: Vec<usize> = vec![0, 1, n / 3, n / 2, n - n / 3, n - 2, n - 1, n];
    for b in 0..34 {
        for d in [-1i64, 0, 1] {
            let x = ((1i64 << b) + d) as usize;
            if x <= n {
                los.push(x);
                los.push(n - x);
            }
        }
    }
    let mut r = Ok(());
    for lo in los {
        for eq in [0usize, 1, 2, 1000, 1 << 31, n - lo] {
            if lo + eq > n {
                continue;
            }
            let mut calls = 0;
            let at = v.binary_search_by(|e| {
                calls += 1;
                let i = e as *const u8 as usize - p as usize;
                if i < lo {
                    Ordering::Less
                } else if i < lo + eq {
                    Ordering::Equal
                } else {
                    Ordering::Greater
                }
            });
            c.evaluations += 1;
            let ok = match at {
                Ok(i) => i >= lo && i < lo + eq,
                Err(i) => eq == 0 && i == lo,
            };
            if !ok || calls > probes(n) {
                r = Err(format!("{at:?} after {calls} probes, with {lo} smaller and {eq} equal of {n}"));
            }
            let pp = v.partition_point(|e| (e as *const u8 as usize - p as usize) < lo);
            if pp != lo {
                r = Err(format!("partition_point {pp} with {lo} leading elements of {n}"));
            }
            c.trace((lo as u64).wrapping_mul(0x9E37_79B9) ^ eq as u64 ^ (n as u64) << 20);
        }
    }
    unsafe { libc::munmap(p, n) };
    r
}

pub fn c14(c: &mut Checker) {
    types::sweep(c, &types::searches, false);
    c.section("all sorted arrays, all targets");
    for n in 0..=c.pick(11usize, 14) {
        for bits in 0u32..1 << n.saturating_sub(1) {
            if c.next() {
                c.run(|| format!("n={n} steps {bits:b}"), |c| {
                    let mut k = Vec::with_capacity(n);
                    let mut x = 1;
                    for i in 0..n {
                        if i > 0 && bits >> (i - 1) & 1 == 1 {
                            x += 2;
                        }
                        k.push(x);
                    }
                    let top = x + 2;
                    let lays: &[Lay] = if n <= 7 { &LAYS } else { &LAYS[..1] };
                    for lay in lays {
                        let g = Grid::new(&k, *lay);
                        let st = setup(n);
                        let before: Vec<u32> = (0..n as u32).collect();
                        let mut v = g.view();
                        for t in 0..=top {
                            for f in FORMS {
                                ctx::reset(&st);
                                let r = ops::search(f, &v, t);
                                c.evaluations += 1;
                                let calls = ctx::calls() / if f == Form::Key { 2 } else { 1 };
                                if calls > probes(n) {
                                    return Err(format!("{calls} probes"));
                                }
                                c.trace(ctx::trace());
                                ops::contract(&Op::Search(f, t), &k, &before, &g, &ops::Out::Found(r)).map_err(|e| format!("{lay:?}: {e}"))?;
                            }
                            for op in [Op::Point(t), Op::Contains(t)] {
                                ctx::reset(&st);
                                let r = match op {
                                    Op::Point(_) => ops::Out::Pos(v.partition_point(|e| {
                                        ctx::pred(e);
                                        e.key < t
                                    })),
                                    _ => ops::Out::Bool(v.contains(&*ops::probe(t))),
                                };
                                c.evaluations += 1;
                                ops::contract(&op, &k, &before, &g, &r).map_err(|e| format!("{lay:?}: {e}"))?;
                            }
                        }
                        let _ = &mut v;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("every position and width at every length");
    for n in 0..=c.pick(260usize, 400) {
        if c.next() {
            c.run(|| format!("n={n}, every number of smaller and of equal elements"), |c| {
                let lay = LAYS[n % LAYS.len()];
                let keys = vec![0; n];
                let g = Grid::new(&keys, lay);
                let v = g.view();
                let st = setup(n);
                for lo in 0..=n {
                    for eq in 0..=n - lo {
                        bisect(c, &v, &st, lo, eq)?;
                    }
                }
                Ok(())
            });
        }
    }
    c.section("every position at long lengths");
    for n in c.pick(
        vec![511usize, 512, 513, 1023, 1024, 1025, 2047, 4095, 4096, 4097, 10_000],
        vec![511, 512, 513, 767, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 10_000, 16_383, 65_535, 65_536, 65_537],
    ) {
        for eq in [0usize, 1, 2, 3, n / 3, n - 1] {
            if c.next() {
                c.run(|| format!("n={n}, {eq} equal elements at every position"), |c| {
                    let keys = vec![0; n];
                    let g = Grid::new(&keys, LAYS[eq % LAYS.len()]);
                    let v = g.view();
                    let st = setup(n);
                    for lo in 0..=n - eq {
                        bisect(c, &v, &st, lo, eq)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("lengths up to the largest possible");
    for bits in 0..usize::BITS - 1 {
        for d in [-1i64, 0, 1] {
            let n = (1i64 << bits).wrapping_add(d) as usize;
            if n > isize::MAX as usize || n == 0 {
                continue;
            }
            if c.next() {
                c.run(|| format!("n={n}, every answer alike"), |c| {
                    let zst: ArrayView1<()> = unsafe { ArrayView1::from_shape_ptr(n, std::ptr::NonNull::dangling().as_ptr()) };
                    for a in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
                        let mut calls = 0;
                        let r = zst.binary_search_by(|_| {
                            calls += 1;
                            a
                        });
                        c.evaluations += 1;
                        let ok = match r {
                            Ok(i) => a == Ordering::Equal && i < n,
                            Err(i) => a == Ordering::Less && i == n || a == Ordering::Greater && i == 0,
                        };
                        if !ok || calls > probes(n) {
                            return Err(format!("{n} elements, answers {a:?}: {r:?} after {calls} probes"));
                        }
                        c.trace((n as u64) << 3 | a as i8 as u64 & 7);
                    }
                    let p = [zst.partition_point(|_| true), zst.partition_point(|_| false)];
                    if p != [n, 0] {
                        return Err(format!("{n} elements: partition points {p:?}"));
                    }
                    let one = Array1::from_vec(vec![El::new(0, 0)]);
                    if let Some(v) = one.broadcast(n) {
                        ctx::reset(&setup(64));
                        for a in [Ordering::Less, Ordering::Greater] {
                            let r = v.binary_search_by(|e| {
                                ctx::pred(e);
                                a
                            });
                            if r != Err(if a == Ordering::Less { n } else { 0 }) {
                                return Err(format!("{n} times one element, answers {a:?}: {r:?}"));
                            }
                        }
                    }
                    sane()
                });
            }
        }
    }
    c.section("positions beyond 32 bits");
    // Address space alone: elements are told apart by their addresses, never read.
    for n in [(1usize << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 12_345, (1 << 33) - 1] {
        if c.next() {
            c.run(|| format!("n={n} bytes of address space"), |c| beyond(c, n));
        }
    }
    c.section("contains: one match at any place, none");
    for n in 0..=c.pick(80usize, 200) {
        for lay in LAYS {
            if c.next() {
                c.run(|| format!("n={n} {lay:?}"), |c| {
                    for at in 0..=n {
                        let mut k = vec![4; n];
                        if at < n {
                            k[at] = 9;
                        }
                        let g = Grid::new(&k, lay);
                        ctx::reset(&setup(n));
                        let r = g.view().contains(&*ops::probe(9));
                        c.evaluations += 1;
                        c.trace(ctx::trace() ^ n as u64);
                        if r != (at < n) {
                            return Err(format!("contains gave {r} with the match at {at} of {n}"));
                        }
                        g.intact(&k)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("contains: unsorted, incomparable, not equal to themselves");
    let vals = [0.0f32, 1.0, -0.0, f32::NAN];
    for n in 0..=c.pick(6usize, 7) {
        gens::words(n, 4, &mut |w| {
            if c.next() {
                c.run(|| format!("words {w:?} of {vals:?}"), |c| {
                    let a = Array1::from_iter(w.iter().map(|&x| vals[x as usize]));
                    for rev in [false, true] {
                        let v = if rev { a.slice(s![..;-1]) } else { a.view() };
                        for t in vals {
                            if v.contains(&t) != a.iter().any(|x| *x == t) {
                                return Err(format!("contains({t}) gave {}", v.contains(&t)));
                            }
                            c.evaluations += 1;
                        }
                    }
                    c.trace(w.iter().fold(7, |h, &x| h * 5 + x as u64));
                    Ok(())
                });
            }
        });
    }
}

// ---------------------------------------------------------------------------------------------

/// is_sorted_by with the answer for each adjacent pair given by `bad`.
fn sorted_by(c: &mut Checker, g: &Grid, bad: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let n = g.n;
    ctx::reset(&setup(n));
    let mut odd = None;
    let r = g.view().is_sorted_by(|a, b| {
        ctx::cmp(a, b);
        if a.id + 1 != b.id {
            odd = Some((a.id, b.id));
        }
        !bad(a.id as usize)
    });
    c.evaluations += 1;
    c.trace(ctx::trace() ^ n as u64);
    if let Some((a, b)) = odd {
        return Err(format!("the predicate was asked about the elements at {a} and {b}"));
    }
    let want = (1..n).all(|i| !bad(i - 1));
    if r != want {
        return Err(format!("is_sorted_by gave {r}"));
    }
    if ctx::calls() > n.saturating_sub(1) as u64 {
        return Err(format!("the predicate was asked {} times about {} pairs", ctx::calls(), n - 1));
    }
    sane()
}

pub fn c15(c: &mut Checker) {
    types::sweep(c, &|_| vec![types::TOp::IsSorted], false);
    c.section("every answer to every adjacent pair");
    for n in 0..=c.pick(13usize, 17) {
        for bits in 0u32..1 << n.saturating_sub(1) {
            if c.next() {
                c.run(|| format!("n={n} answers {bits:b}"), |c| {
                    let keys: Vec<u32> = vec![3; n];
                    for lay in if n <= 8 { &LAYS[..] } else { &LAYS[..1] } {
                        sorted_by(c, &Grid::new(&keys, *lay), &|i| bits >> i & 1 == 1)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("words with incomparable values");
    let vals = [0.0f64, 1.0, 2.0, f64::NAN];
    for n in 0..=c.pick(7usize, 9) {
        gens::words(n, 4, &mut |w| {
            if c.next() {
                c.run(|| format!("word {w:?} over {vals:?}"), |c| {
                    let x: Vec<f64> = w.iter().map(|&i| vals[i as usize]).collect();
                    floats(c, &x)
                });
            }
        });
    }
    let odd = [0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -1.0];
    for n in 0..=c.pick(5usize, 6) {
        gens::words(n, 6, &mut |w| {
            if c.next() {
                c.run(|| format!("word {w:?} over {odd:?}"), |c| {
                    let x: Vec<f64> = w.iter().map(|&i| odd[i as usize]).collect();
                    floats(c, &x)
                });
            }
        });
    }
    c.section("all weak orders, every form and layout");
    for n in 0..=c.pick(6usize, 7) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for lay in if n <= 5 { &LAYS[..] } else { &LAYS[..2] } {
                        truth(c, k, *lay)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("one unordered pair at every place of every length");
    for n in 0..=c.pick(200usize, 400) {
        if c.next() {
            c.run(|| format!("n={n}, every pair"), |c| {
                let lay = LAYS[n % LAYS.len()];
                let keys = vec![3; n];
                let g = Grid::new(&keys, lay);
                for bad in 0..=n {
                    sorted_by(c, &g, &|i| i == bad)?;
                }
                for at in 0..n {
                    let k: Vec<u32> = (0..n as u32).map(|i| if i as usize == at { 0 } else { i + 1 }).collect();
                    truth(c, &k, lay)?;
                }
                for at in 0..n {
                    // NaN at one place.
                    let x: Vec<f64> = (0..n).map(|i| if i == at { f64::NAN } else { i as f64 }).collect();
                    floats(c, &x)?;
                }
                Ok(())
            });
        }
    }
    c.section("one unordered pair in long arrays");
    for n in c.pick(vec![1025usize, 4097, 65_537, 70_003], vec![511, 1024, 1025, 2049, 4097, 8193, 16_385, 32_769, 65_535, 65_536, 65_537, 70_003, 131_073, 300_007]) {
        for lay in [FLAT, LAYS[n % LAYS.len()], LAYS[3]] {
            for r in 0..4 {
                if c.next() {
                    c.run(|| format!("n={n} {lay:?}, part {r}"), |c| {
                        let keys = vec![3; n];
                        let g = Grid::new(&keys, lay);
                        for (j, at) in gens::places(n).into_iter().enumerate().filter(|(j, _)| j % 4 == r) {
                            sorted_by(c, &g, &|i| i == at)?;
                            if j % 8 < 4 {
                                let k: Vec<u32> = (0..n as u32).map(|i| if i as usize == at { 0 } else { i + 1 }).collect();
                                truth(c, &k, lay)?;
                                let x: Vec<f64> = (0..n).map(|i| if i == at { f64::NAN } else { i as f64 }).collect();
                                floats(c, &x)?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("shapes");
    for n in [2usize, 3, 10, 64, 257, 1000, 5000] {
        for (name, k) in gens::shapes(n) {
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for lay in LAYS {
                        truth(c, &k, lay)?;
                    }
                    let mut k = k.clone();
                    k.sort_unstable();
                    for lay in LAYS {
                        truth(c, &k, lay)?;
                    }
                    Ok(())
                });
            }
        }
    }
}

fn truth(c: &mut Checker, k: &[u32], lay: Lay) -> Result<(), String> {
    let n = k.len();
    let g = Grid::new(k, lay);
    let want = k.windows(2).all(|w| w[0] <= w[1]);
    for f in FORMS {
        ctx::reset(&setup(n));
        let r = ops::sorted_check(f, &g.view());
        c.evaluations += 1;
        c.trace(ctx::trace());
        if r != want {
            return Err(format!("is_sorted ({f:?}) gave {r} on {lay:?}"));
        }
    }
    g.intact(k)?;
    if g.ids().iter().enumerate().any(|(i, &x)| i as u32 != x) {
        return Err("is_sorted moved elements".into());
    }
    Ok(())
}

fn floats(c: &mut Checker, x: &[f64]) -> Result<(), String> {
    let want = x.windows(2).all(|w| w[0] <= w[1]);
    let wrev = x.windows(2).all(|w| w[1] <= w[0]);
    let a = Array1::from_vec(x.to_vec());
    let two = Array1::from_iter(x.iter().flat_map(|&v| [v, f64::NAN]));
    let r = [
        a.is_sorted(),
        a.is_sorted_by_key(|v| *v),
        a.is_sorted_by(|p, q| p <= q),
        a.is_sorted_by(|p, q| p.partial_cmp(q).is_some_and(Ordering::is_le)),
        two.slice(s![..;2]).is_sorted(),
        Array1::from_iter(x.iter().rev().copied()).slice(s![..;-1]).is_sorted(),
        Array1::from_iter(x.iter().map(|v| if v.is_nan() { None } else { Some(*v) })).is_sorted_by_key(|v| v.unwrap_or(f64::NAN)),
    ];
    c.evaluations += r.len() as u64 + 1;
    c.trace(x.iter().fold(3, |h, v| (h ^ v.to_bits()).wrapping_mul(0x100_0000_01b3)));
    if r.iter().any(|&b| b != want) {
        return Err(format!("is_sorted of {x:?}: {r:?} by several forms"));
    }
    if a.slice(s![..;-1]).is_sorted() != wrev {
        return Err(format!("is_sorted of {x:?} backwards gave {}", !wrev));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// partition_dedup_by with scripted answers by call and callbacks that also change elements.
fn scripted(c: &mut Checker, n: usize, lay: Lay, change: bool, same: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let keys: Vec<u32> = (0..n as u32).map(|i| i * 11 + 2).collect();
    let mut g = Grid::new(&keys, lay);
    ctx::reset(&setup(n));
    // Reference: keys by id, kept ids, others.
    let mut rk = keys.clone();
    let mut kept: Vec<u32> = if n > 0 { vec![0] } else { vec![] };
    let mut rest: Vec<u32> = vec![];
    let mut odd: Option<String> = None;
    let mut call = 0usize;
    let (base, step) = (g.view().as_ptr() as usize, lay.stride);
    let r = {
        let mut v = g.view_mut();
        let r = trap(|| {
            let (a, b) = v.partition_dedup_by(|a, b| {
                ctx::eq(a, b);
                let last = *kept.last().unwrap();
                if (a.id as usize, b.id) != (call + 1, last) && odd.is_none() {
                    odd = Some(format!("call {} got elements {} and {}, expected {} and {last}", call + 1, a.id, b.id, call + 1));
                }
                if (a as *const El).eq(&(b as *const El)) {
                    odd = Some("both references are to one element".into());
                }
                if change {
                    a.key = a.key.wrapping_mul(3) + call as u32;
                    b.key ^= 1 << (call % 13 + 10);
                    let x = &mut rk[call + 1];
                    *x = x.wrapping_mul(3) + call as u32;
                    rk[last as usize] ^= 1 << (call % 13 + 10);
                }
                let s = same(call);
                if s {
                    rest.push(call as u32 + 1)
                } else {
                    kept.push(call as u32 + 1)
                }
                call += 1;
                s
            });
            (ops::span(&a), ops::span(&b), a.iter().map(|e| e.id).collect::<Vec<_>>(), b.iter().map(|e| e.id).collect::<Vec<_>>())
        });
        r.map_err(|p| format!("panicked: {}", payload(&*p)))?
    };
    c.evaluations += 1;
    c.trace(ctx::trace() ^ n as u64);
    let (a, b, first, mut second) = r;
    if let Some(m) = odd {
        return Err(m);
    }
    if call != n.saturating_sub(1) {
        return Err(format!("{call} calls for {n} elements"));
    }
    g.intact(&rk).map_err(|e| format!("{e} (changes made by the callback included)"))?;
    if first != kept {
        return Err(format!("first view holds {first:?}, expected {kept:?}"));
    }
    second.sort_unstable();
    if second != rest {
        return Err(format!("second view holds (sorted) {second:?}, expected {rest:?}"));
    }
    let es = size_of::<El>() as isize;
    let at = |i: usize| (base as isize + step * es * i as isize) as usize;
    if a.len > 0 && a.ptr != at(0) || b.len > 0 && b.ptr != at(kept.len()) || a.len > 1 && a.stride != step || b.len > 1 && b.stride != step {
        return Err("the views do not cover the array in place".into());
    }
    Ok(())
}

fn dedup_once(c: &mut Checker, f: Form, k: &[u32], lay: Lay) -> Result<(), String> {
    let mut g = Grid::new(k, lay);
    let before: Vec<u32> = (0..k.len() as u32).collect();
    ctx::reset(&setup(k.len()));
    let op = Op::Dedup(f);
    let r = trap(|| ops::apply(&op, &mut g.view_mut())).map_err(|p| format!("{op:?} panicked: {}", payload(&*p)))?;
    c.evaluations += 1;
    c.trace(ctx::trace());
    ops::contract(&op, k, &before, &g, &r).map_err(|e| format!("{e} on {lay:?}"))
}

pub fn c16(c: &mut Checker) {
    types::sweep(c, &|_| vec![types::TOp::Dedup], false);
    c.section("every answer sequence");
    for n in 0..=c.pick(13usize, 17) {
        for bits in 0u32..1 << n.saturating_sub(1) {
            if c.next() {
                c.run(|| format!("n={n} answers {bits:b}"), |c| {
                    for lay in if n <= 9 { &LAYS[..] } else { &LAYS[..1] } {
                        for change in [false, true] {
                            scripted(c, n, *lay, change, &|i| bits >> i & 1 == 1).map_err(|e| format!("{e} [{lay:?}, changing {change}]"))?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("all words");
    for (n, k) in c.pick(vec![(0usize, 1u32), (1, 3), (2, 3), (3, 4), (4, 4), (5, 4), (6, 4), (7, 3), (8, 3), (9, 3)], vec![(0, 1), (1, 3), (2, 3), (3, 4), (4, 4), (5, 5), (6, 5), (7, 4), (8, 4), (9, 3), (10, 3), (11, 3), (14, 2)]) {
        gens::words(n, k, &mut |w| {
            if c.next() {
                c.run(|| format!("keys {w:?}"), |c| {
                    for f in FORMS {
                        for lay in if n <= 6 { &LAYS[..] } else { &LAYS[..1] } {
                            dedup_once(c, f, w, *lay)?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("run lengths and shapes");
    for n in (0..=c.pick(70usize, 160)).chain([100, 255, 256, 257, 300, 1000, 5001]) {
        for (name, k) in gens::shapes(n) {
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for f in FORMS {
                        dedup_once(c, f, &k, LAYS[n % LAYS.len()])?;
                        let mut s = k.clone();
                        s.sort_unstable();
                        dedup_once(c, f, &s, LAYS[(n + 3) % LAYS.len()])?;
                    }
                    Ok(())
                });
            }
        }
        for r in 1..=9usize.min(n) {
            if c.next() {
                c.run(|| format!("n={n}, runs of {r}"), |c| {
                    for lay in [FLAT, LAYS[(n + r) % LAYS.len()]] {
                        scripted(c, n, lay, true, &|i| (i + 1) % r != 0)?;
                        scripted(c, n, lay, true, &|i| (i + 1) % r == 0)?;
                        scripted(c, n, lay, true, &|i| i < n / r)?;
                        scripted(c, n, lay, true, &|i| i >= n / r)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("long runs");
    for n in c.pick(vec![70_003usize, 140_003], vec![20_011, 65_537, 70_003, 140_003, 270_001]) {
        for r in c.pick(vec![1usize, 2, 100, 255, 256, 257, 4096, 65_535, 65_536, 65_537, usize::MAX], vec![1, 2, 3, 10, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 32_767, 32_768, 65_535, 65_536, 65_537, 131_072, usize::MAX]) {
            if c.next() {
                c.run(|| format!("n={n}, runs of {r}"), |c| {
                    let lay = LAYS[(n % 1000 + r % 1000) % LAYS.len()];
                    scripted(c, n, lay, true, &|i| (i + 1) % r != 0)?;
                    scripted(c, n, FLAT, false, &|i| (i + 1) % r == 0)?;
                    scripted(c, n, FLAT, false, &|i| i < r)?;
                    scripted(c, n, lay, true, &|i| i >= r)?;
                    let k: Vec<u32> = (0..n).map(|i| (i / r) as u32).collect();
                    for f in FORMS {
                        dedup_once(c, f, &k, if f == Form::By { lay } else { FLAT })?;
                    }
                    Ok(())
                });
            }
        }
        for part in 0..4 {
            if c.next() {
                c.run(|| format!("n={n}, one answer that differs, part {part}"), |c| {
                    for at in gens::places(n - 1).into_iter().skip(part).step_by(4) {
                        scripted(c, n, LAYS[at % LAYS.len()], at % 2 == 0, &|i| i == at)?;
                        scripted(c, n, LAYS[(at + 3) % LAYS.len()], at % 2 == 1, &|i| i != at)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("one answer that differs, at every place");
    for n in 2..=c.pick(100usize, 257) {
        if c.next() {
            c.run(|| format!("n={n}, every place"), |c| {
                for at in 0..n - 1 {
                    scripted(c, n, LAYS[at % LAYS.len()], at % 2 == 0, &|i| i == at)?;
                    scripted(c, n, LAYS[(at + 3) % LAYS.len()], at % 2 == 1, &|i| i != at)?;
                }
                Ok(())
            });
        }
    }
    c.section("values not equal to themselves, other element types");
    let vals = [0.0f32, 1.0, f32::NAN, -0.0];
    for n in 0..=c.pick(6usize, 8) {
        gens::words(n, 4, &mut |w| {
            if c.next() {
                c.run(|| format!("word {w:?} over {vals:?}"), |c| {
                    let x: Vec<f32> = w.iter().map(|&i| vals[i as usize]).collect();
                    dedup_type(c, &x)?;
                    let t: Vec<(String, u8)> = w.iter().enumerate().map(|(i, &k)| (format!("key {k}"), if k == 3 { i as u8 } else { 0 })).collect();
                    dedup_type(c, &t)?;
                    let t: Vec<[u8; 3]> = w.iter().map(|&k| [k as u8 / 2, 5, 6]).collect();
                    dedup_type(c, &t)
                });
            }
        });
    }
}

fn dedup_type<T: PartialEq + Clone + std::fmt::Debug>(c: &mut Checker, x: &[T]) -> Result<(), String> {
    let mut kept: Vec<T> = vec![];
    for v in x {
        if kept.last().is_none_or(|l| *v != *l) {
            kept.push(v.clone());
        }
    }
    for form in 0..3 {
        let mut a = Array1::from_vec(x.to_vec());
        let (p, q) = match form {
            0 => a.partition_dedup(),
            1 => a.partition_dedup_by(|a, b| a == b),
            _ => a.partition_dedup_by_key(|a| a.clone()),
        };
        c.evaluations += 1;
        // NaN is not equal to itself: compared by its text.
        let text = |v: &mut dyn Iterator<Item = &T>| v.map(|e| format!("{e:?}")).collect::<Vec<_>>();
        let (got, want) = (text(&mut p.iter()), text(&mut kept.iter()));
        if got != want || p.len() + q.len() != x.len() {
            return Err(format!("dedup of {x:?} (form {form}): {got:?} and {} others", q.len()));
        }
        let mut all: Vec<String> = got.into_iter().chain(text(&mut q.iter())).collect();
        let mut orig = text(&mut x.iter());
        all.sort();
        orig.sort();
        if all != orig {
            return Err(format!("dedup of {x:?} (form {form}) lost elements: {all:?}"));
        }
    }
    c.trace(x.iter().fold(11, |h: u64, v| format!("{v:?}").bytes().fold(h, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn rev<T: Clone + PartialEq + std::fmt::Debug>(c: &mut Checker, n: usize, lay: Lay, mk: &dyn Fn(usize) -> T) -> Result<(), String> {
    let k = lay.stride.unsigned_abs();
    let span = if n == 0 { 0 } else { (n - 1) * k + 1 };
    let total = lay.off + span + lay.tail;
    let orig: Vec<T> = (0..total).map(mk).collect();
    let mut a = Array1::from_vec(orig.clone());
    let pos = |i: usize| lay.off + if lay.stride > 0 { i * k } else { (n - 1 - i) * k };
    let (lo, hi) = (lay.off as isize, (lay.off + span) as isize);
    let tn = std::any::type_name::<T>();
    for round in 1..=2 {
        let mut v: ArrayViewMut1<T> = a.slice_mut(s![lo..hi;lay.stride]);
        if v.len() != n {
            return Err("harness: view length".into());
        }
        v.reverse();
        c.evaluations += 1;
        let mut want = orig.clone();
        if round == 1 {
            for i in 0..n {
                want[pos(i)] = orig[pos(n - 1 - i)].clone();
            }
        }
        let got = a.as_slice().unwrap();
        if got != want {
            let at = (0..total).find(|&i| got[i] != want[i]).unwrap();
            return Err(format!("reverse of {n} × {tn} on {lay:?}, time {round}: cell {at} is {:?} instead of {:?}", got[at], want[at]));
        }
    }
    c.trace((n as u64) << 32 | (lay.stride as i16 as u16 as u64) << 8 | tn.len() as u64);
    Ok(())
}

pub fn c17(c: &mut Checker) {
    types::sweep(c, &|_| vec![types::TOp::Reverse], false);
    c.section("every length, layout and element type");
    let sizes: Vec<usize> = (0..=c.pick(300usize, 700)).chain([1000, 1023, 1024, 1025, 4096, 4097, 10_001, 65_535, 65_536, 65_537, 131_073]).collect();
    for n in sizes {
        for lay in LAYS {
            if c.next() {
                c.run(|| format!("n={n} {lay:?}, every element type"), |c| {
                    rev(c, n, lay, &|i| i as u8)?;
                    rev(c, n, lay, &|i| i as u16 ^ 0x5500)?;
                    rev(c, n, lay, &|i| [i as u8, (i >> 8) as u8, 7u8])?;
                    rev(c, n, lay, &|i| i as u32)?;
                    rev(c, n, lay, &|i| i as u64 * 0x1_0000_0001)?;
                    rev(c, n, lay, &|i| (i as u8, i as u64))?;
                    rev(c, n, lay, &|i| i as u128 * 3)?;
                    rev(c, n, lay, &|i| [i as u64; 9])?;
                    rev(c, n, lay, &|i| i.to_string())?;
                    rev(c, n, lay, &|i| Box::new(i))?;
                    rev(c, n, lay, &|_| ())
                });
            }
        }
    }
    c.section("elements move once, none is touched");
    for n in (0..=c.pick(300usize, 700)).chain([1000, 5001, 65_537, 70_002]) {
        for lay in LAYS {
            if c.next() {
                c.run(|| format!("n={n} {lay:?}"), |c| {
                    let keys = gens::perm(n, 3);
                    let mut g = Grid::new(&keys, lay);
                    ctx::reset(&setup(n));
                    g.view_mut().reverse();
                    g.intact(&keys)?;
                    if !g.ids().iter().rev().enumerate().all(|(i, &x)| i as u32 == x) {
                        return Err(format!("reverse gave {:?}", g.ids()));
                    }
                    // The halves and the middle on their own.
                    for (lo, hi) in [(0, n / 2), (n / 2, n), (n / 3, n - n / 3)] {
                        let mut g = Grid::new(&keys, lay);
                        ctx::reset(&setup(n));
                        g.view_mut().slice_mut(s![lo..hi]).reverse();
                        g.intact(&keys)?;
                        let want: Vec<u32> = (0..lo).chain((lo..hi).rev()).chain(hi..n).map(|x| x as u32).collect();
                        if g.ids() != want {
                            return Err(format!("reverse of positions {lo}..{hi} gave {:?}", g.ids()));
                        }
                        c.evaluations += 1;
                    }
                    Ok(())
                });
            }
        }
    }
}
