//! What operations cost: comparisons (C18, C19), memory (C20).
use crate::alloc;
use crate::ctx::{self, El, Fault, Setup};
use crate::engine::{Checker, payload};
use crate::gens::{self, Dir};
use crate::grid::{FLAT, Grid, LAYS, Lay};
use crate::ops::{self, FORMS, Form, Op, Sort, trap};
use crate::par::{self, Act, Chunk};
use crate::util::*;
use ndarray_slice::ndarray::ArrayView1;
use rayon_core::model::{Config, Policy};

/// Comparisons allowed: a generous multiple of what the algorithm needs on its worst inputs
/// known, far below what the next complexity class takes at the sizes used.
fn sort_bound(n: usize) -> f64 {
    6.0 * n as f64 * log2(n) + 400.0
}
fn select_bound(n: usize) -> f64 {
    60.0 * n as f64 + 2000.0
}
fn many_bound(n: usize, m: usize) -> f64 {
    let m = m.max(1);
    select_bound(n) + (12.0 * n as f64) * (m as f64).log2() + 100.0 * m as f64
}

fn quiet(n: usize) -> Setup {
    Setup { flags: 0, cap: 4_000_000 + 2000 * n as u64, ids: n, ..Setup::default() }
}

fn count(c: &mut Checker, op: &Op, keys: &[u32], lay: Lay) -> Result<u64, String> {
    let mut g = Grid::new(keys, lay);
    ctx::reset(&quiet(keys.len()));
    let r = trap(|| ops::apply(op, &mut g.view_mut()));
    c.evaluations += 1;
    c.trace(ctx::trace() ^ keys.len() as u64);
    match r {
        Ok(_) => Ok(ctx::calls()),
        Err(p) => Err(format!("{op:?} of {} elements: {}", keys.len(), payload(&*p))),
    }
}

fn bound_of(op: &Op, n: usize) -> (f64, &'static str, f64) {
    match op {
        Op::Sort(s) if s.stable() => (sort_bound(n), "comparisons of a stable sort over n log2 n", n as f64 * log2(n)),
        Op::Sort(_) => (sort_bound(n), "comparisons of an unstable sort over n log2 n", n as f64 * log2(n)),
        Op::Select(..) => (select_bound(n), "comparisons of a selection over n", n as f64),
        Op::Many(_, idx) => (many_bound(n, idx.len()), "comparisons of a bulk selection over n log2 (m + 1)", n as f64 * ((idx.len() + 1) as f64).log2().max(1.0)),
        _ => (f64::MAX, "", 1.0),
    }
}

fn within(c: &mut Checker, op: &Op, keys: &[u32]) -> Result<(), String> {
    let n = keys.len();
    let k = count(c, op, keys, FLAT)?;
    let (b, name, unit) = bound_of(op, n);
    if n >= 200 {
        c.maximum(name, k as f64 / unit);
    }
    if k as f64 > b { Err(format!("{} of {n} elements took {k} comparisons (allowed {b:.0})", brief(op))) } else { Ok(()) }
}

fn brief(op: &Op) -> String {
    match op {
        Op::Many(f, i) if i.len() > 12 => format!("Many({f:?}, {} indices)", i.len()),
        o => format!("{o:?}"),
    }
}

/// Index lists whose halving meets all shapes.
fn lists(n: usize) -> Vec<Vec<usize>> {
    let mut o = crate::seq::index_lists(n);
    o.retain(|l| !l.is_empty());
    for m in [2usize, 4, 16, 64, 256] {
        if m < n {
            o.push((1..m).map(|i| i * n / m).collect());
        }
    }
    for l in &mut o {
        l.dedup();
    }
    o
}

fn targets(n: usize) -> Vec<usize> {
    let mut t = vec![0, 1, 2, n / 100, n / 10, n / 4, n / 3, n / 2, n / 2 + 1, n * 2 / 3, n * 9 / 10, n - n / 100 - 1, n - 3, n - 2, n - 1];
    t.retain(|&i| i < n);
    t.dedup();
    t
}

pub fn c18(c: &mut Checker) {
    c.section("shapes: sorts and selections");
    for n in c.pick(vec![64usize, 300, 1000, 3000, 10_000], vec![64, 130, 300, 600, 1000, 2000, 3000, 6000, 10_000, 30_000, 100_000]) {
        for (name, k) in gens::shapes(n) {
            if c.next() {
                c.run(|| format!("n={n} {name}, sorts"), |c| {
                    for op in [Sort::SortBy, Sort::UnstBy] {
                        within(c, &Op::Sort(op), &k)?;
                    }
                    for op in [Sort::Plain, Sort::Unst] {
                        if n <= 3000 {
                            within(c, &Op::Sort(op), &k)?;
                        }
                    }
                    Ok(())
                });
            }
            for i in targets(n) {
                if c.next() {
                    c.run(|| format!("n={n} {name}, index {i}"), |c| within(c, &Op::Select(Form::By, i), &k));
                }
            }
            for (li, l) in lists(n).into_iter().enumerate() {
                if n > 5000 && li % 3 != n % 3 {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} {name}, index list {li}"), |c| within(c, &Op::Many(Form::By, l.clone()), &k));
                }
            }
        }
    }
    c.section("runs: stacks of every outline");
    for depth in c.pick(vec![4usize, 7, 10], vec![3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]) {
        for (ls, what) in crate::seq::deep_runs(depth, c.pick(3, 1)) {
            for (ds, rel) in crate::seq::deep_dirs(ls.len(), true) {
                if c.next() {
                    let keys = gens::runs(&ls, &ds, rel);
                    c.run(|| format!("{} runs {what} {rel:?} {:?}", ls.len(), &ds[..3]), |c| {
                        within(c, &Op::Sort(Sort::SortBy), &keys)?;
                        within(c, &Op::Sort(Sort::UnstBy), &keys)?;
                        within(c, &Op::Select(Form::By, keys.len() / 2), &keys)
                    });
                }
            }
        }
    }
    c.section("adaptive adversary, sorts");
    for n in c.pick(vec![300usize, 1000, 2500, 5000], vec![300, 600, 1000, 2000, 3000, 5000, 8000, 12_000]) {
        let tails = gens::shapes(n);
        for variant in 0..8u8 {
            for op in [Op::Sort(Sort::UnstBy), Op::Sort(Sort::SortBy)] {
                for (budget, tail) in plans(c, n, &tails) {
                    if c.next() {
                        let tn = tail.map_or("", |t| &t.0);
                        c.run(|| format!("n={n} adversary {variant} against {op:?}, budget {budget}, rest {tn}"), |c| against(c, n, variant, budget, tail, &op));
                    }
                }
            }
        }
    }
    c.section("adaptive adversary, selections");
    for n in c.pick(vec![300usize, 1000, 2500, 6000], vec![300, 600, 1000, 2000, 3000, 6000, 10_000, 20_000]) {
        let tails = gens::shapes(n);
        for variant in 0..8u8 {
            for i in targets(n) {
                for (pi, (budget, tail)) in plans(c, n, &tails).into_iter().enumerate() {
                    if (pi + i) % c.pick(3, 1) != 0 && pi > 0 {
                        continue;
                    }
                    if c.next() {
                        let tn = tail.map_or("", |t| &t.0);
                        c.run(|| format!("n={n} adversary {variant} against index {i}, budget {budget}, rest {tn}"), |c| against(c, n, variant, budget, tail, &Op::Select(Form::By, i)));
                    }
                }
            }
        }
    }
    c.section("adaptive adversary, bulk selections");
    for n in c.pick(vec![300usize, 1500, 4000], vec![300, 1000, 1500, 3000, 4000, 8000]) {
        let tails = gens::shapes(n);
        for variant in 0..8u8 {
            for (li, l) in lists(n).into_iter().enumerate() {
                for (pi, (budget, tail)) in plans(c, n, &tails).into_iter().enumerate() {
                    if (pi + li) % c.pick(5, 2) != 0 && pi > 0 {
                        continue;
                    }
                    if c.next() {
                        let tn = tail.map_or("", |t| &t.0);
                        c.run(|| format!("n={n} adversary {variant} against list {li}, budget {budget}, rest {tn}"), |c| against(c, n, variant, budget, tail, &Op::Many(Form::By, l.clone())));
                    }
                }
            }
        }
    }
    c.section("parallel operations");
    for n in c.pick(vec![2500usize, 6000, 12_000], vec![2050, 2500, 4100, 6000, 9000, 12_000, 25_000]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 6000 && si % c.pick(2, 1) != 0 {
                continue;
            }
            for act in acts(n) {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {}", act.name()), |c| {
                        for cfg in [(1, Policy::Owner), (2, Policy::Thief), (4, Policy::RoundRobin)] {
                            par_within(c, &act, &k, cfg)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("parallel operations, adaptive adversary");
    for n in c.pick(vec![600usize, 2500, 5000], vec![600, 1500, 2500, 4200, 5000, 8000, 12_000]) {
        let tails = gens::shapes(n);
        for variant in 0..8u8 {
            for act in acts(n) {
                for (pi, (budget, tail)) in plans(c, n, &tails).into_iter().enumerate() {
                    if pi % c.pick(3, 1) != 0 {
                        continue;
                    }
                    if c.next() {
                        let tn = tail.map_or("", |t| &t.0);
                        c.run(|| format!("n={n} adversary {variant} against {}, budget {budget}, rest {tn}", act.name()), |c| {
                            let one = Config { workers: 1, policy: Policy::Owner, script: vec![] };
                            let idx = match &act {
                                Act::Many(_, i) => i.clone(),
                                _ => vec![],
                            };
                            let k = adversarial(n, variant, budget, tail.map(|t| &t.1[..]), &mut |g| {
                                let _ = rayon_core::model::run(&one, || {
                                    trap(|| match &act {
                                        Act::Sort(s) => ops::sort(*s, &mut g.view_mut()),
                                        Act::Many(f, _) => {
                                            let mut v = g.view_mut();
                                            ops::par_select_many(*f, &mut v, ArrayView1::from(&idx[..]), &mut Vec::new())
                                        }
                                    })
                                });
                            });
                            par_within(c, &act, &k, (1, Policy::Owner))?;
                            par_within(c, &act, &k, (3, Policy::RoundRobin))
                        });
                    }
                }
            }
        }
    }
}

fn acts(n: usize) -> Vec<Act> {
    vec![
        Act::Sort(Sort::ParSortBy),
        Act::Sort(Sort::ParUnstBy),
        Act::Many(Form::By, vec![n / 2]),
        Act::Many(Form::By, (1..16).map(|i| i * n / 16).collect()),
        Act::Many(Form::By, vec![1, n / 3, n - 2]),
    ]
}

/// How much of the array the adversary decides and what the rest looks like.
fn plans<'a>(c: &Checker, n: usize, tails: &'a [gens::Named]) -> Vec<(usize, Option<&'a gens::Named>)> {
    let mut o = vec![(usize::MAX, None)];
    for (bi, b) in [n / 16, n / 6, n / 3].into_iter().enumerate() {
        for (ti, t) in tails.iter().enumerate() {
            if ti % c.pick(12, 5) == bi {
                o.push((b, Some(t)));
            }
        }
    }
    o
}

fn against(c: &mut Checker, n: usize, variant: u8, budget: usize, tail: Option<&gens::Named>, op: &Op) -> Result<(), String> {
    let k = adversarial(n, variant, budget, tail.map(|t| &t.1[..]), &mut |g| {
        ops::apply(op, &mut g.view_mut());
    });
    within(c, op, &k)
}

fn par_within(c: &mut Checker, act: &Act, keys: &[u32], cfg: par::Cfg) -> Result<(), String> {
    let n = keys.len();
    let st = quiet(n);
    let d = par::execute(act, keys, FLAT, &st, Some(&Config { workers: cfg.0, policy: cfg.1, script: vec![] }));
    let k = ctx::calls();
    par::book(c, &d.trace, d.trace.options.len());
    par::verify(&d, act, keys)?;
    let op = match act {
        Act::Sort(s) => Op::Sort(*s),
        Act::Many(f, i) => Op::Many(*f, i.clone()),
    };
    let (b, name, unit) = bound_of(&op, n);
    c.maximum(&format!("{name}, parallel"), k as f64 / unit);
    if k as f64 > b { Err(format!("{} of {n} elements took {k} comparisons (allowed {b:.0}) [{} workers, {:?}]", act.name(), cfg.0, cfg.1)) } else { Ok(()) }
}

// ---------------------------------------------------------------------------------------------

fn linear_bound(n: usize) -> f64 {
    5.0 * n as f64 + 300.0
}

const COMPARING: [Sort; 14] = ops::ALL_SORTS;

fn ordered(n: usize, kind: usize) -> Vec<u32> {
    let u = n as u32;
    match kind {
        0 => (0..u).collect(),
        1 => (0..u).rev().collect(),
        2 => vec![7; n],
        3 => (0..u).map(|i| i / 3).collect(),
        4 => (0..u).map(|i| if i < u / 2 { 0 } else { 1 }).collect(),
        _ => (0..u).map(|i| i / (u / 5).max(1)).collect(),
    }
}
const ORDERED: [&str; 6] = ["ascending", "descending", "equal", "ascending in threes", "two values ascending", "few values ascending"];

fn linear(c: &mut Checker, op: Sort, keys: &[u32], lay: Lay) -> Result<(), String> {
    let n = keys.len();
    let st = quiet(n);
    // Callbacks by key are two or three per comparison.
    let per = if op.cached() {
        return cached_linear(c, op, keys, lay);
    } else if op.by_key() {
        3
    } else {
        1
    };
    let (mut g, calls) = if op.par() {
        let d = par::execute(&Act::Sort(op), keys, lay, &st, Some(&Config { workers: 2, policy: Policy::Thief, script: vec![] }));
        let k = ctx::calls();
        par::book(c, &d.trace, d.trace.options.len());
        par::verify(&d, &Act::Sort(op), keys)?;
        (d.grid, k)
    } else {
        let mut g = Grid::new(keys, lay);
        ctx::reset(&st);
        trap(|| ops::sort(op, &mut g.view_mut())).map_err(|p| format!("{op:?} panicked: {}", payload(&*p)))?;
        let k = ctx::calls();
        c.evaluations += 1;
        after_sort(op, &g, keys)?;
        (g, k)
    };
    c.trace(ctx::trace() ^ n as u64);
    let k = calls / per;
    if n >= 1000 {
        c.maximum("comparisons on ordered input over n", k as f64 / n as f64);
    }
    if k as f64 > linear_bound(n) {
        return Err(format!("{op:?} of {n} ordered elements took {k} comparisons (allowed {:.0})", linear_bound(n)));
    }
    // Once more, on what it left.
    let first = g.ids();
    ctx::reset(&st);
    trap(|| ops::sort(op, &mut g.view_mut())).map_err(|p| format!("{op:?} panicked: {}", payload(&*p)))?;
    let k = ctx::calls() / per;
    c.evaluations += 1;
    g.intact(keys)?;
    g.sorted()?;
    if op.stable() && g.ids() != first {
        return Err(format!("{op:?} of the sorted array changed the order of equal elements"));
    }
    if k as f64 > linear_bound(n) {
        return Err(format!("{op:?} of {n} sorted elements took {k} comparisons (allowed {:.0})", linear_bound(n)));
    }
    Ok(())
}

/// The cached sort compares cached keys with std's sort: only its key calls are this crate's.
fn cached_linear(c: &mut Checker, op: Sort, keys: &[u32], lay: Lay) -> Result<(), String> {
    let mut g = Grid::new(keys, lay);
    ctx::reset(&quiet(keys.len()));
    trap(|| ops::sort(op, &mut g.view_mut())).map_err(|p| format!("{op:?} panicked: {}", payload(&*p)))?;
    c.evaluations += 1;
    after_sort(op, &g, keys)
}

pub fn c19(c: &mut Checker) {
    c.section("ordered inputs at every length");
    for n in (0..=c.pick(260usize, 700)).chain([300, 511, 512, 513, 1000, 1999, 2000, 2001, 2002, 4000, 4001, 5000, 5001, 8000, 10_007]) {
        for (kind, name) in ORDERED.iter().enumerate() {
            if c.next() {
                c.run(|| format!("n={n} {name}, every sort"), |c| {
                    for (i, op) in COMPARING.into_iter().enumerate() {
                        linear(c, op, &ordered(n, kind), LAYS[(n + i) % LAYS.len()])?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("long ordered inputs");
    for n in c.pick(vec![65_536usize, 100_003], vec![65_536, 100_003, 262_144, 1_000_003]) {
        for (kind, name) in ORDERED.iter().enumerate() {
            for op in COMPARING {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| linear(c, op, &ordered(n, kind), FLAT));
                }
            }
        }
    }
    c.section("a constant number of runs, stable");
    for n in c.pick(vec![1000usize, 8000, 65_536], vec![600, 1000, 3000, 8000, 30_000, 65_536, 200_000]) {
        for r in 1..=c.pick(5usize, 7) {
            for dirs in 0u32..1 << r {
                for (ri, rel) in gens::RELS.into_iter().enumerate() {
                    for cut in 0..4usize {
                        if n > 10_000 && (dirs as usize + ri + cut) % 5 != 0 {
                            continue;
                        }
                        if c.next() {
                            let lens: Vec<usize> = split(n, r, cut);
                            let ds: Vec<Dir> = (0..r).map(|i| if dirs >> i & 1 == 0 { Dir::Up } else { Dir::Down }).collect();
                            c.run(|| format!("runs {lens:?} {ds:?} {rel:?}"), |c| {
                                let keys = gens::runs(&lens, &ds, rel);
                                // A descending run with ties is no run.
                                let k = count(c, &Op::Sort(Sort::SortBy), &keys, FLAT)?;
                                let b = n as f64 * ((r as f64).log2() * 2.0 + 4.0) + 600.0;
                                c.maximum("comparisons on r runs over n (1 + log2 r)", k as f64 / (n as f64 * (1.0 + (r as f64).log2())));
                                if k as f64 > b { Err(format!("{k} comparisons of {n} elements in {r} runs (allowed {b:.0})")) } else { Ok(()) }
                            });
                        }
                    }
                }
            }
        }
    }
}

fn split(n: usize, r: usize, cut: usize) -> Vec<usize> {
    let mut left = n;
    let mut o = Vec::new();
    for i in 0..r {
        let rest = r - i - 1;
        let l = if rest == 0 {
            left
        } else {
            match cut {
                0 => left / (rest + 1),
                1 => left / 2,
                2 => (left / (2 * rest + 1)).max(1),
                _ => 25.min(left / (rest + 1)),
            }
        };
        o.push(l);
        left -= l;
    }
    o
}

// ---------------------------------------------------------------------------------------------

const NO_ALLOC_SORTS: [Sort; 3] = [Sort::Unst, Sort::UnstBy, Sort::UnstByKey];

fn frugal_ops(n: usize, idx: &[usize]) -> Vec<Op> {
    let mut o: Vec<Op> = NO_ALLOC_SORTS.into_iter().map(Op::Sort).collect();
    for f in FORMS {
        for &i in idx {
            if i < n {
                o.push(Op::Select(f, i));
            }
        }
        o.push(Op::Dedup(f));
        o.push(Op::IsSorted(f));
        o.push(Op::Search(f, n as u32 / 2));
    }
    o.push(Op::Point(n as u32 / 2));
    o.push(Op::Contains(n as u32));
    o.push(Op::Reverse);
    o
}

fn watched(c: &mut Checker, op: &Op, keys: &[u32], lay: Lay) -> Result<alloc::Window, String> {
    let n = keys.len();
    let mut g = Grid::new(keys, lay);
    ctx::reset(&setup(n));
    let mut v = g.view_mut();
    alloc::start(0);
    let r = trap(|| {
        let r = ops::apply(op, &mut v);
        match r {
            ops::Out::List(_) => ops::Out::Unit,
            r => r,
        }
    });
    let w = alloc::stop();
    c.evaluations += 1;
    c.trace(ctx::trace() ^ n as u64);
    r.map_err(|p| format!("{op:?} panicked: {}", payload(&*p)))?;
    g.intact(keys).map_err(|e| format!("{op:?}: {e}"))?;
    if w.live != 0 {
        return Err(format!("{} bytes of {op:?} are still allocated after it returned", w.live));
    }
    Ok(w)
}

fn frugal(c: &mut Checker, op: &Op, keys: &[u32], lay: Lay) -> Result<(), String> {
    let w = watched(c, op, keys, lay)?;
    if w.allocs > 0 { Err(format!("{op:?} of {} elements allocated {} times ({} bytes at most)", keys.len(), w.allocs, w.peak)) } else { Ok(()) }
}

/// Small bookkeeping of a stable sort.
const BOOKS: i64 = 4096;

fn half(c: &mut Checker, op: Sort, keys: &[u32], lay: Lay) -> Result<(), String> {
    let w = watched(c, &Op::Sort(op), keys, lay)?;
    let n = keys.len() as i64;
    let b = n * size_of::<El>() as i64 / 2 + BOOKS;
    if n >= 1000 {
        c.maximum("peak memory of a stable sort over the array", w.peak as f64 / (n as f64 * size_of::<El>() as f64));
    }
    c.maximum("allocations of one stable sort", w.allocs as f64);
    if w.peak > b { Err(format!("{op:?} of {n} elements held {} bytes (allowed {b})", w.peak)) } else { Ok(()) }
}

/// Nothing may remain allocated after an unwind from any callback.
fn unwound(c: &mut Checker, op: &Op, keys: &[u32], every: u64) -> Result<(), String> {
    let n = keys.len();
    let total = {
        let mut g = Grid::flat(keys);
        ctx::reset(&setup(n));
        let _ = trap(|| ops::apply(op, &mut g.view_mut()));
        ctx::calls()
    };
    let mut k = 1;
    while k <= total {
        let mut g = Grid::flat(keys);
        ctx::reset(&Setup { fault: k, ..setup(n) });
        let mut v = g.view_mut();
        alloc::start(0);
        let r = trap(|| {
            drop(ops::apply(op, &mut v));
        });
        let mine = matches!(&r, Err(p) if p.downcast_ref::<Fault>().is_some());
        drop(r);
        let w = alloc::stop();
        c.evaluations += 1;
        c.trace(ctx::trace() ^ k);
        if !mine {
            return Err(format!("{} with a panic in callback {k}: it did not reach the caller", brief(op)));
        }
        g.intact(keys).map_err(|e| format!("{} with a panic in callback {k}: {e}", brief(op)))?;
        if w.live != 0 {
            return Err(format!("{} with a panic in callback {k} of {total}: {} bytes are still allocated", brief(op), w.live));
        }
        k += every;
    }
    Ok(())
}

/// Lets the `fail`-th allocation fail, in a child process: it may end the process as a failed
/// allocation does, unwind or return; then all is released and every element is there.
fn starved(c: &mut Checker, op: &Op, keys: &[u32], fail: u64) -> Result<bool, String> {
    let n = keys.len();
    let mut pipe = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(pipe.as_mut_ptr()) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            libc::dup2(null, 1);
            libc::alarm(60);
        }
        let mut g = Grid::flat(keys);
        ctx::reset(&setup(n));
        let mut v = g.view_mut();
        alloc::start(fail);
        let r = trap(|| {
            drop(ops::apply(op, &mut v));
        });
        let ended = r.is_err();
        drop(r);
        let w = alloc::stop();
        let mut msg = String::new();
        if let Err(e) = g.intact(keys) {
            msg = e;
        } else if w.live != 0 {
            msg = format!("{} bytes are still allocated", w.live);
        } else if !ended && matches!(op, Op::Sort(_)) && g.sorted().is_err() {
            msg = "it returned without having sorted".into();
        }
        let code = if msg.is_empty() { if w.failed { 0 } else { 3 } } else { 1 };
        unsafe {
            libc::write(pipe[1], msg.as_ptr() as *const _, msg.len());
            libc::_exit(code);
        }
    }
    let mut st = 0;
    let mut buf = [0u8; 400];
    let got;
    unsafe {
        libc::close(pipe[1]);
        got = libc::read(pipe[0], buf.as_mut_ptr() as *mut _, buf.len());
        libc::close(pipe[0]);
        libc::waitpid(pid, &mut st, 0);
    }
    c.evaluations += 1;
    c.add("allocations made to fail", 1);
    let what = || format!("{} of {n} elements with allocation {fail} failing", brief(op));
    if libc::WIFEXITED(st) {
        return match libc::WEXITSTATUS(st) {
            0 => Ok(true),
            3 => Ok(false),
            1 => Err(format!("{}: {}", what(), String::from_utf8_lossy(&buf[..got.max(0) as usize]))),
            x => Err(format!("{}: the process ended with {x}", what())),
        };
    }
    match libc::WTERMSIG(st) {
        libc::SIGABRT => Ok(true),
        s => Err(format!("{}: the process was killed by signal {s}", what())),
    }
}

pub fn c20(c: &mut Checker) {
    c.section("no allocation: all weak orders");
    for n in 0..=c.pick(6usize, 7) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for op in frugal_ops(n, &[0, 1, 2, 3, 4, 5, 6]) {
                        frugal(c, &op, k, FLAT)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("no allocation: shapes");
    for n in (0..=c.pick(70usize, 200)).chain([100, 128, 257, 300, 600, 1025, 5001, 20_011, 70_003]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 6000 && si % c.pick(7, 2) != 0 {
                continue;
            }
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for (oi, op) in frugal_ops(n, &[0, n / 3, n / 2, n - n.min(1)]).into_iter().enumerate() {
                        if n <= 300 || (oi + si) % 3 == 0 {
                            frugal(c, &op, &k, LAYS[(n + si) % LAYS.len()])?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("no allocation: adversarial inputs");
    for n in c.pick(vec![60usize, 150, 300, 600, 2000], vec![40, 60, 80, 100, 150, 200, 250, 300, 400, 600, 1000, 2000, 4000]) {
        for variant in 0..8u8 {
            for op in [Op::Sort(Sort::UnstBy), Op::Select(Form::By, n / 2), Op::Select(Form::By, n - 3), Op::Select(Form::By, 2)] {
                if c.next() {
                    c.run(|| format!("n={n} adversary {variant} against {op:?}"), |c| {
                        let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                            ops::apply(&op, &mut g.view_mut());
                        });
                        frugal(c, &op, &k, FLAT)
                    });
                }
            }
        }
    }
    c.section("stable sorts: at most half, all released");
    for n in (0..=c.pick(60usize, 200)).chain([100, 255, 256, 257, 300, 600, 1025, 2001, 5001, 20_000]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for op in ops::STABLE_SEQ {
                        half(c, op, &k, LAYS[(n + si) % LAYS.len()])?;
                    }
                    watched(c, &Op::Sort(Sort::Cached), &k, FLAT)?;
                    for l in crate::seq::index_lists(n).into_iter().step_by(5) {
                        watched(c, &Op::Many(Form::By, l), &k, FLAT)?;
                    }
                    Ok(())
                });
            }
        }
    }
    let deep = |depth: usize, f: &mut dyn FnMut(String, Vec<u32>)| {
        for (ls, what) in crate::seq::deep_runs(depth, if depth > 13 { 6 } else { 3 }) {
            for (ds, rel) in crate::seq::deep_dirs(ls.len(), depth <= 10) {
                f(format!("{} runs {what} {rel:?} {:?}", ls.len(), &ds[..3]), gens::runs(&ls, &ds, rel));
            }
        }
    };
    c.section("stable sorts: deep run stacks");
    for depth in c.pick(vec![8usize, 17, 18], vec![8, 10, 12, 14, 15, 16, 17, 18, 19, 20]) {
        deep(depth, &mut |name, k| {
            if k.len() < 1_200_000 && c.next() {
                c.run(|| name.clone(), |c| half(c, Sort::SortBy, &k, FLAT));
            }
        });
    }
    c.section("all released after a panic in any callback");
    for n in 0..=c.pick(5usize, 6) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for op in ops::SEQ_SORTS {
                        unwound(c, &Op::Sort(op), k, 1)?;
                    }
                    for f in FORMS {
                        for i in 0..n {
                            unwound(c, &Op::Select(f, i), k, 1)?;
                        }
                        unwound(c, &Op::Many(f, (0..n).collect()), k, 1)?;
                        unwound(c, &Op::Dedup(f), k, 1)?;
                        unwound(c, &Op::IsSorted(f), k, 1)?;
                    }
                    Ok(())
                });
            }
        });
    }
    for n in c.pick(vec![12usize, 21, 25, 40, 64, 130], vec![11, 12, 20, 21, 22, 25, 30, 40, 50, 64, 100, 130, 200, 300]) {
        for (name, k) in gens::shapes(n) {
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for op in [Sort::SortBy, Sort::SortByKey, Sort::Plain, Sort::Cached, Sort::UnstBy] {
                        unwound(c, &Op::Sort(op), &k, 1)?;
                    }
                    unwound(c, &Op::Many(Form::By, vec![n / 3, n / 2]), &k, 1)
                });
            }
        }
    }
    for n in c.pick(vec![2003usize, 20_011, 70_003], vec![1030, 2003, 8200, 20_011, 65_537, 70_003, 140_003]) {
        for (name, k) in gens::long(n, c.pick(2, 10)) {
            for op in [Op::Sort(Sort::SortBy), Op::Sort(Sort::Cached), Op::Sort(Sort::UnstBy), Op::Many(Form::By, (0..n).step_by(2).collect()), Op::Dedup(Form::By)] {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| {
                        let calls = if matches!(op, Op::Sort(Sort::SortBy | Sort::UnstBy) | Op::Many(..)) { n as u64 * n.ilog2() as u64 } else { n as u64 };
                        unwound(c, &op, &k, calls / c.pick(10, 40) + 1)
                    });
                }
            }
        }
    }
    for depth in c.pick(vec![6usize, 17], vec![5, 6, 7, 8, 9, 10, 17, 18]) {
        deep(depth, &mut |name, k| {
            if k.len() < 400_000 && c.next() {
                c.run(|| name.clone(), |c| unwound(c, &Op::Sort(Sort::SortBy), &k, if depth > 12 { k.len() as u64 / 3 + 1 } else { k.len() as u64 / 40 + 1 }));
            }
        });
    }
    c.section("any allocation may fail");
    for n in [0usize, 1, 2, 20, 21, 22, 40, 100, 300, 1000, 5000, 70_003] {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if si % c.pick(5, 1) != n % c.pick(5, 1) {
                continue;
            }
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for op in [Sort::Plain, Sort::SortBy, Sort::SortByKey, Sort::Cached] {
                        let mut i = 1;
                        while starved(c, &Op::Sort(op), &k, i)? && i < 12 {
                            i += 1;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    for depth in c.pick(vec![17usize, 18], vec![15, 16, 17, 18, 19]) {
        let mut no = 0;
        deep(depth, &mut |name, k| {
            no += 1;
            if k.len() < 700_000 && (no % c.pick(2, 1) == 1) && c.next() {
                c.run(|| name.clone(), |c| {
                    let mut i = 1;
                    while starved(c, &Op::Sort(Sort::SortBy), &k, i)? && i < 12 {
                        i += 1;
                    }
                    c.maximum("allocations of one stable sort", i as f64 - 1.0);
                    Ok(())
                });
            }
        });
    }
    c.section("parallel operations: all released");
    for n in c.pick(vec![0usize, 1, 30, 2001, 4003, 6003], vec![0, 1, 2, 21, 30, 300, 1999, 2001, 4003, 5001, 6003, 10_001]) {
        for (ki, kinds) in [vec![Chunk::Mix], vec![Chunk::Asc, Chunk::Desc], vec![Chunk::Asc, Chunk::Mix, Chunk::Desc]].into_iter().enumerate() {
            let keys = par::blocks(n, 2000, &kinds, 2);
            let mut acts: Vec<Act> = ops::ALL_SORTS.into_iter().filter(|s| s.par()).map(Act::Sort).collect();
            if n > 4 {
                acts.push(Act::Many(FORMS[ki], vec![n / 3, n / 2, n - 1]));
            }
            for act in acts {
                for cfg in [(1, Policy::Owner), (2, Policy::Thief), (3, Policy::RoundRobin)] {
                    if c.next() {
                        c.run(|| format!("n={n} {kinds:?}, {}, {cfg:?}", act.name()), |c| par_released(c, &act, &keys, cfg));
                    }
                }
            }
        }
    }
}

/// A whole execution, repeated; once the scheduler's threads have settled it must leave nothing
/// allocated (what leaks, leaks every time). Then with panics.
fn par_released(c: &mut Checker, act: &Act, keys: &[u32], cfg: par::Cfg) -> Result<(), String> {
    let n = keys.len();
    let config = Config { workers: cfg.0, policy: cfg.1, script: vec![] };
    let g = par::stride(act, keys, 8);
    let mut calls = 0;
    let parts = c.pick(6, 20);
    for fault in 0..=parts {
        let st = Setup { fault: fault * calls / parts, ..par::par_setup(n, g) };
        if fault > 0 && st.fault == 0 {
            continue;
        }
        let mut live = 0;
        for _ in 0..6 {
            alloc::start(0);
            let d = par::execute(act, keys, FLAT, &st, Some(&config));
            let r = if fault == 0 { par::verify(&d, act, keys) } else { d.grid.intact(keys) };
            drop(d);
            live = alloc::stop().live;
            c.evaluations += 1;
            c.trace(ctx::trace() ^ st.fault);
            r?;
            if live == 0 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        if fault == 0 {
            calls = ctx::calls();
        }
        if live != 0 {
            return Err(format!("{} (panic in callback {}): {live} bytes are still allocated", act.name(), st.fault));
        }
        if let Some(m) = alloc::broken() {
            return Err(format!("{} (panic in callback {}): {m}", act.name(), st.fault));
        }
    }
    Ok(())
}
