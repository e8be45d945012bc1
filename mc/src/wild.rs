//! C11: comparators that are no order at all. The comparator is the nondeterministic environment:
//! its answers are enumerated.
use crate::ctx::{self, El, Setup};
use crate::engine::{Checker, payload};
use crate::gens;
use crate::grid::{FLAT, Grid, LAYS, Lay};
use crate::ops::{self, Form, Op, Out, Sort, trap};
use crate::par::{self, Act};
use crate::util::*;
use rayon_core::model::{Config, Policy};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

fn wild_setup(n: usize) -> Setup {
    Setup { flags: ctx::F_TRACE | ctx::F_CUSTOM, cap: 8 * cap(n) + 30 * (n as u64) * (n as u64), ids: n, ..Setup::default() }
}

/// One execution with answers from `f(call number, a, b)` (true: less; for equality: equal).
fn one(c: &mut Checker, op: &Op, keys: &[u32], lay: Lay, mut f: impl FnMut(u64, &El, &El) -> bool + Send + 'static) -> Result<u64, String> {
    let eq = matches!(op, Op::Dedup(_) | Op::Contains(_));
    let mut g = Grid::new(keys, lay);
    ctx::reset(&wild_setup(keys.len()));
    let mut n = 0u64;
    ctx::set_custom(Some(Box::new(move |a, b| {
        n += 1;
        match (f(n, a, b), eq) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, _) => Ordering::Greater,
        }
    })));
    let r = trap(|| ops::apply(op, &mut g.view_mut()));
    ctx::set_custom(None);
    c.evaluations += 1;
    c.trace(ctx::trace());
    match r {
        Err(p) => return Err(format!("{op:?} panicked: {}", payload(&*p))),
        Ok(Out::Odd(m)) => return Err(format!("{op:?}: {m}")),
        Ok(o) => structure(op, keys.len(), &o)?,
    }
    g.intact(keys).map_err(|e| format!("{op:?}: {e}"))?;
    Ok(ctx::calls())
}

/// What must be right about a result whatever the answers were.
fn structure(op: &Op, n: usize, o: &Out) -> Result<(), String> {
    let ok = match (op, o) {
        (Op::Select(_, i), Out::Tri(l, m, r)) => (*l, *m, *r) == (*i, *i, n - i - 1),
        (Op::Many(_, idx), Out::List(got)) => got.iter().copied().eq(idx.iter().map(|&i| (i, i))),
        (Op::Dedup(_), Out::Two(a, b)) => a + b == n && (n == 0 || *a > 0),
        _ => true,
    };
    if ok { Ok(()) } else { Err(format!("{op:?} returned {o:?}")) }
}

/// Every answer sequence of one operation: a depth-first walk over the answer tree, answers
/// beyond `depth` coming from `rest`.
fn every_answer(c: &mut Checker, op: &Op, keys: &[u32], depth: usize, rest: fn(u64, &El, &El) -> bool) -> Result<(), String> {
    let mut script: Vec<bool> = vec![];
    loop {
        let s = script.clone();
        let calls = one(c, op, keys, FLAT, move |n, a, b| match s.get(n as usize - 1) {
            Some(&x) => x,
            None if n as usize <= depth => false,
            None => rest(n, a, b),
        })
        .map_err(|e| format!("{e} [answers {script:?}, then {}]", if depth == usize::MAX { "no" } else { "policy" }))?;
        c.add("answer sequences", 1);
        // Next leaf.
        script.resize((calls as usize).min(depth), false);
        while script.last() == Some(&true) {
            script.pop();
        }
        match script.last_mut() {
            None => return Ok(()),
            Some(x) => *x = true,
        }
    }
}

fn by_ops(n: usize) -> Vec<Op> {
    let mut o = vec![Op::Sort(Sort::SortBy), Op::Sort(Sort::UnstBy)];
    if n > 0 {
        let mut idx = vec![0, 1, n / 3, n / 2, n.saturating_sub(2), n - 1];
        idx.retain(|&i| i < n);
        idx.dedup();
        o.extend(idx.into_iter().map(|i| Op::Select(Form::By, i)));
        let mut l = vec![n / 4, n / 2, n - 1];
        l.dedup();
        o.push(Op::Many(Form::By, l));
        o.push(Op::Many(Form::By, (0..n).step_by(3).collect()));
    }
    o.push(Op::Dedup(Form::By));
    o
}

pub fn c11(c: &mut Checker) {
    c.section("every answer sequence");
    for n in 0..=c.pick(6usize, 7) {
        let keys: Vec<u32> = (0..n as u32).collect();
        for op in by_ops(n) {
            c.case(|| format!("n={n} {op:?}"), |c| every_answer(c, &op, &keys, usize::MAX, |_, _, _| false));
        }
    }
    for n in 7..=c.pick(10usize, 14) {
        let keys: Vec<u32> = (0..n as u32).collect();
        c.case(|| format!("n={n} dedup"), |c| every_answer(c, &Op::Dedup(Form::By), &keys, usize::MAX, |_, _, _| false));
        for i in [0, n - 1] {
            c.case(|| format!("n={n} select {i}"), |c| every_answer(c, &Op::Select(Form::By, i), &keys, usize::MAX, |_, _, _| false));
        }
    }
    c.section("every answer prefix, then a fixed policy");
    let rests: [fn(u64, &El, &El) -> bool; 5] = [
        |_, _, _| false,
        |_, _, _| true,
        |_, a, b| a.key < b.key,
        |n, _, _| n % 2 == 0,
        |n, a, b| gens::mix(n, a.id as u64 * 77 + b.id as u64) % 2 == 0,
    ];
    let depth = c.pick(8, 13);
    for n in [8usize, 10, 11, 12, 13, 20, 21, 22, 30, 50, 51, 64, 130, 257, 300] {
        let keys = gens::perm(n, 1);
        for op in by_ops(n) {
            for (ri, rest) in rests.into_iter().enumerate() {
                if n > 100 && c.quick() && ri > 2 {
                    continue;
                }
                c.case(|| format!("n={n} {op:?}, {depth} free answers, then policy {ri}"), |c| every_answer(c, &op, &keys, depth, rest));
            }
        }
    }
    c.section("every periodic answer word");
    let top = c.pick(7, 10);
    for n in c.pick(vec![2usize, 3, 9, 10, 11, 12, 20, 21, 22, 33, 50, 51, 64, 100, 128, 257, 258, 300, 520], (2..=70).chain([80, 100, 128, 130, 200, 256, 257, 258, 259, 300, 384, 385, 400, 512, 513, 514, 520, 700, 1025, 1500]).collect()) {
        for len in 1..=top {
            if n > 150 && len > top - 2 {
                continue;
            }
            for bits in 0u32..1 << len {
                if c.next() {
                    c.run(|| format!("n={n} answers repeat {bits:0len$b}", len = len), |c| {
                        let keys: Vec<u32> = (0..n as u32).collect();
                        for op in by_ops(n) {
                            one(c, &op, &keys, FLAT, move |k, _, _| bits >> (k as usize % len) & 1 == 1)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("every pair of flipped answers of an order");
    for n in c.pick(vec![12usize, 22, 30, 51, 60], vec![11, 12, 13, 20, 21, 22, 30, 50, 51, 60, 64]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if c.quick() && (if n > 30 { !["asc", "asc, last smallest", "rotated by 1"].contains(&name.as_str()) } else { si % 5 != 0 }) {
                continue;
            }
            for op in by_ops(n) {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| {
                        let base = one(c, &op, &k, FLAT, |_, a, b| a.key < b.key)?;
                        let lim = base + 8;
                        for x in 1..=lim {
                            for y in x..=lim {
                                if y > x && lim > 120 && (y - x) % 7 != 1 {
                                    continue;
                                }
                                one(c, &op, &k, FLAT, move |n, a, b| (a.key < b.key) ^ (n == x) ^ (n == y && y != x))
                                    .map_err(|e| format!("{e} [answers {x} and {y} flipped]"))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("every flipped answer of an order, larger inputs");
    for n in c.pick(vec![257usize, 300], vec![128, 200, 257, 258, 300, 385, 513, 600]) {
        for (name, k) in gens::shapes(n).into_iter().step_by(c.pick(7, 2)) {
            for op in [Op::Sort(Sort::SortBy), Op::Sort(Sort::UnstBy), Op::Select(Form::By, n / 2), Op::Many(Form::By, vec![n / 5, n / 2])] {
                for r in 0..4 {
                    if c.next() {
                        c.run(|| format!("n={n} {name}, {op:?}, flips = {r} mod 4"), |c| {
                            let base = one(c, &op, &k, FLAT, |_, a, b| a.key < b.key)?;
                            let mut x = r + 1;
                            while x <= base {
                                one(c, &op, &k, FLAT, move |n, a, b| (a.key < b.key) ^ (n == x)).map_err(|e| format!("{e} [answer {x} flipped]"))?;
                                // From here on everything is the other way round.
                                one(c, &op, &k, FLAT, move |n, a, b| (a.key < b.key) ^ (n >= x)).map_err(|e| format!("{e} [answers from {x} on flipped]"))?;
                                x += 4 * if c.quick() { 3 } else { 1 };
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    c.section("flipped answers and periodic ones, long inputs");
    for n in c.pick(vec![2003usize, 20_011], vec![1030, 2003, 8200, 20_011, 70_003]) {
        for (name, k) in gens::long(n, c.pick(3, 10)) {
            for op in [Op::Sort(Sort::SortBy), Op::Sort(Sort::UnstBy), Op::Select(Form::By, n / 2), Op::Many(Form::By, vec![n / 5, n / 2]), Op::Dedup(Form::By)] {
                // Selections may take quadratic time where answers are no order.
                if n > 4000 && matches!(op, Op::Select(..) | Op::Many(..)) {
                    continue;
                }
                for r in 0..4 {
                    if c.next() {
                        c.run(|| format!("n={n} {name}, {op:?}, part {r}"), |c| {
                            let base = one(c, &op, &k, FLAT, |_, a, b| a.key < b.key)?;
                            let many = c.pick(12, 40);
                            for i in (r..many).step_by(4) {
                                let x = 1 + (2 * i + 1) * base / (2 * many);
                                one(c, &op, &k, FLAT, move |n, a, b| (a.key < b.key) ^ (n == x)).map_err(|e| format!("{e} [answer {x} flipped]"))?;
                                one(c, &op, &k, FLAT, move |n, a, b| (a.key < b.key) ^ (n >= x)).map_err(|e| format!("{e} [answers from {x} on flipped]"))?;
                                one(c, &op, &k, FLAT, move |n, a, b| (a.key < b.key) ^ (n % x == 0)).map_err(|e| format!("{e} [each {x}. answer flipped]"))?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
        for len in 1..=4usize {
            for bits in 0u32..1 << len {
                if c.next() {
                    c.run(|| format!("n={n} answers repeat {bits:0len$b}", len = len), |c| {
                        let keys: Vec<u32> = (0..n as u32).collect();
                        for op in by_ops(n).into_iter().filter(|o| n <= 4000 || !matches!(o, Op::Select(..) | Op::Many(..))) {
                            one(c, &op, &keys, FLAT, move |k, _, _| bits >> (k as usize % len) & 1 == 1)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("every relation on few elements");
    for n in [2usize, 3, 4] {
        let keys: Vec<u32> = (0..n as u32).collect();
        let pairs = n * n;
        let step = if n == 4 { c.pick(1u32, 1) } else { 1 };
        let mut m = 0u32;
        while m < 1 << pairs {
            if c.next() {
                c.run(|| format!("n={n} relation {m:b}"), |c| {
                    for op in by_ops(n) {
                        one(c, &op, &keys, FLAT, move |_, a, b| m >> (a.id as usize * n + b.id as usize) & 1 == 1)?;
                    }
                    Ok(())
                });
            }
            m += step;
        }
    }
    c.section("cyclic and scrambled relations");
    for n in c.pick(vec![11usize, 13, 21, 22, 33, 51, 100, 257, 300, 600, 1025, 2003, 20_011, 70_003], (11..=100).chain([128, 200, 257, 300, 400, 513, 600, 1000, 1025, 2003, 8200, 20_011, 65_537, 70_003]).collect()) {
        for kind in 0..c.pick(14u64, 40) {
            for lay in [FLAT, LAYS[5]] {
                if n > 8000 && (kind > 16 || (lay == FLAT) == (kind % 2 == 0)) {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} relation kind {kind}, {lay:?}"), |c| {
                        let keys = gens::perm(n, kind);
                        for op in by_ops(n).into_iter().filter(|o| n <= 4000 || !matches!(o, Op::Select(..) | Op::Many(..))) {
                            one(c, &op, &keys, lay, relation(kind, n as u32))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    searches(c);
    parallel(c);
}

fn relation(kind: u64, n: u32) -> impl Fn(u64, &El, &El) -> bool + Send + Sync + 'static {
    move |call, a, b| match kind {
        0 => (b.key + n - a.key) % n.max(1) < n / 2,
        1 => (b.key + 3 - a.key % 3) % 3 == 1,
        2 => a.key <= b.key,
        3 => a.key != b.key,
        4 => a.key % 5 < b.key % 7,
        5 => (a.key ^ b.key) % 2 == 1,
        6 => a.key > b.key && call % 3 != 0,
        7 => (a.key < b.key) ^ (call % 10 == 0),
        k => gens::mix(k, a.id as u64 * 4099 + b.id as u64) % 3 < 1 + (k % 2),
    }
}

/// Searches: every three-valued answer sequence.
fn searches(c: &mut Checker) {
    c.section("searches, every answer sequence");
    for n in c.pick((0usize..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128]).collect::<Vec<_>>(), (0..=130).chain([255, 256, 257, 300, 511, 512, 513]).collect()) {
        for lay in [FLAT, LAYS[3], LAYS[6]] {
            if c.next() {
                c.run(|| format!("n={n} {lay:?}"), |c| {
                    let keys: Vec<u32> = (0..n as u32).collect();
                    let mut script: Vec<u8> = vec![];
                    loop {
                        let g = Grid::new(&keys, lay);
                        ctx::reset(&setup(n));
                        let at = AtomicUsize::new(0);
                        let r = trap(|| {
                            ndarray_slice::Slice1Ext::binary_search_by(&g.view(), |e: &El| {
                                ctx::pred(e);
                                match script.get(at.fetch_add(1, Relaxed)).copied().unwrap_or(0) {
                                    0 => Ordering::Less,
                                    1 => Ordering::Greater,
                                    _ => Ordering::Equal,
                                }
                            })
                        });
                        c.evaluations += 1;
                        c.trace(ctx::trace());
                        g.intact(&keys).map_err(|e| format!("{e} [answers {script:?}]"))?;
                        match r {
                            Ok(Ok(i)) if i < n => {}
                            Ok(Err(i)) if i <= n => {}
                            Ok(x) => return Err(format!("binary search of {n} returned {x:?} [answers {script:?}]")),
                            Err(p) => return Err(format!("binary search of {n} panicked: {} [answers {script:?}]", payload(&*p))),
                        }
                        let calls = at.load(Relaxed);
                        if calls as f64 > 2.0 * (n as f64 + 1.0).log2() + 3.0 {
                            return Err(format!("binary search of {n} took {calls} probes [answers {script:?}]"));
                        }
                        script.resize(calls, 0);
                        while script.last() == Some(&2) {
                            script.pop();
                        }
                        match script.last_mut() {
                            None => return Ok(()),
                            Some(x) => *x += 1,
                        }
                    }
                });
            }
        }
    }
}

fn par_one(c: &mut Checker, act: &Act, keys: &[u32], cfg: (usize, Policy), f: Arc<dyn Fn(u64, &El, &El) -> bool + Send + Sync>) -> Result<(), String> {
    let n = keys.len();
    let st = Setup { flags: ctx::F_TRACE | ctx::F_CUSTOM | ctx::F_YIELD, stride: if n > 2000 { n as u64 } else { 0 }, ..wild_setup(n) };
    let calls = Arc::new(Mutex::new(0u64));
    ctx::set_custom(Some(Box::new(move |a, b| {
        let k = {
            let mut g = calls.lock().unwrap_or_else(|e| e.into_inner());
            *g += 1;
            *g
        };
        if f(k, a, b) { Ordering::Less } else { Ordering::Greater }
    })));
    let d = par::execute(act, keys, FLAT, &st, Some(&Config { workers: cfg.0, policy: cfg.1, script: vec![] }));
    ctx::set_custom(None);
    par::book(c, &d.trace, d.trace.options.len());
    if let Err(p) = &d.result {
        return Err(format!("{} panicked: {}", act.name(), payload(&**p)));
    }
    d.grid.intact(keys).map_err(|e| format!("{}: {e}", act.name()))?;
    if let Act::Many(_, idx) = act {
        let step = std::mem::size_of::<El>();
        if !d.prior || d.refs.len() != idx.len() || idx.iter().zip(&d.refs).any(|(&i, &r)| r != d.base + i * step) {
            return Err(format!("{}: the references are not those of the indices", act.name()));
        }
    }
    Ok(())
}

fn parallel(c: &mut Checker) {
    c.section("parallel operations, every pair of flipped answers of an order");
    for n in c.pick(vec![12usize, 22, 51, 60], vec![11, 12, 13, 20, 21, 22, 30, 50, 51, 60, 64, 80]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            // Ordered, nearly so, and some others.
            if c.quick() && !["asc", "desc", "asc, last smallest", "pipe", "mix 1", "rotated by 1", "saw up 5"].contains(&name.as_str()) || !c.quick() && n > 22 && si % 3 != 0 && si > 8 {
                continue;
            }
            for act in [Act::Sort(Sort::ParSortBy), Act::Sort(Sort::ParUnstBy), Act::Many(Form::By, vec![n / 3, n / 2, n - 2])] {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {}", act.name()), |c| {
                        let cfg = (1, Policy::Owner);
                        par_one(c, &act, &k, cfg, Arc::new(|_, a, b| a.key < b.key))?;
                        let lim = ctx::calls() + 8;
                        for x in 1..=lim {
                            for y in x..=lim {
                                if y > x && lim > 150 && (y - x) % c.pick(11, 5) != 1 {
                                    continue;
                                }
                                par_one(c, &act, &k, cfg, Arc::new(move |n, a, b| (a.key < b.key) ^ (n == x) ^ (n == y && y != x)))
                                    .map_err(|e| format!("{e} [answers {x} and {y} flipped]"))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("parallel operations");
    for n in c.pick(vec![3usize, 11, 21, 22, 64, 300, 2001, 4003, 6001], vec![3, 10, 11, 12, 20, 21, 22, 33, 51, 64, 100, 257, 300, 600, 1999, 2001, 4003, 5001, 6001, 8002]) {
        let acts = [Act::Sort(Sort::ParSortBy), Act::Sort(Sort::ParUnstBy), Act::Many(Form::By, vec![n / 3, n / 2, n - 1].into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect())];
        let cfgs: &[par::Cfg] = if n < 2000 { &[(1, Policy::Owner)] } else { &[(2, Policy::Thief), (3, Policy::RoundRobin)] };
        for act in &acts {
            for &cfg in cfgs {
                for kind in 0..c.pick(12u64, 30) {
                    if c.next() {
                        c.run(|| format!("n={n} {}, relation kind {kind}, {cfg:?}", act.name()), |c| {
                            let r = relation(kind, n as u32);
                            par_one(c, act, &gens::perm(n, kind), cfg, Arc::new(r))
                        });
                    }
                }
                let top = if n > 2000 { c.pick(3, 5) } else { c.pick(6, 9) };
                for len in 1..=top {
                    for bits in 0u32..1 << len {
                        if c.next() {
                            c.run(|| format!("n={n} {}, answers repeat {bits:0len$b}, {cfg:?}", act.name(), len = len), |c| {
                                par_one(c, act, &gens::perm(n, 1), cfg, Arc::new(move |k, _, _| bits >> (k as usize % len) & 1 == 1))
                            });
                        }
                    }
                }
                for f in 1..=c.pick(12u64, 60) {
                    if c.next() {
                        c.run(|| format!("n={n} {}, one in {f} answers flipped, {cfg:?}", act.name()), |c| {
                            par_one(c, act, &gens::perm(n, f), cfg, Arc::new(move |k, a, b| (a.key < b.key) ^ (k % (7 * f) == 0)))
                        });
                    }
                }
            }
        }
    }
}
