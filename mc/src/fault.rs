//! Panics injected at callbacks: C09 (sequential), C10 (parallel), C13 (changes inside elements).
use crate::ctx::{self, Fault, Setup};
use crate::engine::{Checker, payload};
use crate::gens;
use crate::grid::{FLAT, Grid, LAYS, Lay};
use crate::ops::{self, FORMS, Form, Op, Sort, trap};
use crate::par::{self, Act, Chunk};
use crate::util::*;
use rayon_core::model::{Config, Policy};

/// Which faults of a run with `n` callbacks to inject.
#[derive(Clone, Copy, Debug)]
pub enum At {
    Every,
    /// Every m-th, starting at the given one, and the first and last few.
    Some(u64, u64),
    /// So many, evenly spread over the run; those of a residue of four.
    Spread(u64, u64),
}

impl At {
    fn list(self, n: u64) -> Vec<u64> {
        match self {
            At::Every => (1..=n).collect(),
            At::Some(m, s) => (1..=n).filter(|k| (k + s) % m == 0 || *k <= 3 || k + 3 > n).collect(),
            At::Spread(m, r) => {
                let mut l: Vec<u64> = (0..m).filter(|i| i % 4 == r).map(|i| 1 + (2 * i + 1) * n / (2 * m)).filter(|k| *k <= n).collect();
                l.dedup();
                l
            }
        }
    }
}

fn hits_ok(g: &Grid, what: &str) -> Result<(), String> {
    let want = ctx::expected_hits();
    let raw = g.arr.as_slice().unwrap();
    for i in 0..g.n {
        let e = &raw[g.pos(i)];
        let h = e.hits.load(std::sync::atomic::Ordering::Relaxed);
        if h != want[e.id as usize] {
            return Err(format!("{what}: element {} was changed {} times by callbacks but holds {h} changes", e.id, want[e.id as usize]));
        }
    }
    Ok(())
}

/// Injects a panic at each callback of one operation on one input, one execution per callback.
pub fn faults(c: &mut Checker, op: &Op, keys: &[u32], lay: Lay, at: At, hits: bool) -> Result<(), String> {
    let n = keys.len();
    let base = Setup { flags: ctx::F_TRACE | if hits { ctx::F_HITS } else { 0 }, ..setup(n) };
    let mut base = base;
    base.cap = 4 * cap(n);
    let calls = {
        let mut g = Grid::new(keys, lay);
        ctx::reset(&base);
        let r = trap(|| ops::apply(op, &mut g.view_mut()));
        c.evaluations += 1;
        if let Err(p) = r {
            return Err(format!("{op:?} panicked without a fault: {}", payload(&*p)));
        }
        let calls = ctx::calls();
        if hits {
            g.intact(keys).map_err(|e| format!("{op:?}: {e}"))?;
            hits_ok(&g, &format!("{op:?}"))?;
        }
        calls
    };
    for k in at.list(calls) {
        let mut g = Grid::new(keys, lay);
        ctx::reset(&Setup { fault: k, ..base.clone() });
        let r = trap(|| ops::apply(op, &mut g.view_mut()));
        c.evaluations += 1;
        c.add("faults injected", 1);
        c.trace(ctx::trace().wrapping_add(k));
        let what = format!("{op:?} with a panic in callback {k} of {calls}");
        match r {
            Err(p) if p.downcast_ref::<Fault>().is_some_and(|f| f.0 == k) => {}
            Err(p) => return Err(format!("{what}: another panic reached the caller: {}", payload(&*p))),
            Ok(_) if ctx::fired() > 0 => return Err(format!("{what}: the panic did not reach the caller")),
            Ok(_) => return Err(format!("{what}: only {} callbacks this time", ctx::calls())),
        }
        g.intact(keys).map_err(|e| format!("{what}: {e}"))?;
        if hits {
            hits_ok(&g, &what)?;
            continue;
        }
        // Usable afterwards.
        ctx::reset(&base);
        if let Err(p) = trap(|| ops::sort(Sort::UnstBy, &mut g.view_mut())) {
            return Err(format!("{what}: sorting afterwards panicked: {}", payload(&*p)));
        }
        g.intact(keys).and_then(|_| g.sorted()).map_err(|e| format!("{what}: sorting afterwards: {e}"))?;
    }
    Ok(())
}

pub fn c09(c: &mut Checker) {
    fault_families(c, false);
}

fn fault_families(c: &mut Checker, hits: bool) {
    c.section("all weak orders, every operation, every callback");
    for n in 0..=c.pick(if hits { 4 } else { 5usize }, if hits { 5 } else { 6 }) {
        let lists: Vec<Vec<usize>> = (0u32..1 << n).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect();
        let lists: Vec<Vec<usize>> = if n < 5 { lists } else { lists.into_iter().step_by(3).collect() };
        let idx: Vec<usize> = (0..n).collect();
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for op in ops::all_ops(n, k.iter().max().map_or(0, |m| m + 1), &lists, &idx) {
                        faults(c, &op, k, FLAT, At::Every, hits)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("shapes, every operation, every callback");
    for n in c.pick(if hits { vec![11, 21, 40, 64] } else { vec![11usize, 12, 20, 21, 22, 33, 51, 64, 100] }, vec![8, 9, 10, 11, 12, 13, 19, 20, 21, 22, 23, 24, 33, 40, 50, 51, 52, 64, 100, 128, 150]) {
        let mut lists = vec![vec![n / 2], vec![0, n / 3, n / 2, n - 1], (0..n).step_by(3).collect()];
        lists.dedup();
        let idx = [0, 1, n / 3, n / 2, n - 2, n - 1];
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 40 && si % c.pick(4, 1) != 0 {
                continue;
            }
            for op in ops::all_ops(n, n as u32, &lists, &idx) {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| faults(c, &op, &k, FLAT, At::Every, hits));
                }
            }
        }
    }
    c.section("shapes in every layout, every callback");
    for n in [24usize, 60] {
        for (name, k) in gens::shapes(n).into_iter().step_by(c.pick(6, 2)) {
            for lay in &LAYS[1..] {
                for op in [Op::Sort(Sort::SortBy), Op::Sort(Sort::UnstBy), Op::Sort(Sort::Cached), Op::Select(Form::By, n / 2), Op::Many(Form::By, vec![n / 4, n / 2]), Op::Dedup(Form::By)] {
                    if c.next() {
                        c.run(|| format!("n={n} {name}, {op:?}, {lay:?}"), |c| faults(c, &op, &k, *lay, At::Every, hits));
                    }
                }
            }
        }
    }
    c.section("beyond the block length, every callback");
    for n in c.pick(vec![257usize, 300, 520], vec![256, 257, 258, 300, 385, 512, 513, 520, 641, 800]) {
        for (name, k) in gens::shapes(n).into_iter().step_by(c.pick(if hits { 12 } else { 6 }, 2)) {
            for op in [Op::Sort(Sort::SortBy), Op::Sort(Sort::UnstBy), Op::Select(Form::By, n / 2), Op::Select(Form::By, n / 7), Op::Many(Form::By, vec![n / 4, n / 2, n / 2 + 3, n - 2])] {
                // Split among the workers by residue.
                for r in 0..8u64 {
                    if c.next() {
                        c.run(|| format!("n={n} {name}, {op:?}, callbacks = {r} mod 8"), |c| faults(c, &op, &k, FLAT, At::Some(8, r), hits));
                    }
                }
            }
        }
    }
    c.section("steps around block lengths, every callback");
    let mut ins: Vec<(String, Vec<u32>)> = Vec::new();
    crate::seq::step_inputs(c, &mut |s, v| {
        if v.len() >= 257 && v.len() < 420 {
            ins.push((s, v));
        }
    });
    let every = c.pick(if hits { 700 } else { 320 }, if hits { 120 } else { 60 });
    for (s, k) in ins.into_iter().step_by(every) {
        let n = k.len() as u32;
        let distinct: Vec<u32> = k.iter().enumerate().map(|(i, &x)| x * n + (i as u32 * 7919) % n).collect();
        for (w, k) in [("", &k), (", distinct", &distinct)] {
            for op in [Op::Sort(Sort::UnstBy), Op::Select(Form::By, k.len() / 2)] {
                if c.next() {
                    c.run(|| format!("{s}{w}, {op:?}"), |c| faults(c, &op, k, FLAT, At::Every, hits));
                }
            }
        }
    }
    c.section("adversarial inputs, every callback");
    for n in c.pick(vec![40usize, 90, 150, 260], vec![30, 40, 50, 64, 77, 90, 100, 120, 150, 180, 200, 230, 260, 300, 400]) {
        for variant in 0..8u8 {
            for (name, op) in [("unstable", Op::Sort(Sort::UnstBy)), ("select", Op::Select(Form::By, n / 2)), ("select", Op::Select(Form::By, n - 3))] {
                if hits && variant % 3 != 0 {
                    continue;
                }
                for r in 0..4u64 {
                    if c.next() {
                        c.run(|| format!("n={n} adversary {variant} against {name}, {op:?}, callbacks = {r} mod 4"), |c| {
                            let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                                ops::apply(&op, &mut g.view_mut());
                            });
                            faults(c, &op, &k, FLAT, At::Some(4, r), hits)
                        });
                    }
                }
            }
        }
    }
    c.section("long arrays, callbacks spread over the run");
    for n in c.pick(vec![2003usize, 20_011, 70_003], vec![1030, 2003, 4097, 8200, 20_011, 40_003, 65_537, 70_003, 140_003]) {
        for (name, k) in gens::long(n, c.pick(3, 10)) {
            let ops = [Op::Sort(Sort::SortBy), Op::Sort(Sort::UnstBy), Op::Sort(Sort::Cached), Op::Select(Form::By, n / 3), Op::Many(Form::By, vec![n / 4, n / 2, n - 2]), Op::Dedup(Form::By)];
            for op in ops {
                for r in 0..4 {
                    if c.next() {
                        c.run(|| format!("n={n} {name}, {op:?}, part {r}"), |c| faults(c, &op, &k, FLAT, At::Spread(c.pick(16, 48), r), hits));
                    }
                }
            }
        }
    }
    for n in c.pick(vec![2003usize, 20_011], vec![1030, 2003, 8200, 20_011, 70_003]) {
        for variant in c.pick(vec![0u8, 5], (0..8).collect()) {
            for op in [Op::Sort(Sort::UnstBy), Op::Select(Form::By, n / 2), Op::Many(Form::By, vec![n / 3, n - 3])] {
                for r in 0..4 {
                    if c.next() {
                        c.run(|| format!("n={n} adversary {variant}, {op:?}, part {r}"), |c| {
                            let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                                ops::apply(&op, &mut g.view_mut());
                            });
                            faults(c, &op, &k, FLAT, At::Spread(c.pick(16, 48), r), hits)
                        });
                    }
                }
            }
        }
    }
    c.section("run stacks, every callback");
    for depth in c.pick(vec![4usize, 6], vec![4, 5, 6, 7, 8, 9]) {
        for (ls, what) in crate::seq::deep_runs(depth, 2).into_iter().step_by(c.pick(3, 1)) {
            for (ds, rel) in crate::seq::deep_dirs(ls.len(), true) {
                if c.next() {
                    let keys = gens::runs(&ls, &ds, rel);
                    c.run(|| format!("{} runs {what} {rel:?} {:?}", ls.len(), &ds[..3]), |c| faults(c, &Op::Sort(Sort::SortBy), &keys, FLAT, At::Every, hits));
                }
            }
        }
    }
}

// --- parallel --------------------------------------------------------------------------------

/// Injects panics into a parallel operation at the given callbacks under one schedule each.
/// `two`: distance to a second fault (0: none).
pub fn par_faults(c: &mut Checker, act: &Act, keys: &[u32], lay: Lay, cfg: (usize, Policy), at: At, two: u64, hits: bool, points: u64) -> Result<(), String> {
    let n = keys.len();
    let g = if points == 0 { 0 } else { par::stride(act, keys, points) };
    let mut base = par::par_setup(n, g);
    if hits {
        base.flags |= ctx::F_HITS;
    }
    let config = Config { workers: cfg.0, policy: cfg.1, script: vec![] };
    let d = par::execute(act, keys, lay, &base, Some(&config));
    let calls = ctx::calls();
    par::book(c, &d.trace, d.trace.options.len());
    par::verify(&d, act, keys)?;
    if hits {
        hits_ok(&d.grid, &act.name())?;
    }
    for k in at.list(calls) {
        par_fault(c, act, keys, lay, &config, &base, k, two, hits)?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn par_fault(c: &mut Checker, act: &Act, keys: &[u32], lay: Lay, config: &Config, base: &Setup, k: u64, two: u64, hits: bool) -> Result<(), String> {
    let st = Setup { fault: k, fault2: if two > 0 { k + two } else { 0 }, ..base.clone() };
    let d = par::execute(act, keys, lay, &st, Some(config));
    c.add("faults injected", ctx::fired());
    par::book(c, &d.trace, d.trace.options.len());
    let what = format!("{} with a panic in callback {k} [{} workers, {:?}, {:?}]", act.name(), config.workers, config.policy, config.script);
    after_par_fault(&d, keys, &what, |f| f == k || two > 0 && f == k + two)?;
    if hits {
        return hits_ok(&d.grid, &what);
    }
    // Later operations work: same threads, same array.
    let mut d = d;
    ctx::reset(base);
    let (r, _) = rayon_core::model::run(&Config { script: vec![], ..config.clone() }, || trap(|| ops::sort(Sort::ParUnstBy, &mut d.grid.view_mut())));
    if r.and_then(|x| x).is_err() {
        return Err(format!("{what}: sorting afterwards panicked"));
    }
    d.grid.intact(keys).and_then(|_| d.grid.sorted()).map_err(|e| format!("{what}: sorting afterwards: {e}"))
}

fn after_par_fault(d: &par::Done, keys: &[u32], what: &str, mine: impl Fn(u64) -> bool) -> Result<(), String> {
    match &d.result {
        Err(p) if p.downcast_ref::<Fault>().is_some_and(|f| mine(f.0)) => {}
        Err(p) => return Err(format!("{what}: another panic reached the caller: {}", payload(&**p))),
        Ok(()) if ctx::fired() > 0 => return Err(format!("{what}: the panic did not reach the caller")),
        Ok(()) => return Err(format!("{what}: only {} callbacks this time", ctx::calls())),
    }
    d.grid.intact(keys).map_err(|e| format!("{what}: {e}"))?;
    if !d.prior || !d.refs.is_empty() {
        return Err(format!("{what}: the vector does not hold just its previous contents"));
    }
    Ok(())
}

/// Operations and inputs whose executions are short enough for a panic at every callback.
fn light_acts(c: &Checker) -> Vec<(String, Act, Vec<u32>)> {
    let mut o: Vec<(String, Act, Vec<u32>)> = Vec::new();
    for (n, kinds, rel) in [
        (2050usize, vec![Chunk::Asc, Chunk::Asc], 1usize),
        (2050, vec![Chunk::Asc, Chunk::Mix], 2),
        (4040, vec![Chunk::Asc, Chunk::Desc, Chunk::Mix], 1),
        (4040, vec![Chunk::Asc, Chunk::Asc, Chunk::Asc], 2),
        (6010, vec![Chunk::Desc, Chunk::Asc, Chunk::Asc, Chunk::Near], 1),
        (5200, vec![Chunk::Asc, Chunk::Asc, Chunk::Near], 2),
    ] {
        o.push((format!("n={n} {kinds:?} relation {rel}"), Act::Sort(Sort::ParSortBy), par::blocks(n, 2000, &kinds, rel)));
    }
    for w in [[0u32, 1, 0, 1, 1, 0], [1, 1, 1, 0, 0, 0], [1, 0, 0, 1, 0, 1]] {
        o.push((format!("merge {w:?}"), Act::Sort(Sort::ParSortBy), par::interleaved(&w, 900, false)));
    }
    for (n, m) in [(2500usize, 7u32), (4200, 3), (4200, 50)] {
        o.push((format!("n={n} mix of {m} values"), Act::Sort(Sort::ParUnstBy), gens::perm(n, m as u64).into_iter().map(|x| x % m).collect()));
    }
    o.push(("n=2300 saw".into(), Act::Sort(Sort::ParUnstBy), (0..2300u32).map(|i| i % 16).collect()));
    for (n, idx) in [(2100usize, vec![1000usize, 2050]), (4300, vec![1000, 2100, 2200, 4000]), (4300, vec![0, 1, 2150, 4299])] {
        o.push((format!("n={n}"), Act::Many(Form::By, idx), gens::perm(n, 3)));
    }
    o.push(("n=2100 cached".into(), Act::Sort(Sort::ParCached), gens::perm(2100, 5)));
    o.push(("n=200 cached".into(), Act::Sort(Sort::ParCached), gens::perm(200, 5)));
    if !c.quick() {
        o.push(("n=8100".into(), Act::Sort(Sort::ParSortBy), par::blocks(8100, 2000, &[Chunk::Mix, Chunk::Asc, Chunk::Desc], 2)));
        o.push(("n=6100".into(), Act::Sort(Sort::ParUnstBy), gens::perm(6100, 9)));
        o.push(("n=4100 by key".into(), Act::Sort(Sort::ParSortByKey), gens::perm(4100, 9)));
        o.push(("n=4100 by key".into(), Act::Sort(Sort::ParUnstByKey), gens::perm(4100, 9)));
    }
    o
}

/// Panics while the fallbacks of the unstable operations are at work.
fn par_adversaries(c: &mut Checker, hits: bool) {
    for n in c.pick(if hits { vec![40usize, 150] } else { vec![40usize, 90, 150, 260] }, vec![30, 40, 50, 64, 77, 90, 100, 120, 150, 200, 260, 300, 400]) {
        for variant in 0..8u8 {
            if hits && c.quick() && variant % 3 != 0 {
                continue;
            }
            for act in par::quadratic(n) {
                if c.next() {
                    c.run(|| format!("n={n} adversary {variant} against {}", act.name()), |c| {
                        let k = par::against(&act, n, variant);
                        let at = if n <= 90 { At::Every } else { At::Some(c.pick(5, 1), variant as u64) };
                        par_faults(c, &act, &k, FLAT, (2, Policy::Thief), at, 0, hits, 0)
                    });
                }
            }
        }
    }
    for n in c.pick(vec![2300usize, 4300], vec![2040, 2300, 3100, 4300, 5500, 7000]) {
        for variant in 0..8u8 {
            for (ai, act) in par::quadratic(n).into_iter().enumerate() {
                for r in 0..c.pick(1u64, 8) {
                    if c.next() {
                        let cfg = [(2, Policy::Thief), (3, Policy::RoundRobin), (1, Policy::Owner), (4, Policy::Late)][(ai + variant as usize) % 4];
                        c.run(|| format!("n={n} adversary {variant} against {}, {cfg:?}, residue {r}", act.name()), |c| {
                            let k = par::against(&act, n, variant);
                            par_faults(c, &act, &k, FLAT, cfg, At::Some(c.pick(4001, 2003), 97 * r + variant as u64), 0, hits, 12)
                        });
                    }
                }
            }
        }
    }
}

pub fn c10(c: &mut Checker) {
    c.section("small inputs, every operation, every callback");
    for n in 0..=c.pick(4usize, 5) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for op in ops::ALL_SORTS.into_iter().filter(|s| s.par()) {
                        par_faults(c, &Act::Sort(op), k, FLAT, (2, Policy::Thief), At::Every, 0, false, 0)?;
                    }
                    for b in 0u32..1 << n {
                        let idx: Vec<usize> = (0..n).filter(|i| b >> i & 1 == 1).collect();
                        par_faults(c, &Act::Many(FORMS[b as usize % 3], idx), k, FLAT, (2, Policy::Owner), At::Every, 0, false, 0)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("shapes, every callback");
    for n in c.pick(vec![12usize, 21, 64], vec![11, 12, 20, 21, 22, 40, 64, 100, 257, 300]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if si % c.pick(4, 1) != 0 {
                continue;
            }
            let mut acts: Vec<Act> = ops::ALL_SORTS.into_iter().filter(|s| s.par()).map(Act::Sort).collect();
            acts.push(Act::Many(Form::By, vec![n / 3, n / 2]));
            for act in acts {
                if c.next() {
                    let lay = LAYS[si % LAYS.len()];
                    c.run(|| format!("n={n} {name}, {}, {lay:?}", act.name()), |c| par_faults(c, &act, &k, lay, (2, Policy::Thief), At::Every, 0, false, 0));
                }
            }
        }
    }
    c.section("every residue of callbacks under rotating schedules");
    let parts = 64u64;
    for (name, act, keys) in light_acts(c) {
        for r in 0..parts {
            // Quick: one of eight residues each, thorough: all, under several schedules.
            for (ci, &cfg) in par::CFGS[1..].iter().enumerate() {
                let on = if c.quick() { (r + 5 * ci as u64) % 96 == 0 } else { (r + ci as u64) % 12 < 2 };
                if on && c.next() {
                    c.run(|| format!("{name}, {}, callbacks = {r} mod {parts}, {cfg:?}", act.name()), |c| {
                        par_faults(c, &act, &keys, FLAT, cfg, At::Some(parts, r), 0, false, 12)
                    });
                }
            }
        }
    }
    c.section("deep merge trees, panics throughout");
    for n in c.pick(vec![8010usize, 10_004, 12_100, 16_500], vec![8001, 8010, 9990, 10_004, 12_100, 14_001, 16_500, 20_100, 32_300]) {
        for (kinds, rel) in [(vec![Chunk::Asc], 1usize), (vec![Chunk::Asc], 2), (vec![Chunk::Asc, Chunk::Desc], 2), (vec![Chunk::Near], 1)] {
            let keys = par::blocks(n, 2000, &kinds, rel);
            let act = Act::Sort(Sort::ParSortBy);
            for (ci, cfg) in [(1, Policy::Owner), (2, Policy::Thief), (3, Policy::RoundRobin), (4, Policy::Late)].into_iter().enumerate() {
                for r in 0..c.pick(1u64, 12) {
                    let parts = 397 + 2 * n as u64 / 100;
                    if c.next() {
                        c.run(|| format!("n={n} {kinds:?} relation {rel}, callbacks = {r} mod {parts}, {cfg:?}"), |c| {
                            par_faults(c, &act, &keys, FLAT, cfg, At::Some(parts, 31 * r + 7 * ci as u64 + 1), 0, false, 20)
                        });
                    }
                }
            }
        }
    }
    c.section("adversarial inputs, panics throughout");
    par_adversaries(c, false);
    c.section("two panics in one execution");
    for (name, act, keys) in light_acts(c) {
        for two in [1u64, 2, 7, 100, 1000] {
            for cfg in [(2, Policy::RoundRobin), (3, Policy::Thief), (4, Policy::RoundRobin)] {
                if c.next() {
                    c.run(|| format!("{name}, {}, a second panic {two} callbacks later, {cfg:?}", act.name()), |c| {
                        par_faults(c, &act, &keys, FLAT, cfg, At::Some(c.pick(4001, 801), two), two, false, 200)
                    });
                }
            }
        }
    }
    c.section("a panic under every schedule within one deviation");
    for (name, act, keys) in light_acts(c) {
        for cfg in [(2, Policy::Owner), (3, Policy::Thief)] {
            for f in 1..=c.pick(3u64, 9) {
                let parts = c.pick(4, 10);
                if c.next() {
                    c.run(|| format!("{name}, {}, {cfg:?}, panic at {f} of {parts}", act.name()), |c| {
                        let g = par::stride(&act, &keys, 10);
                        let base = par::par_setup(keys.len(), g);
                        let d = par::execute(&act, &keys, FLAT, &base, Some(&Config { workers: cfg.0, policy: cfg.1, script: vec![] }));
                        let k = ctx::calls() * f / parts;
                        par::verify(&d, &act, &keys)?;
                        par::explore(c, cfg, 1, &mut |_, config| {
                            let st = Setup { fault: k, ..base.clone() };
                            let d = par::execute(&act, &keys, FLAT, &st, Some(config));
                            let what = format!("{} with a panic in callback {k}", act.name());
                            // Another schedule may run out of callbacks before the fault.
                            let r = if ctx::fired() == 0 { par::verify(&d, &act, &keys) } else { after_par_fault(&d, &keys, &what, |f| f == k) };
                            (r, d.trace)
                        })
                        .map(|_| ())
                    });
                }
            }
        }
    }
    c.section("free-running pools");
    for (name, act, keys) in light_acts(c) {
        for f in 1..=c.pick(6u64, 40) {
            if c.next() {
                c.run(|| format!("{name}, {}, panic at part {f}, pools of 1, 2, 3 and 8 threads", act.name()), |c| {
                    let base = Setup { flags: 0, ..par::par_setup(keys.len(), 0) };
                    for (_, p) in par::pools() {
                        let st = Setup { fault: f * keys.len() as u64 / c.pick(8, 45) + 1, ..base.clone() };
                        let d = p.install(|| par::execute(&act, &keys, FLAT, &st, None));
                        c.evaluations += 1;
                        c.add("free-running executions", 1);
                        let what = format!("{} with a panic in callback {}", act.name(), st.fault);
                        if ctx::fired() == 0 {
                            par::verify(&d, &act, &keys)?;
                        } else {
                            after_par_fault(&d, &keys, &what, |x| x == st.fault)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

pub fn c13(c: &mut Checker) {
    fault_families(c, true);
    c.section("parallel operations, small inputs, every callback");
    for n in 0..=c.pick(4usize, 5) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for op in ops::ALL_SORTS.into_iter().filter(|s| s.par()) {
                        par_faults(c, &Act::Sort(op), k, FLAT, (2, Policy::Thief), At::Every, 0, true, 0)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("parallel operations, shapes");
    for n in c.pick(vec![12usize, 22, 64, 300, 2001, 5003], vec![12, 21, 22, 40, 64, 100, 257, 300, 600, 1999, 2001, 4003, 5003, 8001]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if n > 100 && si % c.pick(3, 1) != 0 {
                continue;
            }
            let mut acts: Vec<Act> = [Sort::ParSortBy, Sort::ParUnstBy, Sort::ParCached].into_iter().map(Act::Sort).collect();
            acts.push(Act::Many(Form::By, vec![n / 3, n / 2]));
            for act in acts {
                if c.next() {
                    let lay = LAYS[si % LAYS.len()];
                    c.run(|| format!("n={n} {name}, {}, {lay:?}", act.name()), |c| {
                        let at = if n <= 64 { At::Every } else { At::Some(if n > 1000 { 5000 } else { 97 }, si as u64) };
                        par_faults(c, &act, &k, lay, (3, Policy::RoundRobin), at, 0, true, if n > 1000 { 12 } else { 0 })
                    });
                }
            }
        }
    }
    c.section("parallel operations, adversarial inputs");
    par_adversaries(c, true);
    c.section("parallel operations, residues of callbacks under rotating schedules");
    let parts = 64u64;
    for (name, act, keys) in light_acts(c) {
        for r in 0..parts {
            for (ci, &cfg) in par::CFGS[1..].iter().enumerate() {
                let on = if c.quick() { (r + 5 * ci as u64) % 192 == 0 } else { (r + ci as u64) % 12 == 0 };
                if on && c.next() {
                    c.run(|| format!("{name}, {}, callbacks = {r} mod {parts}, {cfg:?}", act.name()), |c| {
                        par_faults(c, &act, &keys, FLAT, cfg, At::Some(parts, r), 0, true, 12)
                    });
                }
            }
        }
    }
}
