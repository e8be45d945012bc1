//! C28: parallel operations share their work among the workers. Every callback costs its worker simulated
//! time under a greedy schedule; the time until the operation returns is held against work / workers.
use crate::ctx::{self, Setup};
use crate::engine::{Checker, payload};
use crate::gens;
use crate::grid::{FLAT, Lay};
use crate::ops::{FORMS, Form, STABLE_PAR, Sort, UNST_PAR};
use crate::par::{self, Act, CHUNKS};
use crate::util::*;
use rayon_core::model::{Config, Policy, Trace};

#[derive(Clone, Copy)]
struct Team {
    workers: usize,
    /// Workers at half speed.
    slow: u16,
    /// How far the running worker may be ahead of the others.
    quantum: u64,
}

fn team(workers: usize) -> Team {
    Team { workers, slow: 0, quantum: 100 }
}

fn timed(act: &Act, keys: &[u32], lay: Lay, t: Team) -> Result<Trace, String> {
    let st = Setup { flags: ctx::F_CLOCK, cap: 8 * cap(keys.len()), ids: keys.len(), ..Setup::default() };
    let cfg = Config { workers: t.workers, policy: Policy::Clock { quantum: t.quantum, slow: t.slow }, script: vec![] };
    let d = par::execute(act, keys, lay, &st, Some(&cfg));
    match d.result {
        Ok(()) => Ok(d.trace),
        Err(p) => Err(format!("{} of {}: {}", act.name(), keys.len(), payload(&*p))),
    }
}

/// What an operation may take beyond an equal share of its work with unboundedly many workers: per
/// element (any input, and inputs without pattern) and at least. A comparison by keys is three callbacks.
fn allowance(act: &Act, plain: bool) -> (f64, f64, f64, &'static str) {
    let (by_key, any, mixed, least, name) = match act {
        Act::Sort(s) if s.cached() => (false, 14.0, 4.0, 40_000.0, "time beyond an equal share, per element: sort by cached keys"),
        Act::Sort(s) if s.stable() => (*s == Sort::ParSortByKey, 0.35, 0.35, 50_000.0, "time beyond an equal share, per element: stable sort"),
        Act::Sort(s) => (*s == Sort::ParUnstByKey, 9.0, 3.5, 40_000.0, "time beyond an equal share, per element: unstable sort"),
        Act::Many(f, _) => (*f == Form::Key, 9.0, 6.5, 40_000.0, "time beyond an equal share, per element: bulk selection"),
    };
    (if plain { mixed } else { any }, least, if by_key { 3.0 } else { 1.0 }, name)
}

fn shared(c: &mut Checker, act: &Act, keys: &[u32], lay: Lay, plain: bool, t: Team) -> Result<(), String> {
    let n = keys.len();
    let r = timed(act, keys, lay, t)?;
    par::book(c, &r, r.options.len());
    let (per, least, unit, name) = allowance(act, plain);
    let per = per * (1.0 - 1.0 / t.workers as f64);
    let pace = if t.slow == 0 { 1.0 } else { 2.0 };
    let speed: f64 = (0..t.workers).map(|w| if t.slow >> w & 1 == 1 { 0.5 } else { 1.0 }).sum();
    let beyond = (r.time as f64 - r.ticks as f64 / speed) / pace / unit;
    if n >= 100_000 {
        c.maximum(name, beyond / n as f64);
    }
    if beyond > per * n as f64 + least {
        return Err(format!(
            "{} of {n} elements with {} workers ({} slow) returns after {} callbacks one after another of {} in all: {:.0} beyond an equal share (allowed {:.0})",
            act.name(), t.workers, t.slow.count_ones(), r.time, r.ticks, beyond, per * n as f64 + least
        ));
    }
    Ok(())
}

fn spread(n: usize, m: usize) -> Vec<usize> {
    (0..m).map(|i| (2 * i + 1) * n / (2 * m)).collect()
}

fn plain(name: &str) -> bool {
    name.len() == 5 && name.starts_with("mix ")
}

pub fn c28(c: &mut Checker) {
    let many = |n: usize, f: Form, m: usize| Act::Many(f, spread(n, m));
    c.section("shapes");
    for n in c.pick(vec![20_000usize, 140_000], vec![5_000, 10_000, 20_000, 50_000, 140_000, 300_000]) {
        for (name, k) in gens::shapes(n) {
            for w in c.pick(vec![2usize, 4, 8], vec![2, 3, 4, 5, 6, 7, 8, 16]) {
                if c.next() {
                    c.run(
                        || format!("n={n} {name}, {w} workers"),
                        |c| {
                            for act in [Act::Sort(Sort::ParSortBy), Act::Sort(Sort::ParUnstBy), Act::Sort(Sort::ParCached), many(n, Form::By, 255)] {
                                shared(c, &act, &k, FLAT, plain(&name), team(w))?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    c.section("every form");
    for n in c.pick(vec![100_000usize], vec![30_000, 100_000, 200_000]) {
        for s in 0..c.pick(1, 3) {
            let k = gens::perm(n, 40 + s);
            for w in [2, 4, 8] {
                for lay in [FLAT, Lay { stride: -2, ..FLAT }] {
                    let mut acts: Vec<Act> = STABLE_PAR.iter().chain(&UNST_PAR).map(|&s| Act::Sort(s)).collect();
                    acts.push(Act::Sort(Sort::ParCached));
                    for f in FORMS {
                        for m in [15, 255, n / 3] {
                            acts.push(many(n, f, m));
                        }
                    }
                    for act in acts {
                        if c.next() {
                            c.run(|| format!("n={n} mix {s}, {w} workers, {lay:?}, {}", act.name()), |c| shared(c, &act, &k, lay, true, team(w)));
                        }
                    }
                }
            }
        }
    }
    c.section("workers at half speed");
    let all = !c.quick();
    for n in c.pick(vec![60_000usize], vec![60_000, 150_000]) {
        for (name, k) in gens::shapes(n).into_iter().filter(|(s, _)| all || s.starts_with("mix")) {
            for slow in 1u16..8 {
                if c.next() {
                    c.run(
                        || format!("n={n} {name}, slow workers {slow:b}"),
                        |c| {
                            for act in [Act::Sort(Sort::ParSortBy), Act::Sort(Sort::ParUnstBy), Act::Sort(Sort::ParCached), many(n, Form::By, 255)] {
                                shared(c, &act, &k, FLAT, plain(&name), Team { slow, ..team(4) })?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    c.section("kinds of blocks");
    let n = c.pick(60_000, 150_000);
    for block in c.pick(vec![2000usize, 9000], vec![1000, 2000, 2001, 5000, 9000, 30_000]) {
        for a in CHUNKS {
            for b in CHUNKS {
                for rel in 0..5 {
                    if c.next() {
                        let k = par::blocks(n, block, &[a, b], rel);
                        c.run(
                            || format!("n={n} blocks of {block} {a:?} {b:?} rel {rel}"),
                            |c| {
                                for act in [Act::Sort(Sort::ParSortBy), Act::Sort(Sort::ParUnstBy), many(n, Form::By, 255)] {
                                    shared(c, &act, &k, FLAT, false, team(c.pick(4, 8)))?;
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}
