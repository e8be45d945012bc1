//! C27: running time, in basic blocks executed.
use crate::engine::Checker;
use crate::gens::{self, Dir};
use crate::meter::{Elem, Large, Op, Small, against, lists, outlines, spend};

fn log2(n: usize) -> f64 {
    (n.max(2) as f64).log2()
}

/// What the operation may take, as a function of the length; its name; the factor that belongs to it.
fn allowed(op: &Op, n: usize) -> (f64, &'static str, f64) {
    let f = n as f64;
    let m = |l: &Vec<usize>| f * ((l.len() + 1) as f64).log2().max(1.0);
    match op {
        Op::Sort | Op::ParSort => (f * log2(n), "blocks of a stable sort over n log2 n", 110.0),
        Op::Unst | Op::ParUnst => (f * log2(n), "blocks of an unstable sort over n log2 n", 130.0),
        Op::Cached | Op::ParCached => (f * log2(n), "blocks of a cached-key sort over n log2 n", 110.0),
        Op::Select(_) => (f, "blocks of a selection over n", 300.0),
        Op::Many(l) | Op::ParMany(l) => (m(l), "blocks of a bulk selection over n log2 (m + 1)", 300.0),
        Op::Dedup => (f, "blocks of partition_dedup over n", 40.0),
        Op::Reverse => (f, "blocks of reverse over n", 60.0),
        Op::IsSorted => (f, "blocks of is_sorted over n", 40.0),
        Op::Contains => (f, "blocks of contains over n", 40.0),
        Op::Search(_) => (log2(n), "blocks of binary_search over log2 n", 60.0),
        Op::Point(_) => (log2(n), "blocks of partition_point over log2 n", 60.0),
    }
}

fn within(c: &mut Checker, op: &Op, keys: &[u32], stride: isize) -> Result<(), String> {
    held::<Small>(c, op, keys, stride, "", 1.0)
}

fn held<T: Elem>(c: &mut Checker, op: &Op, keys: &[u32], stride: isize, kind: &str, more: f64) -> Result<(), String> {
    let n = keys.len();
    let s = spend::<T>(op, keys, stride, 0)?;
    c.evaluations += 1;
    c.trace(gens::mix(s.blocks, n as u64));
    let (unit, name, factor) = allowed(op, n);
    if n >= 300 {
        c.maximum(&format!("{name}{kind}"), s.blocks as f64 / unit);
    }
    let bound = more * factor * unit + 20_000.0;
    if s.blocks as f64 > bound { Err(format!("{} of {n} elements with stride {stride} took {} steps (allowed {bound:.0})", op.name(), s.blocks)) } else { Ok(()) }
}

/// Ordered inputs in linear time.
fn linear(c: &mut Checker, op: &Op, keys: &[u32]) -> Result<(), String> {
    let n = keys.len();
    let s = spend::<Small>(op, keys, 1, 0)?;
    c.evaluations += 1;
    c.trace(gens::mix(s.blocks, n as u64));
    let (name, factor) = match op {
        Op::Sort | Op::ParSort => ("blocks of a stable sort of an ordered array over n", 60.0),
        _ => ("blocks of an unstable sort of an ordered array over n", 60.0),
    };
    if n >= 300 {
        c.maximum(name, s.blocks as f64 / n as f64);
    }
    let bound = factor * n as f64 + 20_000.0;
    if s.blocks as f64 > bound { Err(format!("{} of {n} ordered elements took {} steps (allowed {bound:.0})", op.name(), s.blocks)) } else { Ok(()) }
}

const SORTS: [Op; 6] = [Op::Sort, Op::Unst, Op::Cached, Op::ParSort, Op::ParUnst, Op::ParCached];

pub fn c27(c: &mut Checker) {
    let sizes = c.pick(vec![300usize, 1000, 10_000, 60_000], vec![300, 1000, 3000, 10_000, 40_000, 150_000, 400_000]);
    c.section("shapes: sorts");
    for &n in &sizes {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for op in SORTS {
                if c.next() {
                    c.run(|| format!("{op:?} n={n} {name}"), |c| within(c, &op, &k, [1, 2, -1][si % 3]));
                }
            }
        }
    }
    c.section("shapes: selections");
    for &n in &sizes {
        let ls = lists(n);
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for i in [0, 1, n / 100, n / 3, n / 2, n - 2, n - 1] {
                if c.next() {
                    c.run(|| format!("select {i} n={n} {name}"), |c| within(c, &Op::Select(i), &k, [1, 2, -1][si % 3]));
                }
            }
            for (li, l) in ls.iter().enumerate() {
                if n > 5000 && li % c.pick(4, 2) != si % c.pick(4, 2) {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("select {} indices n={n} {name}", l.len()), |c| {
                        within(c, &Op::Many(l.clone()), &k, 1)?;
                        within(c, &Op::ParMany(l.clone()), &k, 1)
                    });
                }
            }
        }
    }
    c.section("shapes: the rest");
    for &n in &sizes {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            let u = n as u32;
            for op in [Op::Dedup, Op::Reverse, Op::IsSorted, Op::Contains, Op::Search(0), Op::Search(u / 3), Op::Search(3 * u), Op::Point(0), Op::Point(u / 3), Op::Point(3 * u)] {
                if c.next() {
                    c.run(|| format!("{op:?} n={n} {name}"), |c| within(c, &op, &k, [1, 2, -1][si % 3]));
                }
            }
        }
    }
    c.section("every length");
    for n in 21..c.pick(1200usize, 5000) {
        if c.next() {
            c.run(|| format!("n={n}"), |c| {
                let s = gens::shapes(n);
                for (i, op) in SORTS.into_iter().enumerate() {
                    within(c, &op, &s[(n + i * 7) % s.len()].1, 1)?;
                }
                let k = &s[n % s.len()].1;
                within(c, &Op::Dedup, k, 1)?;
                within(c, &Op::Reverse, k, 1)?;
                within(c, &Op::Select(n / 2), k, 1)?;
                within(c, &Op::Many((0..n).step_by(1 + n % 5).collect()), k, 1)?;
                within(c, &Op::ParMany((0..n).step_by(1 + n % 5).collect()), k, 1)
            });
        }
    }
    c.section("ordered inputs");
    for &n in &sizes {
        for (name, k) in gens::shapes(n).into_iter().take(5) {
            for op in [Op::Sort, Op::Unst, Op::ParSort, Op::ParUnst] {
                if name == "pairs desc" {
                    continue; // not strictly descending
                }
                if c.next() {
                    c.run(|| format!("{op:?} n={n} {name}"), |c| linear(c, &op, &k));
                }
            }
        }
    }
    c.section("run outlines");
    for unit in c.pick(vec![25usize, 60], vec![11, 25, 60, 130]) {
        for ls in outlines(c.pick(4, 6), unit) {
            for rel in gens::RELS {
                for d in 0..3 {
                    if ls.iter().sum::<usize>() > 200_000 || !c.next() {
                        continue;
                    }
                    let dirs: Vec<Dir> = (0..ls.len()).map(|i| [Dir::Up, Dir::Down, [Dir::Up, Dir::Down][i % 2]][d]).collect();
                    let k = gens::runs(&ls, &dirs, rel);
                    c.run(|| format!("{} runs of {unit}, {rel:?} {d}", ls.len()), |c| {
                        within(c, &Op::Sort, &k, 1)?;
                        within(c, &Op::ParSort, &k, 1)?;
                        within(c, &Op::Unst, &k, 1)
                    });
                }
            }
        }
    }
    c.section("adversaries");
    for n in c.pick(vec![1000usize, 5000, 20_000], vec![600, 1000, 2000, 5000, 10_000, 20_000, 60_000]) {
        for variant in 0..8u8 {
            for op in [Op::Unst, Op::ParUnst, Op::Select(n / 2), Op::Select(n / 7), Op::Many(vec![n / 4, n / 2, n - 3]), Op::ParMany(vec![n / 3, n - 9])] {
                for budget in [n / 8, n / 2, usize::MAX] {
                    if !c.next() {
                        continue;
                    }
                    c.run(|| format!("{} n={n} adversary {variant} with budget {budget}", op.name()), |c| {
                        let tails = gens::shapes(n);
                        for t in 0..c.pick(1, 4) {
                            let tail = &tails[(variant as usize * 5 + t * 7 + 2) % tails.len()].1;
                            let k = against(&op, n, variant, budget, Some(tail));
                            held::<Small>(c, &op, &k, 1, ", adversary", if matches!(op, Op::Unst | Op::ParUnst) { 1.0 } else { 6.0 })?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.section("repeats: all words of run lengths");
    for n in c.pick(vec![20_000usize], vec![20_000, 100_000]) {
        gens::words(c.pick(5, 7), 3, &mut |w| {
            if c.next() {
                c.run(|| format!("n={n}, runs of {w:?} in turn"), |c| {
                    let mut k = Vec::new();
                    let mut v = 0u32;
                    while k.len() < n {
                        for &x in w {
                            v += 1;
                            let len = [1usize, 2, 100][x as usize];
                            k.extend(std::iter::repeat_n(v, len));
                        }
                    }
                    k.truncate(n);
                    within(c, &Op::Dedup, &k, [1, 2, -1][w[0] as usize % 3])?;
                    within(c, &Op::Cached, &k, 1)
                });
            }
        });
    }
    c.section("cached keys: cycles of all kinds");
    for n in c.pick(vec![250usize, 20_000, 70_000], vec![250, 3000, 20_000, 65_000, 70_000, 200_000]) {
        let u = n as u32;
        let cycles: Vec<(String, Vec<u32>)> = (1..12)
            .map(|r| (format!("rotated by {}", n * r / 12), (0..u).map(|i| (i + (n * r / 12) as u32) % u).collect()))
            .chain([2u32, 3, 5, 10, 100].into_iter().map(|p| (format!("cycles of {p}"), (0..u).map(|i| if i % p == p - 1 || i + 1 == u { i / p * p } else { i + 1 }).collect())))
            .chain([(1u32, "once"), (7, "seven times"), (101, "101 times")].into_iter().map(|(k, s)| (format!("multiplied {s}"), (0..u).map(|i| (i as u64 * k as u64 % u as u64) as u32).collect())))
            .collect();
        for (name, k) in cycles {
            for op in [Op::Cached, Op::ParCached] {
                if c.next() {
                    c.run(|| format!("{op:?} n={n} {name}"), |c| within(c, &op, &k, 1));
                }
            }
        }
    }
    c.section("large elements");
    for n in c.pick(vec![300usize, 3000], vec![300, 1000, 3000, 10_000]) {
        for (name, k) in gens::shapes(n) {
            for op in [Op::Sort, Op::Unst, Op::Cached, Op::ParSort, Op::Select(n / 3), Op::Dedup, Op::Reverse] {
                if c.next() {
                    c.run(|| format!("{op:?} n={n} {name}, 512 bytes each"), |c| {
                        // Moves count sixteen times as much.
                        held::<Large>(c, &op, &k, 1, ", 512-byte elements", 6.0)
                    });
                }
            }
        }
    }
}
