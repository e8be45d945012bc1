//! C01, C02, C04, C05: sequential sorting and selection on every input of the bounded families.
use crate::engine::Checker;
use crate::gens::{self, Dir, RELS, Rel};
use crate::grid::{FLAT, Grid, LAYS};
use crate::ops::{self, FORMS, Form, STABLE_SEQ, Sort, UNST_SEQ};
use crate::types;
use crate::util::*;

pub fn c01(c: &mut Checker) {
    sorts(c, &STABLE_SEQ);
    run_structured(c, &STABLE_SEQ[..1]);
    types::sweep(c, &|_| vec![types::TOp::Stable], true);
}

pub fn c02(c: &mut Checker) {
    sorts(c, &UNST_SEQ);
    partition_shapes(c, &UNST_SEQ[..1]);
    adversaries(c, &UNST_SEQ);
    types::sweep(c, &|_| vec![types::TOp::Unstable], true);
}

/// Beyond 16-bit positions and beyond each size class of the selection fallback.
pub fn long_sizes(c: &Checker) -> Vec<usize> {
    c.pick(vec![33_001, 65_537, 140_003], vec![20_011, 33_001, 65_535, 65_536, 65_537, 131_071, 131_072, 131_073, 140_003, 262_145, 600_011])
}

/// Input families common to all sorts.
fn sorts(c: &mut Checker, ops_: &[Sort]) {
    c.section("all weak orders");
    let full = c.pick(8, 9);
    for n in 0..=full + 1 {
        let ops: &[Sort] = if n < full { ops_ } else { &ops_[..1] };
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for &op in ops {
                        sort_once(c, op, k, FLAT)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("all binary words");
    for n in c.pick(vec![16, 21], vec![17, 19, 20, 21, 22, 23]) {
        gens::words(n, 2, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| sort_once(c, ops_[0], k, FLAT));
            }
        });
    }
    c.section("all ternary words");
    for n in c.pick(vec![10, 12], vec![11, 13, 14]) {
        gens::words(n, 3, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| sort_once(c, ops_[0], k, FLAT));
            }
        });
    }
    c.section("shapes at every length");
    let top = c.pick(330, 1200);
    let mut sizes: Vec<usize> = (0..=top).collect();
    sizes.extend([500, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1999, 2000, 2001, 4095, 4097, 5003, 8191, 10007]);
    if !c.quick() {
        sizes.extend([20011, 32768, 65535, 65536, 65537, 100_003, 262_144]);
    }
    for n in sizes {
        for (name, k) in gens::shapes(n) {
            for &op in ops_ {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| sort_once(c, op, &k, FLAT));
                }
            }
        }
    }
    c.section("long arrays");
    for n in long_sizes(c) {
        for (i, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if c.next() {
                let op = ops_[i % ops_.len()];
                let lay = LAYS[i / ops_.len() % LAYS.len()];
                c.run(|| format!("n={n} {name}, {op:?}, {lay:?}"), |c| sort_once(c, op, &k, lay));
            }
        }
    }
    c.section("shapes in every layout");
    for n in [0, 1, 2, 5, 11, 20, 21, 22, 33, 50, 51, 64, 100, 130, 257, 300] {
        for (name, k) in gens::shapes(n) {
            for lay in &LAYS[1..] {
                for &op in ops_ {
                    if c.next() {
                        c.run(|| format!("n={n} {name}, {op:?}, {lay:?}"), |c| sort_once(c, op, &k, *lay));
                    }
                }
            }
        }
    }
    c.section("every single move of a shape");
    for n in c.pick(vec![21, 24, 51, 64], vec![20, 21, 22, 23, 24, 30, 33, 40, 50, 51, 52, 64, 80, 100, 130]) {
        for (name, k) in gens::shapes(n) {
            for i in 0..n {
                for j in 0..n {
                    if i != j && c.next() {
                        c.run(
                            || format!("n={n} {name}, element {i} moved to {j}"),
                            |c| sort_once(c, ops_[0], &gens::moved(&k, i, j), FLAT),
                        );
                    }
                }
            }
        }
    }
    c.section("every pair of swaps in an ordered array");
    for n in c.pick(vec![22, 52], vec![21, 22, 50, 51, 52, 60]) {
        for base in 0..3 {
            let k: Vec<u32> = match base {
                0 => (0..n as u32).collect(),
                1 => (0..n as u32).rev().collect(),
                _ => (0..n as u32).map(|i| i / 3).collect(),
            };
            // Two independent adjacent-or-distant swaps.
            for a in 0..n - 1 {
                for da in [1, 2, n / 2] {
                    for b in a + 1..n - 1 {
                        for db in [1, 3, n / 3] {
                            if a + da < n && b + db < n && c.next() {
                                let mut v = k.clone();
                                v.swap(a, a + da);
                                v.swap(b, b + db);
                                c.run(|| format!("n={n} base {base}, swaps ({a},{}) ({b},{})", a + da, b + db), |c| sort_once(c, ops_[0], &v, FLAT));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Inputs made of runs, for the merge sorts.
pub fn run_structured(c: &mut Checker, ops_: &[Sort]) {
    let lens = [1usize, 2, 3, 9, 10, 11, 12, 20, 21, 33];
    let dirs_of = |bits: usize, k: usize| -> Vec<Dir> { (0..k).map(|i| if bits >> i & 1 == 1 { Dir::Down } else { Dir::Up }).collect() };
    for k in 2..=c.pick(4, 5) {
        c.section(&format!("all sequences of {k} runs"));
        let lens: &[usize] = match k {
            4 => &[1, 3, 10, 11, 21],
            5 => &[2, 9, 11, 20, 33],
            _ => &lens,
        };
        gens::words(k, lens.len() as u32, &mut |w| {
            let ls: Vec<usize> = w.iter().map(|&x| lens[x as usize]).collect();
            for bits in 0..1 << k {
                for rel in RELS {
                    if c.next() {
                        let ds = dirs_of(bits, k);
                        let keys = gens::runs(&ls, &ds, rel);
                        c.run(|| format!("runs {ls:?} {ds:?} {rel:?}"), |c| {
                            for &op in ops_ {
                                sort_once(c, op, &keys, FLAT)?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        });
    }
    c.section("run stacks: all words of run lengths");
    let (len, alpha): (usize, &[usize]) = c.pick((7, &[10, 12, 23, 45]), (9, &[10, 12, 23, 45]));
    gens::words(len, alpha.len() as u32, &mut |w| {
        for rel in [Rel::Below, Rel::Mixed, Rel::Ties] {
            if c.next() {
                let ls: Vec<usize> = w.iter().map(|&x| alpha[x as usize]).collect();
                let ds: Vec<Dir> = (0..len).map(|i| if (i + w[0] as usize).is_multiple_of(2) { Dir::Up } else { Dir::Down }).collect();
                let keys = gens::runs(&ls, &ds, rel);
                c.run(|| format!("runs {ls:?} {ds:?} {rel:?}"), |c| {
                    for &op in ops_ {
                        sort_once(c, op, &keys, FLAT)?;
                    }
                    Ok(())
                });
            }
        }
    });
    c.section("deep run stacks");
    for depth in c.pick(vec![6, 10, 12, 16, 17, 18], vec![6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]) {
        for (ls, what) in deep_runs(depth, c.pick(if depth > 13 { 6 } else { 3 }, 1)) {
            for (ds, rel) in deep_dirs(ls.len(), c.pick(depth <= 13, true)) {
                if c.next() {
                    let keys = gens::runs(&ls, &ds, rel);
                    c.run(|| format!("{} runs {what} {rel:?} {:?}", ls.len(), &ds[..3]), |c| {
                        for &op in ops_ {
                            sort_once(c, op, &keys, FLAT)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

/// Directions and relations for which the runs stay separate, or merge only at their seams.
pub fn deep_dirs(k: usize, all: bool) -> Vec<(Vec<Dir>, Rel)> {
    let up = vec![Dir::Up; k];
    let down = vec![Dir::Down; k];
    let zig: Vec<Dir> = (0..k).map(|i| if i % 2 == 0 { Dir::Up } else { Dir::Down }).collect();
    let zag: Vec<Dir> = (0..k).map(|i| if i % 2 == 1 { Dir::Up } else { Dir::Down }).collect();
    let mut o = vec![(up.clone(), Rel::Below), (down.clone(), Rel::Above), (zig.clone(), Rel::Mixed)];
    if all {
        o.extend([(up.clone(), Rel::Mixed), (down.clone(), Rel::Mixed), (up, Rel::Ties), (down, Rel::Ties)]);
        o.extend([(zig.clone(), Rel::Below), (zig, Rel::Ties), (zag.clone(), Rel::Above), (zag.clone(), Rel::Mixed), (zag, Rel::Ties)]);
    }
    o
}

/// Run lengths (in both orders of traversal) that keep as many runs pending as possible, and
/// each single deviation from them.
pub fn deep_runs(depth: usize, every: usize) -> Vec<(Vec<usize>, String)> {
    // Each run outweighs the next two by three, so that neither seams that shift by one element
    // nor the single deviations by one let any pair be merged.
    let mut fib = vec![11usize, 15];
    while fib.len() < depth {
        let k = fib.len();
        fib.push(fib[k - 1] + fib[k - 2] + 3);
    }
    fib.truncate(depth);
    let mut o = Vec::new();
    for up in [false, true] {
        if up && depth > 13 {
            continue;
        }
        let mut b = fib.clone();
        if !up {
            b.reverse();
        }
        o.push((b.clone(), format!("depth {depth}, growing {up}")));
        for i in (0..depth).step_by(every) {
            for d in [-1isize, 1, 30] {
                let mut v = b.clone();
                v[i] = (v[i] as isize + d) as usize;
                o.push((v, format!("depth {depth}, growing {up}, run {i} changed by {d}")));
            }
        }
    }
    o
}

/// Few-valued step inputs around the block lengths of the partition loops.
pub fn step_inputs(c: &Checker, f: &mut dyn FnMut(String, Vec<u32>)) {
    let sizes: Vec<usize> = c.pick(
        vec![255, 256, 257, 258, 259, 260, 300, 383, 384, 385, 386, 400, 511, 512, 513, 514, 515, 640, 641, 770],
        (250..=400).chain(500..=530).chain(630..=660).chain([700, 767, 768, 769, 770, 771, 900, 1023, 1024, 1025, 1026, 1300]).collect(),
    );
    for n in sizes {
        let fine = c.pick(16, 8);
        let mut cuts: Vec<usize> = (1..n).step_by(fine).collect();
        for b in [1, 2, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257] {
            for x in [b, n.saturating_sub(b), n / 2 + b % 3] {
                if x > 0 && x < n {
                    cuts.push(x);
                }
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        gens::steps(n, &cuts, &[&[0, 1, 0], &[1, 0, 1], &[1, 0, 2], &[2, 0, 1], &[1, 2, 0], &[0, 2, 1], &[2, 1, 0]], f);
        let coarse: Vec<usize> = cuts.iter().copied().step_by(4).collect();
        gens::steps(n, &coarse, &[&[1, 0, 1, 0], &[0, 1, 0, 1], &[1, 2, 0, 1], &[2, 0, 2, 1]], f);
    }
}

fn partition_shapes(c: &mut Checker, ops_: &[Sort]) {
    c.section("steps around block lengths");
    let mut ins: Vec<(String, Vec<u32>)> = Vec::new();
    step_inputs(c, &mut |s, v| ins.push((s, v)));
    for (s, v) in ins {
        if c.next() {
            c.run(|| s.clone(), |c| {
                for &op in ops_ {
                    sort_once(c, op, &v, FLAT)?;
                    // Same outline with all keys distinct.
                    let n = v.len() as u32;
                    let w: Vec<u32> = v.iter().enumerate().map(|(i, &x)| x * n + (i as u32 * 7919) % n).collect();
                    sort_once(c, op, &w, FLAT)?;
                }
                Ok(())
            });
        }
    }
}

fn adversaries(c: &mut Checker, ops_: &[Sort]) {
    c.section("adversary at every length");
    for n in 21..c.pick(1300usize, 6500) {
        for variant in 0..8u8 {
            if (!c.quick() || variant as usize == n % 8) && c.next() {
                c.run(|| format!("n={n} adversary {variant}"), |c| {
                    let k = adversarial(n, variant, usize::MAX, None, &mut |g| ops::sort(Sort::UnstBy, &mut g.view_mut()));
                    sort_once(c, ops_[n % ops_.len()], &k, FLAT)
                });
            }
        }
    }
    c.section("adversary, long arrays");
    for n in long_sizes(c) {
        for variant in 0..8u8 {
            if c.next() {
                c.run(|| format!("n={n} adversary {variant}"), |c| {
                    let k = adversarial(n, variant, usize::MAX, None, &mut |g| ops::sort(Sort::UnstBy, &mut g.view_mut()));
                    sort_once(c, ops_[0], &k, FLAT)
                });
            }
        }
    }
    c.section("adversarial inputs");
    let sizes: Vec<usize> = c.pick(
        (21..=160).step_by(7).chain([22, 50, 51, 64, 128, 200, 256, 257, 300, 400, 512, 600, 1000, 2000]).collect(),
        (21..=700).chain([1000, 1500, 2000, 3000, 5000]).collect(),
    );
    for n in sizes {
        for variant in 0..8u8 {
            if c.next() {
                c.run(|| format!("n={n} adversary {variant}"), |c| {
                    let k = adversarial(n, variant, usize::MAX, None, &mut |g| ops::sort(Sort::UnstBy, &mut g.view_mut()));
                    for &op in ops_ {
                        sort_once(c, op, &k, FLAT)?;
                    }
                    Ok(())
                });
            }
            // Bounded adversary: the fallback meets a remainder of any shape.
            let tails = gens::shapes(n);
            for budget in [n / 8, n / 4, n / 3, n / 2, n * 2 / 3] {
                for (name, tail) in tails.iter().step_by(c.pick(3, 1)) {
                    if n > 700 {
                        continue;
                    }
                    if c.next() {
                        c.run(|| format!("n={n} adversary {variant}, budget {budget}, rest {name}"), |c| {
                            let k = adversarial(n, variant, budget, Some(tail), &mut |g| ops::sort(Sort::UnstBy, &mut g.view_mut()));
                            sort_once(c, ops_[0], &k, FLAT)
                        });
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub fn c04(c: &mut Checker) {
    types::sweep(c, &types::selects, false);
    c.section("all weak orders, every index");
    let full = c.pick(7, 8);
    for n in 0..=full + 1 {
        let forms: &[Form] = if n < full { &FORMS } else { &FORMS[..1] };
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}, every index", show(k)), |c| {
                    for &f in forms {
                        for i in 0..=n {
                            select_once(c, f, k, i, FLAT)?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("all binary words, every index");
    for n in c.pick(vec![11, 12, 13, 16], vec![11, 12, 13, 14, 15, 16, 18]) {
        gens::words(n, 2, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}, every index", show(k)), |c| {
                    for i in 0..n {
                        select_once(c, Form::By, k, i, FLAT)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("all ternary words, every index");
    for n in c.pick(vec![11], vec![11, 12]) {
        gens::words(n, 3, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}, every index", show(k)), |c| {
                    for i in 0..n {
                        select_once(c, Form::By, k, i, FLAT)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("shapes at every length");
    let top = c.pick(130, 300);
    for n in (0..=top).chain([150, 255, 256, 257, 258, 259, 300, 511, 512, 513, 514, 600, 1000, 1023, 1024, 1025, 2003, 5001]) {
        let idx: Vec<usize> = if n <= c.pick(40, 130) {
            (0..n + 2).collect()
        } else {
            let mut v = vec![0, 1, 2, 3, n / 8, n / 4, n / 3, n / 2, n / 2 + 1, n * 2 / 3, n - n / 8, n - 4, n - 3, n - 2, n - 1, n, n + 7, usize::MAX];
            v.dedup();
            v
        };
        for (name, k) in gens::shapes(n) {
            if c.next() {
                c.run(|| format!("n={n} {name}"), |c| {
                    for &i in &idx {
                        for &f in if n <= 24 { &FORMS[..] } else { &FORMS[..1] } {
                            select_once(c, f, &k, i, FLAT)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("shapes in every layout");
    for n in [0usize, 1, 2, 5, 10, 11, 12, 20, 33, 64, 100, 130, 257, 300] {
        for (name, k) in gens::shapes(n) {
            for lay in &LAYS[1..] {
                for &f in &FORMS {
                    if c.next() {
                        c.run(|| format!("n={n} {name}, {f:?}, {lay:?}"), |c| {
                            let mut v = vec![0, 1, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n];
                            v.dedup();
                            for i in v {
                                select_once(c, f, &k, i, *lay)?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    c.section("every single move of a shape");
    for n in c.pick(vec![11, 13, 24], vec![11, 12, 13, 14, 16, 20, 24, 33]) {
        for (name, k) in gens::shapes(n) {
            for i in 0..n {
                for j in 0..n {
                    if i != j && c.next() {
                        c.run(
                            || format!("n={n} {name}, element {i} moved to {j}"),
                            |c| {
                                let v = gens::moved(&k, i, j);
                                for x in 0..n {
                                    select_once(c, Form::By, &v, x, FLAT)?;
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
    c.section("steps around block lengths");
    let mut ins: Vec<(String, Vec<u32>)> = Vec::new();
    step_inputs(c, &mut |s, v| ins.push((s, v)));
    for (s, v) in ins.into_iter().step_by(c.pick(3, 1)) {
        if c.next() {
            c.run(|| s.clone(), |c| {
                let n = v.len();
                for i in [n / 5, n / 2, n - n / 5] {
                    select_once(c, Form::By, &v, i, FLAT)?;
                }
                Ok(())
            });
        }
    }
    c.section("adversary at every length");
    for n in 12..c.pick(1300usize, 6500) {
        for variant in 0..8u8 {
            if (!c.quick() || variant as usize == n % 8) && c.next() {
                c.run(|| format!("n={n} adversary {variant}"), |c| {
                    for target in [1, n / 3, n - n / 7 - 1, n - 2] {
                        let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                            ops::select(Form::By, &mut g.view_mut(), target);
                        });
                        select_once(c, FORMS[n % 3], &k, target, FLAT)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("long arrays");
    for n in long_sizes(c) {
        for (i, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if c.next() {
                let target = [1, n / 9, n / 2, n - n / 5, n - 2][i % 5];
                let (form, lay) = (FORMS[i % 3], LAYS[i % LAYS.len()]);
                c.run(|| format!("n={n} {name}, index {target}, {form:?}, {lay:?}"), |c| select_once(c, form, &k, target, lay));
            }
        }
        for variant in 0..8u8 {
            for target in [1, n / 3, n - n / 7, n - 2] {
                for (budget, tail) in [(usize::MAX, 0), (200, 1), (300, 30), (300, 36)] {
                    if c.next() {
                        let tail = &gens::shapes(n)[tail];
                        c.run(|| format!("n={n} adversary {variant} against index {target}, budget {budget}, rest {}", tail.0), |c| {
                            let k = adversarial(n, variant, budget, Some(&tail.1), &mut |g| {
                                ops::select(Form::By, &mut g.view_mut(), target);
                            });
                            select_once(c, Form::By, &k, target, FLAT)
                        });
                    }
                }
            }
        }
    }
    c.section("adversarial inputs");
    for n in adv_sizes(c) {
        let tails = gens::shapes(n);
        for variant in 0..8u8 {
            for target in [1, 2, n / 10, n / 3, n / 2, n - n / 4, n - 3, n - 2] {
                for (budget, tail) in budgets(c, n, &tails) {
                    if c.next() {
                        let tn = tail.map_or("", |t| &t.0);
                        c.run(|| format!("n={n} adversary {variant} against index {target}, budget {budget}, rest {tn}"), |c| {
                            let k = adversarial(n, variant, budget, tail.map(|t| &t.1[..]), &mut |g| {
                                ops::select(Form::By, &mut g.view_mut(), target);
                            });
                            for &f in &FORMS {
                                select_once(c, f, &k, target, FLAT)?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}

pub fn adv_sizes(c: &Checker) -> Vec<usize> {
    c.pick(
        vec![12, 16, 20, 25, 33, 50, 64, 77, 100, 128, 150, 175, 200, 230, 260, 300, 350, 400, 500, 700, 1000, 1024, 1025, 1500, 2500],
        (11..=420).chain([450, 500, 512, 600, 700, 800, 1000, 1023, 1024, 1025, 1026, 1100, 1300, 1500, 2000, 3000, 5000]).collect(),
    )
}

pub fn budgets<'a>(c: &Checker, n: usize, tails: &'a [gens::Named]) -> Vec<(usize, Option<&'a gens::Named>)> {
    let mut o = vec![(usize::MAX, None)];
    let step = if n > 600 { 11 } else { c.pick(9, 3) };
    for b in [40, 80, 120, 160, 240] {
        if b < n {
            for t in tails.iter().step_by(step) {
                o.push((b, Some(t)));
            }
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------

/// Families of valid index lists for length n.
pub fn index_lists(n: usize) -> Vec<Vec<usize>> {
    let mut o: Vec<Vec<usize>> = vec![vec![]];
    if n == 0 {
        return o;
    }
    o.push((0..n).collect());
    for s in [2, 3, 7, 16, n / 3 + 1, n / 2 + 1] {
        o.push((0..n).step_by(s).collect());
        o.push((s - 1..n).step_by(s).collect());
    }
    o.push(vec![0, n - 1]);
    o.push(vec![n / 2]);
    o.push(vec![n - 1]);
    o.push(vec![0]);
    o.push((0..n.min(9)).collect());
    o.push((n.saturating_sub(9)..n).collect());
    o.push((n / 2..(n / 2 + 6).min(n)).collect());
    o.push(vec![0, 1, n / 4, n / 2, n / 2 + 1, n.saturating_sub(2), n - 1]);
    // Powers.
    o.push((0..).map(|e| 1usize << e).take_while(|&x| x < n).collect());
    o.push({
        let mut v: Vec<usize> = (0..).map(|e| 1usize << e).take_while(|&x| x < n).map(|x| n - x).collect();
        v.reverse();
        v
    });
    for v in &mut o {
        v.retain(|&i| i < n);
        v.sort_unstable();
        v.dedup();
    }
    o
}

pub fn c05(c: &mut Checker) {
    types::sweep(c, &|n| types::manys(n, false), false);
    c.section("all weak orders, every index set");
    for n in 0..=c.pick(6usize, 7) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}, every index set", show(k)), |c| {
                    for bits in 0u32..1 << n {
                        let idx: Vec<usize> = (0..n).filter(|i| bits >> i & 1 == 1).collect();
                        for &f in if n <= 5 { &FORMS[..] } else { &FORMS[..1] } {
                            select_many_once(c, f, k, &idx, FLAT, false)?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("every index list, valid or not");
    for n in 0..=c.pick(5usize, 6) {
        let keys: Vec<u32> = gens::perm(n, 1);
        for m in 0..=c.pick(4, 5) {
            gens::words(m, n as u32 + 3, &mut |w| {
                if c.next() {
                    let idx: Vec<usize> = w.iter().map(|&x| if x as usize == n + 2 { usize::MAX } else { x as usize }).collect();
                    c.run(|| format!("n={n} indices {idx:?}"), |c| {
                        for f in FORMS {
                            select_many_once(c, f, &keys, &idx, FLAT, false)?;
                            select_many_once(c, f, &keys, &idx, LAYS[5], true)?;
                        }
                        Ok(())
                    });
                }
            });
        }
    }
    c.section("one bad index in a long list");
    for n in [12usize, 40, 130] {
        let keys: Vec<u32> = gens::perm(n, 2);
        for list in index_lists(n) {
            for p in 0..list.len() {
                for bad in [0usize, 1, n / 2, n - 1, n, n + 1, usize::MAX] {
                    if c.next() {
                        let mut idx = list.clone();
                        idx[p] = bad;
                        c.run(|| format!("n={n} indices {idx:?}"), |c| select_many_once(c, Form::By, &keys, &idx, FLAT, p % 2 == 1));
                    }
                }
            }
        }
    }
    c.section("shapes and index families");
    let top = c.pick(70, 160);
    for n in (0..=top).chain([100, 128, 200, 257, 258, 300, 400, 513, 600, 1000, 1025, 2003, 5001]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for (li, idx) in index_lists(n).into_iter().enumerate() {
                if n > 300 && (si + li) % c.pick(7, 1) != 0 {
                    continue;
                }
                if c.next() {
                    let f = FORMS[(n + li) % 3];
                    let lay = LAYS[(n + si + li) % LAYS.len()];
                    c.run(|| format!("n={n} {name}, indices {}, {f:?}, {lay:?}", if idx.len() < 20 { format!("{idx:?}") } else { format!("family {li}") }), |c| {
                        select_many_once(c, f, &k, &idx, lay, (n + li).is_multiple_of(2))
                    });
                }
            }
        }
    }
    c.section("long arrays");
    for n in long_sizes(c) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            let lists: [Vec<usize>; 7] = [
                vec![n / 2],
                (0..n).step_by(n / 7).collect(),
                (3..n).step_by(97).collect(),
                vec![0, 1, n / 2 - 1, n / 2, n - 2, n - 1],
                (n - 200..n).collect(),
                (0..n).collect(),
                (1..n).step_by(2).collect(),
            ];
            for (li, idx) in lists.iter().enumerate() {
                if si % 7 == li && c.next() {
                    c.run(|| format!("n={n} {name}, list {li}"), |c| select_many_once(c, FORMS[si % 3], &k, idx, LAYS[si % LAYS.len()], si % 2 == 0));
                }
            }
        }
    }
    c.section("adversarial inputs");
    for n in adv_sizes(c) {
        let tails = gens::shapes(n);
        for variant in 0..8u8 {
            let lists = [vec![n / 2], vec![1, n / 3, n / 2, n - 2], vec![n / 2, n / 2 + 2], (1..n - 1).step_by(13).collect::<Vec<_>>()];
            for (li, idx) in lists.iter().enumerate() {
                for (budget, tail) in budgets(c, n, &tails).into_iter().step_by(c.pick(2, 1)) {
                    if c.next() {
                        let tn = tail.map_or("", |t| &t.0);
                        c.run(|| format!("n={n} adversary {variant} against list {li}, budget {budget}, rest {tn}"), |c| {
                            let iv = ndarray_slice::ndarray::Array1::from_vec(idx.clone());
                            let k = adversarial(n, variant, budget, tail.map(|t| &t.1[..]), &mut |g: &mut Grid| {
                                let mut v = g.view_mut();
                                let mut sink = ops::Sink { quiet: true, ..Default::default() };
                                ops::select_many(Form::By, &mut v, iv.view(), &mut sink);
                            });
                            select_many_once(c, FORMS[li % 3], &k, idx, FLAT, false)
                        });
                    }
                }
            }
        }
    }
}
