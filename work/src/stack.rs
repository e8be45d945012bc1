//! C26: use of the stack.
use crate::engine::Checker;
use crate::gens::{self, Dir};
use crate::meter::{Elem, Large, Op, Small, against, lists, outlines, spend};

/// Bytes of stack an operation may use.
fn allowed(op: &Op, n: usize) -> f64 {
    let l = (n.max(2) as f64).log2();
    match op {
        Op::ParSort | Op::ParUnst | Op::ParMany(_) | Op::ParCached => 8000.0 + 4000.0 * l,
        _ => 8000.0 + 3000.0 * l,
    }
}

fn shallow(c: &mut Checker, op: &Op, keys: &[u32], stride: isize) -> Result<(), String> {
    let n = keys.len();
    let s = spend::<Small>(op, keys, stride, 0)?;
    c.evaluations += 1;
    c.trace(gens::mix(s.stack as u64, gens::mix(n as u64, s.blocks)));
    let name = op.name();
    let name = name.split('(').next().unwrap();
    if n >= 300 {
        c.maximum(&format!("bytes of stack of {name} over log2 n"), s.stack as f64 / (n as f64).log2());
    }
    let bound = allowed(op, n);
    if s.stack as f64 > bound { Err(format!("{} of {n} elements used {} bytes of stack (allowed {bound:.0})", op.name(), s.stack)) } else { Ok(()) }
}

/// Runs `f` on a thread with about `room` bytes of stack left; gives it the lowest address it may use.
fn deep<R: Send>(room: usize, f: impl FnOnce(usize) -> R + Send) -> R {
    fn down<R>(start: usize, total: usize, room: usize, f: impl FnOnce(usize) -> R) -> R {
        let pad = [0u8; 1024];
        let here = std::hint::black_box(&pad) as *const _ as usize;
        if start - here + room > total {
            return f(here - room);
        }
        let r = down(start, total, room, f);
        std::hint::black_box(&pad);
        r
    }
    let total = 512 << 10;
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(total)
            .spawn_scoped(s, move || {
                // From where stacker sees the end.
                let left = stacker::remaining_stack().expect("the stack's end");
                let x = 0u8;
                down(std::hint::black_box(&x) as *const u8 as usize, left, room, f)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

/// Stack used of what little is left.
fn little<T: Elem>(c: &mut Checker, op: &Op, keys: &[u32], room: usize) -> Result<usize, String> {
    let s = deep(room, |floor| spend::<T>(op, keys, 1, floor))?;
    c.evaluations += 1;
    c.trace(gens::mix(s.stack as u64 + room as u64, gens::mix(keys.len() as u64, s.blocks)));
    Ok(s.stack)
}

const SORTS: [Op; 6] = [Op::Sort, Op::Unst, Op::Cached, Op::ParSort, Op::ParUnst, Op::ParCached];

pub fn c26(c: &mut Checker) {
    let sizes = c.pick(vec![300usize, 3000, 40_000], vec![300, 1000, 3000, 10_000, 40_000, 150_000]);
    c.section("shapes");
    for &n in &sizes {
        let ls = lists(n);
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for op in SORTS.into_iter().chain([Op::Select(n / 3), Op::Select(n - 2), Op::Dedup, Op::Reverse, Op::IsSorted, Op::Search(5), Op::Point(5)]) {
                if c.next() {
                    c.run(|| format!("{op:?} n={n} {name}"), |c| shallow(c, &op, &k, [1, 2, -1][si % 3]));
                }
            }
            for (li, l) in ls.iter().enumerate() {
                if n > 5000 && li % c.pick(4, 2) != si % c.pick(4, 2) {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("select {} indices n={n} {name}", l.len()), |c| {
                        shallow(c, &Op::Many(l.clone()), &k, 1)?;
                        shallow(c, &Op::ParMany(l.clone()), &k, 1)
                    });
                }
            }
        }
    }
    c.section("run outlines");
    for unit in c.pick(vec![25usize], vec![11, 25, 60, 130]) {
        for ls in outlines(c.pick(4, 6), unit) {
            for rel in gens::RELS {
                for d in 0..3 {
                    if ls.iter().sum::<usize>() > 200_000 || !c.next() {
                        continue;
                    }
                    let dirs: Vec<Dir> = (0..ls.len()).map(|i| [Dir::Up, Dir::Down, [Dir::Up, Dir::Down][i % 2]][d]).collect();
                    let k = gens::runs(&ls, &dirs, rel);
                    c.run(|| format!("{} runs of {unit}, {rel:?} {d}", ls.len()), |c| {
                        shallow(c, &Op::Sort, &k, 1)?;
                        shallow(c, &Op::ParSort, &k, 1)?;
                        shallow(c, &Op::Unst, &k, 1)
                    });
                }
            }
        }
    }
    c.section("adversaries");
    for n in c.pick(vec![1000usize, 5000, 20_000], vec![600, 1000, 2000, 5000, 10_000, 20_000, 60_000]) {
        for variant in 0..8u8 {
            for op in [Op::Unst, Op::ParUnst, Op::Select(n / 2), Op::Select(n / 7), Op::Many(vec![n / 4, n / 2, n - 3]), Op::ParMany(vec![n / 3, n - 9])] {
                for budget in [n / 8, n / 2, usize::MAX] {
                    if !c.next() {
                        continue;
                    }
                    c.run(|| format!("{} n={n} adversary {variant} with budget {budget}", op.name()), |c| {
                        let tails = gens::shapes(n);
                        let tail = &tails[(variant as usize * 5 + 2) % tails.len()].1;
                        let k = against(&op, n, variant, budget, Some(tail));
                        shallow(c, &op, &k, 1)
                    });
                }
            }
        }
    }
    c.section("little stack left");
    for room in c.pick(vec![31usize << 10, 26 << 10, 20 << 10], (16..32).map(|k| k << 10).collect()) {
        for n in c.pick(vec![2000usize, 40_000, 100_000], vec![2000, 10_000, 40_000, 120_000, 300_000]) {
            let some = |m: usize| -> Vec<usize> { (0..m).map(|i| i * n / m).collect() };
            for large in [false, true] {
                for op in [Op::Sort, Op::Unst, Op::ParUnst, Op::Select(n / 3), Op::Many(some(30)), Op::Many(some(n / 10)), Op::Many(some(n)), Op::ParMany(some(30)), Op::ParMany(some(n / 10)), Op::ParMany(some(n))] {
                    if large && n > 40_000 || !c.next() {
                        continue;
                    }
                    c.run(|| format!("{} of {n} with {room} bytes left, large: {large}", op.name()), |c| {
                        let use_of = |c: &mut Checker, op: &Op, keys: &[u32]| if large { little::<Large>(c, op, keys, room) } else { little::<Small>(c, op, keys, room) };
                        let mut base = 0;
                        for (m, s) in [(60usize, 0u64), (60, 1), (400, 2), (400, 3)] {
                            let op = match &op {
                                Op::Select(_) => Op::Select(m / 3),
                                Op::Many(_) => Op::Many(vec![m / 3, m / 2]),
                                Op::ParMany(_) => Op::ParMany(vec![m / 3, m / 2]),
                                o => o.clone(),
                            };
                            base = base.max(use_of(c, &op, &gens::perm(m, s))?);
                        }
                        let balanced = (0..n as u64).map(|i| (i * 7919 % n as u64) as u32).collect();
                        for (s, k) in [gens::perm(n, 5), gens::perm(n, 6), gens::perm(n, 7), balanced].into_iter().enumerate() {
                            let used = use_of(c, &op, &k)?;
                            c.maximum("bytes of stack used more with much to do than with little, near the end of the stack", used as f64 - base as f64);
                            if used > base + 500 {
                                return Err(format!("{} of {n} elements of {} bytes (input {s}) with {room} bytes of stack left used {used} of them, {base} for few elements: grows with the length", op.name(), if large { 512 } else { 8 }));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
