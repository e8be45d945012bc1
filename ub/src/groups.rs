//! The families of cases.
use crate::env::Way;
use crate::ops::{Case, Op, Ty};

pub struct Group {
    pub name: String,
    pub total: usize,
    /// Cases per process.
    pub batch: usize,
    /// Whether operations run on a pool of workers.
    pub threads: bool,
    pub make: Box<dyn Fn(usize) -> Case>,
}

const STRIDES: [isize; 4] = [1, -1, 2, -3];

/// Operations with callbacks for every length up to about six.
fn op(i: usize, n: usize) -> Op {
    let last = n.saturating_sub(1);
    match i {
        0 => Op::Sort,
        1 => Op::Unst,
        2 => Op::Cached,
        3 => Op::Select(0.min(last)),
        4 => Op::Select(n / 2),
        5 => Op::Select(last),
        6 => Op::Many((0..n).collect()),
        7 => Op::Many(if n > 2 { vec![0, n - 2] } else { vec![] }),
        8 => Op::Dedup,
        9 => Op::IsSorted,
        10 => Op::Search(1),
        11 => Op::Point(1),
        12 => Op::SortKey,
        13 => Op::UnstKey,
        14 => Op::SelectKey(n / 2),
        15 => Op::ManyKey((n / 2..n).collect()),
        16 => Op::DedupKey,
        17 => Op::IsSortedKey,
        18 => Op::SearchKey(1),
        _ => Op::Reverse,
    }
}
const OPS: usize = 20;
/// Those of two elements compared.
const COMPARE: [usize; 9] = [0, 1, 3, 4, 5, 6, 7, 8, 9];

fn plain(i: usize, n: usize) -> Op {
    match i {
        0 => Op::SortPlain,
        1 => Op::UnstPlain,
        2 => Op::SelectPlain(n / 2),
        3 => Op::ManyPlain((0..n).step_by(2).collect()),
        4 => Op::DedupPlain,
        5 => Op::IsSortedPlain,
        6 => Op::SearchPlain(1),
        _ => Op::Contains(1),
    }
}

/// The i-th word over `k` letters, shorter ones first.
fn word(mut i: usize, k: usize) -> Vec<u32> {
    let mut n = 0;
    while i >= k.pow(n) {
        i -= k.pow(n);
        n += 1;
    }
    (0..n).map(|j| (i / k.pow(j) % k) as u32).collect()
}
fn words(n: u32, k: usize) -> usize {
    (0..=n).map(|l| k.pow(l)).sum()
}
/// The i-th permutation of `n`.
fn perm(mut i: usize, n: usize) -> Vec<u32> {
    let mut left: Vec<u32> = (0..n as u32).collect();
    (0..n).map(|j| {
        let m = n - j;
        let x = left.remove(i % m);
        i /= m;
        x
    }).collect()
}
fn factorial(n: usize) -> usize {
    (1..=n).product()
}

pub fn shape(i: usize, n: usize) -> Vec<u32> {
    let n32 = n.max(1) as u32;
    (0..n32.min(n as u32)).map(|j| match i {
        0 => (j * 7919 + 13) % 10007 * n32 / 10007,
        1 => n32 - j,
        2 => j * 31 % 4,
        3 => j,
        4 => (j + n32 / 3) % n32,
        5 => if j % 2 == 0 { j } else { n32 - j },
        6 => (n32 / 2).abs_diff(j),
        7 => j / 7 * 7919 % 53,
        // Ascending but for few neighbours, or but for an end.
        8 => if j % 19 == 7 { j + 2 } else { j },
        _ => if j == n32 - 2 { 1 } else { j },
    }).collect()
}
const SHAPES: usize = 8;

pub fn groups(thorough: bool) -> Vec<Group> {
    let t = |q: usize, th: usize| if thorough { th } else { q };
    let mut gs = Vec::new();
    let mut group = |name: &str, total: usize, batch: usize, threads: bool, make: Box<dyn Fn(usize) -> Case>| gs.push(Group { name: name.into(), total, batch, threads, make });
    // Parallel ones first: they take longest.
    let cases = parallel(thorough);
    group("workers", cases.len(), 1, true, Box::new(move |i| {
        let (op, ty, keys, stride, way) = &cases[i];
        let keys = match keys {
            Keys::Chunks(chunks) => chunks.iter().flat_map(|&(n, first, step)| (0..n).map(move |i| (first + i as i32 * step) as u32)).collect(),
            Keys::Shape(i, n) => shape(*i, *n),
            Keys::Lopsided(n) => (0..*n).map(|i| {
                let q = n / 4;
                let sample = (1..4).any(|j| i.abs_diff(j * q) <= 1);
                if sample { 9 } else if i % 110 == 3 { (i % 7) as u32 } else { 50 + (i % 3) as u32 }
            }).collect(),
        };
        Case { op: op.clone(), ty: *ty, keys, stride: *stride, way: way.clone() }
    }));
    {
        let lens = t(1, 2);
        group("long", lens * 4 * t(1, 4), 1, false, Box::new(move |i| {
            let n = [290, 420][if thorough { i / 16 } else { 0 }];
            let op = match i % 4 { 0 => Op::Unst, 1 => Op::Select(n / 2), 2 => Op::Many(vec![3, n / 2, n - 1]), _ => Op::Sort };
            Case { op, ty: [Ty::Padded, Ty::Boxed][i / 4 % 2], keys: shape([0, 2, 4, 5][i / 4 % 4], n), stride: STRIDES[(i + i / 4) % 4], way: Way::True }
        }));
    }
    {
        // From these lengths on, heap sort and median of medians are reached.
        let variants: &'static [u8] = if thorough { &[0, 1, 2, 4, 5, 6, 7] } else { &[4, 1] };
        group("killers", variants.len() * 10, 1, false, Box::new(move |i| {
            let (op, n) = match i % 10 {
                0..=2 => (Op::Unst, 40),
                3 | 4 => (Op::Select(1), 80),
                5 => (Op::Select(78), 80),
                6 => (Op::Select(60), 120),
                7 => (Op::Select(100), 200),
                _ => (Op::Many(vec![1, 78]), 80),
            };
            Case { op, ty: [Ty::Boxed, Ty::Padded, Ty::Shown][i % 3], keys: shape(3, n), stride: STRIDES[(i + i / 10) % 4], way: Way::Killer(variants[i / 10]) }
        }));
    }
    {
        let points = t(12, 80);
        group("killers cut short", points * 2, t(2, 5), false, Box::new(move |i| {
            let (op, n, calls) = [(Op::Unst, 40, 439), (Op::Select(1), 80, 1023)][i % 2].clone();
            // Most of them within the fallback.
            let k = calls - 1 - (i / 2 * 37 + 11) % (calls * 2 / 3);
            Case { op, ty: Ty::Boxed, keys: shape(3, n), stride: STRIDES[i / 2 % 4], way: Way::KillerPanic(4, k) }
        }));
    }
    {
        let lens: &'static [usize] = if thorough { &[20, 21, 34, 60] } else { &[22] };
        group("shapes", lens.len() * SHAPES * 12, t(8, 8), false, Box::new(move |i| {
            let n = lens[i / 12 / SHAPES];
            let op = match i % 12 {
                10 => Op::ManyPlain(vec![1, n / 2]),
                11 => Op::SelectKey(n / 3),
                o => op(o, n),
            };
            let boxed = matches!(op, Op::ManyPlain(_));
            Case { op, ty: if boxed { Ty::Boxed } else { [Ty::Boxed, Ty::Padded, Ty::Shown][i % 3] }, keys: shape(i / 12 % SHAPES, n), stride: STRIDES[(i + i / 12) % 4], way: Way::True }
        }));
    }
    {
        group("nearly sorted", 2 * 5, 2, false, Box::new(move |i| {
            let n = 56;
            let op = match i % 5 { 0 => Op::Unst, 1 => Op::Select(0), 2 => Op::Select(n - 1), 3 => Op::Many(vec![0, n / 2, n - 1]), _ => Op::Sort };
            Case { op, ty: [Ty::Boxed, Ty::Padded][i % 2], keys: shape(8 + i / 5, n), stride: STRIDES[i % 4], way: Way::True }
        }));
        group("nearly sorted, cut short", t(6, 40), 3, false, Box::new(move |i| {
            let n = 56;
            Case { op: Op::Unst, ty: Ty::Boxed, keys: shape(8 + i % 2, n), stride: STRIDES[i % 4], way: Way::Panic(12 + i * 11 % 70) }
        }));
    }
    {
        group("invalid indices, narrow keys", 4 * 4 * 3, 24, false, Box::new(move |i| {
            let n = i / 4 % 4;
            let op = match i % 4 { 0 => Op::Select(n), 1 => Op::Many(vec![0, n]), 2 => Op::Many(vec![1, 0]), _ => Op::CachedByte };
            Case { op, ty: [Ty::Boxed, Ty::Padded, Ty::Void][i / 16], keys: shape(1, n), stride: STRIDES[i % 4], way: Way::Invalid }
        }));
    }
    {
        let (every, n) = (t(29, 7), if thorough { 34 } else { 26 });
        let points = t(170, 260) / every;
        group("shapes cut short", 4 * 3 * points, t(6, 10), false, Box::new(move |i| {
            let op = match i % 4 { 0 => Op::Sort, 1 => Op::Unst, 2 => Op::Many(vec![5, n / 2]), _ => Op::Cached };
            let k = i / 12 * every + i % every;
            let k = if i % 4 == 3 { k % n } else { k };
            Case { op, ty: Ty::Boxed, keys: shape([0, 1, 7][i / 4 % 3], n), stride: STRIDES[(i + i / 4) % 4], way: Way::Panic(k) }
        }));
    }
    {
        let w = words(t(3, 4) as u32, 3);
        group("words", w * OPS, t(120, 250), false, Box::new(move |i| {
            let keys = word(i / OPS, 3);
            let n = keys.len();
            let mut o = op(i % OPS, n);
            if n == 0 && matches!(o, Op::Select(_) | Op::SelectKey(_)) {
                o = Op::Reverse;
            }
            Case { op: o, ty: Ty::Boxed, keys, stride: STRIDES[(i + i / OPS) % 4], way: Way::True }
        }));
    }
    {
        let w = words(t(3, 4) as u32, 3);
        group("words, by the type's order", (w - 1) * 8, t(120, 250), false, Box::new(move |i| {
            let keys = word(i / 8 + 1, 3);
            Case { op: plain(i % 8, keys.len()), ty: Ty::Boxed, keys, stride: STRIDES[(i + i / 8) % 4], way: Way::True }
        }));
    }
    {
        let w = words(t(2, 3) as u32, 3) - 1;
        group("types", w * OPS * 4, t(120, 250), false, Box::new(move |i| {
            let keys = word(i / OPS / 4 + 1, 3);
            let n = keys.len();
            Case { op: op(i % OPS, n), ty: [Ty::Padded, Ty::Shown, Ty::Large, Ty::Void][i / OPS % 4], keys, stride: STRIDES[(i + i / OPS) % 4], way: Way::True }
        }));
    }
    for n in if thorough { vec![3usize, 4] } else { vec![3] } {
        let calls = 2 * n + 2;
        group(&format!("cut short, {n}"), factorial(n) * (OPS - 1) * calls, t(120, 250), false, Box::new(move |i| {
            let keys = perm(i / calls / (OPS - 1), n);
            Case { op: op(i / calls % (OPS - 1), n), ty: Ty::Boxed, keys, stride: STRIDES[(i + i / OPS) % 4], way: Way::Panic(i % calls) }
        }));
    }
    for (n, len) in if thorough { vec![(3usize, 5usize), (4, 4)] } else { vec![(3, 4)] } {
        let all = 3usize.pow(len as u32);
        group(&format!("answers, {n}"), all * COMPARE.len() * 2, t(120, 250), false, Box::new(move |i| {
            let o = op(COMPARE[i % COMPARE.len()], n);
            let last = ((i / all) % 6) as u8;
            Case { op: o, ty: Ty::Boxed, keys: perm(i % factorial(n), n), stride: STRIDES[(i + i / OPS) % 4], way: Way::Digits((i / COMPARE.len() / 2) as u64, len, last) }
        }));
    }
    {
        let lens: &'static [usize] = if thorough { &[21, 45] } else { &[24] };
        group("answers, long", lens.len() * 5 * t(9, 27), t(5, 8), false, Box::new(move |i| {
            let n = lens[if thorough { i / 5 / 27 } else { 0 }];
            let op = match i % 5 { 0 => Op::Sort, 1 => Op::Unst, 2 => Op::Select(n / 2), 3 => Op::Many(vec![2, n / 2]), _ => Op::Dedup };
            let w = i / 5 % 27;
            Case { op, ty: Ty::Boxed, keys: shape(i % SHAPES, n), stride: STRIDES[(i + i / 4) % 4], way: Way::Digits(w as u64, 3, ((w + i) % 6) as u8) }
        }));
    }
    gs
}

/// Inputs for workers: many elements, few comparisons.
enum Keys {
    /// Length, first key and step of each.
    Chunks(Vec<(usize, i32, i32)>),
    Shape(usize, usize),
    /// The pivot first chosen has few elements on one side, and there are few keys.
    Lopsided(usize),
}

fn parallel(thorough: bool) -> Vec<(Op, Ty, Keys, isize, Way)> {
    use Keys::{Chunks, Lopsided, Shape};
    let mut cases = Vec::new();
    let mut add = |op: Op, ty: Ty, keys: Keys, stride: isize, way: Way| cases.push((op, ty, keys, stride, way));
    add(Op::ParSort, Ty::Shown, Chunks(vec![(4000, 0, 1), (1050, 0, 1)]), 1, Way::True);
    add(Op::ParSort, Ty::Padded, Chunks(vec![(2000, 100, 1), (2000, 0, 1), (50, 0, 1)]), -1, Way::Panic(4085));
    add(Op::ParSort, Ty::Boxed, Chunks(vec![(2100, 3000, -1)]), 1, Way::True);
    add(Op::ParMany(vec![100, 199]), Ty::Padded, Shape(3, 200), 1, Way::Killer(4));
    add(Op::ParSort, Ty::Boxed, Shape(1, 40), 1, Way::True);
    add(Op::ParUnst, Ty::Shown, Lopsided(2300), 1, Way::True);
    add(Op::ParMany(vec![5, 2010, 2050]), Ty::Shown, Lopsided(2100), -1, Way::True);
    // Descending chunks that concatenate, a bit that does not.
    add(Op::ParSort, Ty::Padded, Chunks(vec![(2100, 3000, -1), (20, 5, 1)]), 1, Way::True);
    add(Op::ParSort, Ty::Boxed, Chunks(vec![(2000, 100, 1), (90, 0, 1)]), -1, Way::Panic(2130));
    add(Op::ParUnst, Ty::Boxed, Lopsided(2100), 2, Way::Panic(2400));
    add(Op::ParManyKey(vec![5, 50, 90]), Ty::Boxed, Shape(0, 100), 1, Way::True);
    add(Op::ParCached, Ty::Boxed, Shape(3, 50), -1, Way::True);
    add(Op::ParCached, Ty::Boxed, Shape(3, 40), 1, Way::Panic(30));
    add(Op::ParCachedByte, Ty::Boxed, Shape(2, 40), 1, Way::True);
    for n in [1, 12, 20, 40] {
        add(Op::ParSort, Ty::Boxed, Shape(5, n), 2, Way::True);
    }
    add(Op::ParSort, Ty::Boxed, Shape(5, 12), 1, Way::Panic(20));
    add(Op::ParSortKey, Ty::Boxed, Shape(2, 40), -1, Way::True);
    add(Op::ParUnstKey, Ty::Boxed, Shape(2, 40), 1, Way::True);
    add(Op::ParUnst, Ty::Boxed, Shape(8, 56), 1, Way::True);
    add(Op::ParUnst, Ty::Padded, Shape(9, 56), 1, Way::True);
    add(Op::ParMany(vec![10, 20, 30, 40]), Ty::Boxed, Shape(2, 50), 2, Way::Panic(100));
    add(Op::ParMany(vec![0, 30, 55]), Ty::Boxed, Shape(2, 56), 2, Way::True);
    add(Op::ParMany(vec![0, 9]), Ty::Boxed, Shape(2, 9), 2, Way::Invalid);
    for op in [Op::ParSort, Op::ParUnst, Op::ParMany(vec![0, 2]), Op::ParCached] {
        add(op, Ty::Void, Shape(2, 40), 1, Way::True);
    }
    for ty in [Ty::Boxed, Ty::Padded] {
        add(Op::ParUnst, ty, Shape(3, 40), 1, Way::Killer(4));
        add(Op::ParMany(vec![1, 78]), ty, Shape(3, 80), 1, Way::Killer(1));
    }
    for k in if thorough { (150..439).step_by(17).collect() } else { vec![260, 330, 400] } {
        add(Op::ParUnst, Ty::Boxed, Shape(3, 40), 1, Way::KillerPanic(4, k));
        add(Op::ParMany(vec![1, 78]), Ty::Boxed, Shape(3, 80), 1, Way::KillerPanic(1, k * 5 / 2));
    }
    if thorough {
        add(Op::ParSort, Ty::Shown, Chunks(vec![(2000, 100, 1), (2000, 0, 1), (50, 0, 1)]), 1, Way::True);
        add(Op::ParUnst, Ty::Shown, Shape(0, 4200), 1, Way::True);
        add(Op::ParUnst, Ty::Boxed, Lopsided(2300), 2, Way::Panic(4600));
        add(Op::ParMany((0..40).map(|j| j * 100).collect()), Ty::Boxed, Shape(2, 4100), 1, Way::True);
        add(Op::ParSort, Ty::Padded, Shape(5, 2100), 2, Way::True);
        add(Op::ParSort, Ty::Shown, Chunks(vec![(2000, 100, 1), (2000, 0, 1), (1050, 0, 1)]), 1, Way::True);
        add(Op::ParSort, Ty::Boxed, Chunks(vec![(2000, 2000, -1), (2000, 0, 1), (300, 0, 1)]), -1, Way::Panic(4700));
        add(Op::ParSort, Ty::Boxed, Chunks(vec![(1050, 0, 1), (2000, 5000, 1), (2000, 0, 1)]), -1, Way::Panic(7500));
        add(Op::ParSort, Ty::Shown, Chunks(vec![(4000, 0, 1), (2500, 0, 1)]), 1, Way::True);
        add(Op::ParSort, Ty::Shown, Chunks(vec![(2000, 900, 1), (4100, 0, 1)]), 1, Way::True);
    }
    cases
}
