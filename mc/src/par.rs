//! Parallel operations under the controlled scheduler: every schedule within a deviation bound
//! around each default policy, for every input of the families, plus free-running real pools.
use crate::ctx::{self, El, Setup};
use crate::engine::{Checker, payload};
use crate::gens;
use crate::grid::{FLAT, Grid, Lay};
use crate::ops::{self, Form, Sort, trap};
use crate::types;
use crate::util::*;
use ndarray_slice::ndarray::Array1;
use rayon_core::model::{self, Config, Policy, Trace};
use std::sync::OnceLock;

pub const POLICIES: [Policy; 4] = [Policy::Owner, Policy::Thief, Policy::RoundRobin, Policy::Late];

pub type Cfg = (usize, Policy);
/// One worker, then every policy with 2, 3 and 4 workers.
pub const CFGS: [Cfg; 13] = [
    (1, Policy::Owner),
    (2, Policy::Owner), (2, Policy::Thief), (2, Policy::RoundRobin), (2, Policy::Late),
    (3, Policy::Owner), (3, Policy::Thief), (3, Policy::RoundRobin), (3, Policy::Late),
    (4, Policy::Owner), (4, Policy::Thief), (4, Policy::RoundRobin), (4, Policy::Late),
];
/// A pick of them for wide input families.
pub const CFGS_WIDE: [Cfg; 5] = [(1, Policy::Owner), (2, Policy::Owner), (2, Policy::Thief), (3, Policy::RoundRobin), (4, Policy::Late)];

/// What to do to the data.
#[derive(Clone, Debug)]
pub enum Act {
    Sort(Sort),
    Many(Form, Vec<usize>),
}

impl Act {
    pub fn name(&self) -> String {
        match self {
            Act::Sort(s) => format!("{s:?}"),
            Act::Many(f, i) if i.len() < 20 => format!("par_select_many({f:?}, {i:?})"),
            Act::Many(f, i) => format!("par_select_many({f:?}, {} indices)", i.len()),
        }
    }
}

/// Everything one execution leaves behind.
pub struct Done {
    pub grid: Grid,
    pub result: Result<(), Box<dyn std::any::Any + Send>>,
    /// Bulk selection: previous entry intact, addresses of the entries after it.
    pub prior: bool,
    pub refs: Vec<usize>,
    pub base: usize,
    pub trace: Trace,
}

static PRIOR: El = El { key: 1, id: ctx::PROBE, hits: std::sync::atomic::AtomicU32::new(0), magic: ctx::LIVE };

/// Runs `act` once. `sched`: controlled schedule, or None on the thread (pool) at hand.
pub fn execute(act: &Act, keys: &[u32], lay: Lay, st: &Setup, sched: Option<&Config>) -> Done {
    let mut g = Grid::new(keys, lay);
    // Not counted as an element of the array when it goes out of scope.
    let mut pre = std::mem::ManuallyDrop::new(PRIOR.clone());
    let pre_at = &*pre as *const El as usize;
    let base = g.view().as_ptr() as usize;
    let holder = match act {
        Act::Many(_, i) => crate::util::index_array(i, (keys.len() + i.len()) % 5),
        _ => Array1::from_vec(vec![]),
    };
    let mut refs: Vec<usize> = Vec::new();
    let mut prior = true;
    ctx::reset(st);
    if st.flags & ctx::F_RACE != 0 {
        ctx::watch_places(Some(g.range()));
    }
    let (result, trace) = {
        let mut view = g.view_mut();
        // Spare room from none to more than needed.
        let mut out: Vec<&mut El> = Vec::with_capacity(1 + (keys.len() % 4) * (holder.len() + 1) / 2);
        out.push(&mut *pre);
        let mut f = || {
            trap(|| match act {
                Act::Sort(s) => ops::sort(*s, &mut view),
                Act::Many(f, _) => {
                    // The references live as long as the view: hand them out as addresses.
                    let v: &mut ndarray_slice::ndarray::ArrayViewMut1<El> = unsafe { &mut *(&mut view as *mut _) };
                    ops::par_select_many(*f, v, holder.view(), &mut out)
                }
            })
        };
        let (r, t) = match sched {
            None => (f(), Trace::default()),
            Some(cfg) => {
                let (r, t) = model::run(cfg, f);
                (r.and_then(|x| x), t)
            }
        };
        prior &= !out.is_empty() && &*out[0] as *const El as usize == pre_at;
        refs.extend(out.iter().skip(1).map(|e| &**e as *const El as usize));
        (r, t)
    };
    if st.flags & ctx::F_RACE != 0 {
        ctx::watch_places(None);
    }
    Done { grid: g, result, prior, refs, base, trace }
}

/// The obligations after a run that was given no fault.
pub fn verify(d: &Done, act: &Act, keys: &[u32]) -> Result<(), String> {
    let n = keys.len();
    let g = &d.grid;
    let bad = matches!(act, Act::Many(_, i) if !valid(i, n));
    match (&d.result, bad) {
        (Err(p), false) => return Err(format!("{} panicked: {}", act.name(), payload(&**p))),
        (Ok(()), true) => return Err(format!("{} of {n} did not panic", act.name())),
        _ => {}
    }
    g.intact(keys).map_err(|e| format!("{}: {e}", act.name()))?;
    match act {
        Act::Sort(s) => after_sort(*s, g, keys).map_err(|e| format!("{s:?}: {e}"))?,
        Act::Many(_, idx) => {
            if !d.prior {
                return Err(format!("{}: the vector's previous contents changed", act.name()));
            }
            if bad {
                if !d.refs.is_empty() {
                    return Err(format!("{}: panicked but left {} entries in the vector", act.name(), d.refs.len()));
                }
                return Ok(());
            }
            segments_ok(g, idx).map_err(|e| format!("{}: {e}", act.name()))?;
            if d.refs.len() != idx.len() {
                return Err(format!("{}: {} entries for {} indices", act.name(), d.refs.len(), idx.len()));
            }
            let step = g.lay.stride * std::mem::size_of::<El>() as isize;
            for (k, &i) in idx.iter().enumerate() {
                if d.refs[k] != (d.base as isize + step * i as isize) as usize {
                    return Err(format!("{}: entry {k} does not refer to position {i}", act.name()));
                }
            }
        }
    }
    Ok(())
}

/// Fingerprint of the arrangement.
pub fn digest(g: &Grid) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for i in 0..g.n {
        h = (h ^ g.id_at(i) as u64).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    h
}

/// Counts the callbacks of a one-worker execution and gives the stride for about `points` yields.
pub fn stride(act: &Act, keys: &[u32], points: u64) -> u64 {
    let st = par_setup(keys.len(), 0);
    execute(act, keys, FLAT, &st, Some(&Config { workers: 1, policy: Policy::Owner, script: vec![] }));
    ctx::calls() / points.max(1) + 1
}

pub fn par_setup(n: usize, stride: u64) -> Setup {
    Setup { flags: ctx::F_TRACE | ctx::F_YIELD, cap: 4 * cap(n), ids: n, stride, ..Setup::default() }
}

/// Books one execution.
pub fn book(c: &mut Checker, t: &Trace, fresh: usize) {
    c.evaluations += 1;
    c.add("states", fresh as u64 + 1);
    c.add("transitions", fresh as u64);
    c.add("traces_validated_against_impl", 1);
    c.add("forks", t.forks as u64);
    c.add("steals", t.steals as u64);
    c.add("jobs run nested by waiting workers", t.nested as u64);
    c.add("context switches", t.switches as u64);
    c.maximum("scheduling points of one execution", t.options.len() as f64);
    c.trace(t.hash ^ ctx::trace());
}

/// Runs `body` under every schedule that deviates at most `dev` times from the default policy of
/// `cfg` (each deviation: any other enabled move at any scheduling point). Depth-first over the
/// deviation tree; `body` runs one execution and judges it.
pub fn explore(c: &mut Checker, cfg: Cfg, dev: usize, body: &mut dyn FnMut(&mut Checker, &Config) -> (Result<(), String>, Trace)) -> Result<u64, String> {
    let mut stack: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut n = 0;
    while let Some(script) = stack.pop() {
        let from = script.last().map_or(0, |&(p, _)| p + 1);
        let config = Config { workers: cfg.0, policy: cfg.1, script };
        let (r, t) = body(c, &config);
        n += 1;
        if t.diverged {
            return Err(format!("harness: schedule {config:?} cannot be replayed"));
        }
        book(c, &t, t.options.len().saturating_sub(from));
        r.map_err(|e| format!("{e} [{} workers, {:?}, deviations {:?}]", cfg.0, cfg.1, config.script))?;
        if config.script.len() < dev {
            for p in from..t.options.len() {
                for o in 1..t.options[p] as usize {
                    let mut s = config.script.clone();
                    s.push((p, o));
                    stack.push(s);
                }
            }
        }
    }
    Ok(n)
}

/// One input under the default schedule of each configuration.
pub fn each_policy(c: &mut Checker, cfgs: &[Cfg], act: &Act, keys: &[u32], lay: Lay, st: &Setup) -> Result<(), String> {
    for &cfg in cfgs {
        explore(c, cfg, 0, &mut |_, config| {
            let d = execute(act, keys, lay, st, Some(config));
            (judge(&d, act, keys, st), d.trace)
        })?;
    }
    Ok(())
}

pub fn judge(d: &Done, act: &Act, keys: &[u32], st: &Setup) -> Result<(), String> {
    verify(d, act, keys)?;
    if st.flags & ctx::F_RACE != 0
        && let Some((id, n)) = ctx::race()
    {
        return Err(format!("{}: element {id} is shown to two logically concurrent tasks (callback {n})", act.name()));
    }
    if st.flags & ctx::F_RACE != 0
        && let Some((id, n)) = ctx::place_race()
    {
        return Err(format!("{}: two logically concurrent tasks show elements at the same place in memory (element {id}, callback {n})", act.name()));
    }
    Ok(())
}

// --- inputs ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk {
    Asc,
    Desc,
    Flat,
    Mix,
    Near,
    /// Descending but for its last element.
    NearDesc,
}
pub const CHUNKS: [Chunk; 6] = [Chunk::Asc, Chunk::Desc, Chunk::Flat, Chunk::Mix, Chunk::Near, Chunk::NearDesc];

/// Concatenates blocks of `block` elements (the last shorter) of given kinds.
/// rel 0: each block above the one before, 1: below, 2: same range, 3: few values, 4: blocks touch
/// (last value of a block equals the first of the next, both directions).
pub fn blocks(n: usize, block: usize, kinds: &[Chunk], rel: usize) -> Vec<u32> {
    let mut v = Vec::with_capacity(n);
    let mut b = 0;
    while v.len() < n {
        let l = block.min(n - v.len());
        let kind = kinds[b % kinds.len()];
        let lb = l as u32;
        let block32 = block as u32;
        let base = match rel {
            0 => b as u32 * (block32 + 3),
            1 => (1000 - b as u32) * (block32 + 3),
            4 => match kind {
                Chunk::Asc | Chunk::Near => b as u32 * block32.saturating_sub(1),
                _ => (1000 - b as u32) * block32.saturating_sub(1),
            },
            _ => 0,
        };
        for i in 0..l {
            let i32_ = i as u32;
            let x = match kind {
                Chunk::Asc => i32_,
                Chunk::Desc => block32 - 1 - i32_,
                Chunk::Flat => block32 / 2,
                Chunk::Mix => (gens::mix(b as u64 + 3, i as u64) % block as u64) as u32,
                Chunk::Near => {
                    if i + 1 == l && l > 1 { 0 } else { i32_ }
                }
                Chunk::NearDesc => {
                    if i + 1 == l { lb } else { block32 - 1 - i32_ }
                }
            };
            let x = if rel == 3 { x * 5 / block32.max(1) } else { x };
            v.push(base + x);
        }
        b += 1;
    }
    v
}

/// Two ascending runs whose merge interleaves blocks of the left (0) and right (1) run as in `w`;
/// `ties` makes neighbouring blocks share one value.
pub fn interleaved(w: &[u32], block: usize, ties: bool) -> Vec<u32> {
    let (mut l, mut r) = (Vec::new(), Vec::new());
    let mut x = 0u32;
    for &b in w {
        let o = if b == 0 { &mut l } else { &mut r };
        for i in 0..block {
            o.push(if ties { x + (i * 2 / block) as u32 } else { x + i as u32 });
        }
        x += if ties { 1 } else { block as u32 };
    }
    l.extend(r);
    l
}

pub fn sizes(c: &Checker) -> Vec<usize> {
    c.pick(
        vec![0, 1, 2, 20, 21, 255, 1999, 2000, 2001, 2002, 3999, 4000, 4001, 4999, 5000, 5001, 6001, 8000, 10001],
        vec![0, 1, 2, 3, 10, 19, 20, 21, 22, 100, 255, 256, 600, 1999, 2000, 2001, 2002, 2003, 2500, 3000, 3998, 3999, 4000, 4001, 4002, 4500, 4999, 5000, 5001, 5002, 6000, 6001, 7001, 8000, 8001, 9999, 10_000, 10_001, 12_345, 16_000, 20_001, 40_000],
    )
}

// --- C06, C07 --------------------------------------------------------------------------------

pub fn c06(c: &mut Checker) {
    par_sorts(c, &ops::STABLE_PAR);
    long_arrays(c, &ops::STABLE_PAR);
    long_schedules(c, Sort::ParSortBy);
    merge_inputs(c, Sort::ParSortBy);
    deep_schedules(c, &[Sort::ParSortBy]);
    small(c, &ops::STABLE_PAR);
    real_pools(c, &ops::STABLE_PAR);
    types::sweep(c, &|_| vec![types::TOp::ParStable], true);
}

pub fn c07(c: &mut Checker) {
    par_sorts(c, &ops::UNST_PAR);
    long_arrays(c, &ops::UNST_PAR);
    long_schedules(c, Sort::ParUnstBy);
    par_adversaries(c, &ops::UNST_PAR[..1]);
    deep_schedules(c, &[Sort::ParUnstBy]);
    small(c, &ops::UNST_PAR);
    real_pools(c, &ops::UNST_PAR);
    types::sweep(c, &|_| vec![types::TOp::ParUnstable], true);
}

/// Below the parallel thresholds: the sequential code paths of the parallel modules.
fn small(c: &mut Checker, ops_: &[Sort]) {
    c.section("all weak orders, one worker");
    let full = c.pick(6, 8);
    for n in 0..=full {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}", show(k)), |c| {
                    for &op in ops_ {
                        sort_model(c, op, k, FLAT)?;
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("shapes at every length, one worker");
    let top = c.pick(180, 700);
    for n in (0..=top).chain([255, 256, 257, 258, 300, 511, 512, 513, 600, 1000, 1024, 1999]) {
        for (name, k) in gens::shapes(n) {
            if c.next() {
                let lay = crate::grid::LAYS[n % crate::grid::LAYS.len()];
                c.run(|| format!("n={n} {name}, {lay:?}"), |c| {
                    for &op in ops_ {
                        sort_model(c, op, &k, lay)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("every single move of a shape, one worker");
    for n in c.pick(vec![22, 51], vec![20, 21, 22, 24, 50, 51, 52, 64]) {
        for (name, k) in gens::shapes(n) {
            for i in 0..n {
                for j in 0..n {
                    if i != j && c.next() {
                        c.run(|| format!("n={n} {name}, element {i} moved to {j}"), |c| sort_model(c, ops_[0], &gens::moved(&k, i, j), FLAT));
                    }
                }
            }
        }
    }
    c.section("runs, one worker");
    let (len, alpha): (usize, &[usize]) = c.pick((5, &[9, 12, 23, 45]), (7, &[9, 12, 23, 45]));
    gens::words(len, alpha.len() as u32, &mut |w| {
        for rel in gens::RELS {
            if c.next() {
                let ls: Vec<usize> = w.iter().map(|&x| alpha[x as usize]).collect();
                let ds: Vec<gens::Dir> = (0..len).map(|i| if (i + w[0] as usize).is_multiple_of(2) { gens::Dir::Up } else { gens::Dir::Down }).collect();
                let keys = gens::runs(&ls, &ds, rel);
                c.run(|| format!("runs {ls:?} {ds:?} {rel:?}"), |c| sort_model(c, ops_[0], &keys, FLAT));
            }
        }
    });
}

/// One worker, no scheduling points in callbacks.
pub fn sort_model(c: &mut Checker, op: Sort, keys: &[u32], lay: Lay) -> Result<(), String> {
    let act = Act::Sort(op);
    let st = Setup { flags: ctx::F_TRACE, ..par_setup(keys.len(), 0) };
    each_policy(c, &CFGS[..1], &act, keys, lay, &st)
}

fn par_sorts(c: &mut Checker, ops_: &[Sort]) {
    c.section("words of chunk kinds, every policy");
    for (n, len) in c.pick(
        vec![(2001usize, 2usize), (4000, 2), (4003, 3), (6000, 3)],
        vec![(2001, 2), (2002, 2), (3999, 2), (4000, 2), (4001, 3), (5999, 3), (6000, 3), (6500, 4), (8000, 4), (10_003, 3)],
    ) {
        gens::words(len, CHUNKS.len() as u32, &mut |w| {
            for rel in 0..5 {
                if c.next() {
                    let kinds: Vec<Chunk> = w.iter().map(|&x| CHUNKS[x as usize]).collect();
                    let keys = blocks(n, 2000, &kinds, rel);
                    c.run(|| format!("n={n} chunks {kinds:?} relation {rel}"), |c| {
                        let act = Act::Sort(ops_[0]);
                        let g = stride(&act, &keys, 24);
                        each_policy(c, if c.quick() { &CFGS_WIDE } else { &CFGS }, &act, &keys, FLAT, &par_setup(n, g))
                    });
                }
            }
        });
    }
    c.section("shapes at every threshold, every policy");
    for n in sizes(c) {
        for (i, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for (j, &op) in ops_.iter().enumerate() {
                if n > 300 && j > 0 && (i + j) % 5 != 0 && c.quick() {
                    continue;
                }
                if c.next() {
                    let lay = crate::grid::LAYS[(i + j) % crate::grid::LAYS.len()];
                    c.run(|| format!("n={n} {name}, {op:?}, {lay:?}"), |c| {
                        let act = Act::Sort(op);
                        let g = stride(&act, &k, 20);
                        each_policy(c, if c.quick() { &CFGS_WIDE[1..] } else { &CFGS }, &act, &k, lay, &par_setup(n, g))
                    });
                }
            }
        }
    }
}

/// Many chunks, deep merge trees, positions beyond 16 bits.
fn long_arrays(c: &mut Checker, ops_: &[Sort]) {
    c.section("long arrays");
    for n in crate::seq::long_sizes(c) {
        for (i, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if c.next() {
                let op = ops_[i % ops_.len()];
                let lay = crate::grid::LAYS[i % crate::grid::LAYS.len()];
                c.run(|| format!("n={n} {name}, {op:?}, {lay:?}"), |c| {
                    let st = Setup { flags: ctx::F_TRACE, ..par_setup(n, 0) };
                    each_policy(c, &CFGS_WIDE[i % CFGS_WIDE.len()..][..1], &Act::Sort(op), &k, lay, &st)
                });
            }
        }
    }
}

/// As above, with one worker delayed at any of many points while another runs ahead.
fn long_schedules(c: &mut Checker, op: Sort) {
    c.section("long arrays: every schedule within one deviation");
    for n in c.pick(vec![40_009usize], vec![40_009, 70_001]) {
        for (name, keys) in [("mix", gens::perm(n, 3)), ("mix of 40 values", gens::perm(n, 4).into_iter().map(|x| x % 40).collect())] {
            for cfg in [(2, Policy::Owner), (3, Policy::RoundRobin)] {
                if cfg.0 == 2 || !c.quick() {
                    split_explore(c, &format!("n={n} {name}, {op:?}, {cfg:?}"), cfg, 1, &Act::Sort(op), &keys, c.pick(60, 150), 0);
                }
            }
        }
    }
}

/// Merges of two long runs with every interleaving of blocks.
fn merge_inputs(c: &mut Checker, op: Sort) {
    c.section("every interleaving of two runs in the parallel merge");
    let (blocks_n, block) = c.pick((7, 900), (9, 700));
    gens::words(blocks_n, 2, &mut |w| {
        for ties in [false, true] {
            if c.next() {
                let keys = interleaved(w, block, ties);
                c.run(|| format!("merge of {w:?} in blocks of {block}, ties {ties}"), |c| {
                    let act = Act::Sort(op);
                    let g = stride(&act, &keys, 16);
                    each_policy(c, &CFGS_WIDE[2..4], &act, &keys, FLAT, &par_setup(keys.len(), g))
                });
            }
        }
    });
    c.section("boundaries of the parallel merge");
    for total in c.pick(vec![4999usize, 5000, 5001], vec![4998, 4999, 5000, 5001, 5002, 7000, 10_000]) {
        for left in [1, 2, 999, 2000, 2499, 2500, 2501, total - 2000, total - 2, total - 1] {
            for shape in 0..6 {
                if c.next() {
                    // left and right run, ascending each, in some relation
                    let mut k: Vec<u32> = (0..left as u32).map(|i| 2 * i).collect();
                    let r = (total - left) as u32;
                    k.extend((0..r).map(|i| match shape {
                        0 => 2 * i + 1,
                        1 => i,
                        2 => 2 * left as u32 + i,
                        3 => 4 * i,
                        4 => left as u32 / 2,
                        _ => 0,
                    }));
                    c.run(|| format!("runs of {left} and {r}, relation {shape}"), |c| {
                        let act = Act::Sort(op);
                        let g = stride(&act, &k, 16);
                        each_policy(c, &CFGS_WIDE[1..], &act, &k, FLAT, &par_setup(total, g))
                    });
                }
            }
        }
    }
}

/// Every schedule within one (thorough: two) deviations.
fn deep_schedules(c: &mut Checker, ops_: &[Sort]) {
    c.section("every schedule within the deviation bound");
    let mut ins: Vec<(String, Vec<u32>, u64, usize)> = Vec::new();
    for (n, kinds, rel) in [
        (2001usize, vec![Chunk::Mix], 2usize),
        (4003, vec![Chunk::Asc, Chunk::Desc, Chunk::Mix], 2),
        (6001, vec![Chunk::Mix, Chunk::Asc], 3),
        (6001, vec![Chunk::Asc, Chunk::Near], 1),
        (8002, vec![Chunk::Mix, Chunk::Mix, Chunk::Desc], 2),
        (5000, vec![Chunk::Flat, Chunk::Desc], 1),
    ] {
        ins.push((format!("n={n} {kinds:?} relation {rel}"), blocks(n, 2000, &kinds, rel), c.pick(24, 60), 1));
    }
    ins.push(("n=2100 two deviations".into(), blocks(2100, 2000, &[Chunk::Asc, Chunk::Mix], 2), c.pick(4, 12), 2));
    ins.push(("n=5100 two deviations".into(), blocks(5100, 2000, &[Chunk::Asc, Chunk::Asc, Chunk::Mix], 2), c.pick(4, 10), 2));
    if !c.quick() {
        ins.push(("n=4100 three deviations".into(), blocks(4100, 2000, &[Chunk::Asc, Chunk::Mix], 2), 4, 3));
    }
    for (name, keys, points, dev) in ins {
        for &op in ops_ {
            let act = Act::Sort(op);
            for cfg in [(2, Policy::Owner), (2, Policy::Thief), (3, Policy::RoundRobin), (3, Policy::Late), (4, Policy::Thief)] {
                if dev > 1 && cfg.0 > c.pick(2, 3) {
                    continue;
                }
                // The tree below one input is split by its first deviation among the workers.
                split_explore(c, &format!("{name}, {op:?}, {cfg:?}"), cfg, dev, &act, &keys, points, ctx::F_RACE & 0);
            }
        }
    }
}

/// `explore`, one case per first deviation.
pub fn split_explore(c: &mut Checker, name: &str, cfg: Cfg, dev: usize, act: &Act, keys: &[u32], points: u64, flags: u64) {
    let g = stride(act, keys, points);
    let st = Setup { flags: par_setup(keys.len(), g).flags | flags, ..par_setup(keys.len(), g) };
    let root = execute(act, keys, FLAT, &st, Some(&Config { workers: cfg.0, policy: cfg.1, script: vec![] }));
    c.case(
        || format!("{name}: default schedule"),
        |c| {
            explore(c, cfg, 0, &mut |_, config| {
                let d = execute(act, keys, FLAT, &st, Some(config));
                (judge(&d, act, keys, &st), d.trace)
            })
            .map(|_| ())
        },
    );
    for p in 0..root.trace.options.len() {
        for o in 1..root.trace.options[p] as usize {
            c.case(
                || format!("{name}: first deviation at point {p} to option {o}, up to {dev}"),
                |c| explore_from(c, cfg, vec![(p, o)], dev, act, keys, &st),
            );
        }
    }
}

fn explore_from(c: &mut Checker, cfg: Cfg, first: Vec<(usize, usize)>, dev: usize, act: &Act, keys: &[u32], st: &Setup) -> Result<(), String> {
    let mut stack = vec![first];
    while let Some(script) = stack.pop() {
        let from = script.last().map_or(0, |&(p, _)| p + 1);
        let config = Config { workers: cfg.0, policy: cfg.1, script };
        let d = execute(act, keys, FLAT, st, Some(&config));
        if d.trace.diverged {
            return Err(format!("harness: schedule {config:?} cannot be replayed"));
        }
        book(c, &d.trace, d.trace.options.len().saturating_sub(from));
        judge(&d, act, keys, st).map_err(|e| format!("{e} [{} workers, {:?}, deviations {:?}]", cfg.0, cfg.1, config.script))?;
        if config.script.len() < dev {
            for p in from..d.trace.options.len() {
                for o in 1..d.trace.options[p] as usize {
                    let mut s = config.script.clone();
                    s.push((p, o));
                    stack.push(s);
                }
            }
        }
    }
    Ok(())
}

/// Keys that make the given operation take as many comparisons as the adversary can.
pub fn against(act: &Act, n: usize, variant: u8) -> Vec<u32> {
    adversarial(n, variant, usize::MAX, None, &mut |g| {
        let mut v = g.view_mut();
        let _ = model::run(&Config { workers: 1, policy: Policy::Owner, script: vec![] }, || match act {
            Act::Sort(s) => trap(|| ops::sort(*s, &mut v)),
            Act::Many(f, idx) => {
                let iv = Array1::from_vec(idx.clone());
                trap(|| ops::par_select_many(*f, &mut v, iv.view(), &mut vec![]))
            }
        });
    })
}

/// The operations the adversary has something against.
pub fn quadratic(n: usize) -> [Act; 3] {
    [Act::Sort(Sort::ParUnstBy), Act::Many(Form::By, vec![n / 2]), Act::Many(Form::By, vec![n / 4, n - 3])]
}

fn par_adversaries(c: &mut Checker, ops_: &[Sort]) {
    c.section("adversary at every length");
    for n in 21..c.pick(1300usize, 6500) {
        for variant in 0..8u8 {
            if (!c.quick() || variant as usize == n % 8) && c.next() {
                c.run(|| format!("n={n} adversary {variant}"), |c| {
                    let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                        let _ = model::run(&Config { workers: 1, policy: Policy::Owner, script: vec![] }, || trap(|| ops::sort(ops_[0], &mut g.view_mut())));
                    });
                    each_policy(c, &CFGS[..1], &Act::Sort(ops_[0]), &k, FLAT, &par_setup(n, 0))
                });
            }
        }
    }
    c.section("adversary, long arrays");
    for n in crate::seq::long_sizes(c) {
        for variant in 0..8u8 {
            if c.next() {
                c.run(|| format!("n={n} adversary {variant}"), |c| {
                    let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                        let _ = model::run(&Config { workers: 1, policy: Policy::Owner, script: vec![] }, || trap(|| ops::sort(ops_[0], &mut g.view_mut())));
                    });
                    each_policy(c, &CFGS_WIDE[1..2], &Act::Sort(ops_[0]), &k, FLAT, &par_setup(n, 0))
                });
            }
        }
    }
    c.section("adversarial inputs");
    let sizes: Vec<usize> = c.pick(
        (21..=160).step_by(9).chain([50, 51, 128, 200, 257, 300, 512, 1000, 2001, 2500, 4200]).collect(),
        (21..=400).chain([512, 1000, 2000, 2001, 2500, 3000, 4200, 6000]).collect(),
    );
    for n in sizes {
        for variant in 0..8u8 {
            if c.next() {
                c.run(|| format!("n={n} adversary {variant}"), |c| {
                    let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                        let _ = model::run(&Config { workers: 1, policy: Policy::Owner, script: vec![] }, || trap(|| ops::sort(ops_[0], &mut g.view_mut())));
                    });
                    let act = Act::Sort(ops_[0]);
                    let g = stride(&act, &k, 16);
                    each_policy(c, if n < 2000 { &CFGS[..1] } else { &CFGS_WIDE }, &act, &k, FLAT, &par_setup(n, g))
                });
            }
            let tails = gens::shapes(n);
            for budget in [n / 8, n / 3, n / 2] {
                for (name, tail) in tails.iter().step_by(c.pick(7, 2)) {
                    if n > 300 && n < 2000 || n > 2500 {
                        continue;
                    }
                    if c.next() {
                        c.run(|| format!("n={n} adversary {variant}, budget {budget}, rest {name}"), |c| {
                            let k = adversarial(n, variant, budget, Some(tail), &mut |g| {
                                let _ = model::run(&Config { workers: 1, policy: Policy::Owner, script: vec![] }, || trap(|| ops::sort(ops_[0], &mut g.view_mut())));
                            });
                            let act = Act::Sort(ops_[0]);
                            let st = par_setup(n, 0);
                            each_policy(c, if n < 2000 { &CFGS[..1] } else { &CFGS_WIDE[1..3] }, &act, &k, FLAT, &st)
                        });
                    }
                }
            }
        }
    }
    c.section("lopsided partitions at the threshold");
    // The largest part of a partition just at, below and above the sequential threshold.
    for n in c.pick(vec![2100usize, 4010], vec![2050, 2100, 2300, 4010, 4050, 5000, 6100]) {
        for low in [1, 10, 50, 99, 100, 101, n / 2, n - 2002, n - 2001, n - 2000, n - 1999, 1998, 1999, 2000, 2001, 2002] {
            if low >= n {
                continue;
            }
            for pat in 0..4 {
                if c.next() {
                    let mut k: Vec<u32> = gens::perm(n, pat);
                    if pat < 2 {
                        for x in &mut k {
                            *x = (*x >= low as u32) as u32 * 2 + (pat as u32 * *x) % 2;
                        }
                    } else {
                        k.sort_unstable();
                        k.rotate_left(low);
                    }
                    c.run(|| format!("n={n} with {low} low keys, pattern {pat}"), |c| {
                        let act = Act::Sort(ops_[0]);
                        let g = stride(&act, &k, 16);
                        each_policy(c, &CFGS_WIDE[1..], &act, &k, FLAT, &par_setup(n, g))
                    });
                }
            }
        }
    }
}

// --- real pools ------------------------------------------------------------------------------

pub fn pools() -> &'static Vec<(usize, rayon::ThreadPool)> {
    static P: OnceLock<Vec<(usize, rayon::ThreadPool)>> = OnceLock::new();
    P.get_or_init(|| {
        [1usize, 2, 3, 8]
            .into_iter()
            .map(|k| (k, rayon::ThreadPoolBuilder::new().num_threads(k).stack_size(16 << 20).build().expect("pool")))
            .collect()
    })
}

/// The scheduler is rayon's own here: shows that what the controlled one does is what rayon does.
pub fn real_pools(c: &mut Checker, ops_: &[Sort]) {
    c.section("free-running pools");
    for n in [100, 1999, 2001, 4003, 5003, 9001, 20_011] {
        for (i, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if i % c.pick(5, 1) != n % c.pick(5, 1) {
                continue;
            }
            for &op in ops_ {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}, pools of 1, 2, 3 and 8 threads"), |c| {
                        for (_, p) in pools() {
                            let act = Act::Sort(op);
                            let st = Setup { flags: 0, ..par_setup(n, 0) };
                            let d = p.install(|| execute(&act, &k, FLAT, &st, None));
                            c.evaluations += 1;
                            c.add("free-running executions", 1);
                            verify(&d, &act, &k)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

// --- C08 -------------------------------------------------------------------------------------

pub fn c08(c: &mut Checker) {
    types::sweep(c, &|n| types::manys(n, true), true);
    c.section("all weak orders, every index set");
    for n in 0..=c.pick(6usize, 7) {
        gens::weak_orders(n, &mut |k| {
            if c.next() {
                c.run(|| format!("keys {}, every index set", show(k)), |c| {
                    for bits in 0u32..1 << n {
                        let idx: Vec<usize> = (0..n).filter(|i| bits >> i & 1 == 1).collect();
                        for &f in if n <= 4 { &ops::FORMS[..] } else { &ops::FORMS[..1] } {
                            let st = Setup { flags: ctx::F_TRACE, ..par_setup(n, 0) };
                            each_policy(c, &CFGS[..1], &Act::Many(f, idx.clone()), k, FLAT, &st)?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    c.section("every index list, valid or not");
    for n in 0..=c.pick(4usize, 6) {
        let keys: Vec<u32> = gens::perm(n, 1);
        for m in 0..=c.pick(4, 5) {
            gens::words(m, n as u32 + 3, &mut |w| {
                if c.next() {
                    let idx: Vec<usize> = w.iter().map(|&x| if x as usize == n + 2 { usize::MAX } else { x as usize }).collect();
                    c.run(|| format!("n={n} indices {idx:?}"), |c| {
                        for f in ops::FORMS {
                            let st = Setup { flags: ctx::F_TRACE, ..par_setup(n, 0) };
                            each_policy(c, &CFGS[..2], &Act::Many(f, idx.clone()), &keys, FLAT, &st)?;
                        }
                        Ok(())
                    });
                }
            });
        }
    }
    c.section("one bad index in a long list");
    for n in [130usize, 4500] {
        let keys: Vec<u32> = gens::perm(n, 2);
        for list in [vec![0, 1, n / 4, n / 2, n / 2 + 1, n - 2, n - 1], (0..n).step_by(n / 20).collect(), (n - 12..n).collect()] {
            for p in 0..list.len() {
                for bad in [0usize, 1, n / 2, n - 1, n, n + 1, usize::MAX] {
                    if c.next() {
                        let mut idx = list.clone();
                        idx[p] = bad;
                        c.run(|| format!("n={n} indices {idx:?}"), |c| {
                            each_policy(c, if n < 2000 { &CFGS[..1] } else { &CFGS_WIDE[1..3] }, &Act::Many(Form::By, idx.clone()), &keys, FLAT, &par_setup(n, 997))
                        });
                    }
                }
            }
        }
    }
    c.section("shapes and index families");
    for n in (0..=c.pick(50, 130)).chain([200, 257, 300, 513, 1000]).chain(c.pick(vec![2002usize, 4001, 4005, 6001, 9001], vec![2001, 2002, 2003, 3000, 4000, 4001, 4002, 4003, 4005, 5000, 6001, 8003, 9001, 16_001])) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for (li, idx) in crate::seq::index_lists(n).into_iter().enumerate() {
                if n > 50 && (si + li) % c.pick(6, 1) != 0 {
                    continue;
                }
                if c.next() {
                    let f = ops::FORMS[(n + li) % 3];
                    let lay = crate::grid::LAYS[(n + si + li) % crate::grid::LAYS.len()];
                    c.run(|| format!("n={n} {name}, index family {li}, {f:?}, {lay:?}"), |c| {
                        let act = Act::Many(f, idx.clone());
                        let st = if n < 2000 { par_setup(n, 0) } else { par_setup(n, 5 * n as u64 / 8 + 1) };
                        each_policy(c, if n < 2000 { &CFGS[..1] } else { &CFGS_WIDE[1..] }, &act, &k, lay, &st)
                    });
                }
            }
        }
    }
    c.section("long arrays");
    for n in crate::seq::long_sizes(c) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            let lists: [Vec<usize>; 5] = [
                vec![n / 2],
                (0..n).step_by(n / 7).collect(),
                (3..n).step_by(97).collect(),
                vec![0, 1, n / 2 - 1, n / 2, n - 2, n - 1],
                (0..n).step_by(2100).collect(),
            ];
            for (li, idx) in lists.iter().enumerate() {
                if si % 5 == li && c.next() {
                    let lay = crate::grid::LAYS[si % crate::grid::LAYS.len()];
                    c.run(|| format!("n={n} {name}, list {li}, {lay:?}"), |c| {
                        each_policy(c, &CFGS_WIDE[si % CFGS_WIDE.len()..][..1], &Act::Many(ops::FORMS[si % 3], idx.clone()), &k, lay, &par_setup(n, 0))
                    });
                }
            }
        }
        for variant in 0..8u8 {
            for (li, idx) in [vec![n / 2], vec![1, n - n / 7]].into_iter().enumerate() {
                for (budget, tail) in [(usize::MAX, 0), (200, 1), (300, 30), (300, 36)] {
                    if c.next() {
                        let tail = &gens::shapes(n)[tail];
                        let act = Act::Many(Form::By, idx.clone());
                        c.run(|| format!("n={n} adversary {variant} against list {li}, budget {budget}, rest {}", tail.0), |c| {
                            let iv = Array1::from_vec(idx.clone());
                            let k = adversarial(n, variant, budget, Some(&tail.1), &mut |g| {
                                let mut v = g.view_mut();
                                let _ = model::run(&Config { workers: 1, policy: Policy::Owner, script: vec![] }, || {
                                    let mut out = vec![];
                                    trap(|| ops::par_select_many(Form::By, &mut v, iv.view(), &mut out))
                                });
                            });
                            each_policy(c, &CFGS_WIDE[1..2], &act, &k, FLAT, &par_setup(n, 0))
                        });
                    }
                }
            }
        }
    }
    c.section("pivots around the sequential threshold");
    for n in c.pick(vec![4300usize], vec![2100, 4300, 6400, 8500]) {
        for p in (1..=3).map(|d| 1999 + d).chain([1, 1000, n - 2003, n - 2002, n - 2001, n - 2000, n - 1999]) {
            for q in [1, 2, 100, 1000, 1999, 2000, 2001, 2002] {
                for pat in 0..3 {
                    let mut idx = vec![p.saturating_sub(q), p, p + q];
                    idx.retain(|&i| i < n);
                    idx.dedup();
                    if !valid(&idx, n) {
                        continue;
                    }
                    if c.next() {
                        let k = match pat {
                            0 => gens::perm(n, p as u64),
                            1 => gens::perm(n, p as u64).into_iter().map(|x| x % 7).collect(),
                            _ => (0..n as u32).rev().collect(),
                        };
                        c.run(|| format!("n={n} indices {idx:?}, pattern {pat}"), |c| {
                            each_policy(c, &CFGS_WIDE[1..], &Act::Many(Form::By, idx.clone()), &k, FLAT, &par_setup(n, n as u64 / 3))
                        });
                    }
                }
            }
        }
    }
    c.section("adversary at every length");
    for n in 12..c.pick(1300usize, 6500) {
        for variant in 0..8u8 {
            if (!c.quick() || variant as usize == n % 8) && c.next() {
                let idx = match n % 3 {
                    0 => vec![n / 2],
                    1 => vec![1],
                    _ => vec![n / 3, n - 2],
                };
                let act = Act::Many(Form::By, idx.clone());
                c.run(|| format!("n={n} adversary {variant} against {idx:?}"), |c| {
                    let iv = Array1::from_vec(idx.clone());
                    let k = adversarial(n, variant, usize::MAX, None, &mut |g| {
                        let mut v = g.view_mut();
                        let _ = model::run(&Config { workers: 1, policy: Policy::Owner, script: vec![] }, || {
                            let mut out = vec![];
                            trap(|| ops::par_select_many(Form::By, &mut v, iv.view(), &mut out))
                        });
                    });
                    each_policy(c, &CFGS[..1], &act, &k, FLAT, &par_setup(n, 0))
                });
            }
        }
    }
    c.section("adversarial inputs");
    for n in c.pick(vec![12usize, 20, 33, 50, 77, 100, 128, 175, 200, 260, 300, 400, 700, 1025, 2500, 4200], (11..=300).chain([350, 400, 500, 700, 1000, 1024, 1025, 1100, 2000, 2500, 4200, 6000]).collect()) {
        let tails = gens::shapes(n);
        for variant in 0..8u8 {
            let lists = [vec![n / 2], vec![1, n / 3, n / 2, n - 2], vec![n / 2, n / 2 + 2]];
            for (li, idx) in lists.iter().enumerate() {
                for (budget, tail) in crate::seq::budgets(c, n, &tails).into_iter().step_by(c.pick(4, 1)) {
                    if c.next() {
                        let tn = tail.map_or("", |t| &t.0);
                        let act = Act::Many(Form::By, idx.clone());
                        c.run(|| format!("n={n} adversary {variant} against list {li}, budget {budget}, rest {tn}"), |c| {
                            let iv = Array1::from_vec(idx.clone());
                            let k = adversarial(n, variant, budget, tail.map(|t| &t.1[..]), &mut |g| {
                                let mut v = g.view_mut();
                                let _ = model::run(&Config { workers: 1, policy: Policy::Owner, script: vec![] }, || {
                                    let mut out = vec![];
                                    trap(|| ops::par_select_many(Form::By, &mut v, iv.view(), &mut out))
                                });
                            });
                            each_policy(c, if n < 2000 { &CFGS[..1] } else { &CFGS_WIDE[1..3] }, &act, &k, FLAT, &par_setup(n, 0))
                        });
                    }
                }
            }
        }
    }
    c.section("every schedule within the deviation bound");
    for (n, idx, pat) in [
        (4300usize, vec![1000usize, 2100, 2200, 4000], 0u64),
        (6500, vec![2100, 2500, 4300, 4400, 6400], 1),
        (9001, (1..9000).step_by(400).collect::<Vec<_>>(), 2),
        (9001, (0..9001).step_by(1500).collect::<Vec<_>>(), 3),
    ] {
        let mut keys = gens::perm(n, pat);
        if pat == 1 {
            keys.iter_mut().for_each(|x| *x %= 50);
        }
        for cfg in [(2, Policy::Owner), (2, Policy::Thief), (3, Policy::RoundRobin), (3, Policy::Late)] {
            let act = Act::Many(Form::By, idx.clone());
            split_explore(c, &format!("n={n} {} {cfg:?}", act.name()), cfg, 1, &act, &keys, c.pick(30, 80), 0);
            if cfg.0 == 2 {
                split_explore(c, &format!("n={n} {} {cfg:?} two deviations", act.name()), cfg, 2, &act, &keys, c.pick(4, 12), 0);
            }
        }
    }
    c.section("free-running pools");
    for n in [100usize, 2100, 4300, 9001, 30_011] {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for (li, idx) in crate::seq::index_lists(n).into_iter().enumerate() {
                if (si + 3 * li) % c.pick(9, 2) != 0 {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} {name}, index family {li}, pools of 1, 2, 3 and 8 threads"), |c| {
                        for (_, p) in pools() {
                            let act = Act::Many(ops::FORMS[li % 3], idx.clone());
                            let st = Setup { flags: 0, ..par_setup(n, 0) };
                            let d = p.install(|| execute(&act, &k, FLAT, &st, None));
                            c.evaluations += 1;
                            c.add("free-running executions", 1);
                            verify(&d, &act, &k)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

// --- C24 -------------------------------------------------------------------------------------

pub fn c24(c: &mut Checker) {
    c.section("sorts: shapes and chunk words");
    for n in c.pick(vec![2001usize, 4003, 5003, 8001], vec![2001, 2002, 3999, 4003, 5000, 5003, 6001, 8001, 12_001, 20_001]) {
        let mut ins = gens::shapes(n);
        gens::words(n.div_ceil(2000).min(3), CHUNKS.len() as u32, &mut |w| {
            let kinds: Vec<Chunk> = w.iter().map(|&x| CHUNKS[x as usize]).collect();
            for rel in 0..5 {
                ins.push((format!("{kinds:?} relation {rel}"), blocks(n, 2000, &kinds, rel)));
            }
        });
        for (i, (name, k)) in ins.into_iter().enumerate() {
            if i % c.pick(4, 1) != 0 {
                continue;
            }
            for op in [Sort::ParSortBy, Sort::ParUnstBy, Sort::ParSortByKey, Sort::ParUnstByKey] {
                if op.by_key() && i % 12 != 0 {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} {name}, {op:?}"), |c| {
                        let st = Setup { flags: ctx::F_TRACE | ctx::F_YIELD | ctx::F_RACE, ..par_setup(n, n as u64 / 2) };
                        each_policy(c, &CFGS_WIDE[1..c.pick(3, 5)], &Act::Sort(op), &k, FLAT, &st)
                    });
                }
            }
        }
    }
    c.section("sorts and bulk selections: long arrays");
    for n in c.pick(vec![40_009usize, 70_001], vec![20_011, 33_001, 40_009, 66_003, 70_001, 140_003]) {
        for (i, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            if i % c.pick(5, 1) != n % c.pick(5, 1) {
                continue;
            }
            let every: Vec<usize> = (500..n).step_by(2300).collect();
            for act in [Act::Sort(Sort::ParSortBy), Act::Sort(Sort::ParUnstBy), Act::Many(Form::By, every)] {
                if c.next() {
                    c.run(|| format!("n={n} {name}, {}", act.name()), |c| {
                        // Few enough points that tasks pass each other by whole chunks.
                        let st = Setup { flags: ctx::F_TRACE | ctx::F_YIELD | ctx::F_RACE, ..par_setup(n, n as u64 / 3) };
                        each_policy(c, &CFGS_WIDE[2 + i % 3..][..1], &act, &k, FLAT, &st)
                    });
                }
            }
        }
    }
    c.section("merges: every interleaving of two runs");
    let (blocks_n, block) = c.pick((6, 1000), (9, 700));
    gens::words(blocks_n, 2, &mut |w| {
        for ties in [false, true] {
            if c.next() {
                let keys = interleaved(w, block, ties);
                c.run(|| format!("merge of {w:?} in blocks of {block}, ties {ties}"), |c| {
                    let st = Setup { flags: ctx::F_TRACE | ctx::F_YIELD | ctx::F_RACE, ..par_setup(keys.len(), 1000) };
                    each_policy(c, &CFGS_WIDE[2..3], &Act::Sort(Sort::ParSortBy), &keys, FLAT, &st)
                });
            }
        }
    });
    c.section("bulk selection");
    for n in c.pick(vec![4300usize, 9001], vec![2100, 4001, 4300, 6500, 9001, 16_001]) {
        for (si, (name, k)) in gens::shapes(n).into_iter().enumerate() {
            for (li, idx) in crate::seq::index_lists(n).into_iter().enumerate() {
                if (si + li) % c.pick(8, 1) != 0 {
                    continue;
                }
                if c.next() {
                    c.run(|| format!("n={n} {name}, index family {li}"), |c| {
                        let st = Setup { flags: ctx::F_TRACE | ctx::F_YIELD | ctx::F_RACE, ..par_setup(n, n as u64 / 2) };
                        each_policy(c, &CFGS_WIDE[2..3], &Act::Many(Form::By, idx.clone()), &k, FLAT, &st)
                    });
                }
            }
        }
    }
    c.section("adversarial inputs");
    for n in c.pick(vec![2300usize, 4300, 7000], vec![2040, 2300, 3100, 4300, 5500, 7000, 9001, 13_000]) {
        for variant in 0..8u8 {
            for (ai, act) in quadratic(n).into_iter().enumerate() {
                if c.next() {
                    c.run(|| format!("n={n} adversary {variant} against {}", act.name()), |c| {
                        let k = against(&act, n, variant);
                        let st = Setup { flags: ctx::F_TRACE | ctx::F_YIELD | ctx::F_RACE, ..par_setup(n, n as u64 / 2) };
                        each_policy(c, &CFGS_WIDE[1 + (ai + variant as usize) % 4..][..1], &act, &k, FLAT, &st)
                    });
                }
            }
        }
    }
    c.section("every schedule within the deviation bound");
    for (name, act, keys) in deep_acts() {
        for cfg in [(2, Policy::Owner), (3, Policy::Thief)] {
            split_explore(c, &format!("{name} {cfg:?}"), cfg, 1, &act, &keys, c.pick(16, 60), ctx::F_RACE);
        }
    }
    c.section("cached key: each element shown at most once");
    for n in c.pick(vec![2usize, 100, 255, 256, 2001, 5000], vec![2, 3, 100, 254, 255, 256, 257, 1000, 2001, 5000, 9001]) {
        for (name, k) in gens::shapes(n).into_iter().step_by(c.pick(4, 1)) {
            if c.next() {
                c.run(|| format!("n={n} {name}, ParCached"), |c| {
                    for cfg in CFGS {
                        let act = Act::Sort(Sort::ParCached);
                        let mut st = par_setup(n, n as u64 / 9 + 1);
                        st.flags |= ctx::F_HITS;
                        explore(c, cfg, 0, &mut |_, config| {
                            let d = execute(&act, &k, FLAT, &st, Some(config));
                            let r = judge(&d, &act, &k, &st).and_then(|_| match ctx::expected_hits().iter().position(|&h| h > 1) {
                                Some(i) => Err(format!("ParCached: element {i} was shown to the key function {} times", ctx::expected_hits()[i])),
                                None => Ok(()),
                            });
                            (r, d.trace)
                        })?;
                    }
                    Ok(())
                });
            }
        }
    }
}

/// A few operations that fork at several levels.
pub fn deep_acts() -> Vec<(String, Act, Vec<u32>)> {
    vec![
        ("stable n=4003".into(), Act::Sort(Sort::ParSortBy), blocks(4003, 2000, &[Chunk::Asc, Chunk::Desc, Chunk::Mix], 2)),
        ("stable n=6001".into(), Act::Sort(Sort::ParSortBy), blocks(6001, 2000, &[Chunk::Mix, Chunk::Asc], 3)),
        ("unstable n=6001".into(), Act::Sort(Sort::ParUnstBy), gens::perm(6001, 3)),
        ("unstable n=5000 ties".into(), Act::Sort(Sort::ParUnstBy), gens::perm(5000, 4).into_iter().map(|x| x % 9).collect()),
        ("bulk n=6500".into(), Act::Many(Form::By, vec![2100, 2500, 4300, 4400, 6400]), gens::perm(6500, 5)),
        ("bulk n=9001".into(), Act::Many(Form::By, (1..9000).step_by(700).collect()), gens::perm(9001, 6)),
    ]
}
