//! What an operation does to an array, and what that takes.
use crate::gens::{self, Adversary};
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayViewMut1, s};
use rayon_core::model::{self, Config, Policy};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

static mut BLOCKS: u64 = 0;
static mut LOW: usize = usize::MAX;
static mut FLOOR: usize = 0;

/// Called at the start of every basic block. Only one thread runs measured code.
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    unsafe {
        BLOCKS += 1;
        let x = 0u8;
        let sp = &raw const x as usize;
        if sp < LOW && sp >= FLOOR {
            LOW = sp;
        }
    }
}

// Copies count by what they copy.
#[unsafe(no_mangle)]
unsafe extern "C" fn memcpy(to: *mut std::ffi::c_void, from: *const std::ffi::c_void, n: usize) -> *mut std::ffi::c_void {
    unsafe {
        BLOCKS += n as u64 / 32;
        std::arch::asm!("rep movsb", inout("rdi") to => _, inout("rsi") from => _, inout("rcx") n => _, options(nostack, preserves_flags));
    }
    to
}
#[unsafe(no_mangle)]
unsafe extern "C" fn memmove(to: *mut std::ffi::c_void, from: *const std::ffi::c_void, n: usize) -> *mut std::ffi::c_void {
    unsafe {
        BLOCKS += n as u64 / 32;
        if (to as usize).wrapping_sub(from as usize) >= n {
            std::arch::asm!("rep movsb", inout("rdi") to => _, inout("rsi") from => _, inout("rcx") n => _, options(nostack, preserves_flags));
        } else {
            let (t, f) = (to.wrapping_byte_add(n.wrapping_sub(1)), from.wrapping_byte_add(n.wrapping_sub(1)));
            std::arch::asm!("std", "rep movsb", "cld", inout("rdi") t => _, inout("rsi") f => _, inout("rcx") n => _, options(nostack));
        }
    }
    to
}

/// Blocks executed and bytes of stack used below this frame. Addresses below `floor` do not count.
#[inline(never)]
pub fn measure<R>(floor: usize, f: impl FnOnce() -> R) -> (R, u64, usize) {
    let top = 0u8;
    let top = std::hint::black_box(&raw const top as usize);
    unsafe {
        BLOCKS = 0;
        FLOOR = floor;
        LOW = top;
    }
    let r = f();
    let (b, l) = unsafe { (BLOCKS, LOW) };
    unsafe { FLOOR = usize::MAX };
    (r, b, top - l)
}

pub trait Elem: Copy + Send + Sync + PartialEq + 'static {
    fn make(key: u32, id: u32) -> Self;
    fn key(&self) -> u32;
    fn id(&self) -> u32;
}
#[derive(Clone, Copy, PartialEq)]
pub struct Small(u32, u32);
impl Elem for Small {
    fn make(key: u32, id: u32) -> Small {
        Small(key, id)
    }
    fn key(&self) -> u32 {
        self.0
    }
    fn id(&self) -> u32 {
        self.1
    }
}
#[derive(Clone, Copy, PartialEq)]
pub struct Large([u64; 64]);
impl Elem for Large {
    fn make(key: u32, id: u32) -> Large {
        let mut a = [!0; 64];
        a[0] = key as u64;
        a[63] = id as u64;
        Large(a)
    }
    fn key(&self) -> u32 {
        self.0[0] as u32
    }
    fn id(&self) -> u32 {
        self.0[63] as u32
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Sort,
    Unst,
    Cached,
    ParSort,
    ParUnst,
    ParCached,
    Select(usize),
    Many(Vec<usize>),
    ParMany(Vec<usize>),
    Dedup,
    Reverse,
    IsSorted,
    Contains,
    Search(u32),
    Point(u32),
}
use Op::*;

impl Op {
    pub fn name(&self) -> String {
        match self {
            Many(l) if l.len() > 9 => format!("Many({} indices)", l.len()),
            ParMany(l) if l.len() > 9 => format!("ParMany({} indices)", l.len()),
            o => format!("{o:?}"),
        }
    }
}

/// The operation; what it returns is boiled down to numbers.
fn apply<T: Elem>(op: &Op, idx: &Array1<usize>, v: &mut ArrayViewMut1<T>) -> usize {
    let by = |a: &T, b: &T| a.key().cmp(&b.key());
    match op {
        Sort => v.sort_by(by),
        Unst => v.sort_unstable_by(by),
        Cached => v.sort_by_cached_key(|e| e.key()),
        ParSort => v.par_sort_by(by),
        ParUnst => v.par_sort_unstable_by(by),
        ParCached => v.par_sort_by_cached_key(|e| e.key()),
        Select(i) => return v.select_nth_unstable_by(*i, by).1.key() as usize,
        Many(_) => {
            let mut out: Vec<(usize, &mut T)> = Vec::with_capacity(idx.len());
            v.select_many_nth_unstable_by(idx, &mut out, by);
            return out.len();
        }
        ParMany(_) => {
            let mut out: Vec<&mut T> = Vec::with_capacity(idx.len());
            v.par_select_many_nth_unstable_by(idx, &mut out, by);
            return out.len();
        }
        Dedup => return v.partition_dedup_by(|a, b| a.key() == b.key()).0.len(),
        Reverse => v.reverse(),
        IsSorted => return v.is_sorted_by(|a, b| a.key() <= b.key()) as usize,
        Contains => return v.contains(&T::make(u32::MAX, u32::MAX)) as usize,
        Search(k) => return v.binary_search_by(|e| e.key().cmp(k)).is_ok() as usize,
        Point(k) => return v.partition_point(|e| e.key() < *k),
    }
    0
}

pub struct Spent {
    pub blocks: u64,
    pub stack: usize,
}

/// Runs the operation on keys at every `stride`-th place and says what it took.
pub fn spend<T: Elem>(op: &Op, keys: &[u32], stride: isize, floor: usize) -> Result<Spent, String> {
    let n = keys.len();
    let total = if n == 0 { 0 } else { (n - 1) * stride.unsigned_abs() + 1 };
    let mut a = Array1::from_elem(total, T::make(0, u32::MAX));
    if n > 0 {
        for (i, e) in a.slice_mut(s![..;stride]).iter_mut().enumerate() {
            *e = T::make(keys[i], i as u32);
        }
    }
    let idx: Array1<usize> = match op {
        Many(l) | ParMany(l) => Array1::from_vec(l.clone()),
        _ => Array1::from_vec(vec![]),
    };
    let mut v = if n == 0 { a.view_mut() } else { a.slice_mut(s![..;stride]) };
    let cfg = Config { workers: 1, policy: Policy::Owner, script: vec![] };
    let (r, _) = model::run(&cfg, || measure(floor, || catch_unwind(AssertUnwindSafe(|| apply(op, &idx, &mut v)))));
    let (r, blocks, stack) = r.map_err(|_| "harness: measurement panicked".to_string())?;
    if let Err(p) = r {
        return Err(format!("{} of {n} panicked: {}", op.name(), crate::engine::payload(&*p)));
    }
    // Too little work must not pass for little time.
    let mut seen = vec![false; n];
    let v = if n == 0 { a.view() } else { a.slice(s![..;stride]) };
    for e in v.iter() {
        if e.id() as usize >= n || std::mem::replace(&mut seen[e.id() as usize], true) || e.key() != keys[e.id() as usize] {
            return Err(format!("{} of {n}: no permutation", op.name()));
        }
    }
    if matches!(op, Sort | Unst | Cached | ParSort | ParUnst | ParCached) && !v.iter().zip(v.iter().skip(1)).all(|(a, b)| a.key() <= b.key()) {
        return Err(format!("{} of {n}: not sorted", op.name()));
    }
    Ok(Spent { blocks, stack })
}

/// Keys an adversary arrives at against the operation.
pub fn against(op: &Op, n: usize, variant: u8, budget: usize, tail: Option<&[u32]>) -> Vec<u32> {
    let adv = Mutex::new(RefCell::new(Adversary::new(n, variant)));
    let by = |a: &u32, b: &u32| adv.lock().unwrap().borrow_mut().bounded(*a as usize, *b as usize, budget, tail);
    let mut a: Array1<u32> = (0..n as u32).collect();
    let cfg = Config { workers: 1, policy: Policy::Owner, script: vec![] };
    let _ = model::run(&cfg, || {
        catch_unwind(AssertUnwindSafe(|| match op {
            Unst => a.sort_unstable_by(by),
            ParUnst => a.par_sort_unstable_by(by),
            Select(i) => {
                let _ = a.select_nth_unstable_by(*i, by);
            }
            Many(l) => {
                let mut out: Vec<(usize, &mut u32)> = Vec::new();
                a.select_many_nth_unstable_by(&Array1::from_vec(l.clone()), &mut out, by);
            }
            ParMany(l) => {
                let mut out: Vec<&mut u32> = Vec::new();
                a.par_select_many_nth_unstable_by(&Array1::from_vec(l.clone()), &mut out, by);
            }
            _ => {}
        }))
    });
    let k = adv.lock().unwrap().borrow().keys(tail);
    k
}

/// Index lists of all densities.
pub fn lists(n: usize) -> Vec<Vec<usize>> {
    let mut o: Vec<Vec<usize>> = Vec::new();
    for m in [1usize, 2, 3, 7, 31, 200, 1500, 10_000] {
        if m <= n {
            o.push((0..m).map(|i| i * n / m).collect());
            o.push((0..m).collect());
            o.push((n - m..n).collect());
        }
    }
    o.push((0..n).collect());
    o.push((0..n).step_by(2).collect());
    // Ever closer to one end.
    o.push((0..).map(|i| 1usize << i).take_while(|&i| i < n).collect());
    o.push({
        let mut l: Vec<usize> = (0..).map(|i| 1usize << i).take_while(|&i| i < n).map(|i| n - i).collect();
        l.reverse();
        l
    });
    o.retain(|l| !l.is_empty() && l.windows(2).all(|w| w[0] < w[1]));
    o.sort();
    o.dedup();
    o
}

/// Run lengths: every word of `depth` letters, and outlines that keep many runs pending.
pub fn outlines(depth: usize, unit: usize) -> Vec<Vec<usize>> {
    let mut o: Vec<Vec<usize>> = Vec::new();
    gens::words(depth, 3, &mut |w| o.push(w.iter().map(|&x| [unit, 3 * unit, 10 * unit][x as usize]).collect()));
    let mut fib = vec![unit, unit + 1];
    while fib.len() < 4 * depth && fib.last().unwrap() < &(3000 * unit) {
        let n = fib.len();
        fib.push(fib[n - 1] + fib[n - 2] + 1);
    }
    o.push(fib.clone());
    fib.reverse();
    o.push(fib);
    o.push((1..=8 * depth).map(|i| i * unit).collect());
    o.push((1..=8 * depth).rev().map(|i| i * unit).collect());
    o.push(vec![unit; 64 * depth]);
    o
}
