//! The environment: how a callback answers.
use crate::gens::Adversary;
use std::cmp::Ordering;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static TOTAL: AtomicUsize = AtomicUsize::new(0);
/// Callbacks answered.
pub fn total() -> usize {
    TOTAL.load(Relaxed)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Way {
    /// The order of the keys.
    True,
    /// The order of the keys; the k-th callback panics.
    Panic(usize),
    /// The k-th answer is the k-th digit (base 3), further ones are the last way's.
    Digits(u64, usize, u8),
    /// The order of the keys; the operation may panic by itself.
    Invalid,
    /// Whatever makes pivots bad (a variant of McIlroy's adversary).
    Killer(u8),
    /// The same, and the k-th callback panics.
    KillerPanic(u8, usize),
}

/// What a callback unwinds with.
pub struct Thrown;

pub struct Env {
    way: Way,
    count: AtomicUsize,
    adversary: Mutex<Adversary>,
}

impl Env {
    pub fn new(way: &Way, n: usize) -> Self {
        TOTAL.fetch_add(1, Relaxed);
        let (n, variant) = match way {
            Way::Killer(v) | Way::KillerPanic(v, _) => (n, *v),
            _ => (0, 0),
        };
        Self { way: way.clone(), count: AtomicUsize::new(0), adversary: Mutex::new(Adversary::new(n, variant)) }
    }
    pub fn calls(&self) -> usize {
        self.count.load(Relaxed)
    }
    /// Counts a callback; unwinds if it is the one to.
    pub fn step(&self) -> usize {
        let k = self.count.fetch_add(1, Relaxed);
        TOTAL.fetch_add(1, Relaxed);
        if self.way == Way::Panic(k) || matches!(self.way, Way::KillerPanic(_, x) if x == k) {
            std::panic::resume_unwind(Box::new(Thrown));
        }
        k
    }
    /// Compares elements `(key, id)`.
    pub fn cmp(&self, a: (u32, usize), b: (u32, usize)) -> Ordering {
        let k = self.step();
        match &self.way {
            Way::True | Way::Invalid | Way::Panic(_) => a.0.cmp(&b.0),
            Way::Digits(word, len, last) => {
                let digit = if k < *len {
                    word / 3u64.pow(k as u32) % 3
                } else {
                    match last {
                        0..=2 => *last as u64,
                        3 => k as u64 % 2 * 2,
                        4 => return a.0.cmp(&b.0),
                        _ => return b.0.cmp(&a.0),
                    }
                };
                [Ordering::Less, Ordering::Equal, Ordering::Greater][digit as usize]
            }
            Way::Killer(_) | Way::KillerPanic(..) => self.adversary.lock().unwrap().bounded(a.1, b.1, usize::MAX, None),
        }
    }
}
