//! The instrumented environment of the code under test: elements, comparators, key functions.
//! Every callback of every operation goes through `callback`, which counts, traces, injects
//! faults, caps, yields to the model scheduler and records element accesses.
use std::cmp::Ordering;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};

pub const LIVE: u32 = 0x5EED_1E55;
pub const DEAD: u32 = 0xDEAD_DEAD;
/// Ids at and above this belong to cells outside the view.
pub const GAP: u32 = 0x4000_0000;
/// Id of probe elements (search targets).
pub const PROBE: u32 = 0x7000_0000;

pub const F_HITS: u64 = 1;
pub const F_RACE: u64 = 2;
pub const F_CUSTOM: u64 = 4;
pub const F_TRACE: u64 = 8;
pub const F_YIELD: u64 = 16;
/// Every callback costs its worker one unit of simulated time.
pub const F_CLOCK: u64 = 32;

static FLAGS: AtomicU64 = AtomicU64::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static KEYS: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicU64 = AtomicU64::new(u64::MAX);
static FAULT: AtomicU64 = AtomicU64::new(0);
static FAULT2: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
static TRACE: AtomicU64 = AtomicU64::new(0);
static STRIDE: AtomicU64 = AtomicU64::new(0);
static DROPS: AtomicU64 = AtomicU64::new(0);
/// Callback was shown something that is not a live element.
static BADREF: AtomicU64 = AtomicU64::new(0);
/// Callback was shown an element of the parent array outside the view.
static OUTSIDE: AtomicU64 = AtomicU64::new(0);
static BADDROP: AtomicU64 = AtomicU64::new(0);
static RACED: AtomicBool = AtomicBool::new(false);
static PLACE_RACED: AtomicBool = AtomicBool::new(false);

struct Places {
    array: std::ops::Range<usize>,
    last: std::collections::HashMap<(usize, usize), u32>,
}
static PLACES: Mutex<Option<Places>> = Mutex::new(None);

/// From here to the end of the run, places within `array` and blocks allocated meanwhile are watched.
pub fn watch_places(array: Option<std::ops::Range<usize>>) {
    let on = array.is_some();
    let old = std::mem::replace(
        &mut *PLACES.lock().unwrap_or_else(|e| e.into_inner()),
        array.map(|array| Places { last: std::collections::HashMap::with_capacity(4 * array.len() / size_of::<El>()), array }),
    );
    drop(old);
    crate::alloc::track(on);
}
static RACE_AB: AtomicU64 = AtomicU64::new(0);
static CAPPED: AtomicBool = AtomicBool::new(false);

type Custom = Box<dyn FnMut(&El, &El) -> Ordering + Send>;
static CUSTOM: Mutex<Option<Custom>> = Mutex::new(None);
/// Last strand that looked at element id (race shadow), and expected hits.
static SHADOW: Mutex<Vec<u32>> = Mutex::new(Vec::new());
static HITS: Mutex<Vec<u32>> = Mutex::new(Vec::new());

/// Element under test. Ordered by `key` (through the context); `id` identifies it.
#[repr(C)]
pub struct El {
    pub key: u32,
    pub id: u32,
    pub hits: AtomicU32,
    pub magic: u32,
}

impl El {
    pub fn new(key: u32, id: u32) -> El {
        El { key, id, hits: AtomicU32::new(0), magic: LIVE }
    }
}

impl Drop for El {
    fn drop(&mut self) {
        if self.magic != LIVE {
            BADDROP.fetch_add(1, Relaxed);
        }
        self.magic = DEAD;
        DROPS.fetch_add(1, Relaxed);
    }
}

impl Clone for El {
    fn clone(&self) -> El {
        El { key: self.key, id: self.id, hits: AtomicU32::new(self.hits.load(Relaxed)), magic: self.magic }
    }
}

impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{}", self.key, self.id)
    }
}

/// Payloads of injected panics.
pub struct Fault(pub u64);
pub struct Capped(pub u64);
pub struct BadRef;

#[derive(Clone, Debug)]
pub struct Setup {
    pub flags: u64,
    pub cap: u64,
    pub fault: u64,
    pub fault2: u64,
    pub stride: u64,
    pub ids: usize,
}

impl Default for Setup {
    fn default() -> Self {
        Setup { flags: F_TRACE, cap: u64::MAX, fault: 0, fault2: 0, stride: 0, ids: 0 }
    }
}

pub fn reset(s: &Setup) {
    FLAGS.store(s.flags, Relaxed);
    CALLS.store(0, Relaxed);
    KEYS.store(0, Relaxed);
    CAP.store(s.cap, Relaxed);
    FAULT.store(s.fault, Relaxed);
    FAULT2.store(s.fault2, Relaxed);
    FIRED.store(0, Relaxed);
    TRACE.store(0xcbf2_9ce4_8422_2325, Relaxed);
    STRIDE.store(s.stride, Relaxed);
    DROPS.store(0, Relaxed);
    BADREF.store(0, Relaxed);
    BADDROP.store(0, Relaxed);
    OUTSIDE.store(0, Relaxed);
    RACED.store(false, Relaxed);
    PLACE_RACED.store(false, Relaxed);
    CAPPED.store(false, Relaxed);
    if s.flags & F_RACE != 0 {
        let mut v = SHADOW.lock().unwrap_or_else(|e| e.into_inner());
        v.clear();
        v.resize(s.ids, u32::MAX);
    }
    if s.flags & F_HITS != 0 {
        let mut v = HITS.lock().unwrap_or_else(|e| e.into_inner());
        v.clear();
        v.resize(s.ids, 0);
    }
}

pub fn set_custom(c: Option<Custom>) {
    *CUSTOM.lock().unwrap_or_else(|e| e.into_inner()) = c;
}
pub fn calls() -> u64 {
    CALLS.load(Relaxed)
}
pub fn key_calls() -> u64 {
    KEYS.load(Relaxed)
}
pub fn trace() -> u64 {
    TRACE.load(Relaxed)
}
pub fn drops() -> u64 {
    DROPS.load(Relaxed)
}
pub fn fired() -> u64 {
    FIRED.load(Relaxed)
}
pub fn capped() -> bool {
    CAPPED.load(Relaxed)
}
pub fn expected_hits() -> Vec<u32> {
    HITS.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
pub fn race() -> Option<(u32, u32)> {
    RACED.load(Relaxed).then(|| {
        let x = RACE_AB.load(Relaxed);
        ((x >> 32) as u32, x as u32)
    })
}

pub fn place_race() -> Option<(u32, u32)> {
    PLACE_RACED.load(Relaxed).then(|| {
        let x = RACE_AB.load(Relaxed);
        ((x >> 32) as u32, x as u32)
    })
}

/// Violations of memory safety the environment itself noticed.
pub fn unsound() -> Option<String> {
    if BADREF.load(Relaxed) != 0 {
        return Some("a callback was shown a reference to something that is not a live element".into());
    }
    if OUTSIDE.load(Relaxed) != 0 {
        return Some("a callback was shown an element outside the view".into());
    }
    if BADDROP.load(Relaxed) != 0 {
        return Some("something that is not a live element was dropped".into());
    }
    None
}

#[cold]
#[inline(never)]
fn bad() -> ! {
    BADREF.fetch_add(1, Relaxed);
    std::panic::panic_any(BadRef)
}

#[cold]
#[inline(never)]
fn special(n: u64) {
    if n == FAULT.load(Relaxed) || n == FAULT2.load(Relaxed) {
        FIRED.fetch_add(1, Relaxed);
        std::panic::panic_any(Fault(n));
    }
    if n > CAP.load(Relaxed) {
        CAPPED.store(true, Relaxed);
        std::panic::panic_any(Capped(n));
    }
}

#[cold]
#[inline(never)]
fn touch(flags: u64, n: u64, els: [Option<&El>; 2]) {
    if flags & F_HITS != 0 {
        let mut v = HITS.lock().unwrap_or_else(|e| e.into_inner());
        for e in els.into_iter().flatten() {
            if (e.id as usize) < v.len() {
                v[e.id as usize] += 1;
                e.hits.fetch_add(1, Relaxed);
            }
        }
    }
    if flags & F_RACE != 0 {
        let s = rayon_core::model::current_strand();
        let mut v = SHADOW.lock().unwrap_or_else(|e| e.into_inner());
        for e in els.into_iter().flatten() {
            if let Some(p) = v.get_mut(e.id as usize) {
                if *p != u32::MAX && rayon_core::model::concurrent(*p, s) && !RACED.swap(true, Relaxed) {
                    RACE_AB.store(((e.id as u64) << 32) | n, Relaxed);
                }
                *p = s;
            }
        }
        // The same for the places: the array and scratch memory, not the tasks' stacks.
        let mut w = PLACES.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(w) = &mut *w {
            for e in els.into_iter().flatten() {
                let at = e as *const El as usize;
                let block = if w.array.contains(&at) { Some(0) } else { crate::alloc::block_of(at) };
                if let Some(block) = block
                    && let Some(p) = w.last.insert((at, block), s)
                    && rayon_core::model::concurrent(p, s)
                    && !PLACE_RACED.swap(true, Relaxed)
                {
                    RACE_AB.store(((e.id as u64) << 32) | n, Relaxed);
                }
            }
        }
    }
    if flags & F_YIELD != 0 {
        let st = STRIDE.load(Relaxed);
        if st != 0 && n % st == 0 {
            rayon_core::model::yield_point();
        }
    }
    if flags & F_CLOCK != 0 {
        rayon_core::model::tick();
    }
}

#[inline]
fn tick(a: u64) -> u64 {
    let n = CALLS.fetch_add(1, Relaxed) + 1;
    let t = (TRACE.load(Relaxed) ^ a).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    TRACE.store(t ^ (t >> 29), Relaxed);
    n
}

/// Any callback showing one or two elements.
#[inline]
fn enter(a: &El, b: Option<&El>) -> u64 {
    if a.magic != LIVE || b.is_some_and(|b| b.magic != LIVE) {
        bad();
    }
    if a.id >= GAP && a.id < PROBE || b.is_some_and(|b| b.id >= GAP && b.id < PROBE) {
        OUTSIDE.fetch_add(1, Relaxed);
    }
    let n = tick(((a.id as u64) << 32) | b.map_or(0xFFFF_FFFF, |b| b.id as u64));
    if n == FAULT.load(Relaxed) || n == FAULT2.load(Relaxed) || n > CAP.load(Relaxed) {
        // Accesses before a fault count as well.
        special(n);
    }
    let f = FLAGS.load(Relaxed);
    if f & (F_HITS | F_RACE | F_YIELD | F_CLOCK) != 0 {
        touch(f, n, [Some(a), b]);
    }
    n
}

/// Three-way comparison callback.
#[inline]
pub fn cmp(a: &El, b: &El) -> Ordering {
    enter(a, Some(b));
    if FLAGS.load(Relaxed) & F_CUSTOM != 0 {
        return custom(a, b);
    }
    a.key.cmp(&b.key)
}

#[inline(never)]
fn custom(a: &El, b: &El) -> Ordering {
    let mut c = CUSTOM.lock().unwrap_or_else(|e| e.into_inner());
    (c.as_mut().expect("custom comparator"))(a, b)
}

/// Equality callback.
#[inline]
pub fn eq(a: &El, b: &El) -> bool {
    enter(a, Some(b));
    if FLAGS.load(Relaxed) & F_CUSTOM != 0 {
        return custom(a, b) == Ordering::Equal;
    }
    a.key == b.key
}

/// Key callback.
#[inline]
pub fn key(a: &El) -> FKey {
    KEYS.fetch_add(1, Relaxed);
    enter(a, None);
    FKey(a.key)
}

/// Predicate callback on one element.
#[inline]
pub fn pred(a: &El) {
    enter(a, None);
}

/// A callback without elements (`Extend::extend`, key comparison).
#[inline]
pub fn bare(tag: u64) {
    let n = tick(tag);
    if n == FAULT.load(Relaxed) || n == FAULT2.load(Relaxed) || n > CAP.load(Relaxed) {
        special(n);
    }
    if FLAGS.load(Relaxed) & F_CLOCK != 0 {
        rayon_core::model::tick();
    }
}

impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        eq(self, o)
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<Ordering> {
        Some(cmp(self, o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> Ordering {
        cmp(self, o)
    }
}

/// Key type whose comparisons are callbacks too.
#[derive(Clone, Copy, Debug)]
pub struct FKey(pub u32);
impl PartialEq for FKey {
    fn eq(&self, o: &FKey) -> bool {
        bare(0x1_0000_0000 | ((self.0 as u64) << 16) ^ o.0 as u64);
        self.0 == o.0
    }
}
impl Eq for FKey {}
impl PartialOrd for FKey {
    fn partial_cmp(&self, o: &FKey) -> Option<Ordering> {
        Some(Ord::cmp(self, o))
    }
}
impl Ord for FKey {
    fn cmp(&self, o: &FKey) -> Ordering {
        bare(0x2_0000_0000 | ((self.0 as u64) << 16) ^ o.0 as u64);
        self.0.cmp(&o.0)
    }
}
