//! Model mode (added for /verif; not part of upstream rayon-core).
//!
//! `run` executes a closure on *virtual* workers: real OS threads of which exactly one holds the
//! baton at any time. Every scheduling decision (which worker continues, which idle or waiting
//! worker takes which pending job) is taken at explicit points by a deterministic default policy
//! plus a script of deviations, so that a caller can enumerate all schedules within a deviation
//! bound and replay any of them. Threads that are not virtual workers use the original rayon-core.
//!
//! The moves offered are those of the original work-stealing scheduler:
//!   * a running worker goes on;
//!   * an idle worker steals the oldest pending job of another worker;
//!   * a worker waiting in `join` for a stolen job resumes once that job is done; before that it
//!     runs jobs nested on its stack: its own newest pending job if it has one, else the oldest
//!     pending job of another worker.

use crate::unwind;
use crate::FnContext;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::thread;

/// Default choice at each scheduling point.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// Depth first: the running worker goes on; nothing is stolen unless all else is blocked.
    Owner,
    /// An idle worker steals as soon as a job is pending and then runs ahead of its victim.
    Thief,
    /// Steal when possible and rotate among the runnable workers at every point.
    RoundRobin,
    /// Steal when possible, but the victim goes on; thieves run when the victim blocks.
    Late,
    /// Simulated time: each `tick` costs its worker one unit (two where the worker's bit in `slow` is
    /// set), the worker furthest behind moves next, within `quantum` units.
    Clock {
        /// How far a worker may run ahead of the next move.
        quantum: u64,
        /// Workers that take two units per tick.
        slow: u16,
    },
}

/// What to run.
#[derive(Clone, Debug)]
pub struct Config {
    /// Number of virtual workers.
    pub workers: usize,
    /// Default policy.
    pub policy: Policy,
    /// Deviations from the default: `(point, option)`, ascending points, option counted in the
    /// canonical option list of that point (0 is the default).
    pub script: Vec<(usize, usize)>,
}

/// What happened.
#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// Number of options at each point.
    pub options: Vec<u8>,
    /// Chosen option at each point.
    pub chosen: Vec<u8>,
    /// Number of forks.
    pub forks: usize,
    /// Number of jobs taken by another worker.
    pub steals: usize,
    /// Number of jobs run nested by a waiting worker.
    pub nested: usize,
    /// Number of baton passes.
    pub switches: usize,
    /// Hash over the moves made (worker and kind).
    pub hash: u64,
    /// The script asked for an option that did not exist (a divergence).
    pub diverged: bool,
    /// Points beyond the recording cap (not offered for deviation).
    pub unrecorded: usize,
    /// Ticks of all workers.
    pub ticks: u64,
    /// Simulated time at the end (`Policy::Clock`).
    pub time: u64,
}

#[derive(Clone, Copy)]
struct Job {
    exec: unsafe fn(*const (), bool),
    data: *const (),
    id: usize,
    strand: u32,
    /// Simulated time of the fork.
    at: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Idle,
    Ready,
    /// Waits for this job id.
    Waiting(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Move {
    Go(usize),
    /// worker takes oldest job of victim
    Steal(usize, usize),
    /// waiting worker takes its own newest job
    Local(usize),
}

#[derive(Clone, Copy)]
struct Strand {
    parent: u32,
    fork: u32,
    depth: u32,
}

struct State {
    workers: usize,
    policy: Policy,
    script: Vec<(usize, usize)>,
    script_at: usize,
    status: Vec<Status>,
    deques: Vec<Vec<Job>>,
    assigned: Vec<Option<Job>>,
    done: Vec<bool>,
    strands: Vec<Strand>,
    strand: Vec<u32>,
    forks: u32,
    trace: Trace,
    moves: Vec<Move>,
    threads: Vec<Option<thread::Thread>>,
    rr: usize,
    clock: Vec<u64>,
    done_at: Vec<u64>,
    /// The running worker decides again at this time.
    limit: u64,
}

struct Global(UnsafeCell<State>);
// Only the holder of the baton touches the state.
unsafe impl Sync for Global {}

static STATE: Global = Global(UnsafeCell::new(State {
    workers: 0,
    policy: Policy::Owner,
    script: Vec::new(),
    script_at: 0,
    status: Vec::new(),
    deques: Vec::new(),
    assigned: Vec::new(),
    done: Vec::new(),
    strands: Vec::new(),
    strand: Vec::new(),
    forks: 0,
    trace: Trace {
        options: Vec::new(),
        chosen: Vec::new(),
        forks: 0,
        steals: 0,
        nested: 0,
        switches: 0,
        hash: 0,
        diverged: false,
        unrecorded: 0,
        ticks: 0,
        time: 0,
    },
    moves: Vec::new(),
    threads: Vec::new(),
    rr: 0,
    clock: Vec::new(),
    done_at: Vec::new(),
    limit: u64::MAX,
}));

/// The worker that holds the baton.
static BATON: AtomicUsize = AtomicUsize::new(0);
const RECORD_CAP: usize = 200_000;

thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[inline]
#[allow(clippy::mut_from_ref)]
unsafe fn st() -> &'static mut State {
    unsafe { &mut *STATE.0.get() }
}

/// Whether this thread is a virtual worker.
#[inline]
pub fn active() -> bool {
    WORKER.with(|w| w.get()) != usize::MAX
}

/// Index of this virtual worker.
#[inline]
pub fn worker_index() -> Option<usize> {
    let w = WORKER.with(|w| w.get());
    (w != usize::MAX).then_some(w)
}

pub(crate) fn num_workers() -> Option<usize> {
    active().then(|| unsafe { st().workers })
}

/// The strand (node of the fork tree) this virtual worker executes.
#[inline]
pub fn current_strand() -> u32 {
    match worker_index() {
        Some(w) => unsafe { st().strand[w] },
        None => 0,
    }
}

/// Whether two strands are logically concurrent (no fork/join path orders them).
pub fn concurrent(mut a: u32, mut b: u32) -> bool {
    if a == b {
        return false;
    }
    let s = unsafe { &st().strands };
    while s[a as usize].depth > s[b as usize].depth {
        let p = s[a as usize].parent;
        if p == b {
            return false;
        }
        a = p;
    }
    while s[b as usize].depth > s[a as usize].depth {
        let p = s[b as usize].parent;
        if p == a {
            return false;
        }
        b = p;
    }
    if a == b {
        return false;
    }
    loop {
        let (x, y) = (s[a as usize], s[b as usize]);
        if x.parent == y.parent {
            return x.fork == y.fork;
        }
        a = x.parent;
        b = y.parent;
    }
}

/// A scheduling point. Does nothing on threads that are not virtual workers.
#[inline]
pub fn yield_point() {
    if let Some(me) = worker_index() {
        unsafe { point(me) }
    }
}

/// One unit of work of the current worker.
#[inline]
pub fn tick() {
    if let Some(me) = worker_index() {
        unsafe {
            let s = st();
            s.trace.ticks += 1;
            if let Policy::Clock { slow, .. } = s.policy {
                s.clock[me] += 1 + (slow >> me & 1) as u64;
                if s.clock[me] >= s.limit {
                    point(me)
                }
            }
        }
    }
}

/// Earliest simulated time of a move.
fn time_of(s: &State, m: Move) -> u64 {
    match m {
        Move::Go(w) => match s.status[w] {
            Status::Waiting(j) => s.clock[w].max(s.done_at[j]),
            _ => s.clock[w],
        },
        Move::Steal(w, v) => s.clock[w].max(s.deques[v][0].at),
        Move::Local(w) => s.clock[w],
    }
}

fn collect_moves(s: &mut State) {
    s.moves.clear();
    let n = s.workers;
    // Runnable workers.
    for w in 0..n {
        match s.status[w] {
            Status::Ready => s.moves.push(Move::Go(w)),
            Status::Waiting(j) if s.done[j] => s.moves.push(Move::Go(w)),
            _ => {}
        }
    }
    // Idle workers are interchangeable up to their index: offer the lowest one.
    let mut idle = (0..n).find(|&w| s.status[w] == Status::Idle);
    if let Policy::Clock { .. } = s.policy {
        idle = (0..n).filter(|&w| s.status[w] == Status::Idle).min_by_key(|&w| s.clock[w]);
    }
    for v in 0..n {
        if s.deques[v].is_empty() {
            continue;
        }
        if let Some(w) = idle {
            s.moves.push(Move::Steal(w, v));
        }
    }
    for w in 0..n {
        if let Status::Waiting(j) = s.status[w] {
            if s.done[j] {
                continue;
            }
            if !s.deques[w].is_empty() {
                s.moves.push(Move::Local(w));
            } else {
                for v in 0..n {
                    if v != w && !s.deques[v].is_empty() {
                        s.moves.push(Move::Steal(w, v));
                    }
                }
            }
        }
    }
}

fn default_move(s: &State, me: usize) -> usize {
    let idle_steal = |m: &Move| matches!(m, Move::Steal(w, _) if s.status[*w] == Status::Idle);
    let go_me = s.moves.iter().position(|m| *m == Move::Go(me));
    let first_go = s.moves.iter().position(|m| matches!(m, Move::Go(_)));
    match s.policy {
        Policy::Owner => go_me.or(first_go).unwrap_or(0),
        Policy::Thief => s
            .moves
            .iter()
            .position(idle_steal)
            .or(go_me)
            .or(first_go)
            .unwrap_or(0),
        Policy::RoundRobin => {
            if let Some(i) = s.moves.iter().position(idle_steal) {
                return i;
            }
            let n = s.workers;
            (1..=n)
                .filter_map(|d| {
                    let w = (s.rr + d) % n;
                    s.moves.iter().position(|m| *m == Move::Go(w))
                })
                .next()
                .unwrap_or(0)
        }
        Policy::Late => go_me
            .or_else(|| s.moves.iter().position(idle_steal))
            .or(first_go)
            .unwrap_or(0),
        Policy::Clock { .. } => (0..s.moves.len())
            .min_by_key(|&i| (time_of(s, s.moves[i]), s.moves[i] != Move::Go(me)))
            .unwrap_or(0),
    }
}

/// Decides the next move and passes the baton. Returns when `me` holds it again.
unsafe fn point(me: usize) {
    let s = unsafe { st() };
    collect_moves(s);
    assert!(!s.moves.is_empty(), "model: deadlock");
    let d = default_move(s, me);
    // Canonical order: the default first.
    let m = s.moves.remove(d);
    s.moves.insert(0, m);
    let at = s.trace.options.len();
    let mut choice = 0;
    if at < RECORD_CAP {
        if s.script_at < s.script.len() && s.script[s.script_at].0 == at {
            choice = s.script[s.script_at].1;
            s.script_at += 1;
            if choice >= s.moves.len() {
                s.trace.diverged = true;
                choice = 0;
            }
        }
        s.trace.options.push(s.moves.len().min(255) as u8);
        s.trace.chosen.push(choice as u8);
    } else {
        s.trace.unrecorded += 1;
    }
    let m = s.moves[choice];
    if let Policy::Clock { quantum, .. } = s.policy {
        let (Move::Go(w) | Move::Steal(w, _) | Move::Local(w)) = m;
        let other = |m: &&Move| !matches!(**m, Move::Go(x) | Move::Steal(x, _) | Move::Local(x) if x == w);
        let next = s.moves.iter().filter(other).map(|m| time_of(s, *m)).min();
        s.clock[w] = time_of(s, m);
        s.limit = next.map_or(u64::MAX, |t| t.max(s.clock[w]) + quantum);
    }
    let to = match m {
        Move::Go(w) => w,
        Move::Steal(w, v) => {
            let job = s.deques[v].remove(0);
            s.trace.steals += 1;
            if s.status[w] != Status::Idle {
                s.trace.nested += 1;
            }
            s.assigned[w] = Some(job);
            w
        }
        Move::Local(w) => {
            let job = s.deques[w].pop().unwrap();
            s.trace.nested += 1;
            s.assigned[w] = Some(job);
            w
        }
    };
    let code = match m {
        Move::Go(w) => w as u64,
        Move::Steal(w, v) => 1000 + 64 * w as u64 + v as u64,
        Move::Local(w) => 9000 + w as u64,
    };
    s.trace.hash = (s.trace.hash ^ code.wrapping_add(at as u64 * 0x9E37)).wrapping_mul(0x100_0000_01b3).rotate_left(17);
    s.rr = to;
    if to != me {
        s.trace.switches += 1;
        let t = s.threads[to].clone().expect("model: no such worker thread");
        BATON.store(to, Ordering::Release);
        t.unpark();
        wait_baton(me);
    }
}

fn wait_baton(me: usize) {
    while BATON.load(Ordering::Acquire) != me {
        thread::park();
    }
}

unsafe fn execute(me: usize, job: Job, migrated: bool) {
    unsafe {
        let saved = st().strand[me];
        st().strand[me] = job.strand;
        (job.exec)(job.data, migrated);
        let s = st();
        s.strand[me] = saved;
        s.done[job.id] = true;
        s.done_at[job.id] = s.clock[me];
    }
}

fn worker_main(me: usize) {
    WORKER.with(|w| w.set(me));
    loop {
        wait_baton(me);
        unsafe {
            let s = st();
            if let Some(job) = s.assigned[me].take() {
                s.status[me] = Status::Ready;
                execute(me, job, true);
                st().status[me] = Status::Idle;
            }
            // Pass the baton on; comes back with a new assignment.
            point(me);
        }
    }
}

struct Slot<B, RB> {
    f: Option<B>,
    res: Option<thread::Result<RB>>,
}

pub(crate) fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    unsafe fn exec<B, RB>(p: *const (), migrated: bool)
    where
        B: FnOnce(FnContext) -> RB + Send,
    {
        let slot = unsafe { &mut *(p as *mut Slot<B, RB>) };
        let f = slot.f.take().unwrap();
        slot.res = Some(unwind::halt_unwinding(|| f(FnContext::new(migrated))));
    }
    let me = worker_index().unwrap();
    let slot = UnsafeCell::new(Slot::<B, RB> {
        f: Some(oper_b),
        res: None,
    });
    unsafe {
        let s = st();
        s.trace.forks += 1;
        let parent = s.strand[me];
        let fork = s.forks;
        s.forks += 1;
        let depth = s.strands[parent as usize].depth + 1;
        let sa = s.strands.len() as u32;
        s.strands.push(Strand { parent, fork, depth });
        s.strands.push(Strand { parent, fork, depth });
        let id = s.done.len();
        s.done.push(false);
        s.done_at.push(0);
        s.deques[me].push(Job {
            exec: exec::<B, RB>,
            data: slot.get() as *const (),
            id,
            strand: sa + 1,
            at: s.clock[me],
        });
        point(me);
        st().strand[me] = sa;
        let ra = unwind::halt_unwinding(|| oper_a(FnContext::new(false)));
        st().strand[me] = parent;
        point(me);
        let panicked = ra.is_err();
        loop {
            let s = st();
            if s.done[id] {
                s.clock[me] = s.clock[me].max(s.done_at[id]);
                break;
            }
            if let Some(&job) = s.deques[me].last() {
                // Newest local job: ours, or (if ours was stolen) an older pending one.
                if job.id == id {
                    s.deques[me].pop();
                    execute(me, job, panicked);
                    break;
                }
            }
            s.status[me] = Status::Waiting(id);
            point(me);
            let s = st();
            s.status[me] = Status::Ready;
            if let Some(job) = s.assigned[me].take() {
                execute(me, job, true);
                point(me);
            }
        }
        let ra = match ra {
            Ok(v) => v,
            Err(e) => unwind::resume_unwinding(e),
        };
        let rb = match (*slot.get()).res.take().unwrap() {
            Ok(v) => v,
            Err(e) => unwind::resume_unwinding(e),
        };
        (ra, rb)
    }
}

/// Runs `f` as the root on virtual worker 0 (the calling thread) and returns its result (or panic)
/// with the trace. Not reentrant; one model execution per process at a time.
pub fn run<R>(config: &Config, f: impl FnOnce() -> R) -> (thread::Result<R>, Trace) {
    assert!(!active(), "model: nested run");
    assert!(config.workers >= 1 && config.workers <= 16);
    unsafe {
        let s = st();
        let n = config.workers;
        s.workers = n;
        s.policy = config.policy;
        s.script = config.script.clone();
        s.script_at = 0;
        s.status.clear();
        s.status.resize(n, Status::Idle);
        s.status[0] = Status::Ready;
        s.deques.iter_mut().for_each(Vec::clear);
        s.deques.resize_with(n.max(s.deques.len()), Vec::new);
        s.assigned.clear();
        s.assigned.resize(n, None);
        s.done.clear();
        s.done_at.clear();
        s.clock.clear();
        s.clock.resize(n, 0);
        s.limit = u64::MAX;
        s.strands.clear();
        s.strands.push(Strand { parent: u32::MAX, fork: u32::MAX, depth: 0 });
        s.strand.clear();
        s.strand.resize(n, 0);
        s.forks = 0;
        s.trace = Trace::default();
        s.rr = 0;
        BATON.store(0, Ordering::Release);
        if s.threads.is_empty() {
            s.threads.push(None);
        }
        s.threads[0] = Some(thread::current());
        while s.threads.len() < n {
            let w = s.threads.len();
            let handle = thread::Builder::new()
                .name(format!("model-{w}"))
                .stack_size(64 << 20)
                .spawn(move || worker_main(w))
                .expect("model: spawn");
            s.threads.push(Some(handle.thread().clone()));
        }
        WORKER.with(|w| w.set(0));
        let r = unwind::halt_unwinding(f);
        WORKER.with(|w| w.set(usize::MAX));
        let s = st();
        assert!(
            s.deques.iter().all(Vec::is_empty) && s.status[1..].iter().all(|x| *x == Status::Idle),
            "model: jobs outlive the root"
        );
        s.trace.time = s.clock[0];
        (r, std::mem::take(&mut s.trace))
    }
}
