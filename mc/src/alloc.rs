//! Checking global allocator: header + red zones, layout comparison, poison, counting of a
//! watched window, injected failure of the n-th allocation of a watched window.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{
    AtomicBool, AtomicI64, AtomicU64, AtomicUsize,
    Ordering::{AcqRel, Acquire, Relaxed, Release},
};

pub struct Checking;

const ZONE: usize = 32;
const HEAD: u64 = 0xA110_CA7E_D00D_F00D;
const ZBYTE: u8 = 0xE7;
const POISON: u8 = 0xA5;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    serial: u64,
}

pub static WATCH: AtomicBool = AtomicBool::new(false);
/// Allocations, live bytes, peak live bytes, largest single request of the watched window.
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// Fail the n-th allocation (1-based) of the window; 0 = never.
pub static FAIL_AT: AtomicU64 = AtomicU64::new(0);
pub static FAILED: AtomicBool = AtomicBool::new(false);
/// Larger blocks allocated while TRACK is set: start, end (0: slot free), serial number.
pub static TRACK: AtomicBool = AtomicBool::new(false);
const SLOTS: usize = 1024;
static BLOCKS: [[AtomicUsize; 3]; SLOTS] = [const { [const { AtomicUsize::new(0) }; 3] }; SLOTS];
static TOP: AtomicUsize = AtomicUsize::new(0);
static SERIAL: AtomicUsize = AtomicUsize::new(0);

fn note(user: usize, size: usize) {
    for (i, b) in BLOCKS.iter().enumerate() {
        // Claims the slot before it shows.
        if b[1].load(Acquire) == 0 && b[1].compare_exchange(0, 1, AcqRel, Relaxed).is_ok() {
            b[0].store(user, Relaxed);
            b[2].store(SERIAL.fetch_add(1, Relaxed) + 1, Relaxed);
            b[1].store(user + size, Release);
            TOP.fetch_max(i + 1, AcqRel);
            return;
        }
    }
}

fn forget(user: usize) {
    for b in &BLOCKS[..TOP.load(Acquire)] {
        if b[1].load(Acquire) > 1 && b[0].load(Relaxed) == user {
            b[0].store(0, Relaxed);
            b[1].store(0, Release);
            return;
        }
    }
}

/// The serial number of the tracked block around an address.
pub fn block_of(at: usize) -> Option<usize> {
    BLOCKS[..TOP.load(Acquire)].iter().find(|b| at < b[1].load(Acquire) && at >= b[0].load(Relaxed)).map(|b| b[2].load(Relaxed))
}

/// Starts or ends tracking.
pub fn track(on: bool) {
    TRACK.store(false, Relaxed);
    for b in &BLOCKS[..TOP.swap(0, AcqRel)] {
        b[0].store(0, Relaxed);
        b[1].store(0, Release);
    }
    TRACK.store(on, Relaxed);
}

/// Set when a heap contract is broken: 1 wrong layout on release, 2 write before the block,
/// 3 write behind the block, 4 release of a block that is not live.
pub static BROKEN: AtomicU64 = AtomicU64::new(0);

fn pad(align: usize) -> usize {
    let h = std::mem::size_of::<Header>() + ZONE;
    h.div_ceil(align) * align
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if WATCH.load(Relaxed) {
                let n = ALLOCS.fetch_add(1, Relaxed) + 1;
                if n == FAIL_AT.load(Relaxed) {
                    FAILED.store(true, Relaxed);
                    return std::ptr::null_mut();
                }
                let live = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
                PEAK.fetch_max(live, Relaxed);
            }
            let p = pad(l.align().max(16));
            let Some(total) = l.size().checked_add(p + ZONE) else { return std::ptr::null_mut() };
            let Ok(full) = Layout::from_size_align(total, l.align().max(16)) else { return std::ptr::null_mut() };
            let base = System.alloc(full);
            if base.is_null() {
                return base;
            }
            let user = base.add(p);
            let h = user.sub(ZONE + std::mem::size_of::<Header>()) as *mut Header;
            h.write(Header { magic: HEAD, size: l.size(), align: l.align(), serial: 0 });
            std::ptr::write_bytes(user.sub(ZONE), ZBYTE, ZONE);
            std::ptr::write_bytes(user.add(l.size()), ZBYTE, ZONE);
            if WATCH.load(Relaxed) && l.size() < (4 << 20) {
                std::ptr::write_bytes(user, POISON, l.size());
            }
            if l.size() >= 512 && TRACK.load(Relaxed) {
                note(user as usize, l.size());
            }
            user
        }
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        unsafe {
            if l.size() >= 512 && TRACK.load(Relaxed) {
                forget(user as usize);
            }
            let h = user.sub(ZONE + std::mem::size_of::<Header>()) as *mut Header;
            let hd = h.read();
            if hd.magic != HEAD {
                BROKEN.store(4, Relaxed);
                return; // leak rather than corrupt
            }
            if hd.size != l.size() || hd.align != l.align() {
                BROKEN.store(1, Relaxed);
            }
            let z = |p: *mut u8| (0..ZONE).all(|i| *p.add(i) == ZBYTE);
            if !z(user.sub(ZONE)) {
                BROKEN.store(2, Relaxed);
            }
            if !z(user.add(hd.size)) {
                BROKEN.store(3, Relaxed);
            }
            if WATCH.load(Relaxed) {
                FREES.fetch_add(1, Relaxed);
                LIVE.fetch_sub(hd.size as i64, Relaxed);
            }
            (*h).magic = 0;
            let p = pad(hd.align.max(16));
            let full = Layout::from_size_align_unchecked(hd.size + p + ZONE, hd.align.max(16));
            System.dealloc(user.sub(p), full);
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        }
    }
}

/// Counters of a watched window.
#[derive(Clone, Copy, Debug, Default)]
pub struct Window {
    pub allocs: u64,
    pub frees: u64,
    pub live: i64,
    pub peak: i64,
    pub failed: bool,
}

pub fn start(fail_at: u64) {
    ALLOCS.store(0, Relaxed);
    FREES.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    FAIL_AT.store(fail_at, Relaxed);
    FAILED.store(false, Relaxed);
    WATCH.store(true, Relaxed);
}

pub fn stop() -> Window {
    WATCH.store(false, Relaxed);
    FAIL_AT.store(0, Relaxed);
    Window {
        allocs: ALLOCS.load(Relaxed),
        frees: FREES.load(Relaxed),
        live: LIVE.load(Relaxed),
        peak: PEAK.load(Relaxed),
        failed: FAILED.load(Relaxed),
    }
}

pub fn broken() -> Option<&'static str> {
    match BROKEN.swap(0, Relaxed) {
        0 => None,
        1 => Some("a block was released with another layout than it was allocated with"),
        2 => Some("bytes before a heap block were overwritten"),
        3 => Some("bytes behind a heap block were overwritten"),
        _ => Some("a heap block was released that is not live"),
    }
}
