//! The allocator of the simulated abstract machine: exact blocks, never in place, uninitialised.
//! The interpreter checks every access; this counts, refuses and checks layouts.
use crate::{record_violation, rng::mix};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

pub const SYS: u8 = 0;
pub const SUT: u8 = 1;
pub const QUIET: u8 = 2;

extern "Rust" {
    fn miri_alloc(size: usize, align: usize) -> *mut u8;
    fn miri_dealloc(ptr: *mut u8, size: usize, align: usize);
}

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(SYS) };
}
pub fn mode() -> u8 {
    MODE.with(|m| m.get())
}
pub fn set_mode(v: u8) -> u8 {
    MODE.with(|m| m.replace(v))
}

pub struct SimAlloc;

#[derive(Clone, Copy, Debug, Default)]
pub struct AllocCfg {
    pub place: u8,
    pub grow: u8,
    pub fill: u8,
    pub revoke: bool,
    pub seed: u64,
    pub fail_at: u64,
    pub fail_on: bool,
    pub limit: usize,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct AllocStats {
    pub requests: u64,
    pub refused: u64,
    pub moved: u64,
    pub in_place: u64,
}

/// What no machine of this size would give.
const LARGEST: usize = 1 << 20;
const MAXLIVE: usize = 512;

static REQUESTS: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);
static MOVED: AtomicU64 = AtomicU64::new(0);
static FAIL_AT: AtomicU64 = AtomicU64::new(0);
static FAIL_ON: AtomicBool = AtomicBool::new(false);
/// Live blocks are listed while one thread at a time allocates.
static LISTED: AtomicBool = AtomicBool::new(false);
static mut LIVE: [(usize, usize, usize); MAXLIVE] = [(0, 0, 0); MAXLIVE];
static mut NLIVE: usize = 0;

pub fn listed(on: bool) {
    LISTED.store(on, Relaxed);
}

/// Position of the block in the list.
unsafe fn find(p: usize) -> Option<usize> {
    let mut i = NLIVE;
    while i > 0 {
        i -= 1;
        if LIVE[i].0 == p {
            return Some(i);
        }
    }
    None
}

unsafe fn take(l: Layout) -> *mut u8 {
    let p = miri_alloc(l.size(), l.align());
    if LISTED.load(Relaxed) && NLIVE < MAXLIVE {
        LIVE[NLIVE] = (p as usize, l.size(), l.align());
        NLIVE += 1;
    }
    p
}
unsafe fn give(p: *mut u8, l: Layout) {
    if LISTED.load(Relaxed) {
        if let Some(i) = find(p as usize) {
            let (_, size, align) = LIVE[i];
            NLIVE -= 1;
            LIVE[i] = LIVE[NLIVE];
            if size != l.size() || align != l.align() {
                record_violation(
                    "layout-mismatch",
                    format_args!("block of {size} bytes align {align} released as {} bytes align {}", l.size(), l.align()),
                );
                return miri_dealloc(p, size, align);
            }
        }
    }
    // the interpreter objects to what was never handed out, is gone, or is of another size
    miri_dealloc(p, l.size(), l.align())
}
/// true: refuse this counted request.
fn refuse(size: usize) -> bool {
    let k = REQUESTS.fetch_add(1, Relaxed) + 1;
    let at = FAIL_AT.load(Relaxed);
    let hit = at != 0 && (k == at || (FAIL_ON.load(Relaxed) && k > at));
    if hit || size > LARGEST {
        REFUSED.fetch_add(1, Relaxed);
        return true;
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if mode() == SYS {
            return miri_alloc(l.size(), l.align());
        }
        if l.size() == 0 {
            record_violation("zero-size-alloc", format_args!("zero-sized allocator request"));
            return std::ptr::null_mut();
        }
        if mode() == SUT && refuse(l.size()) {
            return std::ptr::null_mut();
        }
        take(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        give(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let m = mode();
        if new == 0 {
            record_violation("zero-size-alloc", format_args!("zero-sized allocator request"));
            return std::ptr::null_mut();
        }
        if LISTED.load(Relaxed) {
            if let Some(i) = find(p as usize) {
                let (_, size, align) = LIVE[i];
                if size != l.size() || align != l.align() {
                    record_violation("layout-mismatch", format_args!("block of {size} bytes grown as {} bytes", l.size()));
                    return std::ptr::null_mut();
                }
            }
        }
        if m == SUT && refuse(new) {
            return std::ptr::null_mut();
        }
        let n = Layout::from_size_align_unchecked(new, l.align());
        let q = if m == SYS { miri_alloc(new, l.align()) } else { take(n) };
        std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
        give(p, l);
        MOVED.fetch_add(1, Relaxed);
        q
    }
}

pub fn begin_run(cfg: AllocCfg) {
    unsafe { NLIVE = 0 }
    REQUESTS.store(0, Relaxed);
    REFUSED.store(0, Relaxed);
    MOVED.store(0, Relaxed);
    FAIL_AT.store(cfg.fail_at, Relaxed);
    FAIL_ON.store(cfg.fail_on, Relaxed);
    let _ = mix(cfg.seed);
}
pub fn end_run(check_leaks: bool) -> AllocStats {
    unsafe {
        if check_leaks && LISTED.load(Relaxed) && NLIVE > 0 {
            record_violation("leak", format_args!("{} bytes still allocated after everything was dropped", LIVE[0].1));
        }
    }
    stats()
}
pub fn stats() -> AllocStats {
    AllocStats { requests: REQUESTS.load(Relaxed), refused: REFUSED.load(Relaxed), moved: MOVED.load(Relaxed), in_place: 0 }
}
pub fn set_refusal(fail_at: u64, fail_on: bool) {
    FAIL_AT.store(fail_at, Relaxed);
    FAIL_ON.store(fail_on, Relaxed);
    REQUESTS.store(0, Relaxed);
}
/// Size of the live block at this address.
pub fn block_size(p: usize) -> Option<usize> {
    unsafe { find(p).map(|i| LIVE[i].1) }
}
/// Whether `p` is the start of a live block of exactly this size, as far as that is known.
pub fn holds(p: usize, size: usize) -> bool {
    !LISTED.load(Relaxed) || unsafe { NLIVE >= MAXLIVE } || block_size(p) == Some(size)
}
pub fn arena_string(s: &str, spare: usize) -> String {
    let m = set_mode(QUIET);
    let mut r = String::with_capacity(s.len() + spare);
    r.push_str(s);
    set_mode(m);
    r
}
