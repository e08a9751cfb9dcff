//! The simulated allocator: every block the code under test obtains lives in its own guard-paged,
//! canaried slot at a fixed address; the case decides placement, growth behaviour, stale contents
//! and refusals.
use crate::{record_violation, rng::mix, step};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Who owns requests made by this thread.
pub const SYS: u8 = 0;
/// Code under test: arena, counted, may be refused.
pub const SUT: u8 = 1;
/// Arena, but neither counted nor refused (panic machinery, memory prepared for hand-over).
pub const QUIET: u8 = 2;

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(SYS) };
}
#[inline]
pub fn mode() -> u8 {
    MODE.with(|m| m.get())
}
#[inline]
pub fn set_mode(v: u8) -> u8 {
    MODE.with(|m| m.replace(v))
}

/// Requests of the panic machinery (it formats the message before the hook runs) are not the
/// library's.
#[inline]
fn effective() -> u8 {
    let m = mode();
    if m != SYS && std::thread::panicking() {
        SYS
    } else {
        m
    }
}

pub struct SimAlloc;

const BASE: usize = 0x1000_0000_0000;
const REGION: usize = 1 << 36;
const PAGE: usize = 4096;
/// (data pages, slots)
const CLASSES: [(usize, usize); 4] = [(1, 1024), (8, 256), (64, 64), (1024, 8)];
const NSLOTS: usize = 1024 + 256 + 64 + 8;
const CANARY: usize = 128;
const MAXFILL: usize = 1 << 15;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Free,
    Live,
    Dead,
}

#[derive(Clone, Copy)]
struct Slot {
    st: St,
    ptr: usize,
    size: usize,
    align: usize,
    protected: bool,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct AllocCfg {
    /// 0: against the upper guard page, 1: against the lower one, 2: drawn per block.
    pub place: u8,
    /// 0: growth always moves, 1: in place where it fits, 2: drawn per request.
    pub grow: u8,
    /// What fresh memory holds.
    pub fill: u8,
    /// Revoke access to freed blocks.
    pub revoke: bool,
    pub seed: u64,
    /// Refuse the k-th counted request (1-based, 0: none) ...
    pub fail_at: u64,
    /// ... and all later ones.
    pub fail_on: bool,
    /// Refuse requests that would take the total above this (0: no limit).
    pub limit: usize,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct AllocStats {
    pub requests: u64,
    pub refused: u64,
    pub refused_size: usize,
    pub too_big: u64,
    pub moved: u64,
    pub in_place: u64,
    pub allocs: u64,
    pub frees: u64,
    pub live: u64,
    pub live_bytes: usize,
}

struct Arena {
    slots: [Slot; NSLOTS],
    cursor: [usize; 4],
    cfg: AllocCfg,
    st: AllocStats,
    touched: [u16; 4096],
    ntouched: usize,
    serial: u64,
    ready: bool,
}

static mut ARENA: Arena = Arena {
    slots: [Slot { st: St::Free, ptr: 0, size: 0, align: 1, protected: false }; NSLOTS],
    cursor: [0; 4],
    cfg: AllocCfg { place: 0, grow: 0, fill: 0, revoke: false, seed: 0, fail_at: 0, fail_on: false, limit: 0 },
    st: AllocStats {
        requests: 0, refused: 0, refused_size: 0, too_big: 0, moved: 0, in_place: 0, allocs: 0, frees: 0, live: 0, live_bytes: 0,
    },
    touched: [0; 4096],
    ntouched: 0,
    serial: 0,
    ready: false,
};

#[inline]
fn arena() -> &'static mut Arena {
    unsafe { &mut *std::ptr::addr_of_mut!(ARENA) }
}

#[inline]
pub fn in_arena(p: usize) -> bool {
    p >= BASE && p < BASE + 4 * REGION
}

/// Map the arena. Once per process tree.
pub fn init() {
    let a = arena();
    if a.ready {
        return;
    }
    unsafe {
        for (c, &(pages, n)) in CLASSES.iter().enumerate() {
            let start = BASE + c * REGION;
            let stride = (pages + 1) * PAGE;
            let len = n * stride + PAGE;
            let p = libc::mmap(
                start as *mut _,
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            assert_eq!(p as usize, start, "arena mapping failed");
            // guard page below every slot and one above the last
            for i in 0..=n {
                libc::mprotect((start + i * stride) as *mut _, PAGE, libc::PROT_NONE);
            }
        }
    }
    a.ready = true;
}

fn class_of(size: usize, align: usize) -> Option<usize> {
    if align > PAGE {
        return None;
    }
    let need = size.checked_add(if align > 1 { align } else { 0 })?;
    CLASSES.iter().position(|&(pages, _)| need <= pages * PAGE)
}
fn slot_base(c: usize, i: usize) -> (usize, usize) {
    let (pages, _) = CLASSES[c];
    let lo = BASE + c * REGION + i * (pages + 1) * PAGE + PAGE;
    (lo, lo + pages * PAGE)
}
fn first_of(c: usize) -> usize {
    CLASSES[..c].iter().map(|x| x.1).sum()
}
fn locate(p: usize) -> Option<(usize, usize)> {
    let c = (p - BASE) / REGION;
    let (pages, n) = CLASSES[c];
    let off = (p - BASE - c * REGION).checked_sub(PAGE)?;
    let i = off / ((pages + 1) * PAGE);
    if i < n {
        Some((c, i))
    } else {
        None
    }
}

impl Arena {
    fn canary(&self, ptr: usize) -> u8 {
        (mix(ptr as u64) as u8) | 1
    }
    fn fill_byte(&self, serial: u64, k: usize) -> u8 {
        match self.cfg.fill {
            0 => 0,
            1 => 0xff,
            2 => b'<',
            3 => 0xaa,
            4 => b'&',
            _ => mix(self.cfg.seed ^ serial.wrapping_mul(31) ^ (k as u64 >> 3)) as u8,
        }
    }

    unsafe fn take(&mut self, size: usize, align: usize) -> *mut u8 {
        let Some(c) = class_of(size, align) else {
            self.st.too_big += 1;
            self.st.refused += 1;
            self.st.refused_size = size;
            return std::ptr::null_mut();
        };
        let n = CLASSES[c].1;
        let mut found = None;
        for k in 0..n {
            let i = (self.cursor[c] + k) % n;
            if self.slots[first_of(c) + i].st == St::Free {
                found = Some(i);
                break;
            }
        }
        if found.is_none() {
            // nothing fresh left: recycle the oldest dead slot
            for k in 0..n {
                let i = (self.cursor[c] + k) % n;
                if self.slots[first_of(c) + i].st == St::Dead {
                    self.check_dead(c, i);
                    found = Some(i);
                    break;
                }
            }
        }
        let Some(i) = found else {
            self.st.too_big += 1;
            self.st.refused += 1;
            self.st.refused_size = size;
            return std::ptr::null_mut();
        };
        self.cursor[c] = (i + 1) % n;
        self.serial += 1;
        let (lo, hi) = slot_base(c, i);
        let s = first_of(c) + i;
        if self.slots[s].protected {
            libc::mprotect(lo as *mut _, hi - lo, libc::PROT_READ | libc::PROT_WRITE);
            self.slots[s].protected = false;
        }
        let right = match self.cfg.place {
            0 => true,
            1 => false,
            _ => mix(self.cfg.seed ^ (self.serial << 8)) & 1 == 0,
        };
        let ptr = if right { (hi - size) & !(align - 1) } else { lo };
        let can = self.canary(ptr);
        let before = (ptr - lo).min(CANARY);
        std::ptr::write_bytes((ptr - before) as *mut u8, can, before);
        let after = (hi - ptr - size).min(CANARY);
        std::ptr::write_bytes((ptr + size) as *mut u8, can, after);
        let f = size.min(MAXFILL);
        if self.cfg.fill <= 4 {
            std::ptr::write_bytes(ptr as *mut u8, self.fill_byte(0, 0), f);
        } else {
            for k in 0..f {
                *((ptr + k) as *mut u8) = self.fill_byte(self.serial, k);
            }
        }
        self.slots[s] = Slot { st: St::Live, ptr, size, align, protected: false };
        if self.ntouched < self.touched.len() {
            self.touched[self.ntouched] = s as u16;
            self.ntouched += 1;
        }
        self.st.allocs += 1;
        self.st.live += 1;
        self.st.live_bytes += size;
        ptr as *mut u8
    }

    unsafe fn check_canaries(&self, c: usize, i: usize) {
        let s = &self.slots[first_of(c) + i];
        let (lo, hi) = slot_base(c, i);
        let can = self.canary(s.ptr);
        let before = (s.ptr - lo).min(CANARY);
        for k in 1..=before {
            if *((s.ptr - k) as *const u8) != can {
                record_violation("heap-underflow", format_args!("byte {k} before a {}-byte block was overwritten", s.size));
                return;
            }
        }
        let after = (hi - s.ptr - s.size).min(CANARY);
        for k in 0..after {
            if *((s.ptr + s.size + k) as *const u8) != can {
                record_violation("heap-overflow", format_args!("byte {k} after a {}-byte block was overwritten", s.size));
                return;
            }
        }
    }
    unsafe fn check_dead(&self, c: usize, i: usize) {
        let s = &self.slots[first_of(c) + i];
        if s.protected {
            return;
        }
        for k in 0..s.size.min(MAXFILL) {
            if *((s.ptr + k) as *const u8) != 0xdd {
                record_violation("use-after-free", format_args!("byte {k} of a freed {}-byte block was written", s.size));
                return;
            }
        }
    }

    unsafe fn release(&mut self, p: *mut u8, layout: Layout) -> bool {
        let (c, i) = match locate(p as usize) {
            Some(x) => x,
            None => {
                record_violation("bad-free", format_args!("release of an address that was never handed out"));
                return false;
            }
        };
        let s = self.slots[first_of(c) + i];
        if s.st != St::Live || s.ptr != p as usize {
            let what = if s.st == St::Dead && s.ptr == p as usize { "double free" } else { "release of an address that was never handed out" };
            record_violation("bad-free", format_args!("{what}"));
            return false;
        }
        if s.size != layout.size() || s.align != layout.align() {
            record_violation(
                "layout-mismatch",
                format_args!("block of {} bytes align {} released as {} bytes align {}", s.size, s.align, layout.size(), layout.align()),
            );
        }
        self.check_canaries(c, i);
        std::ptr::write_bytes(p, 0xdd, s.size.min(MAXFILL));
        let sl = &mut self.slots[first_of(c) + i];
        sl.st = St::Dead;
        if self.cfg.revoke {
            let (lo, hi) = slot_base(c, i);
            libc::mprotect(lo as *mut _, hi - lo, libc::PROT_NONE);
            sl.protected = true;
        }
        self.st.frees += 1;
        self.st.live -= 1;
        self.st.live_bytes -= s.size;
        true
    }

    /// true: refuse this counted request.
    fn refuse(&mut self, size: usize, extra: usize) -> bool {
        self.st.requests += 1;
        let k = self.st.requests;
        let hit = self.cfg.fail_at != 0 && (k == self.cfg.fail_at || (self.cfg.fail_on && k > self.cfg.fail_at));
        let over = self.cfg.limit != 0 && self.st.live_bytes.saturating_add(extra) > self.cfg.limit;
        if hit || over {
            self.st.refused += 1;
            self.st.refused_size = size;
            return true;
        }
        false
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let m = effective();
        if m == SYS {
            let tf = step::pause();
            let r = System.alloc(l);
            step::resume(tf);
            return r;
        }
        let tf = step::pause();
        let a = arena();
        let r = if l.size() == 0 {
            record_violation("zero-size-alloc", format_args!("zero-sized allocator request"));
            std::ptr::null_mut()
        } else if m == SUT && a.refuse(l.size(), l.size()) {
            std::ptr::null_mut()
        } else {
            a.take(l.size(), l.align())
        };
        step::resume(tf);
        r
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if effective() == SYS {
            let tf = step::pause();
            let r = System.alloc_zeroed(l);
            step::resume(tf);
            return r;
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let tf = step::pause();
        if in_arena(p as usize) {
            arena().release(p, l);
        } else {
            System.dealloc(p, l);
        }
        step::resume(tf);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let m = effective();
        let tf = step::pause();
        let r = if m == SYS && !in_arena(p as usize) { System.realloc(p, l, new) } else { self.realloc_sim(p, l, new, m) };
        step::resume(tf);
        r
    }
}

impl SimAlloc {
    unsafe fn realloc_sim(&self, p: *mut u8, l: Layout, new: usize, m: u8) -> *mut u8 {
        let a = arena();
        if new == 0 {
            record_violation("zero-size-alloc", format_args!("zero-sized allocator request"));
            return std::ptr::null_mut();
        }
        let ours = in_arena(p as usize);
        let old = l.size();
        let mut place = None;
        if ours {
            let ok = locate(p as usize).map(|(c, i)| (c, i, a.slots[first_of(c) + i]));
            match ok {
                Some((c, i, s)) if s.st == St::Live && s.ptr == p as usize => {
                    if s.size != old || s.align != l.align() {
                        record_violation("layout-mismatch", format_args!("block of {} bytes grown as {} bytes", s.size, old));
                        return std::ptr::null_mut();
                    }
                    place = Some((c, i));
                }
                _ => {
                    record_violation("bad-free", format_args!("growth of a block that is not live"));
                    return std::ptr::null_mut();
                }
            }
        }
        if m == SUT && a.refuse(new, new.saturating_sub(old)) {
            return std::ptr::null_mut();
        }
        if let Some((c, i)) = place {
            a.check_canaries(c, i);
            let (lo, hi) = slot_base(c, i);
            let want = match a.cfg.grow {
                0 => false,
                1 => true,
                _ => mix(a.cfg.seed ^ (a.st.requests << 16) ^ 7) & 1 == 0,
            };
            // in place only from the lower end of a slot
            if want && p as usize == lo && new <= hi - lo {
                let s = &mut a.slots[first_of(c) + i];
                s.size = new;
                a.st.live_bytes = a.st.live_bytes - old + new;
                a.st.in_place += 1;
                let can = a.canary(p as usize);
                if new > old {
                    let f = (new - old).min(MAXFILL);
                    let b = a.fill_byte(a.serial, 0);
                    std::ptr::write_bytes(p.add(old), b, f);
                }
                let after = (hi - p as usize - new).min(CANARY);
                std::ptr::write_bytes(p.add(new), can, after);
                return p;
            }
        }
        let q = a.take(new, l.align());
        if q.is_null() {
            return q;
        }
        std::ptr::copy_nonoverlapping(p, q, old.min(new));
        if ours {
            a.release(p, l);
        } else {
            System.dealloc(p, l);
        }
        a.st.moved += 1;
        q
    }
}

/// Start a run: everything from the previous run must have been given back.
pub fn begin_run(cfg: AllocCfg) {
    let a = arena();
    unsafe {
        for k in 0..a.ntouched {
            let s = a.touched[k] as usize;
            if a.slots[s].protected {
                let (c, i) = locate(a.slots[s].ptr).unwrap();
                let (lo, hi) = slot_base(c, i);
                libc::mprotect(lo as *mut _, hi - lo, libc::PROT_READ | libc::PROT_WRITE);
            }
            a.slots[s] = Slot { st: St::Free, ptr: 0, size: 0, align: 1, protected: false };
        }
    }
    a.ntouched = 0;
    a.cfg = cfg;
    a.st = AllocStats::default();
    a.serial = 0;
    for c in 0..4 {
        // a small working set of slots keeps the page footprint low
        a.cursor[c] = (mix(cfg.seed ^ c as u64) % 16) as usize % CLASSES[c].1;
    }
}

/// End a run: canaries and poison of every block touched, then leaks.
pub fn end_run(check_leaks: bool) -> AllocStats {
    let a = arena();
    unsafe {
        for k in 0..a.ntouched {
            let s = a.touched[k] as usize;
            match a.slots[s].st {
                St::Live => {
                    let (c, i) = locate(a.slots[s].ptr).unwrap();
                    a.check_canaries(c, i);
                    if check_leaks {
                        record_violation("leak", format_args!("{} bytes still allocated after everything was dropped", a.slots[s].size));
                    }
                }
                St::Dead => {
                    let (c, i) = locate(a.slots[s].ptr).unwrap();
                    a.check_dead(c, i);
                }
                St::Free => {}
            }
        }
    }
    a.st
}

pub fn stats() -> AllocStats {
    arena().st
}
/// Change the refusal plan mid-run; the request counter restarts at zero.
pub fn set_refusal(fail_at: u64, fail_on: bool) {
    let a = arena();
    a.cfg.fail_at = fail_at;
    a.cfg.fail_on = fail_on;
    a.st.requests = 0;
}
/// Size of the live block at this address, if it is the start of one.
pub fn block_size(p: usize) -> Option<usize> {
    if !in_arena(p) {
        return None;
    }
    let (c, i) = locate(p)?;
    let s = arena().slots[first_of(c) + i];
    (s.st == St::Live && s.ptr == p).then_some(s.size)
}

/// Whether `p` is the start of a live block of exactly this size.
pub fn holds(p: usize, size: usize) -> bool {
    block_size(p) == Some(size)
}

/// A String whose memory comes from the arena (uncounted), with the given spare capacity.
pub fn arena_string(s: &str, spare: usize) -> String {
    let m = set_mode(QUIET);
    let mut r = String::with_capacity(s.len() + spare);
    r.push_str(s);
    set_mode(m);
    r
}
