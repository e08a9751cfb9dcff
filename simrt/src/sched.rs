//! The simulated scheduler: real threads, exactly one of which runs at a time; who runs next and
//! for how many instructions is read from the case.
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

const MAXT: usize = 8;
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CUR: AtomicU32 = AtomicU32::new(u32::MAX);
static SWITCHES: AtomicU64 = AtomicU64::new(0);

struct State {
    n: usize,
    done: [bool; MAXT],
    slices: Vec<(u16, u32)>,
    next: usize,
    left: u32,
    last: usize,
    /// one thread after the other
    solo: bool,
    trace: u64,
}
static mut STATE: State = State { n: 0, done: [false; MAXT], slices: Vec::new(), next: 0, left: 0, last: 0, solo: false, trace: 0 };
fn state() -> &'static mut State {
    unsafe { &mut *std::ptr::addr_of_mut!(STATE) }
}

thread_local! {
    static ME: std::cell::Cell<u32> = const { std::cell::Cell::new(u32::MAX) };
}

pub fn active() -> bool {
    ACTIVE.load(Relaxed)
}
pub fn switches() -> u64 {
    SWITCHES.load(Relaxed)
}
/// Hash of the sequence of hand-overs: one interleaving.
pub fn trace() -> u64 {
    state().trace
}

unsafe fn futex(op: i32, val: u32) {
    libc::syscall(libc::SYS_futex, CUR.as_ptr(), op | libc::FUTEX_PRIVATE_FLAG, val, 0usize, 0usize, 0u32);
}
fn wait_turn(me: u32) {
    loop {
        let c = CUR.load(Acquire);
        if c == me {
            return;
        }
        unsafe { futex(libc::FUTEX_WAIT, c) };
    }
}
fn give(to: u32) {
    CUR.store(to, Release);
    unsafe { futex(libc::FUTEX_WAKE, i32::MAX as u32) };
}

/// Next runnable thread and its slice. `not`: prefer somebody else.
fn choose(not: Option<u32>) -> Option<u32> {
    let s = state();
    if s.done[..s.n].iter().all(|&d| d) {
        return None;
    }
    while s.next < s.slices.len() {
        let (t, k) = s.slices[s.next];
        s.next += 1;
        let t = t as usize % s.n;
        if !s.done[t] && k > 0 && Some(t as u32) != not {
            s.left = k;
            s.last = t;
            return Some(t as u32);
        }
    }
    // the schedule is used up: fair round robin
    let cur = s.last;
    s.left = if s.solo { u32::MAX } else { 400 };
    for d in 1..=s.n {
        let t = (cur + d) % s.n;
        if !s.done[t] && Some(t as u32) != not {
            s.last = t;
            return Some(t as u32);
        }
    }
    not.filter(|&t| !s.done[t as usize])
}

/// Called for every instruction of a stepped thread.
pub fn on_step(force: bool) {
    if !active() {
        return;
    }
    let s = state();
    s.left = s.left.saturating_sub(1);
    if s.left > 0 && !force {
        return;
    }
    let me = ME.with(|m| m.get());
    let Some(to) = choose(if force { Some(me) } else { None }) else { return };
    if to != me {
        s.trace = crate::rng::mix(s.trace ^ (to as u64) << 56 ^ crate::step::steps());
        SWITCHES.store(SWITCHES.load(Relaxed) + 1, Relaxed);
        give(to);
        wait_turn(me);
    }
}

fn finish(me: u32) {
    let s = state();
    s.done[me as usize] = true;
    match choose(None) {
        Some(t) => give(t),
        None => give(u32::MAX),
    }
}

/// Run the bodies concurrently under the given schedule and return their results.
pub fn run<R: Send>(slices: &[(u16, u32)], solo: bool, bodies: Vec<Box<dyn FnOnce() -> R + Send + '_>>) -> Vec<R> {
    let n = bodies.len();
    assert!(n <= MAXT);
    *state() = State { n, done: [false; MAXT], slices: slices.to_vec(), next: 0, left: 0, last: 0, solo, trace: 0 };
    SWITCHES.store(0, Relaxed);
    CUR.store(u32::MAX, Release);
    ACTIVE.store(true, Release);
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, b)| {
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(sc, move || {
                        ME.with(|m| m.set(i as u32));
                        wait_turn(i as u32);
                        let r = crate::step::stepped(b);
                        finish(i as u32);
                        r
                    })
                    .unwrap()
            })
            .collect();
        let first = choose(None).unwrap();
        give(first);
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    ACTIVE.store(false, Release);
    out
}
