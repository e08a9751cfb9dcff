//! Counters and what is said about a run.
pub use crate::case::{decode, encode, Case, Names, Op};
use crate::rng::mix;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub static COUNTS: [AtomicU64; 96] = [const { AtomicU64::new(0) }; 96];
pub static CPUIDS: AtomicU64 = AtomicU64::new(0);
static STATES: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static ORDER: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ME: Cell<u64> = const { Cell::new(0) };
}

pub fn count(i: usize, n: u64) {
    COUNTS[i].fetch_add(n, Relaxed);
}
pub fn distinct(_h: u64) {}
pub fn state(h: u64) {
    STATES.fetch_xor(mix(h), Relaxed);
}
/// Hash of the states seen since the last call.
pub fn states() -> u64 {
    STATES.swap(0, Relaxed)
}
pub fn me(i: u64) {
    ME.with(|m| m.set(i));
}
/// A thread left the library: its place among the other threads' is one sign of the interleaving.
pub fn arrival() {
    let me = ME.with(|m| m.get());
    if me != 0 {
        let at = CLOCK.fetch_add(1, Relaxed);
        ORDER.fetch_xor(mix(at << 8 ^ me), Relaxed);
    }
}
pub fn order() -> u64 {
    CLOCK.store(0, Relaxed);
    ORDER.swap(0, Relaxed)
}
/// Print the violation of this run, if there is one.
pub fn verdict() {
    let m = crate::set_mode(crate::SYS);
    if let Some((c, t)) = crate::violation() {
        println!("@violation {c} {}", t.replace('\n', " "));
    }
    crate::set_mode(m);
}
