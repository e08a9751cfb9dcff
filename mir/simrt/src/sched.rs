//! Plain threads: the interpreter's seeded scheduler interleaves them at basic blocks.
use std::sync::atomic::{AtomicBool, Ordering::*};

static ACTIVE: AtomicBool = AtomicBool::new(false);

pub fn active() -> bool {
    ACTIVE.load(Relaxed)
}
pub fn switches() -> u64 {
    0
}
pub fn trace() -> u64 {
    crate::run::order()
}
pub fn run<R: Send>(_slices: &[(u16, u32)], solo: bool, bodies: Vec<Box<dyn FnOnce() -> R + Send + '_>>) -> Vec<R> {
    if solo {
        return bodies.into_iter().map(|b| std::thread::scope(|s| s.spawn(b).join().unwrap())).collect();
    }
    ACTIVE.store(true, Relaxed);
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = bodies.into_iter().enumerate().map(|(i, b)| s.spawn(move || { crate::run::me(i as u64 + 1); b() })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    ACTIVE.store(false, Relaxed);
    out
}
