//! The interpreter steps everything; there is nothing to switch on.
pub fn stepping() -> bool {
    crate::sched::active()
}
pub fn pause() -> bool {
    false
}
pub fn resume(_: bool) {}
pub fn configure(_profile: u32, _check: bool, _cap: u64) {}
pub fn steps() -> u64 {
    0
}
pub fn cpuids() -> u64 {
    crate::run::CPUIDS.load(std::sync::atomic::Ordering::Relaxed)
}
