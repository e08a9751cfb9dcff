//! Instruction-level control of the code under test with the processor's trap flag: every
//! instruction is a point where the scheduler may switch threads and where the simulated
//! processor answers CPUID and XGETBV and rejects extensions it does not have.
use crate::{cpu, record_violation, sched};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

thread_local! {
    static STEPPING: Cell<bool> = const { Cell::new(false) };
}

static PROFILE: AtomicU32 = AtomicU32::new(0);
static CHECK_INSNS: AtomicU32 = AtomicU32::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicU64 = AtomicU64::new(u64::MAX);
static CPUIDS: AtomicU64 = AtomicU64::new(0);
static WAITS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

#[inline(always)]
unsafe fn set_tf() {
    core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop");
}
#[inline(always)]
unsafe fn clear_tf() {
    core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq", "nop");
}

#[inline]
pub fn stepping() -> bool {
    STEPPING.with(|s| s.get())
}
/// Stop stepping this thread; says whether it was being stepped.
#[inline]
pub fn pause() -> bool {
    let was = STEPPING.with(|s| s.replace(false));
    if was {
        unsafe { clear_tf() }
    }
    was
}
#[inline]
pub fn resume(was: bool) {
    if was {
        STEPPING.with(|s| s.set(true));
        unsafe { set_tf() }
    }
}

/// Step `f` on the simulated machine `profile`.
pub fn stepped<R>(f: impl FnOnce() -> R) -> R {
    resume(true);
    let r = f();
    pause();
    r
}

pub fn configure(profile: u32, check_insns: bool, cap: u64) {
    PROFILE.store(profile, Relaxed);
    CHECK_INSNS.store(check_insns as u32, Relaxed);
    CAP.store(cap, Relaxed);
    STEPS.store(0, Relaxed);
    CPUIDS.store(0, Relaxed);
    WAITS.store(0, Relaxed);
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
pub fn cpuids() -> u64 {
    CPUIDS.load(Relaxed)
}

unsafe extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let regs = &mut uc.uc_mcontext.gregs;
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    if n > CAP.load(Relaxed) {
        record_violation("no-progress", format_args!("not finished after {n} simulated instructions"));
        libc::_exit(10);
    }
    let mut switch = false;
    loop {
        let rip = regs[libc::REG_RIP as usize] as usize;
        let b = rip as *const u8;
        match (*b, *b.add(1)) {
            (0x0f, 0xa2) => {
                let p = PROFILE.load(Relaxed);
                if p == 0 {
                    break;
                }
                CPUIDS.store(CPUIDS.load(Relaxed) + 1, Relaxed);
                let r = cpu::cpuid(p, regs[libc::REG_RAX as usize] as u32, regs[libc::REG_RCX as usize] as u32);
                regs[libc::REG_RAX as usize] = r[0] as i64;
                regs[libc::REG_RBX as usize] = r[1] as i64;
                regs[libc::REG_RCX as usize] = r[2] as i64;
                regs[libc::REG_RDX as usize] = r[3] as i64;
                regs[libc::REG_RIP as usize] += 2;
                continue;
            }
            (0x0f, 0x01) if *b.add(2) == 0xd0 => {
                let p = PROFILE.load(Relaxed);
                if p == 0 {
                    break;
                }
                if p & cpu::OSXSAVE == 0 || regs[libc::REG_RCX as usize] as u32 != 0 {
                    record_violation("illegal-instruction", format_args!("XGETBV although the OS has not enabled XSAVE"));
                }
                let x = cpu::xcr0(p);
                regs[libc::REG_RAX as usize] = (x & 0xffff_ffff) as i64;
                regs[libc::REG_RDX as usize] = (x >> 32) as i64;
                regs[libc::REG_RIP as usize] += 3;
                continue;
            }
            // spinning: let another thread run
            (0xf3, 0x90) => switch = true,
            (0x0f, 0x05) => {
                let nr = regs[libc::REG_RAX as usize];
                let op = regs[libc::REG_RSI as usize] & 0x7f;
                if nr == libc::SYS_futex && (op == 0 || op == 9) && sched::active() {
                    // a blocked thread is one that is polled whenever it is scheduled
                    let val = *(regs[libc::REG_RDI as usize] as *const u32);
                    WAITS.store(WAITS.load(Relaxed) + 1, Relaxed);
                    regs[libc::REG_RAX as usize] =
                        if val == regs[libc::REG_RDX as usize] as u32 { -(libc::EINTR as i64) } else { -(libc::EAGAIN as i64) };
                    regs[libc::REG_RCX as usize] = 0;
                    regs[libc::REG_RIP as usize] += 2;
                    switch = true;
                    continue;
                }
                if nr == libc::SYS_sched_yield || nr == libc::SYS_nanosleep || nr == libc::SYS_clock_nanosleep {
                    regs[libc::REG_RAX as usize] = 0;
                    regs[libc::REG_RIP as usize] += 2;
                    switch = true;
                    continue;
                }
            }
            _ => {}
        }
        break;
    }
    if CHECK_INSNS.load(Relaxed) != 0 {
        let rip = regs[libc::REG_RIP as usize] as usize;
        let lo = std::ptr::addr_of!(__executable_start) as usize;
        let hi = std::ptr::addr_of!(etext) as usize;
        if rip >= lo && rip + 16 < hi {
            if let Some(what) = cpu::missing(PROFILE.load(Relaxed), &*(rip as *const [u8; 16])) {
                record_violation(
                    "illegal-instruction",
                    format_args!("an instruction of {what} was executed on a machine that does not offer it"),
                );
            }
        }
    }
    sched::on_step(switch);
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}
