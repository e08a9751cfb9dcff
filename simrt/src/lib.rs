//! Deterministic simulation runtime: everything the code under test could get from outside
//! (memory, processor features, the interleaving of threads, failures of user code) comes from
//! here and is decided by one seeded case.
#![feature(alloc_error_hook)]

pub mod alloc;
pub mod case;
pub mod cpu;
pub mod rng;
pub mod run;
pub mod sched;
pub mod step;

use std::any::Any;
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, Ordering::*};

pub use alloc::{mode, set_mode, SimAlloc, QUIET, SUT, SYS};

/// First violation of the current run; lives in memory shared with the supervising process.
#[repr(C)]
pub struct Viol {
    pub set: AtomicBool,
    pub class_len: u32,
    pub msg_len: u32,
    pub class: [u8; 64],
    pub msg: [u8; 2048],
}
static mut LOCAL_VIOL: Viol = Viol { set: AtomicBool::new(false), class_len: 0, msg_len: 0, class: [0; 64], msg: [0; 2048] };
static VIOL: AtomicPtr<Viol> = AtomicPtr::new(std::ptr::null_mut());

fn viol() -> &'static mut Viol {
    let p = VIOL.load(Relaxed);
    unsafe {
        if p.is_null() {
            &mut *std::ptr::addr_of_mut!(LOCAL_VIOL)
        } else {
            &mut *p
        }
    }
}
pub fn set_viol_page(p: *mut Viol) {
    VIOL.store(p, Relaxed);
}

struct Fixed<'a>(&'a mut [u8], usize);
impl std::fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(self.0.len() - self.1);
        self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
        self.1 += n;
        Ok(())
    }
}

static mut CLASSES: &[&str] = &[];
static FOREIGN: AtomicBool = AtomicBool::new(false);
static FOREIGN_N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// The violation classes that break the property under check. Anything else that goes wrong ends
/// the run without a verdict.
pub fn set_classes(c: &'static [&'static str]) {
    unsafe { CLASSES = c }
}
/// Something went wrong in this run that is no matter of the property under check.
pub fn foreign() -> bool {
    FOREIGN.load(Relaxed)
}
pub fn new_case() {
    FOREIGN.store(false, Relaxed);
}

/// Report a violation. Only the first of a run counts. Allocates nothing in the arena.
pub fn record_violation(class: &str, msg: std::fmt::Arguments) {
    let v = viol();
    if v.set.load(Relaxed) {
        return;
    }
    let cs = unsafe { *std::ptr::addr_of!(CLASSES) };
    if !cs.is_empty() && !cs.iter().any(|c| *c == class || (c.ends_with('*') && class.starts_with(&c[..c.len() - 1]))) {
        if !FOREIGN.swap(true, Relaxed) {
            FOREIGN_N.fetch_add(1, Relaxed);
        }
        return;
    }
    let m = set_mode(SYS);
    let n = class.len().min(v.class.len());
    v.class[..n].copy_from_slice(&class.as_bytes()[..n]);
    v.class_len = n as u32;
    let mut f = Fixed(&mut v.msg, 0);
    let _ = f.write_fmt(msg);
    v.msg_len = f.1 as u32;
    v.set.store(true, Release);
    set_mode(m);
}
/// The run should end: a violation, or trouble that is not this property's.
pub fn violated() -> bool {
    viol().set.load(Acquire) || foreign()
}
pub fn violation_found() -> bool {
    viol().set.load(Acquire)
}
pub fn clear_violation() {
    viol().set.store(false, Release);
}
pub fn violation() -> Option<(String, String)> {
    let v = viol();
    v.set.load(Acquire).then(|| {
        (
            String::from_utf8_lossy(&v.class[..v.class_len as usize]).into_owned(),
            String::from_utf8_lossy(&v.msg[..v.msg_len as usize]).into_owned(),
        )
    })
}

#[macro_export]
macro_rules! violate {
    ($class:expr, $($t:tt)*) => { $crate::record_violation($class, format_args!($($t)*)) };
}

/// How a call into the code under test ended without returning.
#[derive(Debug, Clone, PartialEq)]
pub enum Caught {
    /// A panic the simulator injected into user code.
    Injected(u32),
    /// The allocation-error handler was invoked for a request of this size.
    Oom(usize),
    /// The library (or std on its behalf) panicked with this message.
    Panic(String),
}
struct Inj(u32);
struct OomMark(usize);
struct PanicMsg;

thread_local! {
    static LAST_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn classify(p: Box<dyn Any + Send>) -> Caught {
    if let Some(i) = p.downcast_ref::<Inj>() {
        return Caught::Injected(i.0);
    }
    if let Some(i) = p.downcast_ref::<OomMark>() {
        return Caught::Oom(i.0);
    }
    let _ = PanicMsg;
    Caught::Panic(LAST_MSG.with(|m| std::mem::take(&mut *m.borrow_mut())))
}

/// End the process without a verdict of its own.
pub fn die() -> ! {
    unsafe { libc::_exit(10) }
}

/// Unwind out of user code. Leaves the thread unstepped and uncounted until it is caught.
pub fn inject(id: u32) -> ! {
    step::pause();
    set_mode(SYS);
    resume_unwind(Box::new(Inj(id)))
}

/// Run code under test on this thread: its memory comes from the arena.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let m = set_mode(SUT);
    let tf = step::stepping();
    let r = catch_unwind(AssertUnwindSafe(f));
    if r.is_err() {
        step::pause();
    }
    set_mode(m);
    let r = r.map_err(classify);
    if tf {
        step::resume(true);
    }
    r
}

/// Run user code called back from code under test: atomic, memory from the system.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let tf = step::pause();
    let m = set_mode(SYS);
    let r = f();
    set_mode(m);
    step::resume(tf);
    r
}

/// Install the panic hook and the allocation-error hook.
pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        step::pause();
        set_mode(SYS);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if let Ok(p) = std::env::var("SIM_TRACE_PANIC") {
            if !p.is_empty() {
                eprintln!("panic: {msg} at {:?}", info.location().map(|l| l.to_string()));
            }
        }
        LAST_MSG.with(|m| *m.borrow_mut() = msg);
    }));
    std::alloc::set_alloc_error_hook(|l| {
        step::pause();
        set_mode(SYS);
        resume_unwind(Box::new(OomMark(l.size())))
    });
}
