//! The simulation runtime as seen from inside the simulated abstract machine. The same interface
//! as the native one, but memory, threads and the processor are the interpreter's: it decides
//! addresses, the interleaving of threads, which write an atomic load sees and spurious failures,
//! all from one seed, and knows of every byte whether it is allocated, initialised and ordered.
//! Nothing here may order threads with each other, or races of the library would be hidden.
#![feature(alloc_error_hook)]

pub mod alloc;
#[path = "../../../simrt/src/case.rs"]
pub mod case;
#[path = "../../../simrt/src/cpu.rs"]
pub mod cpu;
#[path = "../../../simrt/src/rng.rs"]
pub mod rng;
pub mod run;
pub mod sched;
pub mod step;

use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Mutex;

pub use alloc::{mode, set_mode, SimAlloc, QUIET, SUT, SYS};

static SET: AtomicBool = AtomicBool::new(false);
static VIOL: Mutex<Option<(String, String)>> = Mutex::new(None);
static FOREIGN: AtomicBool = AtomicBool::new(false);
static CLASSES: Mutex<&'static [&'static str]> = Mutex::new(&[]);

pub fn set_classes(c: &'static [&'static str]) {
    *CLASSES.lock().unwrap() = c;
}
pub fn foreign() -> bool {
    FOREIGN.load(Relaxed)
}
pub fn new_case() {
    FOREIGN.store(false, Relaxed);
}
pub fn record_violation(class: &str, msg: std::fmt::Arguments) {
    if SET.load(Relaxed) {
        return;
    }
    let m = set_mode(SYS);
    let cs = *CLASSES.lock().unwrap();
    if !cs.iter().any(|c| *c == class || (c.ends_with('*') && class.starts_with(&c[..c.len() - 1]))) {
        FOREIGN.store(true, Relaxed);
    } else if !SET.swap(true, Relaxed) {
        *VIOL.lock().unwrap() = Some((class.to_string(), msg.to_string()));
    }
    set_mode(m);
}
pub fn violated() -> bool {
    SET.load(Relaxed) || foreign()
}
pub fn violation() -> Option<(String, String)> {
    VIOL.lock().unwrap().clone()
}

#[macro_export]
macro_rules! violate {
    ($class:expr, $($t:tt)*) => { $crate::record_violation($class, format_args!($($t)*)) };
}

#[derive(Debug, Clone, PartialEq)]
pub enum Caught {
    Injected(u32),
    Oom(usize),
    Panic(String),
}
struct Inj(u32);
struct OomMark(usize);

thread_local! {
    static LAST_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn classify(p: Box<dyn Any + Send>) -> Caught {
    if let Some(i) = p.downcast_ref::<Inj>() {
        return Caught::Injected(i.0);
    }
    if let Some(i) = p.downcast_ref::<OomMark>() {
        return Caught::Oom(i.0);
    }
    Caught::Panic(LAST_MSG.with(|m| std::mem::take(&mut *m.borrow_mut())))
}

/// End the run with the verdict there is.
pub fn die() -> ! {
    run::verdict();
    std::process::exit(10)
}
pub fn inject(id: u32) -> ! {
    set_mode(SYS);
    resume_unwind(Box::new(Inj(id)))
}
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let m = set_mode(SUT);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_mode(m);
    r.map_err(classify)
}
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let m = set_mode(SYS);
    run::arrival();
    let r = f();
    set_mode(m);
    r
}
pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        set_mode(SYS);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_MSG.with(|m| *m.borrow_mut() = msg);
    }));
    std::alloc::set_alloc_error_hook(|l| {
        set_mode(SYS);
        resume_unwind(Box::new(OomMark(l.size())))
    });
}
