#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    let c = std::cell::Cell::new(false);
    let n = div!(hidden = bool!(c.get()));
    c.set(true);
    assert_eq!(render!(n), "<div></div>");
    let _ = div!(hidden = bool!({ c.set(false); true }));
    assert!(!c.get());
}
