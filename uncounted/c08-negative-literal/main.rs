#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    assert_eq!(render!(div!(-5)), "<div>-5</div>");
    assert_eq!(render!(div!(-0)), "<div>0</div>");
    let z = -0;
    assert_eq!(render!(div!(z)), "<div>0</div>");
}
