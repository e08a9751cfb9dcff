#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    let (n, f, t) = ("hidden", false, true);
    assert_eq!(render!(div!({ n } = bool!(t))), "<div hidden></div>");
    assert_eq!(render!(div!({ n } = bool!(f))), "<div></div>");
}
