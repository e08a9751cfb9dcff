#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    assert_eq!(render!(div!({ "x"; })), "<div></div>");
    assert_eq!(render!(div!({ "x" })), "<div>x</div>");
}
