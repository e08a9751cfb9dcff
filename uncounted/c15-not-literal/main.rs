#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    assert_eq!(render!(div!(a = bool!(!true))), "<div></div>");
    assert_eq!(render!(div!(a = bool!(!false))), "<div a></div>");
}
