#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    let v = b'a';
    assert_eq!(render!(div!(v)), "<div>97</div>");
    assert_eq!(render!(div!(b'a')), "<div>97</div>");
}
