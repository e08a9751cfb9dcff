#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    let c = '<';
    assert_eq!(render!(div!(title = c, c)), "<div title=\"&lt;\">&lt;</div>");
    assert_eq!(render!(div!(title = '<', '<')), "<div title=\"&lt;\">&lt;</div>");
}
