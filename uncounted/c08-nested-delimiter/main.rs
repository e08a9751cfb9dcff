#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    assert_eq!(render!(classes!("a", frag!("b", "c"), "d")), "a bc d");
    let f = frag!("b", "c");
    assert_eq!(render!(classes!("a", f, "d")), "a bc d");
}
