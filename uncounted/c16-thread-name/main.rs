#![allow(unused, deprecated)]
use laby::*;
use laby::internal::*;

fn main() {
    println!("{}", render!(frag_match!(if true { 1 } else { 2 })));
}
