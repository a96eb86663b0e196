//! P08, P09 (tags and %TAG): src/scanner/tag.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs space
//@stubs indent
//@stubs escape
//#PROPS P01 P07 P08 P09 P13
//@include tag
} // verus!
fn main() {}
