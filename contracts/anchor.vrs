//! P08 (anchors and aliases): src/scanner/anchor.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs space
//@stubs indent
//#PROPS P01 P08 P13
//@include anchor
} // verus!
fn main() {}
