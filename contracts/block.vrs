//! P06, P10, P13 (block scalars): src/scanner/scalar/block.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs indent
//#PROPS P01 P06 P10 P13 P15
//@include block
} // verus!
fn main() {}
