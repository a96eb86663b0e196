//! P05, P10, P13 (plain scalars): src/scanner/scalar/plain.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs indent
//#PROPS P01 P05 P10 P13 P15
//@include plain
} // verus!
fn main() {}
