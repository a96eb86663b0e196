//! P04, P07, P10, P13 (quoted scalars): src/scanner/scalar/flow.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs escape
//#PROPS P01 P04 P07 P10 P13 P15
//@include flow
} // verus!
fn main() {}
