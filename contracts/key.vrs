//! P17
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs macros
//#PROPS P03 P17
//@include key
} // verus!
fn main() {}
