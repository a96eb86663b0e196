//! P03, P14, P17 (the scanner: dispatch, saved keys, block and flow structure): src/scanner/mod.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs space
//@stubs indent
//@stubs key
//#PROPS P01 P03 P14 P16 P17
//@include scanner
} // verus!
fn main() {}
