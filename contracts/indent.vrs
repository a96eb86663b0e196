//! P03, P14 (block collections open and close where their columns say), P17: src/scanner/context.rs, key.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs space
//#PROPS P01 P03 P14 P17
//@include indent
} // verus!
fn main() {}
