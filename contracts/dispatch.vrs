//! P01, P02, P03, P11, P13, P16 (from text to tokens): src/scanner/mod.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs space
//@stubs indent
//@stubs key
//@stubs scanner
//@stubs anchor
//@stubs tag
//@stubs directive
//@stubs flow
//@stubs plain
//@stubs block
//@stubs fetch
//#PROPS P01 P02 P03 P10 P11 P12 P13 P14 P16 P17
//@include dispatch
} // verus!
fn main() {}
