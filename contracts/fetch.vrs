//! P02, P03, P08, P09, P12, P13, P14, P17 (what the scanner makes of each token): src/scanner/mod.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs space
//@stubs indent
//@stubs key
//@stubs scanner
//@stubs anchor
//@stubs tag
//@stubs directive
//@stubs flow
//@stubs plain
//@stubs block
//#PROPS P01 P02 P03 P08 P09 P12 P13 P14 P17
//@include fetch
} // verus!
fn main() {}
