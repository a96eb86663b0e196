//! P13/P15 (what a line break is and how positions advance), P16 (comments and blank space), P01:
//! src/scanner/macros.rs, src/scanner/stats.rs, eat_whitespace of src/scanner/mod.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//#PROPS P01 P13 P15 P16
//@include space
} // verus!
fn main() {}
