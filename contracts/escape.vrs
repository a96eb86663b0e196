//! P07 (escapes), P08 (percent escapes of tags): src/scanner/scalar/escape.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs macros
//#PROPS P01 P07 P08
//@include escape
} // verus!
fn main() {}
