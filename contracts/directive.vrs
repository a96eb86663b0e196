//! P09 (directives): src/scanner/directive.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs space
//@stubs indent
//@stubs escape
//@stubs tag
//#PROPS P01 P09 P13
//@include directive
} // verus!
fn main() {}
