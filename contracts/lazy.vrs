//! P10 (evaluation of deferred scalars), P04, P05, P06: src/scanner/entry.rs, src/event/types.rs
//#EXPAND vx
use vstd::prelude::*;
verus! {
//@stubs indent
//@stubs flow
//@stubs plain
//@stubs block
//#PROPS P01 P04 P05 P06 P10 P18
//@include lazy
} // verus!
fn main() {}
