pub mod gen;
pub mod grammar;
pub mod par;
pub mod refs;
pub mod report;
pub mod suites;
pub mod trace;
pub mod big;
