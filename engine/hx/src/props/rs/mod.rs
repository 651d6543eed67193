//! Rust programs, by theme.
use crate::kit::*;

pub mod ops;
pub mod flow;
pub mod calls;
pub mod enums;
pub mod niches;
pub mod types;
pub mod mir;
pub mod borrows;
pub mod layout;
pub mod ptr;
pub mod unwind;
pub mod dynamic;
pub mod globals;
pub mod threads;

pub fn all(c: &mut Cases) {
    ops::ints(c);
    ops::casts(c);
    ops::compare(c);
    flow::cases(c);
    flow::indexing(c);
    calls::cases(c);
    enums::cases(c);
    niches::cases(c);
    mir::calls(c);
    mir::unwinding(c);
    mir::storage(c);
    types::copying(c);
    types::sizes(c);
    types::refs(c);
    layout::sizes(c);
    layout::cases(c);
    ptr::memory(c);
    ptr::heap(c);
    ptr::places(c);
    ptr::arith(c);
    ptr::refs(c);
    unwind::drops(c);
    unwind::panics(c);
    dynamic::objects(c);
    dynamic::statics(c);
    globals::cases(c);
    threads::races(c);
    threads::locks(c);
    threads::atomics(c);
}
