//! One module per property.

use crate::kit::*;

mod builders;
mod cmp;
mod ints;
mod memory;
pub mod ptrs;
mod valid;
mod repr;
mod threads;
mod atomics;
mod runner;
mod trees;
mod wf;
pub mod rs;

pub fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    all(prop, thorough).v
}
pub fn all(prop: &str, thorough: bool) -> Cases {
    let mut c = Cases { v: vec![], thorough, rust: vec![] };
    match prop {
        "C01" => { ints::cases(&mut c); rs::ops::ints(&mut c); rs::ops::casts(&mut c); builders::ints(&mut c) }
        "C02" => { cmp::cases(&mut c); rs::ops::compare(&mut c); rs::flow::cases(&mut c); builders::compare(&mut c) }
        "C03" => { repr::cases(&mut c); rs::layout::cases(&mut c); rs::types::copying(&mut c); builders::layouts(&mut c) }
        "C04" => { memory::access(&mut c); rs::ptr::memory(&mut c) }
        "C05" => { memory::alloc(&mut c); rs::ptr::heap(&mut c); rs::mir::storage(&mut c); builders::heap(&mut c) }
        "C06" => { ptrs::arith(&mut c); builders::pointers(&mut c); rs::ptr::arith(&mut c) }
        "C07" => { ptrs::places(&mut c); rs::ptr::places(&mut c); rs::enums::permuted(&mut c); rs::flow::indexing(&mut c) }
        "C08" => { valid::sizes(&mut c); rs::layout::sizes(&mut c); rs::types::sizes(&mut c) }
        "C09" => { valid::pointers(&mut c); rs::ptr::refs(&mut c); rs::types::refs(&mut c); builders::references(&mut c) }
        "C11" => { rs::borrows::types(&mut c); rs::borrows::wide(&mut c); rs::borrows::closures(&mut c); rs::borrows::sequences(&mut c); rs::borrows::protectors(&mut c); trees::cases(&mut c) }
        "C12" => { threads::races(&mut c); rs::threads::races(&mut c) }
        "C13" => { threads::locks(&mut c); rs::threads::locks(&mut c); builders::parallel(&mut c) }
        "C14" => { atomics::cases(&mut c); rs::threads::atomics(&mut c); builders::atomics(&mut c) }
        "C15" => { rs::calls::cases(&mut c); rs::mir::calls(&mut c); builders::calls(&mut c) }
        "C16" => { rs::enums::cases(&mut c); rs::enums::permuted(&mut c); rs::niches::cases(&mut c); builders::enums(&mut c) }
        "C17" => { rs::unwind::drops(&mut c); rs::unwind::panics(&mut c); rs::mir::unwinding(&mut c); builders::unwinding(&mut c) }
        "C18" => { wf::cases(&mut c); runner::ill_formed(&mut c) }
        "C19" => { rs::dynamic::objects(&mut c); rs::dynamic::statics(&mut c); rs::globals::cases(&mut c); builders::globals(&mut c) }
        "C20" => rs::all(&mut c),
        "C21" => runner::cases(&mut c),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
    for (p, case, id, text) in KNOWN {
        for c in c.v.iter_mut().filter(|c| prop == *p && c.name.contains(case)) {
            c.known(id, text);
        }
    }
    if !c.thorough {
        let out: Vec<String> = c.v.iter().filter(|c| c.thorough_only).map(|c| crate::rust::file_name(&c.name)).collect();
        c.rust.retain(|s| !out.contains(&s.file));
        c.v.retain(|c| !c.thorough_only);
    }
    c
}

/// Defects of the code under test that are not repaired (known_findings.jsonl): the property, a part of the
/// names of the cases in which they appear, and how they show.
const KNOWN: &[(&str, &str, &str, &str)] = &[
    ("C05", "tree borrows: any size", "F01", "a list that does not fit into memory"),
    ("C06", "reference ", "F02", "trying to store Ptr("),
    ("C08", ": ", "F03", "trying to store Int("),
    ("C09", "gone returned", "F04", "trying to store Ptr("),
    ("C09", "tree borrows", "F05", "called `Option::unwrap()` on a `None` value"),
    ("C11", "empty reference anywhere", "F05b", "called `Option::unwrap()` on a `None` value"),
    ("C13", "number ", "F11", "List::get: index out of range"),
    ("C13", "id does not fit", "F10", "trying to store Int("),
    ("C14", "value ", "F09", "trying to store Int("),
    ("C14", "place ", "F09", "trying to store Int("),
    ("C14", "args ", "F09", "trying to store Int("),
    ("C14", "counter", "F09", "trying to store Int("),
    ("C14", "three threads", "F09", "trying to store Int("),
];
