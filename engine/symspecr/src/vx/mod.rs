//! Symbolic execution engine behind the symbolic `Int`/`Byte` types, and the harness interface.
//!
//! The harness interface (everything `pub` here that is not in `term`/`smt`) exists with the same
//! signatures in the native replay build of libspecr, where symbolic inputs take the values
//! recorded in a replay file.

mod lia;
pub mod smt;
pub mod term;
mod explore;
mod api;

pub use api::*;
pub use explore::*;

use std::sync::Mutex;
static COVERED: Mutex<Vec<&'static str>> = Mutex::new(vec![]);
#[doc(hidden)]
pub fn covered(name: &'static str) {
    COVERED.lock().unwrap().push(name);
}
/// The names of the sites of the code under test that were executed so far.
pub fn coverage() -> Vec<&'static str> {
    COVERED.lock().unwrap().clone()
}
/// Marks a site of the code under test as executed.
#[macro_export]
macro_rules! cov {
    ($name:literal) => {{
        static C: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);
        if !C.load(::std::sync::atomic::Ordering::Relaxed) {
            C.store(true, ::std::sync::atomic::Ordering::Relaxed);
            $crate::vx::covered($name);
        }
    }};
}
