use crate::*;

mod ops;
mod func;
mod to;
mod step;

pub use to::ToInt;

/// The external Bigint Type, which we use under the hood.
pub(crate) use num_bigint::BigInt;
use num_traits::ToPrimitive;

use crate::vx::term::{self, Tid};

#[derive(Copy, Clone)]
/// Integer: concrete, or a symbolic term.
pub struct Int(IntInner);

#[derive(Copy, Clone, Debug)]
enum IntInner {
    Big(GcCow<BigInt>),
    /// i128 is used to contain u64 and i64.
    Small(i128),
    Sym(Tid),
}

impl gc::GcCompat for Int {
    fn points_to(&self, m: &mut std::collections::HashSet<usize>) {
        if let IntInner::Big(x) = &self.0 {
            x.points_to(m)
        }
    }
}

impl<T: ToInt> From<T> for Int {
    fn from(t: T) -> Int {
        t.to_int()
    }
}

impl std::hash::Hash for Int {
    // Equality of symbolic values is not known here, so all hashes are equal.
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}

impl Int {
    /// Create an `Int` from a regular Rust integer.
    ///
    /// `const fn` cannot be generic but it turns out `u64` is all we need.
    pub const fn from_u64(i: u64) -> Int {
        // `as` conversion is guaranteed lossless
        Int(IntInner::Small(i as i128))
    }
}

impl Int {
    /// The number 0
    pub const ZERO: Int = Int::from_u64(0);
    /// The number 1
    pub const ONE: Int = Int::from_u64(1);

    pub(crate) fn small(self) -> Option<i128> {
        match self.0 {
            IntInner::Small(x) => Some(x),
            _ => None,
        }
    }
    pub(crate) fn sym_tid(self) -> Option<Tid> {
        match self.0 {
            IntInner::Sym(t) => Some(t),
            _ => None,
        }
    }
    pub(crate) fn from_i128(x: i128) -> Int {
        Int(IntInner::Small(x))
    }

    /// Concrete value; symbolic integers are enumerated.
    pub(crate) fn into_inner(self) -> BigInt {
        match self.0 {
            IntInner::Big(x) => x.extract(),
            IntInner::Small(x) => x.into(),
            IntInner::Sym(t) => vx::concretize(t, 260),
        }
    }

    pub(crate) fn wrap(big: BigInt) -> Self {
        match big.to_i128() {
            Some(x) => Self(IntInner::Small(x)),
            None => Self(IntInner::Big(GcCow::new(big)))
        }
    }

    pub(crate) fn tid(self) -> Tid {
        match self.0 {
            IntInner::Sym(t) => t,
            IntInner::Small(x) => term::with(|t| t.cst(x.into())),
            IntInner::Big(x) => {
                let x = x.extract();
                term::with(|t| t.cst(x))
            }
        }
    }
    pub(crate) fn from_tid(t: Tid) -> Int {
        match term::with(|tab| tab.as_const(t).cloned()) {
            Some(c) => Int::wrap(c),
            None => Int(IntInner::Sym(t)),
        }
    }
}
