use crate::*;
use std::collections::HashSet;

/// A byte of data: the symbolic counterpart of `u8`.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Byte(pub(crate) Int);

impl std::fmt::Debug for Byte {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(&self.0, f)
    }
}
impl std::fmt::Display for Byte {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.0, f)
    }
}
impl gc::GcCompat for Byte {
    fn points_to(&self, _m: &mut HashSet<usize>) {}
}
impl ToInt for Byte {
    fn to_int(self) -> Int {
        self.0
    }
}
impl ::serde::Serialize for Byte {
    fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> ::serde::Deserialize<'de> for Byte {
    fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let i = Int::deserialize(d)?;
        Ok(Byte::from_int(i))
    }
}
impl Byte {
    /// `i` needs to be in `0..256`.
    pub fn from_int(i: Int) -> Byte {
        assert!(vx::le(0, i).decide() && vx::lt(i, 256).decide(), "not a byte");
        Byte(i)
    }
    /// The value as an integer.
    pub fn int(self) -> Int {
        self.0
    }
}
macro_rules! from_ints {
    ($($t:ty),*) => { $(
        impl From<$t> for Byte {
            fn from(x: $t) -> Byte { Byte(Int::from(x as u8)) }
        }
        impl PartialEq<$t> for Byte {
            fn eq(&self, o: &$t) -> bool { self.0 == Int::from(*o) }
        }
        impl PartialOrd<$t> for Byte {
            fn partial_cmp(&self, o: &$t) -> Option<std::cmp::Ordering> { Some(self.0.cmp(&Int::from(*o))) }
        }
    )* }
}
from_ints!(u8, i32, u16, u32, u64, usize, i64);
impl From<bool> for Byte {
    fn from(x: bool) -> Byte {
        Byte(Int::from(x as u8))
    }
}
impl<T: Into<Byte>> std::ops::BitAnd<T> for Byte {
    type Output = Byte;
    fn bitand(self, o: T) -> Byte { Byte(self.0 & o.into().0) }
}
impl<T: Into<Byte>> std::ops::BitOr<T> for Byte {
    type Output = Byte;
    fn bitor(self, o: T) -> Byte { Byte(self.0 | o.into().0) }
}
impl<T: Into<Byte>> std::ops::BitXor<T> for Byte {
    type Output = Byte;
    fn bitxor(self, o: T) -> Byte { Byte(self.0 ^ o.into().0) }
}
/// Used by the source rewriting (`u8` literals and casts).
#[doc(hidden)]
pub fn mk_byte<T: Into<Byte>>(t: T) -> Byte {
    t.into()
}

/// Comparison against the literals that were moved out of patterns by the source rewriting.
#[doc(hidden)]
pub trait LitCmp {
    fn eq_lit(&self, l: i128) -> bool;
    fn ge_lit(&self, l: i128) -> bool;
    fn le_lit(&self, l: i128) -> bool;
}
impl<T: LitCmp> LitCmp for &T {
    fn eq_lit(&self, l: i128) -> bool { (**self).eq_lit(l) }
    fn ge_lit(&self, l: i128) -> bool { (**self).ge_lit(l) }
    fn le_lit(&self, l: i128) -> bool { (**self).le_lit(l) }
}
impl LitCmp for Byte {
    fn eq_lit(&self, l: i128) -> bool { self.0 == Int::from(l) }
    fn ge_lit(&self, l: i128) -> bool { self.0 >= Int::from(l) }
    fn le_lit(&self, l: i128) -> bool { self.0 <= Int::from(l) }
}
macro_rules! lit_cmp {
    ($($t:ty),*) => { $(
        impl LitCmp for $t {
            fn eq_lit(&self, l: i128) -> bool { (*self as i128) == l }
            fn ge_lit(&self, l: i128) -> bool { (*self as i128) >= l }
            fn le_lit(&self, l: i128) -> bool { (*self as i128) <= l }
        }
    )* }
}
lit_cmp!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, i128);
#[doc(hidden)]
pub fn lit_eq(x: &impl LitCmp, l: i128) -> bool { x.eq_lit(l) }
#[doc(hidden)]
pub fn lit_ge(x: &impl LitCmp, l: i128) -> bool { x.ge_lit(l) }
#[doc(hidden)]
pub fn lit_le(x: &impl LitCmp, l: i128) -> bool { x.le_lit(l) }
