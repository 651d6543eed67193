use crate::*;
use crate::vx::term::{self, Tid, Table, with};

use num_traits::{ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt::{Debug, Display, Error, Formatter};
use std::ops::*;

impl Display for Int {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), Error> {
        match self.sym_tid() {
            Some(t) => write!(f, "⟦{}⟧", t.0),
            None => write!(f, "{}", self.into_inner()),
        }
    }
}
// For the benefit of `derive(Debug)` elsewhere, we make this debug-print in a nice way.
impl Debug for Int {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), Error> {
        Display::fmt(self, f)
    }
}

fn bin(
    a: Int,
    b: Int,
    small: impl FnOnce(i128, i128) -> Option<i128>,
    big: impl FnOnce(BigInt, BigInt) -> BigInt,
    sym: impl FnOnce(&mut Table, Tid, Tid) -> Tid,
) -> Int {
    if let (Some(x), Some(y)) = (a.small(), b.small()) {
        if let Some(r) = small(x, y) {
            return Int::from_i128(r);
        }
    }
    if a.sym_tid().is_some() || b.sym_tid().is_some() {
        let (a, b) = (a.tid(), b.tid());
        return Int::from_tid(with(|t| sym(t, a, b)));
    }
    Int::wrap(big(a.into_inner(), b.into_inner()))
}

/// Forks on a symbolic divisor being zero.
fn nonzero(b: Int) {
    if b == 0 {
        panic!("attempt to divide by zero");
    }
}
/// Shift amounts: negative ones panic as in libspecr; too large ones are outside the engine.
fn shift_amount(s: Int) -> Int {
    if s.sym_tid().is_none() {
        return s;
    }
    if s < 0 {
        panic!("called `Option::unwrap()` on a `None` value");
    }
    let t = s.tid();
    let (hi, lo) = with(|tab| (tab.info(t).hi.to_u32(), tab.info(t).lo.to_u32()));
    if hi.is_some_and(|h| h <= 4096) && lo.is_some() {
        return s;
    }
    if s >= 4096 {
        vx::unsupported("symbolic shift by 4096 or more");
    }
    // Make the range visible in the term.
    Int::from_tid(with(|tab| tab.low(t, 12, false)))
}

// Arithmetics
impl Neg for Int {
    type Output = Self;
    fn neg(self) -> Self {
        Int::ZERO - self
    }
}

impl<T: Into<Int>> Add<T> for Int {
    type Output = Self;
    fn add(self, other: T) -> Self {
        bin(self, other.into(), |a, b| a.checked_add(b), |a, b| a + b, |t, a, b| t.add(a, b))
    }
}
impl<T: Into<Int>> Sub<T> for Int {
    type Output = Self;
    fn sub(self, other: T) -> Self {
        bin(self, other.into(), |a, b| a.checked_sub(b), |a, b| a - b, |t, a, b| t.sub(a, b))
    }
}
impl<T: Into<Int>> Mul<T> for Int {
    type Output = Self;
    fn mul(self, other: T) -> Self {
        bin(self, other.into(), |a, b| a.checked_mul(b), |a, b| a * b, |t, a, b| t.mul(a, b))
    }
}
impl<T: Into<Int>> Div<T> for Int {
    type Output = Self;
    fn div(self, other: T) -> Self {
        let other = other.into();
        nonzero(other);
        bin(self, other, |a, b| a.checked_div(b), |a, b| a / b, |t, a, b| t.div(a, b))
    }
}
impl<T: Into<Int>> Rem<T> for Int {
    type Output = Self;
    fn rem(self, other: T) -> Self {
        let other = other.into();
        nonzero(other);
        bin(self, other, |a, b| a.checked_rem(b), |a, b| a % b, |t, a, b| t.rem(a, b))
    }
}
impl<T: Into<Int>> Shl<T> for Int {
    type Output = Self;
    fn shl(self, other: T) -> Self {
        let s = shift_amount(other.into());
        bin(self, s, |_, _| None, |a, b| a << b.to_u128().unwrap(), |t, a, b| t.shl(a, b))
    }
}
impl<T: Into<Int>> Shr<T> for Int {
    type Output = Self;
    fn shr(self, other: T) -> Self {
        let s = shift_amount(other.into());
        bin(
            self,
            s,
            |a, b| if (0..127).contains(&b) { Some(a >> b) } else { None },
            |a, b| a >> b.to_u128().unwrap(),
            |t, a, b| t.shr(a, b),
        )
    }
}
impl<T: Into<Int>> BitAnd<T> for Int {
    type Output = Self;
    fn bitand(self, other: T) -> Self {
        bin(self, other.into(), |a, b| Some(a & b), |a, b| a & b, |t, a, b| t.and(a, b))
    }
}
impl<T: Into<Int>> BitOr<T> for Int {
    type Output = Self;
    fn bitor(self, other: T) -> Self {
        bin(self, other.into(), |a, b| Some(a | b), |a, b| a | b, |t, a, b| t.or(a, b))
    }
}
impl<T: Into<Int>> BitXor<T> for Int {
    type Output = Self;
    fn bitxor(self, other: T) -> Self {
        bin(self, other.into(), |a, b| Some(a ^ b), |a, b| a ^ b, |t, a, b| t.xor(a, b))
    }
}
impl Not for Int {
    type Output = Self;
    fn not(self) -> Self::Output {
        Int::from(-1) - self
    }
}

macro_rules! assign {
    ($($tr:ident $f:ident $op:tt),*) => { $(
        impl<T: Into<Int>> $tr<T> for Int {
            fn $f(&mut self, other: T) {
                *self = *self $op other;
            }
        }
    )* }
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /,
    RemAssign rem_assign %, ShlAssign shl_assign <<, ShrAssign shr_assign >>);

fn rel(
    a: Int,
    b: Int,
    small: impl FnOnce(i128, i128) -> bool,
    big: impl FnOnce(BigInt, BigInt) -> bool,
    sym: impl FnOnce(&mut Table, Tid, Tid) -> term::Bid,
) -> bool {
    if let (Some(x), Some(y)) = (a.small(), b.small()) {
        return small(x, y);
    }
    if a.sym_tid().is_some() || b.sym_tid().is_some() {
        let (a, b) = (a.tid(), b.tid());
        let c = with(|t| sym(t, a, b));
        return vx::decide_b(c);
    }
    big(a.into_inner(), b.into_inner())
}

// Ord
impl<T: Into<Int> + Clone> PartialOrd<T> for Int {
    fn partial_cmp(&self, other: &T) -> Option<Ordering> {
        Some(self.cmp(&other.clone().into()))
    }
    fn lt(&self, other: &T) -> bool {
        rel(*self, other.clone().into(), |a, b| a < b, |a, b| a < b, |t, a, b| t.lt(a, b))
    }
    fn le(&self, other: &T) -> bool {
        rel(*self, other.clone().into(), |a, b| a <= b, |a, b| a <= b, |t, a, b| t.le(a, b))
    }
    fn gt(&self, other: &T) -> bool {
        rel(*self, other.clone().into(), |a, b| a > b, |a, b| a > b, |t, a, b| t.lt(b, a))
    }
    fn ge(&self, other: &T) -> bool {
        rel(*self, other.clone().into(), |a, b| a >= b, |a, b| a >= b, |t, a, b| t.le(b, a))
    }
}

impl Ord for Int {
    fn cmp(&self, other: &Self) -> Ordering {
        if *self == *other {
            Ordering::Equal
        } else if *self < *other {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    fn min(self, other: Self) -> Self {
        if self.sym_tid().is_some() || other.sym_tid().is_some() {
            vx::ite(vx::le(self, other), self, other)
        } else if other < self { other } else { self }
    }
    fn max(self, other: Self) -> Self {
        if self.sym_tid().is_some() || other.sym_tid().is_some() {
            vx::ite(vx::le(self, other), other, self)
        } else if other < self { self } else { other }
    }
}

// Eq
impl<T: Into<Int> + Clone> PartialEq<T> for Int {
    fn eq(&self, other: &T) -> bool {
        rel(*self, other.clone().into(), |a, b| a == b, |a, b| a == b, |t, a, b| t.eq(a, b))
    }
}

impl Eq for Int {}

#[allow(unused)]
fn is_zero(x: &BigInt) -> bool {
    x.is_zero()
}
