use crate::int::*;
use crate::vx::term::with;
use num_integer::Integer;

/// The bounds of a finite integer type.
fn type_range(signed: Signedness, size: Size) -> (Int, Int) {
    let bits = size.bits().into_inner().to_u32().expect("type too large");
    let (lo, hi) = term::range(bits, matches!(signed, Signedness::Signed));
    (Int::wrap(lo), Int::wrap(hi))
}

impl Int {
    fn is_sym(self) -> bool {
        self.sym_tid().is_some()
    }

    /// Returns true if `self` is a power of two. `false` otherwise.
    pub fn is_power_of_two(self) -> bool {
        if self.is_sym() {
            let z = self & (self - 1);
            return (vx::lt(0, self) & vx::eq(z, 0)).decide();
        }
        let bigint = self.into_inner();
        if let Some(uint) = bigint.to_biguint() {
            uint.count_ones() == 1
        } else { false }
    }

    /// Returns the smallest power of two greater than or equal to self.
    pub fn next_power_of_two(self) -> Int {
        let mut n = Int::ONE;
        while n < self {
            n = n * 2;
        }
        n
    }

    /// If `other` is positive, calculates the smallest value greater than or equal to self that is a multiple of `other`.
    /// If `other` is negative, calculates the largest value less than or equal to self that is a multiple of `other`.
    ///
    /// Panics if `other` is zero.
    pub fn next_multiple_of(self, other: Int) -> Int {
        if self.is_sym() && !other.is_sym() && other > 0 {
            // self + (-self mod other)
            return self + (Int::ZERO - self).mod_pos(other);
        }
        self.div_ceil(other) * other
    }

    /// `self mod d` in `0..d`, for a concrete `d > 0`.
    fn mod_pos(self, d: Int) -> Int {
        if d.is_power_of_two() {
            let k = d.into_inner().bits() as u32 - 1;
            let t = self.tid();
            return Int::from_tid(with(|tab| tab.low(t, k, false)));
        }
        let r = self % d;
        vx::ite(vx::lt(r, 0), r + d, r)
    }

    /// Computes the absolute value of self.
    pub fn abs(self) -> Int {
        if self.is_sym() {
            return vx::ite(vx::lt(self, 0), self * -1i32, self);
        }
        if self < 0 {
            self * -1i32
        } else {
            self
        }
    }

    /// Checked integer division.
    /// Returns `None` if and only if `other == 0`.
    pub fn checked_div(self, other: Int) -> Option<Int> {
        if other == 0 { return None; }
        Some(self / other)
    }

    /// Raises `self` to the power of `other`.
    pub fn pow(self, other: Int) -> Int {
        if other.is_sym() && !self.is_sym() && self == 2 {
            return Int::ONE << other;
        }
        // We only support powers that fit into u32; this is more than enough for now.
        let val = other.into_inner().to_u32().unwrap();
        if self.is_sym() {
            let mut r = Int::ONE;
            for _ in 0..val {
                r = r * self;
            }
            return r;
        }
        Self::wrap(self.into_inner().pow(val))
    }

    /// Returns the number of least-significant bits that are zero
    /// or None if the entire number is zero.
    pub fn trailing_zeros(self) -> Option<Int> {
        if self.is_sym() {
            if self == 0 {
                return None;
            }
            let t = self.tid();
            let mut k = 0;
            loop {
                if Int::from_tid(with(|tab| tab.low(t, k + 1, false))) != 0 {
                    return Some(k.into());
                }
                k += 1;
            }
        }
        self.into_inner()
            .trailing_zeros()
            .map(|x| x.into())
    }

    /// Divides `self` by `other` and rounds up the result.
    pub fn div_ceil(self, other: impl Into<Int>) -> Int {
        let other = other.into();
        if self.is_sym() || other.is_sym() {
            if other == 0 {
                panic!("attempt to divide by zero");
            }
            if other < 0 {
                return (self * -1i32).div_ceil(other * -1i32);
            }
            let q = self / other;
            let r = self % other;
            return vx::ite(vx::lt(0, r), q + 1, q);
        }
        Self::wrap(self.into_inner().div_ceil(&other.into_inner()))
    }

    /// Calculates Euclidean division: the result is rounded towards -INF 
    /// for `other > 0` and towards +INF for `other < 0`.
    /// The result `n` satisfies `self == n * other + self.rem_euclid(other)`.
    pub fn div_euclid(self, other: Int) -> Int {
        let q = self / other;
        let r = self % other;
        if r.is_sym() || other.is_sym() {
            let adj = vx::ite(vx::lt(0, other), q - 1, q + 1);
            return vx::ite(vx::lt(r, 0), adj, q);
        }
        if r < 0 {
            if other > 0 { q - 1 } else { q + 1 }
        } else {
            q
        }
    }

    /// Calculate nonnegative remainder of `self (mod other)`.
    /// The return value is in the range `0..other.abs()`.
    pub fn rem_euclid(self, other: Int) -> Int {
        if self.is_sym() && !other.is_sym() && other > 0 {
            return self.mod_pos(other);
        }
        let rem = self % other;
        if rem.is_sym() {
            return vx::ite(vx::lt(rem, 0), rem + other.abs(), rem);
        }
        if rem < 0 {
            rem + other.abs()
        } else {
            rem
        }
    }

    /// Returns the unique value that is equal to `self` modulo `2^size.bits()`
    /// and within the bounds of a finite integer type with the given signedness and size.
    /// If `signed == Unsigned` the result is in the interval `0..2^size.bits()`.
    /// Otherwise it is in the interval `-2^(size.bits()-1) .. 2^(size.bits()-1)`.
    ///
    /// `size` must not be zero.
    pub fn bring_in_bounds(self, signed: Signedness, size: Size) -> Int {
        if size.is_zero() {
            panic!("Int::modulo received invalid size zero!");
        }
        let bits = size.bits().into_inner().to_u32().unwrap();
        let signed = matches!(signed, Signedness::Signed);
        if let Some(t) = self.sym_tid() {
            return Int::from_tid(with(|tab| tab.low(t, bits, signed)));
        }
        Int::wrap(term::low_const(&self.into_inner(), bits, signed))
    }

    /// Tests whether an integer is in-bounds of a finite integer type.
    pub fn in_bounds(self, signed: Signedness, size: Size) -> bool {
        if size.is_zero() {
            panic!("Int::modulo received invalid size zero!");
        }
        let (lo, hi) = type_range(signed, size);
        if self.is_sym() {
            return (vx::le(lo, self) & vx::le(self, hi)).decide();
        }
        lo <= self && self <= hi
    }

    /// The index into a sequence of the given length; enumerated if symbolic.
    pub(crate) fn index(self, len: usize, what: &str) -> Option<usize> {
        match self.sym_tid() {
            None => {
                let i = self.into_inner().to_usize().unwrap_or_else(|| panic!("{what}: index out of range of `usize`!"));
                if i < len { Some(i) } else { None }
            }
            Some(t) => {
                if self < 0 {
                    panic!("{what}: index out of range of `usize`!");
                }
                if self >= len {
                    return None;
                }
                Some(vx::concretize_usize(t, len as u32 + 1))
            }
        }
    }

    #[doc(hidden)]
    pub fn try_to_usize(self) -> Option<usize> {
        if self.is_sym() && !(vx::le(0, self) & vx::le(self, u64::MAX)).decide() {
            return None;
        }
        self.into_inner().to_usize()
    }

    #[doc(hidden)]
    pub fn try_to_u8(self) -> Option<Byte> {
        if !(vx::le(0, self) & vx::le(self, 255)).decide() {
            return None;
        }
        Some(Byte(self))
    }
}
