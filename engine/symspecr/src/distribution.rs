use crate::*;
use num_integer::Integer;

/// A probability distribution over values of type `T`.
pub trait Distribution<T> {
    /// a fresh symbolic value from the support of the distribution.
    fn sample(&self) -> T;
    /// a fixed value, if the harness asked for that, and the choice it stands for.
    fn pinned(&self) -> Option<(T, BigInt)> { None }
    /// the whole support, if it is small.
    fn support(&self) -> Option<Vec<T>> { None }
    fn as_int(_x: T) -> Int where Self: Sized { Int::ZERO }
}

/// Uniformly samples a random non-negative `Int` ...
pub struct IntDistribution {
    /// ... satisfying `_ >= start` for a non-negative `start`
    pub start: Int,
    /// ... and `_ < end`
    pub end: Int,
    /// ... and `_ % divisor == 0` for a positive `divisor`
    pub divisor: Int,
}

impl Distribution<Int> for IntDistribution {
    fn sample(&self) -> Int {
        use num_traits::Zero;
        let start = self.start.into_inner();
        let end = self.end.into_inner();
        let divisor = self.divisor.into_inner();

        assert!(start >= BigInt::zero());
        assert!(divisor > BigInt::zero());

        let start = start.div_ceil(&divisor);
        let end = end.div_ceil(&divisor);

        assert!(start < end);

        let v = vx::sym("pick", Int::wrap(start), Int::wrap(end - 1));
        v * Int::wrap(divisor)
    }

    fn pinned(&self) -> Option<(Int, BigInt)> {
        let end = self.end.into_inner();
        let divisor = self.divisor.into_inner();
        // only addresses
        if end < BigInt::from(1u64 << 16) { return None; }
        let n = vx::next_pin(&divisor)?;
        let step: u64 = if end == BigInt::from(1u64 << 16) { 0x100 } else { 0x10000 };
        // No better aligned than it has to be.
        let k: BigInt = BigInt::from(step * (n + 1)).div_ceil(&divisor) / 2u8 * 2u8 + 1u8;
        Some((Int::wrap(&k * divisor), k))
    }

    fn support(&self) -> Option<Vec<Int>> {
        use num_traits::{Zero, ToPrimitive};
        let start = self.start.into_inner();
        let end = self.end.into_inner();
        let divisor = self.divisor.into_inner();
        if start < BigInt::zero() || divisor <= BigInt::zero() || end > BigInt::from(1024) { return None; }
        let start = start.div_ceil(&divisor).to_u64()?;
        let end = end.div_ceil(&divisor).to_u64()?;
        if start >= end { return None; }
        Some((start..end).map(|k| Int::wrap(BigInt::from(k) * &divisor)).collect())
    }
    fn as_int(x: Int) -> Int { x }
}
