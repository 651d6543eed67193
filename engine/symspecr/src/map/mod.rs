
use crate::*;

mod func;
mod iter;
mod vmap;
pub(crate) use vmap::VMap;

#[derive(Clone, Copy, Hash, PartialEq, Eq, Debug, GcCompat, PartialOrd, Ord)]
/// Garbage-collected hash map implementing `Copy`.
/// This implements `Ord` but the order is not meaningful; this is just so one can use `BTreeMap`s.
/// In particular, the order might differ across two runs of the same program.
pub struct Map<K: Obj, V: Obj>(pub(crate) GcCow<VMap<K, V>>);

// This is not #[derive]d, as this would wrongly require K: Default.
impl<K: Obj, V: Obj> Default for Map<K, V> {
    fn default() -> Self {
        Self(Default::default())
    }
}
