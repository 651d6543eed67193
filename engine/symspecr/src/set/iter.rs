use crate::*;

impl<T: Obj> Set<T> {
    /// An iterator over all elements of self.
    pub fn iter(self) -> std::vec::IntoIter<T> {
        self.into_iter()
    }
}

impl<T: Obj> IntoIterator for Set<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;

    fn into_iter(self) -> Self::IntoIter {
        self.0.call_ref_unchecked(|s| s.0.iter().map(|(t, ())| *t).collect::<Vec<_>>().into_iter())
    }
}

impl<U: Obj> FromIterator<U> for Set<U> {
    fn from_iter<T>(iter: T) -> Self where T: IntoIterator<Item = U> {
        let v: VMap<U, ()> = iter.into_iter().map(|u| (u, ())).collect();
        Set(GcCow::new(v))
    }
}
