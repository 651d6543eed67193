//! Association list: the symbolic counterpart of `im::HashMap` (keys may contain symbolic integers).
use crate::*;
use std::collections::HashSet;

#[derive(Clone)]
pub struct VMap<K, V>(pub(crate) Vec<(K, V)>);

impl<K, V> Default for VMap<K, V> {
    fn default() -> Self {
        VMap(Vec::new())
    }
}
impl<K: Obj, V: Obj> VMap<K, V> {
    fn pos(&self, k: &K) -> Option<usize> {
        self.0.iter().position(|(x, _)| x == k)
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        self.pos(k).map(|i| &self.0[i].1)
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.pos(k).is_some()
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        self.pos(k).map(|i| self.0.remove(i).1)
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
            Some(i) => Some(std::mem::replace(&mut self.0[i].1, v)),
            None => {
                self.0.push((k, v));
                None
            }
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl<K: Obj, V: Obj> PartialEq for VMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.0.iter().all(|(k, v)| o.get(k).is_some_and(|w| v == w))
    }
}
impl<K: Obj, V: Obj> Eq for VMap<K, V> {}
impl<K: Obj, V: Obj> PartialOrd for VMap<K, V> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<K: Obj, V: Obj> Ord for VMap<K, V> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<K: Obj, V: Obj> std::hash::Hash for VMap<K, V> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.len().hash(h)
    }
}
impl<K: Obj, V: Obj> std::fmt::Debug for VMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.0.iter().map(|(k, v)| (k, v))).finish()
    }
}
impl<K: Obj, V: Obj> FromIterator<(K, V)> for VMap<K, V> {
    fn from_iter<T: IntoIterator<Item = (K, V)>>(iter: T) -> Self {
        let mut m = VMap::default();
        for (k, v) in iter {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Obj, V: Obj> GcCompat for VMap<K, V> {
    fn points_to(&self, m: &mut HashSet<usize>) {
        for (k, v) in self.0.iter() {
            k.points_to(m);
            v.points_to(m);
        }
    }
}
