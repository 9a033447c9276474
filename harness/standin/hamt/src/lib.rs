//! Stand-in for the crate `hamt` of GitHub, which this sandbox does not have.

use std::{borrow::Borrow, collections::HashMap, hash::Hash};

#[derive(Clone, Debug)]
pub struct Map<K, V>(HashMap<K, V>);

impl<K: Clone + Eq + Hash, V: Clone> Map<K, V> {
    pub fn new() -> Self {
        Self(HashMap::new())
    }

    pub fn get<Q: ?Sized + Eq + Hash>(&self, key: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.0.get(key)
    }

    #[must_use]
    pub fn insert(&self, key: K, value: V) -> Self {
        let mut map = self.0.clone();
        map.insert(key, value);
        Self(map)
    }

    #[must_use]
    pub fn remove<Q: ?Sized + Eq + Hash>(&self, key: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut map = self.0.clone();
        map.remove(key);
        Self(map)
    }
}

impl<K: Clone + Eq + Hash, V: Clone> Default for Map<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
