//! Stand-in for the crate `plist` of GitHub, which this sandbox does not have:
//! persistent maps, where a later entry hides an earlier one of the same key.

use std::{borrow::Borrow, collections::HashMap, hash::Hash};

#[derive(Clone, Debug)]
pub struct FlailMap<K, V>(HashMap<K, V>);

impl<K: Clone + Eq + Hash, V: Clone> FlailMap<K, V> {
    pub fn new(entries: impl IntoIterator<Item = (K, V)>) -> Self {
        Self(entries.into_iter().collect())
    }

    pub fn get<Q: ?Sized + Eq + Hash>(&self, key: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.0.get(key)
    }

    #[must_use]
    pub fn insert(&self, key: K, value: V) -> Self {
        self.insert_iter([(key, value)])
    }

    #[must_use]
    pub fn insert_iter(&self, entries: impl IntoIterator<Item = (K, V)>) -> Self {
        let mut map = self.0.clone();
        map.extend(entries);
        Self(map)
    }
}

impl<K: Clone + Eq + Hash, V: Clone> FlailMap<K, V> {
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(key)
    }
}

impl<K: Clone + Eq + Hash, V: Clone> Default for FlailMap<K, V> {
    fn default() -> Self {
        Self(HashMap::new())
    }
}

impl<K: Clone + Eq + Hash, V: Clone> FromIterator<(K, V)> for FlailMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(entries: I) -> Self {
        Self::new(entries)
    }
}

#[derive(Clone, Debug)]
pub struct Map<K, V>(HashMap<K, V>);

impl<K: Clone + Eq + Hash, V: Clone> Map<K, V> {
    pub fn new() -> Self {
        Self(HashMap::new())
    }

    pub fn get<Q: ?Sized + Eq + Hash>(&self, key: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.0.get(key)
    }

    #[must_use]
    pub fn insert(&self, key: K, value: V) -> Self {
        self.insert_iter([(key, value)])
    }

    #[must_use]
    pub fn insert_iter(&self, entries: impl IntoIterator<Item = (K, V)>) -> Self {
        let mut map = self.0.clone();
        map.extend(entries);
        Self(map)
    }
}

impl<K: Clone + Eq + Hash, V: Clone> Default for Map<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
