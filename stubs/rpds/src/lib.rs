#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub: a persistent ordered map, on a plain BTreeMap.
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct RedBlackTreeMap<K, V>(Arc<BTreeMap<K, V>>);
pub type RedBlackTreeMapSync<K, V> = RedBlackTreeMap<K, V>;

impl<K: Ord, V> Default for RedBlackTreeMap<K, V> {
    fn default() -> Self {
        Self(Arc::new(BTreeMap::new()))
    }
}
impl<K, V> Clone for RedBlackTreeMap<K, V> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for RedBlackTreeMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Ord + Clone, V: Clone> RedBlackTreeMap<K, V> {
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut m = self.clone();
        m.insert_mut(k, v);
        m
    }
    pub fn insert_mut(&mut self, k: K, v: V) {
        Arc::make_mut(&mut self.0).insert(k, v);
    }
    pub fn remove<Q: ?Sized + Ord>(&self, k: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut m = self.clone();
        m.remove_mut(k);
        m
    }
    pub fn remove_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        Arc::make_mut(&mut self.0).remove(k).is_some()
    }
    pub fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        Arc::make_mut(&mut self.0).get_mut(k)
    }
}
impl<K: Ord, V> RedBlackTreeMap<K, V> {
    pub fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.0.get(k)
    }
    pub fn contains_key<Q: ?Sized + Ord>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k)
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::collections::btree_map::Iter<'_, K, V> {
        self.0.iter()
    }
    pub fn keys(&self) -> std::collections::btree_map::Keys<'_, K, V> {
        self.0.keys()
    }
    pub fn values(&self) -> std::collections::btree_map::Values<'_, K, V> {
        self.0.values()
    }
}
