use std::hash::{Hash, Hasher};
use std::ops::{Deref, DerefMut};

#[derive(Clone)]
pub struct LazyHash<T: ?Sized> {
    hash: u128,
    value: T,
}
impl<T> LazyHash<T> {
    pub fn new(value: T) -> Self {
        Self { hash: 0, value }
    }
}
impl<T: Default> Default for LazyHash<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for LazyHash<T> {
    fn from(value: T) -> Self {
        Self::new(value)
    }
}
impl<T: Hash + ?Sized + 'static> Hash for LazyHash<T> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        unimplemented!()
    }
}
impl<T: Hash + ?Sized + 'static> Eq for LazyHash<T> {}
impl<T: Hash + ?Sized + 'static> PartialEq for LazyHash<T> {
    fn eq(&self, other: &Self) -> bool {
        unimplemented!()
    }
}
impl<T: ?Sized> Deref for LazyHash<T> {
    type Target = T;
    fn deref(&self) -> &Self::Target {
        &self.value
    }
}
impl<T: ?Sized + 'static> DerefMut for LazyHash<T> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.value
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for LazyHash<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        unimplemented!()
    }
}

pub fn hash128<T: Hash + ?Sized>(value: &T) -> u128 {
    unimplemented!()
}

pub fn round_with_precision(v: f64, p: i16) -> f64 {
    unimplemented!()
}
