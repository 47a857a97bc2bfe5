#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
use std::hash::{BuildHasherDefault, Hasher};
use std::marker::PhantomData;

pub trait IsEnabled {}
impl IsEnabled for u16 {}
impl IsEnabled for u32 {}
impl IsEnabled for u64 {}
impl IsEnabled for usize {}
pub struct NoHashHasher<T>(u64, PhantomData<T>);
impl<T> Default for NoHashHasher<T> {
    fn default() -> Self {
        Self(0, PhantomData)
    }
}
impl<T> Clone for NoHashHasher<T> {
    fn clone(&self) -> Self {
        Self(self.0, PhantomData)
    }
}
impl<T: IsEnabled> Hasher for NoHashHasher<T> {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unimplemented!()
    }
    fn write_u16(&mut self, n: u16) {
        self.0 = n as u64
    }
    fn write_u32(&mut self, n: u32) {
        self.0 = n as u64
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = n
    }
    fn write_usize(&mut self, n: usize) {
        self.0 = n as u64
    }
}
pub type BuildNoHashHasher<T> = BuildHasherDefault<NoHashHasher<T>>;
pub type IntMap<K, V> = std::collections::HashMap<K, V, BuildNoHashHasher<K>>;
pub type IntSet<T> = std::collections::HashSet<T, BuildNoHashHasher<T>>;
