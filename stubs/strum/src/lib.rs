#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
pub use strum_macros::EnumIter;
pub trait IntoEnumIterator: Sized {
    type Iterator: Iterator<Item = Self> + Clone + DoubleEndedIterator + ExactSizeIterator;
    fn iter() -> Self::Iterator;
}
