#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
pub fn fonts() -> impl Iterator<Item = &'static [u8]> {
    std::iter::empty()
}
