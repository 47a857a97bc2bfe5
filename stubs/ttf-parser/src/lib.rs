#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
pub fn fonts_in_collection(d: &[u8]) -> Option<u32> {
    unimplemented!()
}
