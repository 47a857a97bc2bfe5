#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for Error {}
pub fn to_string<T: serde::Serialize + ?Sized>(v: &T) -> Result<String, Error> {
    unimplemented!()
}
pub fn from_str<T: serde::de::DeserializeOwned>(v: &str) -> Result<T, Error> {
    unimplemented!()
}
