#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Version {
    pub major: u64,
    pub minor: u64,
    pub patch: u64,
}
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for Error {}
impl Version {
    pub fn parse(s: &str) -> Result<Self, Error> {
        unimplemented!()
    }
}
