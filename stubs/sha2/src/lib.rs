#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
#[derive(Clone, Default, Debug)]
pub struct Sha256(());
pub struct Output([u8; 32]);
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::fmt::LowerHex for Output {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> Output;
    fn digest(d: impl AsRef<[u8]>) -> Output;
}
impl Digest for Sha256 {
    fn new() -> Self {
        unimplemented!()
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        unimplemented!()
    }
    fn finalize(self) -> Output {
        unimplemented!()
    }
    fn digest(d: impl AsRef<[u8]>) -> Output {
        unimplemented!()
    }
}
