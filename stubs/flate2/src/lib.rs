#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
pub mod read {
    pub struct GzDecoder<R>(R);
    impl<R: std::io::Read> GzDecoder<R> {
        pub fn new(r: R) -> Self {
            Self(r)
        }
    }
    impl<R: std::io::Read> std::io::Read for GzDecoder<R> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            unimplemented!()
        }
    }
}
