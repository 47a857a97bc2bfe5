#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        unimplemented!()
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
#[derive(Clone, Debug)]
pub struct Certificate(());
impl Certificate {
    pub fn from_pem(b: &[u8]) -> Result<Self, Error> {
        unimplemented!()
    }
}
pub mod blocking {
    use super::*;
    pub struct Client(());
    impl Client {
        pub fn builder() -> ClientBuilder {
            unimplemented!()
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            unimplemented!()
        }
    }
    pub struct ClientBuilder(());
    impl ClientBuilder {
        pub fn add_root_certificate(self, c: Certificate) -> Self {
            unimplemented!()
        }
        pub fn user_agent(self, c: &str) -> Self {
            unimplemented!()
        }
        pub fn build(self) -> Result<Client, Error> {
            unimplemented!()
        }
    }
    pub struct RequestBuilder(());
    impl RequestBuilder {
        pub fn send(self) -> Result<Response, Error> {
            unimplemented!()
        }
    }
    pub struct Response(());
    impl Response {
        pub fn error_for_status(self) -> Result<Response, Error> {
            unimplemented!()
        }
        pub fn status(&self) -> StatusCode {
            unimplemented!()
        }
    }
    impl std::io::Read for Response {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            unimplemented!()
        }
    }
}
