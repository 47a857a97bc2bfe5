#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
use std::borrow::Cow;
use std::io;
use std::marker::PhantomData;
use std::path::Path;

pub struct Archive<R: ?Sized + io::Read> {
    r: R,
}
impl<R: io::Read> Archive<R> {
    pub fn new(r: R) -> Self {
        Self { r }
    }
    pub fn entries(&mut self) -> io::Result<Entries<'_, R>> {
        unimplemented!()
    }
    pub fn unpack<P: AsRef<Path>>(&mut self, dst: P) -> io::Result<()> {
        unimplemented!()
    }
}
pub struct Entries<'a, R: 'a + io::Read>(PhantomData<&'a R>);
impl<'a, R: io::Read> Iterator for Entries<'a, R> {
    type Item = io::Result<Entry<'a, R>>;
    fn next(&mut self) -> Option<Self::Item> {
        unimplemented!()
    }
}
pub struct Entry<'a, R: 'a + io::Read>(PhantomData<&'a R>);
impl<'a, R: io::Read> Entry<'a, R> {
    pub fn header(&self) -> &Header {
        unimplemented!()
    }
    pub fn path(&self) -> io::Result<Cow<'_, Path>> {
        unimplemented!()
    }
    pub fn size(&self) -> u64 {
        unimplemented!()
    }
}
impl<'a, R: io::Read> io::Read for Entry<'a, R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        unimplemented!()
    }
}
pub struct Header(());
impl Header {
    pub fn entry_type(&self) -> EntryType {
        unimplemented!()
    }
    pub fn path(&self) -> io::Result<Cow<'_, Path>> {
        unimplemented!()
    }
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum EntryType {
    Regular,
    Link,
    Symlink,
    Directory,
}
impl EntryType {
    pub fn is_file(&self) -> bool {
        *self == EntryType::Regular
    }
    pub fn is_dir(&self) -> bool {
        *self == EntryType::Directory
    }
}
