#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
use std::path::{Path, PathBuf};
use std::sync::Arc;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ID(u32);
#[derive(Clone)]
pub enum Source {
    Binary(Arc<dyn AsRef<[u8]> + Sync + Send>),
    File(PathBuf),
    SharedFile(PathBuf, Arc<dyn AsRef<[u8]> + Sync + Send>),
}
impl std::fmt::Debug for Source {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
#[derive(Clone, Debug)]
pub struct FaceInfo {
    pub id: ID,
    pub source: Source,
    pub index: u32,
}
#[derive(Clone, Default, Debug)]
pub struct Database {
    f: Vec<FaceInfo>,
}
impl Database {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn faces(&self) -> std::slice::Iter<'_, FaceInfo> {
        self.f.iter()
    }
    pub fn is_empty(&self) -> bool {
        self.f.is_empty()
    }
    pub fn load_system_fonts(&mut self) {
        unimplemented!()
    }
    pub fn load_fonts_dir<P: AsRef<Path>>(&mut self, p: P) {
        unimplemented!()
    }
    pub fn load_font_file<P: AsRef<Path>>(&mut self, p: P) -> std::io::Result<()> {
        unimplemented!()
    }
    pub fn with_face_data<P, T>(&self, id: ID, p: P) -> Option<T>
    where
        P: FnOnce(&[u8], u32) -> T,
    {
        unimplemented!()
    }
}
