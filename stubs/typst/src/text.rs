use crate::foundations::Bytes;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
#[derive(Clone, Hash, Eq, PartialEq)]
pub struct Font(Arc<()>);
impl Font {
    pub fn new(data: Bytes, index: u32) -> Option<Self> {
        unimplemented!()
    }
    pub fn iter(data: Bytes) -> impl Iterator<Item = Self> {
        [].into_iter()
    }
    pub fn data(&self) -> &Bytes {
        unimplemented!()
    }
    pub fn index(&self) -> u32 {
        unimplemented!()
    }
    pub fn info(&self) -> &FontInfo {
        unimplemented!()
    }
}
impl std::fmt::Debug for Font {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        unimplemented!()
    }
}
#[derive(Debug, Default, Clone, Hash)]
pub struct FontBook {
    _p: (),
}
impl FontBook {
    pub fn new() -> Self {
        unimplemented!()
    }
    pub fn from_infos(infos: impl IntoIterator<Item = FontInfo>) -> Self {
        unimplemented!()
    }
    pub fn push(&mut self, info: FontInfo) {
        unimplemented!()
    }
    pub fn info(&self, index: usize) -> Option<&FontInfo> {
        unimplemented!()
    }
    pub fn contains_family(&self, family: &str) -> bool {
        unimplemented!()
    }
    pub fn families(&self) -> impl Iterator<Item = (&str, ecow::EcoVec<&FontInfo>)> + '_ {
        [].into_iter()
    }
    pub fn select(&self, family: &str, variant: FontVariant) -> Option<usize> {
        unimplemented!()
    }
    pub fn select_family<'a>(&'a self, family: &'a str) -> impl Iterator<Item = usize> + 'a {
        [].into_iter()
    }
    pub fn select_fallback(&self, like: Option<&FontInfo>, variant: FontVariant, text: &str) -> Option<usize> {
        unimplemented!()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct FontInfo {
    pub family: String,
    pub variant: FontVariant,
    pub flags: FontFlags,
    pub coverage: Coverage,
}
impl FontInfo {
    pub fn new(data: &[u8], index: u32) -> Option<Self> {
        unimplemented!()
    }
    pub fn iter(data: &[u8]) -> impl Iterator<Item = FontInfo> + '_ {
        [].into_iter()
    }
}
#[derive(Debug, Default, Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize)]
pub struct FontVariant {
    _p: (),
}
#[derive(Debug, Default, Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize)]
pub struct FontFlags(u32);
#[derive(Debug, Clone, Eq, PartialEq, Hash, Serialize, Deserialize)]
pub struct Coverage(Vec<u32>);
impl Coverage {
    pub fn from_vec(codepoints: Vec<u32>) -> Self {
        unimplemented!()
    }
    pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
        [].into_iter()
    }
}
