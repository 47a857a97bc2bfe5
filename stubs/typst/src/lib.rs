//! The part of typst 0.13's interface that the analysed crates use, without its
//! behaviour: enough to type check them where typst itself is not available.
#![allow(clippy::all, unused_variables, dead_code, missing_docs)]

pub use ecow;

pub mod diag;
pub mod engine;
pub mod foundations;
pub mod html;
pub mod introspection;
pub mod layout;
pub mod model;
pub mod routines;
pub mod syntax;
pub mod text;
pub mod utils;
pub mod visualize;

use crate::diag::{FileResult, SourceResult, Warned};
use crate::foundations::{Bytes, Datetime, Dict};
use crate::introspection::Introspector;
use crate::model::DocumentInfo;
use crate::syntax::{FileId, Source, Span};
use crate::text::{Font, FontBook};
use crate::utils::LazyHash;

pub static ROUTINES: routines::Routines = routines::Routines { _p: () };

pub fn compile<D: Document>(world: &dyn World) -> Warned<SourceResult<D>> {
    unimplemented!()
}

#[comemo::track]
pub trait World: Send + Sync {
    fn library(&self) -> &LazyHash<Library>;
    fn book(&self) -> &LazyHash<FontBook>;
    fn main(&self) -> FileId;
    fn source(&self, id: FileId) -> FileResult<Source>;
    fn file(&self, id: FileId) -> FileResult<Bytes>;
    fn font(&self, index: usize) -> Option<Font>;
    fn today(&self, offset: Option<i64>) -> Option<Datetime>;
}

pub trait WorldExt {
    fn range(&self, span: Span) -> Option<std::ops::Range<usize>>;
}
impl<T: World + ?Sized> WorldExt for T {
    fn range(&self, span: Span) -> Option<std::ops::Range<usize>> {
        unimplemented!()
    }
}

pub trait Document {
    fn info(&self) -> &DocumentInfo;
    fn introspector(&self) -> &Introspector;
}

#[derive(Debug, Clone, Hash)]
pub struct Library {
    pub features: Features,
    pub std: foundations::Binding,
}
impl Library {
    pub fn builder() -> LibraryBuilder {
        unimplemented!()
    }
}
impl Default for Library {
    fn default() -> Self {
        unimplemented!()
    }
}

#[derive(Debug, Clone, Default)]
pub struct LibraryBuilder {
    _p: (),
}
impl LibraryBuilder {
    pub fn with_inputs(self, inputs: Dict) -> Self {
        unimplemented!()
    }
    pub fn with_features(self, features: Features) -> Self {
        unimplemented!()
    }
    pub fn build(self) -> Library {
        unimplemented!()
    }
}

#[derive(Debug, Default, Clone, Hash)]
pub struct Features(u32);
impl Features {
    pub fn is_enabled(&self, feature: Feature) -> bool {
        unimplemented!()
    }
}
impl FromIterator<Feature> for Features {
    fn from_iter<T: IntoIterator<Item = Feature>>(iter: T) -> Self {
        unimplemented!()
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
#[non_exhaustive]
pub enum Feature {
    Html,
}
