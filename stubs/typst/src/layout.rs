use crate::introspection::Introspector;
use crate::model::DocumentInfo;
use std::num::NonZeroUsize;
use std::sync::Arc;

#[derive(Debug, Default, Clone)]
pub struct PagedDocument {
    pub pages: Vec<Page>,
    pub info: DocumentInfo,
    pub introspector: Introspector,
}
impl crate::Document for PagedDocument {
    fn info(&self) -> &DocumentInfo {
        &self.info
    }
    fn introspector(&self) -> &Introspector {
        &self.introspector
    }
}
#[derive(Debug, Clone)]
pub struct Page {
    pub frame: Frame,
    pub number: usize,
}
#[derive(Clone)]
pub struct Frame(Arc<Vec<(Point, FrameItem)>>);
impl Frame {
    pub fn content_hint(&self) -> char {
        unimplemented!()
    }
    pub fn items(&self) -> std::slice::Iter<'_, (Point, FrameItem)> {
        unimplemented!()
    }
}
impl std::fmt::Debug for Frame {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        unimplemented!()
    }
}
#[derive(Debug, Clone)]
pub enum FrameItem {
    Group(GroupItem),
    Text(TextItem),
    Shape((), ()),
    Image((), (), ()),
    Link((), ()),
    Tag(()),
}
#[derive(Debug, Clone)]
pub struct GroupItem {
    pub frame: Frame,
}
#[derive(Debug, Clone)]
pub struct TextItem {
    pub text: ecow::EcoString,
}
#[derive(Debug, Default, Copy, Clone, PartialEq)]
pub struct Abs(f64);
impl Abs {
    pub const fn pt(pt: f64) -> Self {
        Self(pt)
    }
    pub fn mm(mm: f64) -> Self {
        unimplemented!()
    }
    pub fn cm(mm: f64) -> Self {
        unimplemented!()
    }
    pub fn inches(mm: f64) -> Self {
        unimplemented!()
    }
    pub fn to_pt(self) -> f64 {
        unimplemented!()
    }
}
#[derive(Debug, Default, Copy, Clone, PartialEq)]
pub struct Point {
    pub x: Abs,
    pub y: Abs,
}
#[derive(Debug, Copy, Clone, PartialEq)]
pub struct Position {
    pub page: NonZeroUsize,
    pub point: Point,
}
#[derive(Debug, Clone)]
pub struct PageRanges(Vec<std::ops::RangeInclusive<Option<std::num::NonZeroUsize>>>);
impl PageRanges {
    pub fn new(ranges: Vec<std::ops::RangeInclusive<Option<std::num::NonZeroUsize>>>) -> Self {
        Self(ranges)
    }
}
