#![allow(dead_code, unused_variables, clippy::all)]

use typst::layout::{Abs, Page, PagedDocument, Frame};
pub fn svg(p: &Page) -> String {
    unimplemented!()
}
pub fn svg_frame(p: &Frame) -> String {
    unimplemented!()
}
pub fn svg_merged(d: &PagedDocument, g: Abs) -> String {
    unimplemented!()
}
