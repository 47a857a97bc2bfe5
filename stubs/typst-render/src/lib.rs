#![allow(dead_code, unused_variables, clippy::all)]

use typst::layout::{Abs, Page, PagedDocument};
use typst::visualize::Color;
pub struct Pixmap(());
impl Pixmap {
    pub fn encode_png(&self) -> Result<Vec<u8>, EncodingError> {
        unimplemented!()
    }
}
#[derive(Debug)]
pub struct EncodingError(());
impl std::fmt::Display for EncodingError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for EncodingError {}
pub fn render(p: &Page, ppp: f32) -> Pixmap {
    unimplemented!()
}
pub fn render_merged(d: &PagedDocument, ppp: f32, gap: Abs, fill: Option<Color>) -> Pixmap {
    unimplemented!()
}
