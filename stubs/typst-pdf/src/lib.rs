#![allow(dead_code, unused_variables, clippy::all)]

use typst::diag::{SourceResult, StrResult};
use typst::foundations::{Datetime, Smart};
use typst::layout::{PageRanges, PagedDocument};
pub fn pdf(d: &PagedDocument, o: &PdfOptions) -> SourceResult<Vec<u8>> {
    unimplemented!()
}
#[derive(Debug, Default)]
pub struct PdfOptions<'a> {
    pub ident: Smart<&'a str>,
    pub timestamp: Option<Timestamp>,
    pub page_ranges: Option<PageRanges>,
    pub standards: PdfStandards,
}
#[derive(Debug, Clone, Copy)]
pub struct Timestamp(());
impl Timestamp {
    pub fn new_utc(d: Datetime) -> Self {
        unimplemented!()
    }
    pub fn new_local(d: Datetime, o: i32) -> Option<Self> {
        unimplemented!()
    }
}
#[derive(Debug, Clone, Default)]
pub struct PdfStandards(());
impl PdfStandards {
    pub fn new(l: &[PdfStandard]) -> StrResult<Self> {
        unimplemented!()
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
#[allow(non_camel_case_types)]
#[non_exhaustive]
pub enum PdfStandard {
    V_1_7,
    A_2b,
    A_3b,
}
