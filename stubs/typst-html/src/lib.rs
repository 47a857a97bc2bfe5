#![allow(dead_code, unused_variables, clippy::all)]

pub fn html(d: &typst::html::HtmlDocument) -> typst::diag::SourceResult<String> {
    unimplemented!()
}
