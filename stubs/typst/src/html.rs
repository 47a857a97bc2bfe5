use crate::introspection::Introspector;
use crate::model::DocumentInfo;
use crate::layout::Frame;
use crate::syntax::Span;
use ecow::EcoString;
#[derive(Debug, Clone)]
pub struct HtmlDocument {
    pub root: HtmlElement,
    pub info: DocumentInfo,
    pub introspector: Introspector,
}
impl crate::Document for HtmlDocument {
    fn info(&self) -> &DocumentInfo {
        &self.info
    }
    fn introspector(&self) -> &Introspector {
        &self.introspector
    }
}
#[derive(Debug, Clone)]
pub struct HtmlElement {
    pub children: Vec<HtmlNode>,
}
#[derive(Debug, Clone)]
pub enum HtmlNode {
    Tag(()),
    Text(EcoString, Span),
    Element(HtmlElement),
    Frame(Frame),
}
