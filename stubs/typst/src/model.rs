use crate::foundations::Datetime;
use ecow::EcoString;
#[derive(Debug, Default, Clone)]
pub struct DocumentInfo {
    pub title: Option<EcoString>,
    pub author: Vec<EcoString>,
    pub date: Option<Datetime>,
}
