use crate::foundations::{Content, Selector};
#[derive(Default, Clone)]
pub struct Introspector(());
#[comemo::track]
impl Introspector {
    pub fn query_count(&self, id: u64) -> bool {
        unimplemented!()
    }
}
impl Introspector {
    pub fn query(&self, selector: &Selector) -> ecow::EcoVec<Content> {
        unimplemented!()
    }
}
impl std::fmt::Debug for Introspector {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        unimplemented!()
    }
}
