use crate::introspection::Introspector;
use crate::routines::Routines;
use crate::World;
use comemo::{Tracked, TrackedMut};

pub struct Engine<'a> {
    pub routines: &'a Routines,
    pub world: Tracked<'a, dyn World + 'a>,
    pub introspector: Tracked<'a, Introspector>,
    pub traced: Tracked<'a, Traced>,
    pub sink: TrackedMut<'a, Sink>,
    pub route: Route<'a>,
}
#[derive(Default)]
pub struct Traced(());
#[comemo::track]
impl Traced {
    pub fn get(&self, id: crate::syntax::FileId) -> bool {
        unimplemented!()
    }
}
#[derive(Default, Clone)]
pub struct Sink {
    _p: (),
}
#[comemo::track]
impl Sink {
    pub fn delay(&mut self, id: crate::syntax::FileId) {
        unimplemented!()
    }
}
#[derive(Default, Clone)]
pub struct Route<'a>(std::marker::PhantomData<&'a ()>);
#[comemo::track]
impl<'a> Route<'a> {
    pub fn contains(&self, id: crate::syntax::FileId) -> bool {
        unimplemented!()
    }
}
