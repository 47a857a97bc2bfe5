#![allow(dead_code, unused_variables, clippy::all)]

use comemo::{Tracked, TrackedMut};
use typst::diag::SourceResult;
use typst::engine::{Route, Sink, Traced};
use typst::foundations::{Module, Scope, Value};
use typst::routines::Routines;
use typst::syntax::{Source, Span};
use typst::World;

pub use typst::routines::EvalMode;

pub fn eval(
    r: &Routines,
    world: Tracked<dyn World + '_>,
    traced: Tracked<Traced>,
    sink: TrackedMut<Sink>,
    route: Tracked<Route>,
    source: &Source,
) -> SourceResult<Module> {
    unimplemented!()
}
pub fn eval_string(
    r: &Routines,
    world: Tracked<dyn World + '_>,
    s: &str,
    span: Span,
    mode: EvalMode,
    scope: Scope,
) -> SourceResult<Value> {
    unimplemented!()
}
