pub struct Routines {
    pub(crate) _p: (),
}
#[derive(Debug, Clone, Copy)]
pub enum EvalMode {
    Code,
    Markup,
    Math,
}
