#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, Default)]
pub struct Config(());
impl Config {
    pub fn with_poll_interval(self, d: std::time::Duration) -> Self {
        unimplemented!()
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
pub trait EventHandler: Send + 'static {
    fn handle_event(&mut self, event: Result<Event>);
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
    fn handle_event(&mut self, event: Result<Event>) {
        (self)(event)
    }
}
pub trait Watcher {
    fn new<F: EventHandler>(f: F, c: Config) -> Result<Self>
    where
        Self: Sized;
    fn watch(&mut self, p: &Path, m: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, p: &Path) -> Result<()>;
}
#[derive(Debug)]
pub struct INotifyWatcher(());
pub type RecommendedWatcher = INotifyWatcher;
impl Watcher for INotifyWatcher {
    fn new<F: EventHandler>(f: F, c: Config) -> Result<Self> {
        unimplemented!()
    }
    fn watch(&mut self, p: &Path, m: RecursiveMode) -> Result<()> {
        unimplemented!()
    }
    fn unwatch(&mut self, p: &Path) -> Result<()> {
        unimplemented!()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Event {
    pub kind: EventKind,
    pub paths: Vec<PathBuf>,
}
pub use event::EventKind;
pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum EventKind {
        Any,
        Access(AccessKind),
        Create(CreateKind),
        Modify(ModifyKind),
        Remove(RemoveKind),
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum AccessKind {
        Any,
        Read,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum CreateKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RemoveKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum DataChange {
        Any,
        Size,
        Content,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RenameMode {
        Any,
        To,
        From,
        Both,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum ModifyKind {
        Any,
        Data(DataChange),
        Name(RenameMode),
        Other,
    }
}
