use std::fmt::{self, Display};
use std::io;
use std::path::{Path, PathBuf};

pub use ecow::{eco_format, EcoString};
use ecow::EcoVec;

use crate::syntax::package::{PackageSpec, PackageVersion};
use crate::syntax::{Span, Spanned};

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct Warned<T> {
    pub output: T,
    pub warnings: EcoVec<SourceDiagnostic>,
}

pub type SourceResult<T> = Result<T, EcoVec<SourceDiagnostic>>;

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct SourceDiagnostic {
    pub severity: Severity,
    pub span: Span,
    pub message: EcoString,
    pub trace: EcoVec<Spanned<Tracepoint>>,
    pub hints: EcoVec<EcoString>,
}
impl SourceDiagnostic {
    pub fn error(span: Span, message: impl Into<EcoString>) -> Self {
        unimplemented!()
    }
    pub fn warning(span: Span, message: impl Into<EcoString>) -> Self {
        unimplemented!()
    }
    pub fn with_hint(self, hint: impl Into<EcoString>) -> Self {
        unimplemented!()
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub enum Severity {
    Error,
    Warning,
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub enum Tracepoint {
    Call(Option<EcoString>),
    Show(EcoString),
    Import,
}
impl Display for Tracepoint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}

pub type StrResult<T> = Result<T, EcoString>;
pub type HintedStrResult<T> = Result<T, HintedString>;

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct HintedString(EcoVec<EcoString>);
impl HintedString {
    pub fn message(&self) -> &EcoString {
        unimplemented!()
    }
    pub fn hints(&self) -> &[EcoString] {
        unimplemented!()
    }
}

pub trait At<T> {
    fn at(self, span: Span) -> SourceResult<T>;
}
impl<T, S: Into<EcoString>> At<T> for Result<T, S> {
    fn at(self, span: Span) -> SourceResult<T> {
        unimplemented!()
    }
}

pub type FileResult<T> = Result<T, FileError>;

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub enum FileError {
    NotFound(PathBuf),
    AccessDenied,
    IsDirectory,
    NotSource,
    InvalidUtf8,
    Package(PackageError),
    Other(Option<EcoString>),
}
impl FileError {
    pub fn from_io(err: io::Error, path: &Path) -> Self {
        match err.kind() {
            io::ErrorKind::NotFound => Self::NotFound(path.into()),
            io::ErrorKind::PermissionDenied => Self::AccessDenied,
            io::ErrorKind::InvalidData => Self::InvalidUtf8,
            _ => Self::Other(Some(eco_format!("{err}"))),
        }
    }
}
impl std::error::Error for FileError {}
impl Display for FileError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}
impl From<std::str::Utf8Error> for FileError {
    fn from(_: std::str::Utf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<std::string::FromUtf8Error> for FileError {
    fn from(_: std::string::FromUtf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<PackageError> for FileError {
    fn from(err: PackageError) -> Self {
        Self::Package(err)
    }
}
impl From<FileError> for EcoString {
    fn from(err: FileError) -> Self {
        unimplemented!()
    }
}

pub type PackageResult<T> = Result<T, PackageError>;

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub enum PackageError {
    NotFound(PackageSpec),
    VersionNotFound(PackageSpec, PackageVersion),
    NetworkFailed(Option<EcoString>),
    MalformedArchive(Option<EcoString>),
    Other(Option<EcoString>),
}
impl std::error::Error for PackageError {}
impl Display for PackageError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}
