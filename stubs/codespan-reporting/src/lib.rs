#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
pub mod diagnostic {
    use std::ops::Range;
    pub struct Label<I>(std::marker::PhantomData<I>);
    impl<I> Label<I> {
        pub fn primary(id: I, r: impl Into<Range<usize>>) -> Self {
            unimplemented!()
        }
    }
    pub struct Diagnostic<I>(std::marker::PhantomData<I>);
    impl<I> Diagnostic<I> {
        pub fn error() -> Self {
            unimplemented!()
        }
        pub fn warning() -> Self {
            unimplemented!()
        }
        pub fn help() -> Self {
            unimplemented!()
        }
        pub fn with_message(self, m: impl ToString) -> Self {
            unimplemented!()
        }
        pub fn with_notes(self, m: Vec<String>) -> Self {
            unimplemented!()
        }
        pub fn with_labels(self, m: Vec<Label<I>>) -> Self {
            unimplemented!()
        }
    }
}
pub mod files {
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum Error {
        FileMissing,
        IndexTooLarge { given: usize, max: usize },
        LineTooLarge { given: usize, max: usize },
        ColumnTooLarge { given: usize, max: usize },
        InvalidCharBoundary { given: usize },
        Io(std::io::Error),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            unimplemented!()
        }
    }
    impl std::error::Error for Error {}
    pub trait Files<'a> {
        type FileId: 'a + Copy + PartialEq;
        type Name: 'a + std::fmt::Display;
        type Source: 'a + AsRef<str>;
        fn name(&'a self, id: Self::FileId) -> Result<Self::Name, Error>;
        fn source(&'a self, id: Self::FileId) -> Result<Self::Source, Error>;
        fn line_index(&'a self, id: Self::FileId, i: usize) -> Result<usize, Error>;
        fn line_range(&'a self, id: Self::FileId, i: usize) -> Result<std::ops::Range<usize>, Error>;
        fn line_number(&'a self, id: Self::FileId, i: usize) -> Result<usize, Error> {
            Ok(i + 1)
        }
        fn column_number(&'a self, id: Self::FileId, l: usize, b: usize) -> Result<usize, Error> {
            unimplemented!()
        }
    }
}
pub mod term {
    pub use termcolor::WriteColor;
    pub enum DisplayStyle {
        Rich,
        Medium,
        Short,
    }
    pub struct Config {
        pub display_style: DisplayStyle,
        pub tab_width: usize,
    }
    impl Default for Config {
        fn default() -> Self {
            unimplemented!()
        }
    }
    pub mod termcolor {
        pub trait WriteColor: std::io::Write {}
        pub enum ColorChoice {
            Always,
            AlwaysAnsi,
            Auto,
            Never,
        }
        pub struct StandardStream(());
        impl StandardStream {
            pub fn stderr(c: ColorChoice) -> Self {
                unimplemented!()
            }
        }
        impl std::io::Write for StandardStream {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                unimplemented!()
            }
            fn flush(&mut self) -> std::io::Result<()> {
                unimplemented!()
            }
        }
        impl WriteColor for StandardStream {}
    }
    pub fn emit<'f, F: super::files::Files<'f>>(
        w: &mut dyn WriteColor,
        c: &Config,
        f: &'f F,
        d: &super::diagnostic::Diagnostic<F::FileId>,
    ) -> Result<(), super::files::Error> {
        unimplemented!()
    }
}
