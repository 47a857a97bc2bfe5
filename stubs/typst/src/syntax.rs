use std::fmt;
use std::num::{NonZeroU16, NonZeroU64};
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use ecow::EcoString;

#[derive(Copy, Clone, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct FileId(NonZeroU16);
impl FileId {
    pub fn new(package: Option<package::PackageSpec>, path: VirtualPath) -> Self {
        unimplemented!()
    }
    pub fn new_fake(path: VirtualPath) -> Self {
        unimplemented!()
    }
    pub fn package(&self) -> Option<&'static package::PackageSpec> {
        unimplemented!()
    }
    pub fn vpath(&self) -> &'static VirtualPath {
        unimplemented!()
    }
    pub fn join(self, path: &str) -> Self {
        unimplemented!()
    }
    pub fn with_extension(&self, extension: &str) -> Self {
        unimplemented!()
    }
    pub const fn from_raw(v: NonZeroU16) -> Self {
        Self(v)
    }
    pub const fn into_raw(self) -> NonZeroU16 {
        self.0
    }
}
impl fmt::Debug for FileId {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}

#[derive(Clone, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct VirtualPath(PathBuf);
impl VirtualPath {
    pub fn new(path: impl AsRef<Path>) -> Self {
        unimplemented!()
    }
    pub fn within_root(path: &Path, root: &Path) -> Option<Self> {
        unimplemented!()
    }
    pub fn as_rooted_path(&self) -> &Path {
        unimplemented!()
    }
    pub fn as_rootless_path(&self) -> &Path {
        unimplemented!()
    }
    pub fn resolve(&self, root: &Path) -> Option<PathBuf> {
        unimplemented!()
    }
    pub fn join(&self, path: impl AsRef<Path>) -> Self {
        unimplemented!()
    }
    pub fn with_extension(&self, extension: &str) -> Self {
        unimplemented!()
    }
}
impl fmt::Debug for VirtualPath {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}

#[derive(Clone, Hash)]
pub struct Source(Arc<()>);
impl Source {
    pub fn new(id: FileId, text: String) -> Self {
        unimplemented!()
    }
    pub fn detached(text: impl Into<String>) -> Self {
        unimplemented!()
    }
    pub fn root(&self) -> &SyntaxNode {
        unimplemented!()
    }
    pub fn id(&self) -> FileId {
        unimplemented!()
    }
    pub fn text(&self) -> &str {
        unimplemented!()
    }
    pub fn get(&self, range: Range<usize>) -> Option<&str> {
        unimplemented!()
    }
    pub fn replace(&mut self, new: &str) -> Range<usize> {
        unimplemented!()
    }
    pub fn edit(&mut self, replace: Range<usize>, with: &str) -> Range<usize> {
        unimplemented!()
    }
    pub fn len_bytes(&self) -> usize {
        unimplemented!()
    }
    pub fn len_utf16(&self) -> usize {
        unimplemented!()
    }
    pub fn len_lines(&self) -> usize {
        unimplemented!()
    }
    pub fn find(&self, span: Span) -> Option<LinkedNode<'_>> {
        unimplemented!()
    }
    pub fn range(&self, span: Span) -> Option<Range<usize>> {
        unimplemented!()
    }
    pub fn byte_to_utf16(&self, byte_idx: usize) -> Option<usize> {
        unimplemented!()
    }
    pub fn byte_to_line(&self, byte_idx: usize) -> Option<usize> {
        unimplemented!()
    }
    pub fn byte_to_column(&self, byte_idx: usize) -> Option<usize> {
        unimplemented!()
    }
    pub fn utf16_to_byte(&self, utf16_idx: usize) -> Option<usize> {
        unimplemented!()
    }
    pub fn line_to_byte(&self, line_idx: usize) -> Option<usize> {
        unimplemented!()
    }
    pub fn line_to_range(&self, line_idx: usize) -> Option<Range<usize>> {
        unimplemented!()
    }
    pub fn line_column_to_byte(&self, line_idx: usize, column_idx: usize) -> Option<usize> {
        unimplemented!()
    }
}
impl fmt::Debug for Source {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}
impl AsRef<str> for Source {
    fn as_ref(&self) -> &str {
        unimplemented!()
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct Span(NonZeroU64);
impl Span {
    pub const fn detached() -> Self {
        unimplemented!()
    }
    pub const fn from_range(id: FileId, range: Range<usize>) -> Self {
        unimplemented!()
    }
    pub const fn is_detached(self) -> bool {
        unimplemented!()
    }
    pub const fn id(self) -> Option<FileId> {
        unimplemented!()
    }
    pub const fn range(self) -> Option<Range<usize>> {
        unimplemented!()
    }
    pub const fn from_raw(v: NonZeroU64) -> Self {
        Self(v)
    }
    pub const fn into_raw(self) -> NonZeroU64 {
        self.0
    }
    pub fn or(self, other: Self) -> Self {
        unimplemented!()
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct Spanned<T> {
    pub v: T,
    pub span: Span,
}
impl<T> Spanned<T> {
    pub fn new(v: T, span: Span) -> Self {
        Self { v, span }
    }
}

#[derive(Clone, Eq, PartialEq, Hash)]
pub struct SyntaxNode(Arc<()>);
impl SyntaxNode {
    pub fn is_empty(&self) -> bool {
        unimplemented!()
    }
    pub fn kind(&self) -> SyntaxKind {
        unimplemented!()
    }
    pub fn len(&self) -> usize {
        unimplemented!()
    }
    pub fn span(&self) -> Span {
        unimplemented!()
    }
    pub fn text(&self) -> &EcoString {
        unimplemented!()
    }
    pub fn into_text(self) -> EcoString {
        unimplemented!()
    }
    pub fn children(&self) -> std::slice::Iter<'_, SyntaxNode> {
        unimplemented!()
    }
    pub fn erroneous(&self) -> bool {
        unimplemented!()
    }
    pub fn errors(&self) -> Vec<SyntaxError> {
        unimplemented!()
    }
    pub fn is<'a, T: ast::AstNode<'a>>(&'a self) -> bool {
        unimplemented!()
    }
    pub fn cast<'a, T: ast::AstNode<'a>>(&'a self) -> Option<T> {
        unimplemented!()
    }
}
impl fmt::Debug for SyntaxNode {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}
#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct SyntaxError {
    pub span: Span,
    pub message: EcoString,
    pub hints: ecow::EcoVec<EcoString>,
}

#[derive(Clone)]
pub struct LinkedNode<'a> {
    node: &'a SyntaxNode,
}
impl<'a> LinkedNode<'a> {
    pub fn new(root: &'a SyntaxNode) -> Self {
        unimplemented!()
    }
    pub fn get(&self) -> &'a SyntaxNode {
        unimplemented!()
    }
    pub fn index(&self) -> usize {
        unimplemented!()
    }
    pub fn offset(&self) -> usize {
        unimplemented!()
    }
    pub fn range(&self) -> Range<usize> {
        unimplemented!()
    }
    pub fn children(&self) -> LinkedChildren<'a> {
        unimplemented!()
    }
    pub fn find(&self, span: Span) -> Option<LinkedNode<'a>> {
        unimplemented!()
    }
    pub fn parent(&self) -> Option<&Self> {
        unimplemented!()
    }
    pub fn next_sibling(&self) -> Option<Self> {
        unimplemented!()
    }
    pub fn prev_sibling(&self) -> Option<Self> {
        unimplemented!()
    }
    pub fn parent_kind(&self) -> Option<SyntaxKind> {
        unimplemented!()
    }
    pub fn prev_leaf(&self) -> Option<Self> {
        unimplemented!()
    }
    pub fn next_leaf(&self) -> Option<Self> {
        unimplemented!()
    }
    pub fn leftmost_leaf(&self) -> Option<Self> {
        unimplemented!()
    }
    pub fn rightmost_leaf(&self) -> Option<Self> {
        unimplemented!()
    }
}
impl<'a> LinkedNode<'a> {
    pub fn leaf_at(&self, cursor: usize, side: Side) -> Option<Self> {
        unimplemented!()
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub enum Side {
    Before,
    After,
}
impl std::ops::Deref for LinkedNode<'_> {
    type Target = SyntaxNode;
    fn deref(&self) -> &Self::Target {
        self.node
    }
}
impl fmt::Debug for LinkedNode<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}
#[derive(Clone)]
pub struct LinkedChildren<'a>(&'a SyntaxNode);
impl<'a> Iterator for LinkedChildren<'a> {
    type Item = LinkedNode<'a>;
    fn next(&mut self) -> Option<Self::Item> {
        unimplemented!()
    }
}
impl DoubleEndedIterator for LinkedChildren<'_> {
    fn next_back(&mut self) -> Option<Self::Item> {
        unimplemented!()
    }
}

#[rustfmt::skip]
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
#[repr(u8)]
pub enum SyntaxKind {
    End, Error, Shebang, LineComment, BlockComment, Markup, Text, Space, Linebreak, Parbreak, Escape,
    Shorthand, SmartQuote, Strong, Emph, Raw, RawLang, RawDelim, RawTrimmed, Link, Label, Ref, RefMarker,
    Heading, HeadingMarker, ListItem, ListMarker, EnumItem, EnumMarker, TermItem, TermMarker, Equation,
    Math, MathText, MathIdent, MathShorthand, MathAlignPoint, MathDelimited, MathAttach, MathPrimes,
    MathFrac, MathRoot, Hash, LeftBrace, RightBrace, LeftBracket, RightBracket, LeftParen, RightParen,
    Comma, Semicolon, Colon, Star, Underscore, Dollar, Plus, Minus, Slash, Hat, Prime, Dot, Eq, EqEq,
    ExclEq, Lt, LtEq, Gt, GtEq, PlusEq, HyphEq, StarEq, SlashEq, Dots, Arrow, Root, Not, And, Or, None,
    Auto, Let, Set, Show, Context, If, Else, For, In, While, Break, Continue, Return, Import, Include, As,
    Code, Ident, Bool, Int, Float, Numeric, Str, CodeBlock, ContentBlock, Parenthesized, Array, Dict,
    Named, Keyed, Unary, Binary, FieldAccess, FuncCall, Args, Spread, Closure, Params, LetBinding, SetRule,
    ShowRule, Contextual, Conditional, WhileLoop, ForLoop, ModuleImport, ImportItems, ImportItemPath,
    RenamedImportItem, ModuleInclude, LoopBreak, LoopContinue, FuncReturn, Destructuring, DestructAssignment,
}

pub fn parse(text: &str) -> SyntaxNode {
    unimplemented!()
}
pub fn parse_code(text: &str) -> SyntaxNode {
    unimplemented!()
}

pub mod ast {
    use super::*;
    pub trait AstNode<'a>: Sized {
        fn from_untyped(node: &'a SyntaxNode) -> Option<Self>;
        fn to_untyped(self) -> &'a SyntaxNode;
        fn span(self) -> Span {
            unimplemented!()
        }
    }
    macro_rules! nodes {
        ($($n:ident)*) => {$(
            #[derive(Debug, Copy, Clone, Hash)]
            pub struct $n<'a>(&'a SyntaxNode);
            impl<'a> AstNode<'a> for $n<'a> {
                fn from_untyped(node: &'a SyntaxNode) -> Option<Self> {
                    unimplemented!()
                }
                fn to_untyped(self) -> &'a SyntaxNode {
                    unimplemented!()
                }
            }
        )*};
    }
    nodes! { Numeric Ident Str Expr }
    impl<'a> Expr<'a> {
        pub fn hash(self) -> bool {
            unimplemented!()
        }
    }
    impl Numeric<'_> {
        pub fn get(self) -> (f64, Unit) {
            unimplemented!()
        }
    }
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
    pub enum Unit {
        Pt,
        Mm,
        Cm,
        In,
        Rad,
        Deg,
        Em,
        Fr,
        Percent,
    }
}

pub mod package {
    use super::*;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::str::FromStr;

    #[derive(Clone, Eq, PartialEq, Hash)]
    pub struct PackageSpec {
        pub namespace: EcoString,
        pub name: EcoString,
        pub version: PackageVersion,
    }
    impl PackageSpec {
        pub fn versionless(&self) -> VersionlessPackageSpec {
            unimplemented!()
        }
    }
    #[derive(Clone, Eq, PartialEq, Hash)]
    pub struct VersionlessPackageSpec {
        pub namespace: EcoString,
        pub name: EcoString,
    }
    impl VersionlessPackageSpec {
        pub fn at(self, version: PackageVersion) -> PackageSpec {
            unimplemented!()
        }
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Ord, PartialOrd)]
    pub struct PackageVersion {
        pub major: u32,
        pub minor: u32,
        pub patch: u32,
    }
    macro_rules! text {
        ($($n:ident)*) => {$(
            impl fmt::Debug for $n {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    unimplemented!()
                }
            }
            impl fmt::Display for $n {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    unimplemented!()
                }
            }
            impl FromStr for $n {
                type Err = EcoString;
                fn from_str(s: &str) -> Result<Self, Self::Err> {
                    unimplemented!()
                }
            }
        )*};
    }
    text! { PackageSpec VersionlessPackageSpec PackageVersion }
    impl Serialize for PackageVersion {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            unimplemented!()
        }
    }
    impl<'de> Deserialize<'de> for PackageVersion {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            unimplemented!()
        }
    }
}
