import os
R="/verif/stubs/"
def crate(name, ver, deps="", feats="", lib="", extra="", edition="2021"):
    d=R+name; os.makedirs(d+"/src",exist_ok=True)
    open(d+"/Cargo.toml","w").write(f'''[package]
name = "{name}"
version = "{ver}"
edition = "{edition}"
publish = false

[features]
{feats}
[dependencies]
{deps}{extra}''')
    open(d+"/src/lib.rs","w").write("#![allow(dead_code, unused_variables, clippy::all)]\n"+lib)
def F(*n): return "".join(f"{x} = []\n" for x in n)

crate("rpds","1.1.0",lib='''
//! Interface stub: a persistent ordered map, on a plain BTreeMap.
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct RedBlackTreeMap<K, V>(Arc<BTreeMap<K, V>>);
pub type RedBlackTreeMapSync<K, V> = RedBlackTreeMap<K, V>;

impl<K: Ord, V> Default for RedBlackTreeMap<K, V> {
    fn default() -> Self {
        Self(Arc::new(BTreeMap::new()))
    }
}
impl<K, V> Clone for RedBlackTreeMap<K, V> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for RedBlackTreeMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Ord + Clone, V: Clone> RedBlackTreeMap<K, V> {
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut m = self.clone();
        m.insert_mut(k, v);
        m
    }
    pub fn insert_mut(&mut self, k: K, v: V) {
        Arc::make_mut(&mut self.0).insert(k, v);
    }
    pub fn remove<Q: ?Sized + Ord>(&self, k: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut m = self.clone();
        m.remove_mut(k);
        m
    }
    pub fn remove_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        Arc::make_mut(&mut self.0).remove(k).is_some()
    }
    pub fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        Arc::make_mut(&mut self.0).get_mut(k)
    }
}
impl<K: Ord, V> RedBlackTreeMap<K, V> {
    pub fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.0.get(k)
    }
    pub fn contains_key<Q: ?Sized + Ord>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k)
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::collections::btree_map::Iter<'_, K, V> {
        self.0.iter()
    }
    pub fn keys(&self) -> std::collections::btree_map::Keys<'_, K, V> {
        self.0.keys()
    }
    pub fn values(&self) -> std::collections::btree_map::Values<'_, K, V> {
        self.0.values()
    }
}
''')
crate("nohash-hasher","0.2.0",lib='''
//! Interface stub.
use std::hash::{BuildHasherDefault, Hasher};
use std::marker::PhantomData;

pub trait IsEnabled {}
impl IsEnabled for u16 {}
impl IsEnabled for u32 {}
impl IsEnabled for u64 {}
impl IsEnabled for usize {}
pub struct NoHashHasher<T>(u64, PhantomData<T>);
impl<T> Default for NoHashHasher<T> {
    fn default() -> Self {
        Self(0, PhantomData)
    }
}
impl<T> Clone for NoHashHasher<T> {
    fn clone(&self) -> Self {
        Self(self.0, PhantomData)
    }
}
impl<T: IsEnabled> Hasher for NoHashHasher<T> {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unimplemented!()
    }
    fn write_u16(&mut self, n: u16) {
        self.0 = n as u64
    }
    fn write_u32(&mut self, n: u32) {
        self.0 = n as u64
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = n
    }
    fn write_usize(&mut self, n: usize) {
        self.0 = n as u64
    }
}
pub type BuildNoHashHasher<T> = BuildHasherDefault<NoHashHasher<T>>;
pub type IntMap<K, V> = std::collections::HashMap<K, V, BuildNoHashHasher<K>>;
pub type IntSet<T> = std::collections::HashSet<T, BuildNoHashHasher<T>>;
''')
crate("flate2","1.1.1",lib='''
//! Interface stub.
pub mod read {
    pub struct GzDecoder<R>(R);
    impl<R: std::io::Read> GzDecoder<R> {
        pub fn new(r: R) -> Self {
            Self(r)
        }
    }
    impl<R: std::io::Read> std::io::Read for GzDecoder<R> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            unimplemented!()
        }
    }
}
''')
crate("tar","0.4.44",lib='''
//! Interface stub.
use std::borrow::Cow;
use std::io;
use std::marker::PhantomData;
use std::path::Path;

pub struct Archive<R: ?Sized + io::Read> {
    r: R,
}
impl<R: io::Read> Archive<R> {
    pub fn new(r: R) -> Self {
        Self { r }
    }
    pub fn entries(&mut self) -> io::Result<Entries<'_, R>> {
        unimplemented!()
    }
    pub fn unpack<P: AsRef<Path>>(&mut self, dst: P) -> io::Result<()> {
        unimplemented!()
    }
}
pub struct Entries<'a, R: 'a + io::Read>(PhantomData<&'a R>);
impl<'a, R: io::Read> Iterator for Entries<'a, R> {
    type Item = io::Result<Entry<'a, R>>;
    fn next(&mut self) -> Option<Self::Item> {
        unimplemented!()
    }
}
pub struct Entry<'a, R: 'a + io::Read>(PhantomData<&'a R>);
impl<'a, R: io::Read> Entry<'a, R> {
    pub fn header(&self) -> &Header {
        unimplemented!()
    }
    pub fn path(&self) -> io::Result<Cow<'_, Path>> {
        unimplemented!()
    }
    pub fn size(&self) -> u64 {
        unimplemented!()
    }
}
impl<'a, R: io::Read> io::Read for Entry<'a, R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        unimplemented!()
    }
}
pub struct Header(());
impl Header {
    pub fn entry_type(&self) -> EntryType {
        unimplemented!()
    }
    pub fn path(&self) -> io::Result<Cow<'_, Path>> {
        unimplemented!()
    }
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum EntryType {
    Regular,
    Link,
    Symlink,
    Directory,
}
impl EntryType {
    pub fn is_file(&self) -> bool {
        *self == EntryType::Regular
    }
    pub fn is_dir(&self) -> bool {
        *self == EntryType::Directory
    }
}
''')
crate("reqwest","0.12.15",feats='default = []\n'+"".join(f'"{x}" = []\n' for x in ("rustls-tls","blocking","multipart","json")),lib='''
//! Interface stub.
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        unimplemented!()
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
#[derive(Clone, Debug)]
pub struct Certificate(());
impl Certificate {
    pub fn from_pem(b: &[u8]) -> Result<Self, Error> {
        unimplemented!()
    }
}
pub mod blocking {
    use super::*;
    pub struct Client(());
    impl Client {
        pub fn builder() -> ClientBuilder {
            unimplemented!()
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            unimplemented!()
        }
    }
    pub struct ClientBuilder(());
    impl ClientBuilder {
        pub fn add_root_certificate(self, c: Certificate) -> Self {
            unimplemented!()
        }
        pub fn user_agent(self, c: &str) -> Self {
            unimplemented!()
        }
        pub fn build(self) -> Result<Client, Error> {
            unimplemented!()
        }
    }
    pub struct RequestBuilder(());
    impl RequestBuilder {
        pub fn send(self) -> Result<Response, Error> {
            unimplemented!()
        }
    }
    pub struct Response(());
    impl Response {
        pub fn error_for_status(self) -> Result<Response, Error> {
            unimplemented!()
        }
        pub fn status(&self) -> StatusCode {
            unimplemented!()
        }
    }
    impl std::io::Read for Response {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            unimplemented!()
        }
    }
}
''')
crate("dirs","6.0.0",lib='''
//! Interface stub.
use std::path::PathBuf;
pub fn cache_dir() -> Option<PathBuf> {
    unimplemented!()
}
pub fn data_dir() -> Option<PathBuf> {
    unimplemented!()
}
pub fn config_dir() -> Option<PathBuf> {
    unimplemented!()
}
pub fn home_dir() -> Option<PathBuf> {
    unimplemented!()
}
''')
crate("toml","0.8.20",feats=F("default","parse","display"),deps='serde = { version = "1", features = ["derive"] }\n',lib='''
//! Interface stub.
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;

pub type Table = Map<String, Value>;
#[derive(Clone, Debug, PartialEq)]
pub struct Map<K: Ord, V>(BTreeMap<K, V>);
impl Map<String, Value> {
    pub fn new() -> Self {
        Self(BTreeMap::new())
    }
    pub fn try_from<T: Serialize>(v: T) -> Result<Self, ser::Error> {
        unimplemented!()
    }
    pub fn insert(&mut self, k: String, v: Value) -> Option<Value> {
        self.0.insert(k, v)
    }
    pub fn get(&self, k: &str) -> Option<&Value> {
        self.0.get(k)
    }
    pub fn contains_key(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
    pub fn remove(&mut self, k: &str) -> Option<Value> {
        self.0.remove(k)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl fmt::Display for Map<String, Value> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unimplemented!()
    }
}
impl Serialize for Map<String, Value> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> Deserialize<'de> for Map<String, Value> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        unimplemented!()
    }
}
impl<'a> IntoIterator for &'a Map<String, Value> {
    type Item = (&'a String, &'a Value);
    type IntoIter = std::collections::btree_map::Iter<'a, String, Value>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    String(String),
    Integer(i64),
    Float(f64),
    Boolean(bool),
    Array(Vec<Value>),
    Table(Table),
}
impl Value {
    pub fn get(&self, k: &str) -> Option<&Value> {
        match self {
            Value::Table(t) => t.get(k),
            _ => None,
        }
    }
    pub fn as_table(&self) -> Option<&Table> {
        match self {
            Value::Table(t) => Some(t),
            _ => None,
        }
    }
    pub fn as_table_mut(&mut self) -> Option<&mut Table> {
        match self {
            Value::Table(t) => Some(t),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Value::String(t) => Some(t),
            _ => None,
        }
    }
    pub fn as_array(&self) -> Option<&Vec<Value>> {
        match self {
            Value::Array(t) => Some(t),
            _ => None,
        }
    }
}
impl From<Table> for Value {
    fn from(t: Table) -> Value {
        Value::Table(t)
    }
}
impl std::ops::Index<&str> for Value {
    type Output = Value;
    fn index(&self, k: &str) -> &Value {
        self.get(k).expect("index not found")
    }
}
impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unimplemented!()
    }
}
impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> Deserialize<'de> for Value {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        unimplemented!()
    }
}
pub mod de {
    pub use super::DeError as Error;
}
pub mod ser {
    pub use super::SerError as Error;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DeError(());
impl fmt::Display for DeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for DeError {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SerError(());
impl fmt::Display for SerError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for SerError {}
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, DeError> {
    unimplemented!()
}
pub fn to_string<T: Serialize + ?Sized>(s: &T) -> Result<String, SerError> {
    unimplemented!()
}
''')
crate("serde_yaml","0.9.34",deps='serde = "1"\n',lib='''
//! Interface stub.
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for Error {}
pub fn to_string<T: serde::Serialize + ?Sized>(v: &T) -> Result<String, Error> {
    unimplemented!()
}
pub fn from_str<T: serde::de::DeserializeOwned>(v: &str) -> Result<T, Error> {
    unimplemented!()
}
''')
crate("notify","6.1.1",lib='''
//! Interface stub.
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, Default)]
pub struct Config(());
impl Config {
    pub fn with_poll_interval(self, d: std::time::Duration) -> Self {
        unimplemented!()
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
pub trait EventHandler: Send + 'static {
    fn handle_event(&mut self, event: Result<Event>);
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
    fn handle_event(&mut self, event: Result<Event>) {
        (self)(event)
    }
}
pub trait Watcher {
    fn new<F: EventHandler>(f: F, c: Config) -> Result<Self>
    where
        Self: Sized;
    fn watch(&mut self, p: &Path, m: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, p: &Path) -> Result<()>;
}
#[derive(Debug)]
pub struct INotifyWatcher(());
pub type RecommendedWatcher = INotifyWatcher;
impl Watcher for INotifyWatcher {
    fn new<F: EventHandler>(f: F, c: Config) -> Result<Self> {
        unimplemented!()
    }
    fn watch(&mut self, p: &Path, m: RecursiveMode) -> Result<()> {
        unimplemented!()
    }
    fn unwatch(&mut self, p: &Path) -> Result<()> {
        unimplemented!()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Event {
    pub kind: EventKind,
    pub paths: Vec<PathBuf>,
}
pub use event::EventKind;
pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum EventKind {
        Any,
        Access(AccessKind),
        Create(CreateKind),
        Modify(ModifyKind),
        Remove(RemoveKind),
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum AccessKind {
        Any,
        Read,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum CreateKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RemoveKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum DataChange {
        Any,
        Size,
        Content,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RenameMode {
        Any,
        To,
        From,
        Both,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum ModifyKind {
        Any,
        Data(DataChange),
        Name(RenameMode),
        Other,
    }
}
''')
crate("semver","1.0.26",lib='''
//! Interface stub.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Version {
    pub major: u64,
    pub minor: u64,
    pub patch: u64,
}
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for Error {}
impl Version {
    pub fn parse(s: &str) -> Result<Self, Error> {
        unimplemented!()
    }
}
''')
crate("strum","0.26.3",deps='strum_macros = { path = "../strum_macros" }\n',feats=F("default","derive"),lib='''
//! Interface stub.
pub use strum_macros::EnumIter;
pub trait IntoEnumIterator: Sized {
    type Iterator: Iterator<Item = Self> + Clone + DoubleEndedIterator + ExactSizeIterator;
    fn iter() -> Self::Iterator;
}
''')
crate("strum_macros","0.26.4",deps='quote = "1"\nsyn = "2"\n\n[lib]\nproc-macro = true\n',lib='''
//! Interface stub.
use quote::quote;

#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let input = syn::parse_macro_input!(input as syn::DeriveInput);
    let name = &input.ident;
    let syn::Data::Enum(data) = &input.data else {
        panic!("not an enum")
    };
    let vs = data.variants.iter().map(|v| &v.ident);
    let n = data.variants.len();
    quote! {
        impl ::strum::IntoEnumIterator for #name {
            type Iterator = ::std::array::IntoIter<#name, #n>;
            fn iter() -> Self::Iterator {
                [#(#name::#vs),*].into_iter()
            }
        }
    }
    .into()
}
''')
crate("sha2","0.10.8",lib='''
//! Interface stub.
#[derive(Clone, Default, Debug)]
pub struct Sha256(());
pub struct Output([u8; 32]);
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::fmt::LowerHex for Output {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> Output;
    fn digest(d: impl AsRef<[u8]>) -> Output;
}
impl Digest for Sha256 {
    fn new() -> Self {
        unimplemented!()
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        unimplemented!()
    }
    fn finalize(self) -> Output {
        unimplemented!()
    }
    fn digest(d: impl AsRef<[u8]>) -> Output {
        unimplemented!()
    }
}
''')
crate("fontdb","0.21.0",lib='''
//! Interface stub.
use std::path::{Path, PathBuf};
use std::sync::Arc;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ID(u32);
#[derive(Clone)]
pub enum Source {
    Binary(Arc<dyn AsRef<[u8]> + Sync + Send>),
    File(PathBuf),
    SharedFile(PathBuf, Arc<dyn AsRef<[u8]> + Sync + Send>),
}
impl std::fmt::Debug for Source {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
#[derive(Clone, Debug)]
pub struct FaceInfo {
    pub id: ID,
    pub source: Source,
    pub index: u32,
}
#[derive(Clone, Default, Debug)]
pub struct Database {
    f: Vec<FaceInfo>,
}
impl Database {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn faces(&self) -> std::slice::Iter<'_, FaceInfo> {
        self.f.iter()
    }
    pub fn is_empty(&self) -> bool {
        self.f.is_empty()
    }
    pub fn load_system_fonts(&mut self) {
        unimplemented!()
    }
    pub fn load_fonts_dir<P: AsRef<Path>>(&mut self, p: P) {
        unimplemented!()
    }
    pub fn load_font_file<P: AsRef<Path>>(&mut self, p: P) -> std::io::Result<()> {
        unimplemented!()
    }
    pub fn with_face_data<P, T>(&self, id: ID, p: P) -> Option<T>
    where
        P: FnOnce(&[u8], u32) -> T,
    {
        unimplemented!()
    }
}
''')
crate("ttf-parser","0.24.1",lib='''
//! Interface stub.
pub fn fonts_in_collection(d: &[u8]) -> Option<u32> {
    unimplemented!()
}
''')
crate("codespan-reporting","0.11.1",lib='''
//! Interface stub.
pub mod diagnostic {
    use std::ops::Range;
    pub struct Label<I>(std::marker::PhantomData<I>);
    impl<I> Label<I> {
        pub fn primary(id: I, r: impl Into<Range<usize>>) -> Self {
            unimplemented!()
        }
    }
    pub struct Diagnostic<I>(std::marker::PhantomData<I>);
    impl<I> Diagnostic<I> {
        pub fn error() -> Self {
            unimplemented!()
        }
        pub fn warning() -> Self {
            unimplemented!()
        }
        pub fn help() -> Self {
            unimplemented!()
        }
        pub fn with_message(self, m: impl ToString) -> Self {
            unimplemented!()
        }
        pub fn with_notes(self, m: Vec<String>) -> Self {
            unimplemented!()
        }
        pub fn with_labels(self, m: Vec<Label<I>>) -> Self {
            unimplemented!()
        }
    }
}
pub mod files {
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum Error {
        FileMissing,
        IndexTooLarge { given: usize, max: usize },
        LineTooLarge { given: usize, max: usize },
        ColumnTooLarge { given: usize, max: usize },
        InvalidCharBoundary { given: usize },
        Io(std::io::Error),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            unimplemented!()
        }
    }
    impl std::error::Error for Error {}
    pub trait Files<'a> {
        type FileId: 'a + Copy + PartialEq;
        type Name: 'a + std::fmt::Display;
        type Source: 'a + AsRef<str>;
        fn name(&'a self, id: Self::FileId) -> Result<Self::Name, Error>;
        fn source(&'a self, id: Self::FileId) -> Result<Self::Source, Error>;
        fn line_index(&'a self, id: Self::FileId, i: usize) -> Result<usize, Error>;
        fn line_range(&'a self, id: Self::FileId, i: usize) -> Result<std::ops::Range<usize>, Error>;
        fn line_number(&'a self, id: Self::FileId, i: usize) -> Result<usize, Error> {
            Ok(i + 1)
        }
        fn column_number(&'a self, id: Self::FileId, l: usize, b: usize) -> Result<usize, Error> {
            unimplemented!()
        }
    }
}
pub mod term {
    pub use termcolor::WriteColor;
    pub enum DisplayStyle {
        Rich,
        Medium,
        Short,
    }
    pub struct Config {
        pub display_style: DisplayStyle,
        pub tab_width: usize,
    }
    impl Default for Config {
        fn default() -> Self {
            unimplemented!()
        }
    }
    pub mod termcolor {
        pub trait WriteColor: std::io::Write {}
        pub enum ColorChoice {
            Always,
            AlwaysAnsi,
            Auto,
            Never,
        }
        pub struct StandardStream(());
        impl StandardStream {
            pub fn stderr(c: ColorChoice) -> Self {
                unimplemented!()
            }
        }
        impl std::io::Write for StandardStream {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                unimplemented!()
            }
            fn flush(&mut self) -> std::io::Result<()> {
                unimplemented!()
            }
        }
        impl WriteColor for StandardStream {}
    }
    pub fn emit<'f, F: super::files::Files<'f>>(
        w: &mut dyn WriteColor,
        c: &Config,
        f: &'f F,
        d: &super::diagnostic::Diagnostic<F::FileId>,
    ) -> Result<(), super::files::Error> {
        unimplemented!()
    }
}
''')
crate("typst-assets","0.13.1",feats=F("fonts"),lib='''
//! Interface stub.
pub fn fonts() -> impl Iterator<Item = &'static [u8]> {
    std::iter::empty()
}
''')
T='typst = { path = "../typst" }\n'
crate("typst-syntax","0.13.1",deps=T,lib="pub use typst::syntax::*;\n")
crate("typst-library","0.13.1",deps=T,lib="pub use typst::*;\n")
crate("typst-svg","0.13.1",deps=T,lib='''
use typst::layout::{Abs, Page, PagedDocument, Frame};
pub fn svg(p: &Page) -> String {
    unimplemented!()
}
pub fn svg_frame(p: &Frame) -> String {
    unimplemented!()
}
pub fn svg_merged(d: &PagedDocument, g: Abs) -> String {
    unimplemented!()
}
''')
crate("typst-render","0.13.1",deps=T,lib='''
use typst::layout::{Abs, Page, PagedDocument};
use typst::visualize::Color;
pub struct Pixmap(());
impl Pixmap {
    pub fn encode_png(&self) -> Result<Vec<u8>, EncodingError> {
        unimplemented!()
    }
}
#[derive(Debug)]
pub struct EncodingError(());
impl std::fmt::Display for EncodingError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for EncodingError {}
pub fn render(p: &Page, ppp: f32) -> Pixmap {
    unimplemented!()
}
pub fn render_merged(d: &PagedDocument, ppp: f32, gap: Abs, fill: Option<Color>) -> Pixmap {
    unimplemented!()
}
''')
crate("typst-html","0.13.1",deps=T,lib='''
pub fn html(d: &typst::html::HtmlDocument) -> typst::diag::SourceResult<String> {
    unimplemented!()
}
''')
crate("typst-pdf","0.13.1",deps=T,lib='''
use typst::diag::{SourceResult, StrResult};
use typst::foundations::{Datetime, Smart};
use typst::layout::{PageRanges, PagedDocument};
pub fn pdf(d: &PagedDocument, o: &PdfOptions) -> SourceResult<Vec<u8>> {
    unimplemented!()
}
#[derive(Debug, Default)]
pub struct PdfOptions<'a> {
    pub ident: Smart<&'a str>,
    pub timestamp: Option<Timestamp>,
    pub page_ranges: Option<PageRanges>,
    pub standards: PdfStandards,
}
#[derive(Debug, Clone, Copy)]
pub struct Timestamp(());
impl Timestamp {
    pub fn new_utc(d: Datetime) -> Self {
        unimplemented!()
    }
    pub fn new_local(d: Datetime, o: i32) -> Option<Self> {
        unimplemented!()
    }
}
#[derive(Debug, Clone, Default)]
pub struct PdfStandards(());
impl PdfStandards {
    pub fn new(l: &[PdfStandard]) -> StrResult<Self> {
        unimplemented!()
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
#[allow(non_camel_case_types)]
#[non_exhaustive]
pub enum PdfStandard {
    V_1_7,
    A_2b,
    A_3b,
}
''')
crate("typst-eval","0.13.1",deps=T+'comemo = "0.4"\n',lib='''
use comemo::{Tracked, TrackedMut};
use typst::diag::SourceResult;
use typst::engine::{Route, Sink, Traced};
use typst::foundations::{Module, Scope, Value};
use typst::routines::Routines;
use typst::syntax::{Source, Span};
use typst::World;

pub use typst::routines::EvalMode;

pub fn eval(
    r: &Routines,
    world: Tracked<dyn World + '_>,
    traced: Tracked<Traced>,
    sink: TrackedMut<Sink>,
    route: Tracked<Route>,
    source: &Source,
) -> SourceResult<Module> {
    unimplemented!()
}
pub fn eval_string(
    r: &Routines,
    world: Tracked<dyn World + '_>,
    s: &str,
    span: Span,
    mode: EvalMode,
    scope: Scope,
) -> SourceResult<Value> {
    unimplemented!()
}
''')
crate("serde-wasm-bindgen","0.6.5",lib="\n")
