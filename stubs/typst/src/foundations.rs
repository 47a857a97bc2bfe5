use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::sync::Arc;

use ecow::{EcoString, EcoVec};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::diag::{HintedStrResult, SourceResult};

#[derive(Clone)]
pub struct Bytes(Arc<Vec<u8>>);
impl Bytes {
    pub fn new<T>(data: T) -> Self
    where
        T: AsRef<[u8]> + Send + Sync + 'static,
    {
        Self(Arc::new(data.as_ref().to_vec()))
    }
    pub fn from_string<T>(data: T) -> Self
    where
        T: AsRef<str> + Send + Sync + 'static,
    {
        Self(Arc::new(data.as_ref().as_bytes().to_vec()))
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn as_str(&self) -> Result<&str, std::str::Utf8Error> {
        unimplemented!()
    }
    pub fn to_vec(&self) -> Vec<u8> {
        unimplemented!()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Eq for Bytes {}
impl PartialEq for Bytes {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}
impl Hash for Bytes {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.hash(state)
    }
}
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Bytes({})", self.0.len())
    }
}

#[derive(Default, Clone, PartialEq)]
pub struct Dict(Arc<Vec<(Str, Value)>>);
impl Dict {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert(&mut self, key: Str, value: Value) {
        unimplemented!()
    }
}
impl Hash for Dict {
    fn hash<H: Hasher>(&self, state: &mut H) {
        unimplemented!()
    }
}
impl fmt::Debug for Dict {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}
impl FromIterator<(Str, Value)> for Dict {
    fn from_iter<T: IntoIterator<Item = (Str, Value)>>(iter: T) -> Self {
        unimplemented!()
    }
}
impl Serialize for Dict {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> Deserialize<'de> for Dict {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        unimplemented!()
    }
}

#[derive(Debug, Default, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct Str(EcoString);
impl From<&str> for Str {
    fn from(s: &str) -> Self {
        unimplemented!()
    }
}
impl From<String> for Str {
    fn from(s: String) -> Self {
        unimplemented!()
    }
}
impl Deref for Str {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl From<EcoString> for Str {
    fn from(s: EcoString) -> Self {
        Self(s)
    }
}

#[derive(Debug, Default, Clone, PartialEq)]
pub enum Value {
    #[default]
    None,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(Str),
    Content(Content),
    Dict(Dict),
}
impl Hash for Value {
    fn hash<H: Hasher>(&self, state: &mut H) {
        unimplemented!()
    }
}
impl Value {
    pub fn cast<T: FromValue>(self) -> HintedStrResult<T> {
        unimplemented!()
    }
}
impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> Deserialize<'de> for Value {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        unimplemented!()
    }
}

pub trait IntoValue {
    fn into_value(self) -> Value;
}
impl IntoValue for &str {
    fn into_value(self) -> Value {
        unimplemented!()
    }
}
impl IntoValue for Content {
    fn into_value(self) -> Value {
        unimplemented!()
    }
}
pub trait FromValue: Sized {
    fn from_value(value: Value) -> HintedStrResult<Self>;
}

#[derive(Clone, PartialEq)]
pub struct Content(Arc<()>);
impl Content {
    pub fn get_by_name(&self, name: &str) -> Result<Value, FieldAccessError> {
        unimplemented!()
    }
}
impl fmt::Debug for Content {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}
pub enum FieldAccessError {
    Unknown,
    Unset,
    Internal,
}
impl fmt::Debug for FieldAccessError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}

pub struct LocatableSelector(pub Selector);
impl FromValue for LocatableSelector {
    fn from_value(value: Value) -> HintedStrResult<Self> {
        unimplemented!()
    }
}
#[derive(Clone)]
pub struct Selector(Arc<()>);

#[derive(Debug, Default, Clone)]
pub struct Scope(());
#[derive(Debug, Clone, Hash)]
pub struct Binding(());
#[derive(Debug, Clone, Hash, PartialEq)]
pub struct Module(Arc<()>);
#[derive(Debug, Clone, Hash, PartialEq)]
pub struct Func(Arc<()>);
#[derive(Debug, Default, Clone, Hash)]
pub struct Context<'a>(std::marker::PhantomData<&'a ()>);
#[comemo::track]
impl<'a> Context<'a> {
    pub fn none(&self) -> bool {
        unimplemented!()
    }
}
impl Func {
    pub fn call<A: IntoArgs>(
        &self,
        engine: &mut crate::engine::Engine,
        context: comemo::Tracked<Context>,
        args: A,
    ) -> SourceResult<Value> {
        unimplemented!()
    }
}
pub trait IntoArgs {}
impl IntoArgs for Vec<Value> {}

#[derive(Debug, Copy, Clone, PartialEq, Hash)]
pub enum Datetime {
    Date(time::Date),
    Time(time::Time),
    Datetime(time::PrimitiveDateTime),
}
impl Datetime {
    pub fn from_ymd(year: i32, month: u8, day: u8) -> Option<Self> {
        unimplemented!()
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash, Default)]
pub enum Smart<T> {
    #[default]
    Auto,
    Custom(T),
}
