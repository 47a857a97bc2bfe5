#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;

pub type Table = Map<String, Value>;
#[derive(Clone, Debug, PartialEq)]
pub struct Map<K: Ord, V>(BTreeMap<K, V>);
impl Map<String, Value> {
    pub fn new() -> Self {
        Self(BTreeMap::new())
    }
    pub fn try_from<T: Serialize>(v: T) -> Result<Self, ser::Error> {
        unimplemented!()
    }
    pub fn insert(&mut self, k: String, v: Value) -> Option<Value> {
        self.0.insert(k, v)
    }
    pub fn get(&self, k: &str) -> Option<&Value> {
        self.0.get(k)
    }
    pub fn contains_key(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
    pub fn remove(&mut self, k: &str) -> Option<Value> {
        self.0.remove(k)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl fmt::Display for Map<String, Value> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unimplemented!()
    }
}
impl Serialize for Map<String, Value> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> Deserialize<'de> for Map<String, Value> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        unimplemented!()
    }
}
impl<'a> IntoIterator for &'a Map<String, Value> {
    type Item = (&'a String, &'a Value);
    type IntoIter = std::collections::btree_map::Iter<'a, String, Value>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    String(String),
    Integer(i64),
    Float(f64),
    Boolean(bool),
    Array(Vec<Value>),
    Table(Table),
}
impl Value {
    pub fn get(&self, k: &str) -> Option<&Value> {
        match self {
            Value::Table(t) => t.get(k),
            _ => None,
        }
    }
    pub fn as_table(&self) -> Option<&Table> {
        match self {
            Value::Table(t) => Some(t),
            _ => None,
        }
    }
    pub fn as_table_mut(&mut self) -> Option<&mut Table> {
        match self {
            Value::Table(t) => Some(t),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Value::String(t) => Some(t),
            _ => None,
        }
    }
    pub fn as_array(&self) -> Option<&Vec<Value>> {
        match self {
            Value::Array(t) => Some(t),
            _ => None,
        }
    }
}
impl From<Table> for Value {
    fn from(t: Table) -> Value {
        Value::Table(t)
    }
}
impl std::ops::Index<&str> for Value {
    type Output = Value;
    fn index(&self, k: &str) -> &Value {
        self.get(k).expect("index not found")
    }
}
impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unimplemented!()
    }
}
impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> Deserialize<'de> for Value {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        unimplemented!()
    }
}
pub mod de {
    pub use super::DeError as Error;
}
pub mod ser {
    pub use super::SerError as Error;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DeError(());
impl fmt::Display for DeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for DeError {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SerError(());
impl fmt::Display for SerError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for SerError {}
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, DeError> {
    unimplemented!()
}
pub fn to_string<T: Serialize + ?Sized>(s: &T) -> Result<String, SerError> {
    unimplemented!()
}
