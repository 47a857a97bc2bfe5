#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
use std::path::PathBuf;
pub fn cache_dir() -> Option<PathBuf> {
    unimplemented!()
}
pub fn data_dir() -> Option<PathBuf> {
    unimplemented!()
}
pub fn config_dir() -> Option<PathBuf> {
    unimplemented!()
}
pub fn home_dir() -> Option<PathBuf> {
    unimplemented!()
}
