#![allow(dead_code, unused_variables, clippy::all)]

