#![allow(dead_code, unused_variables, clippy::all)]
pub mod path;
pub mod keywords;
pub mod validators;
pub mod misc;
pub mod wire;
pub mod adapter;
pub mod validation;
pub mod store;
pub mod stats;
pub mod parser;
pub mod property_names;
pub mod scanner;
pub mod ruleconf;
pub mod http;
pub mod ffi;
pub mod scoped;
