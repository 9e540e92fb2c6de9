//! Reference semantics of the parser, written from RFC 5322/2045/2046/2047/2231 and the documentation of the crate.
//!
//! Nothing here is ever executed: the checks compare the MIR of the crate with the MIR of this one.
//! A parser takes the remaining bytes and answers the bytes that follow what it recognised and the value, or an error.
#![allow(dead_code, unused_variables, clippy::all)]

pub mod address;
pub mod character_sets;
pub mod common;
pub mod email;
pub mod fields;
pub mod message;
#[cfg(feature = "mime")]
pub mod mime;
pub mod quoted_string;
pub mod shims;
pub mod string;
pub mod time;
pub mod types;
pub mod whitespaces;
