//! Harnesses: each entry states one property over symbolic inputs against the public
//! API of the library.
#![allow(clippy::all)]
pub mod vx;
pub mod common;
pub mod build;
pub mod trav;
pub mod prim;
pub mod tree;
pub mod ffi;
#[path = "/repo/rtbvh_ffi/src/lib.rs"]
pub mod api;
include!("entries.rs");
