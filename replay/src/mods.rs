#[path = "../../harness/src/common.rs"] pub mod common;
#[path = "../../harness/src/build.rs"] pub mod build;
#[path = "../../harness/src/trav.rs"] pub mod trav;
#[path = "../../harness/src/prim.rs"] pub mod prim;
#[path = "../../harness/src/tree.rs"] pub mod tree;
#[path = "../../harness/src/ffi.rs"] pub mod ffi;
#[path = "/repo/rtbvh_ffi/src/lib.rs"]
pub mod api;
