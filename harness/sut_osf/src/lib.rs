// Partial crate root: aws.rs needs the iceberg fork, and the real lib.rs needs aws.rs.
#![allow(dead_code)]

#[path = "/repo/object_store_factory/src/google.rs"]
pub mod google;
#[path = "/repo/object_store_factory/src/local.rs"]
pub mod local;
#[path = "/repo/object_store_factory/src/memory.rs"]
pub mod memory;
