//! Shared generators and reference models.
pub mod catmodel;
pub mod sqlgen;
pub mod ddlgen;
pub mod wasmgen;
pub mod pushgen;
pub mod pushsql;
