// Partial crate root: the modules of /repo/src that need none of the GitHub forks.
#![feature(let_chains)]

#[path = "/repo/src/datafusion/mod.rs"]
pub mod datafusion;
#[path = "/repo/src/nodes.rs"]
pub mod nodes;
#[path = "/repo/src/repository/mod.rs"]
pub mod repository;
#[path = "/repo/src/version.rs"]
pub mod version;
#[path = "/repo/src/wasm_udf/mod.rs"]
pub mod wasm_udf;

pub mod catalog {
    include!(concat!(env!("OUT_DIR"), "/catalog_consts.rs"));
}

extern crate lazy_static;

/// Not part of Seafowl: makes crate-private entry points visible to the checks.
pub mod verif {
    use ::datafusion::error::Result;
    pub fn normalize_ident(id: &sqlparser::ast::Ident) -> String {
        crate::datafusion::utils::normalize_ident(id)
    }
    pub fn build_schema(columns: Vec<sqlparser::ast::ColumnDef>) -> Result<arrow_schema::Schema> {
        crate::datafusion::utils::build_schema(columns)
    }
    pub fn convert_simple_data_type(t: &sqlparser::ast::DataType) -> Result<arrow_schema::DataType> {
        crate::datafusion::utils::convert_simple_data_type(t)
    }
    pub fn make_decimal_type(precision: Option<u64>, scale: Option<u64>) -> Result<arrow_schema::DataType> {
        crate::datafusion::utils::make_decimal_type(precision, scale)
    }
}
