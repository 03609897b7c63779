//! Stand-in for delta-rs: versioned tables on an object store.
//!
//! * A commit is one JSON-lines object `_delta_log/<version>.json`, written only if it is absent, so
//!   that of two writers of a version exactly one wins; the loser retries as the next version unless
//!   the two commits conflict (both remove a file, or one removes a file the other removed).
//! * A snapshot is the replay of the commits; a scan reads exactly the live files.
//! * File statistics (row count, min, max, null count) come from the Parquet footer, and are used to
//!   skip whole files.
pub use arrow;
pub use datafusion::parquet;
pub use errors::DeltaTableError;
pub use object_store::path::Path;
pub use table::DeltaTable;

pub type DeltaResult<T, E = DeltaTableError> = Result<T, E>;

pub mod delta_datafusion;
pub mod errors;
pub mod kernel;
pub mod logstore;
pub mod operations;
pub mod storage;
pub mod table;
pub mod writer;

pub mod protocol {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum SaveMode {
        Append,
        Overwrite,
        ErrorIfExists,
        Ignore,
    }

    #[derive(Debug, Clone)]
    pub enum DeltaOperation {
        Create { mode: SaveMode },
        Convert,
        Write { mode: SaveMode, partition_by: Option<Vec<String>>, predicate: Option<String> },
        Delete { predicate: Option<String> },
        Update { predicate: Option<String> },
    }

    impl DeltaOperation {
        pub fn name(&self) -> &'static str {
            match self {
                DeltaOperation::Create { .. } => "CREATE TABLE",
                DeltaOperation::Convert => "CONVERT",
                DeltaOperation::Write { .. } => "WRITE",
                DeltaOperation::Delete { .. } => "DELETE",
                DeltaOperation::Update { .. } => "UPDATE",
            }
        }
    }
}
