use datafusion::error::DataFusionError;

#[derive(thiserror::Error, Debug)]
pub enum DeltaTableError {
    #[error("Invalid table location: {0}")]
    InvalidTableLocation(String),
    #[error("Not a Delta table: {0}")]
    NotATable(String),
    #[error("Invalid table version: {0}")]
    InvalidVersion(i64),
    #[error("Transaction failed: {0}")]
    Transaction(String),
    #[error("Table has not yet been initialized")]
    NotInitialized,
    #[error("Generic DeltaTable error: {0}")]
    Generic(String),
    #[error("Invalid data type for Delta Lake: {0}")]
    SchemaMismatch(String),
    #[error("Failed to read delta log object: {0}")]
    ObjectStore(#[from] object_store::Error),
    #[error("Invalid JSON in log record: {0}")]
    Json(#[from] serde_json::Error),
    #[error("Arrow error: {0}")]
    Arrow(#[from] arrow_schema::ArrowError),
    #[error("Parquet error: {0}")]
    Parquet(#[from] datafusion::parquet::errors::ParquetError),
    #[error("DataFusion error: {0}")]
    DataFusion(#[from] DataFusionError),
}

// required by callers that turn it into their own error
impl From<DeltaTableError> for DataFusionError {
    fn from(e: DeltaTableError) -> Self {
        match e {
            DeltaTableError::Arrow(source) => DataFusionError::ArrowError(source, None),
            DeltaTableError::ObjectStore(source) => DataFusionError::ObjectStore(source),
            DeltaTableError::Parquet(source) => DataFusionError::ParquetError(source),
            DeltaTableError::DataFusion(source) => source,
            e => DataFusionError::External(Box::new(e)),
        }
    }
}
