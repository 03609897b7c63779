use crate::errors::DeltaTableError;
use crate::kernel::{Action, Add, CommitInfo, Metadata, Stats};
use crate::logstore::LogStoreRef;
use crate::DeltaResult;
use arrow::array::{ArrayRef, BooleanArray, UInt64Array};
use arrow_schema::{DataType, SchemaRef};
use chrono::{DateTime, Utc};
use datafusion::common::{Column, ScalarValue};
use datafusion::physical_optimizer::pruning::PruningStatistics;
use object_store::ObjectStore;
use std::collections::HashSet;
use std::fmt;
use std::sync::Arc;

#[derive(Debug, Clone, Default)]
pub struct DeltaTableConfig {}

#[derive(Debug, Clone)]
pub struct DeltaTableState {
    pub(crate) version: i64,
    pub(crate) metadata: Metadata,
    pub(crate) files: Vec<Add>,
    pub(crate) schema: SchemaRef,
}

impl DeltaTableState {
    pub fn version(&self) -> i64 {
        self.version
    }
    pub fn metadata(&self) -> &Metadata {
        &self.metadata
    }
    pub fn arrow_schema(&self) -> DeltaResult<SchemaRef> {
        Ok(self.schema.clone())
    }
    pub fn file_actions(&self) -> DeltaResult<Vec<Add>> {
        Ok(self.files.clone())
    }
    pub fn files_count(&self) -> usize {
        self.files.len()
    }
}

/// Per-file bounds of a list of files, for whole-file pruning.
pub(crate) struct FileStats<'a> {
    pub schema: SchemaRef,
    pub files: &'a [Add],
}

impl FileStats<'_> {
    fn stats(&self) -> Vec<Option<Stats>> {
        self.files.iter().map(|f| f.get_stats().ok().flatten()).collect()
    }
    fn bounds(&self, column: &Column, get: impl Fn(&Stats) -> Option<serde_json::Value>) -> Option<ArrayRef> {
        let t = self.schema.field_with_name(&column.name).ok()?.data_type().clone();
        let null = ScalarValue::try_from(&t).ok()?;
        let values: Vec<ScalarValue> = self
            .stats()
            .into_iter()
            .map(|s| s.and_then(|s| get(&s)).and_then(|v| scalar(&v, &t)).unwrap_or_else(|| null.clone()))
            .collect();
        ScalarValue::iter_to_array(values).ok()
    }
}

fn scalar(v: &serde_json::Value, t: &DataType) -> Option<ScalarValue> {
    use serde_json::Value::*;
    let raw = match (v, t) {
        (String(s), _) => ScalarValue::Utf8(Some(s.clone())),
        (Bool(b), _) => ScalarValue::Boolean(Some(*b)),
        (Number(n), DataType::Float32 | DataType::Float64) => ScalarValue::Float64(Some(n.as_f64()?)),
        (Number(n), DataType::Date32) => return Some(ScalarValue::Date32(Some(n.as_i64()? as i32))),
        (Number(n), _) => ScalarValue::Int64(Some(n.as_i64()?)),
        _ => return None,
    };
    raw.cast_to(t).ok()
}

impl PruningStatistics for FileStats<'_> {
    fn min_values(&self, column: &Column) -> Option<ArrayRef> {
        self.bounds(column, |s| s.min_values.get(&column.name).cloned())
    }
    fn max_values(&self, column: &Column) -> Option<ArrayRef> {
        self.bounds(column, |s| s.max_values.get(&column.name).cloned())
    }
    fn num_containers(&self) -> usize {
        self.files.len()
    }
    fn null_counts(&self, column: &Column) -> Option<ArrayRef> {
        let counts: UInt64Array = self
            .stats()
            .iter()
            .map(|s| s.as_ref().and_then(|s| s.null_count.get(&column.name)).map(|n| *n as u64))
            .collect();
        Some(Arc::new(counts))
    }
    fn row_counts(&self, _column: &Column) -> Option<ArrayRef> {
        let counts: UInt64Array =
            self.stats().iter().map(|s| s.as_ref().map(|s| s.num_records as u64)).collect();
        Some(Arc::new(counts))
    }
    fn contained(&self, _column: &Column, _values: &HashSet<ScalarValue>) -> Option<BooleanArray> {
        None
    }
}

impl PruningStatistics for DeltaTableState {
    fn min_values(&self, column: &Column) -> Option<ArrayRef> {
        FileStats { schema: self.schema.clone(), files: &self.files }.min_values(column)
    }
    fn max_values(&self, column: &Column) -> Option<ArrayRef> {
        FileStats { schema: self.schema.clone(), files: &self.files }.max_values(column)
    }
    fn num_containers(&self) -> usize {
        self.files.len()
    }
    fn null_counts(&self, column: &Column) -> Option<ArrayRef> {
        FileStats { schema: self.schema.clone(), files: &self.files }.null_counts(column)
    }
    fn row_counts(&self, column: &Column) -> Option<ArrayRef> {
        FileStats { schema: self.schema.clone(), files: &self.files }.row_counts(column)
    }
    fn contained(&self, _column: &Column, _values: &HashSet<ScalarValue>) -> Option<BooleanArray> {
        None
    }
}

#[derive(Debug, Clone)]
pub struct DeltaTable {
    pub(crate) log_store: LogStoreRef,
    pub config: DeltaTableConfig,
    pub(crate) state: Option<DeltaTableState>,
}

impl fmt::Display for DeltaTable {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "DeltaTable({}) version {}", self.table_uri(), self.version())
    }
}

impl DeltaTable {
    pub fn new(log_store: LogStoreRef, config: DeltaTableConfig) -> Self {
        Self { log_store, config, state: None }
    }
    pub fn version(&self) -> i64 {
        self.state.as_ref().map_or(-1, |s| s.version)
    }
    pub fn table_uri(&self) -> String {
        self.log_store.root_uri()
    }
    pub fn log_store(&self) -> LogStoreRef {
        self.log_store.clone()
    }
    pub fn object_store(&self) -> Arc<dyn ObjectStore> {
        self.log_store.object_store()
    }
    pub fn snapshot(&self) -> DeltaResult<&DeltaTableState> {
        self.state.as_ref().ok_or(DeltaTableError::NotInitialized)
    }
    pub fn get_files_count(&self) -> usize {
        self.state.as_ref().map_or(0, |s| s.files.len())
    }

    /// Commit infos, the latest first
    pub async fn history(&self, limit: Option<usize>) -> DeltaResult<Vec<CommitInfo>> {
        let mut infos = vec![];
        for (v, _) in self.log_store.versions().await?.into_iter().rev() {
            if v > self.version() {
                continue;
            }
            if limit.is_some_and(|l| infos.len() >= l) {
                break;
            }
            for a in self.log_store.read_commit(v).await? {
                if let Action::CommitInfo(i) = a {
                    infos.push(i);
                }
            }
        }
        Ok(infos)
    }

    pub async fn load(&mut self) -> DeltaResult<()> {
        match self.log_store.versions().await?.last() {
            Some((v, _)) => self.load_version(*v).await,
            None => Err(DeltaTableError::NotATable(format!("no log files at {}", self.table_uri()))),
        }
    }

    pub async fn load_version(&mut self, version: i64) -> DeltaResult<()> {
        let mut metadata = None;
        let mut files: Vec<Add> = vec![];
        for v in 0..=version {
            let actions = self.log_store.read_commit(v).await.map_err(|_| DeltaTableError::InvalidVersion(v))?;
            // the latest files come first
            let mut added = 0;
            for a in actions {
                match a {
                    Action::Metadata(m) => metadata = Some(m),
                    Action::Add(a) => {
                        files.insert(added, a);
                        added += 1;
                    }
                    Action::Remove(r) => files.retain(|f| f.path != r.path),
                    Action::CommitInfo(_) => {}
                }
            }
        }
        let metadata = metadata.ok_or_else(|| DeltaTableError::NotATable("no metadata".into()))?;
        let schema = Arc::new(metadata.arrow_schema());
        self.state = Some(DeltaTableState { version, metadata, files, schema });
        Ok(())
    }

    /// The last version that had been committed by then, or else the first one
    pub async fn load_with_datetime(&mut self, datetime: DateTime<Utc>) -> DeltaResult<()> {
        let target = datetime.timestamp_millis();
        let versions = self.log_store.versions().await?;
        if versions.is_empty() {
            return Err(DeltaTableError::NotATable(format!("no log files at {}", self.table_uri())));
        }
        let version = versions.iter().filter(|(_, ts)| *ts <= target).map(|(v, _)| *v).max().unwrap_or(0);
        self.load_version(version).await
    }
}
