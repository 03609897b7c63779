use crate::errors::DeltaTableError;
use crate::kernel::{Action, Add, Metadata, StructField};
use crate::logstore::LogStoreRef;
use crate::protocol::{DeltaOperation, SaveMode};
use crate::table::{DeltaTable, DeltaTableState};
use crate::DeltaResult;
use futures::future::BoxFuture;
use futures::TryStreamExt;
use object_store::ObjectStore;
use std::future::IntoFuture;
use std::sync::Arc;

pub mod create {
    use super::*;

    #[derive(Default)]
    pub struct CreateBuilder {
        log_store: Option<LogStoreRef>,
        name: Option<String>,
        comment: Option<String>,
        columns: Vec<StructField>,
    }

    impl CreateBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_log_store(mut self, log_store: LogStoreRef) -> Self {
            self.log_store = Some(log_store);
            self
        }
        pub fn with_table_name(mut self, name: impl Into<String>) -> Self {
            self.name = Some(name.into());
            self
        }
        pub fn with_comment(mut self, comment: impl Into<String>) -> Self {
            self.comment = Some(comment.into());
            self
        }
        pub fn with_columns(mut self, columns: impl IntoIterator<Item = impl Into<StructField>>) -> Self {
            self.columns = columns.into_iter().map(Into::into).collect();
            self
        }
    }

    impl IntoFuture for CreateBuilder {
        type Output = DeltaResult<DeltaTable>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                let log_store = self.log_store.ok_or(DeltaTableError::NotInitialized)?;
                if self.columns.is_empty() {
                    return Err(DeltaTableError::Generic(
                        "At least one column must be defined to create a table.".to_string(),
                    ));
                }
                let metadata = Metadata { name: self.name, description: self.comment, schema: self.columns };
                let op = DeltaOperation::Create { mode: SaveMode::ErrorIfExists };
                if !log_store.write_commit(0, &[Action::Metadata(metadata)], op.name()).await? {
                    return Err(DeltaTableError::Generic("A Delta Lake table already exists at that location.".into()));
                }
                let mut table = DeltaTable::new(log_store, Default::default());
                table.load().await?;
                Ok(table)
            })
        }
    }
}

pub mod convert_to_delta {
    use super::*;
    use crate::kernel::StructType;
    use datafusion::parquet::arrow::async_reader::{ParquetObjectReader, ParquetRecordBatchStreamBuilder};
    use datafusion::parquet::arrow::parquet_to_arrow_schema;

    #[derive(Default)]
    pub struct ConvertToDeltaBuilder {
        log_store: Option<LogStoreRef>,
        name: Option<String>,
        comment: Option<String>,
    }

    impl ConvertToDeltaBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_log_store(mut self, log_store: LogStoreRef) -> Self {
            self.log_store = Some(log_store);
            self
        }
        pub fn with_table_name(mut self, name: impl Into<String>) -> Self {
            self.name = Some(name.into());
            self
        }
        pub fn with_comment(mut self, comment: impl Into<String>) -> Self {
            self.comment = Some(comment.into());
            self
        }
        pub fn with_save_mode(self, _mode: SaveMode) -> Self {
            self
        }
    }

    impl IntoFuture for ConvertToDeltaBuilder {
        type Output = DeltaResult<DeltaTable>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                let log_store = self.log_store.ok_or(DeltaTableError::NotInitialized)?;
                if log_store.is_delta_table_location().await? {
                    return Err(DeltaTableError::Generic(
                        "The given location is already a delta table location".to_string(),
                    ));
                }
                let store = log_store.object_store();
                let mut files: Vec<_> = store.list(None).try_collect().await?;
                files.sort_by(|a, b| a.location.cmp(&b.location));
                let mut adds = vec![];
                let mut schema: Option<StructType> = None;
                for f in files.into_iter().filter(|f| f.location.extension() == Some("parquet")) {
                    let (path, size) = (f.location.to_string(), f.size as i64);
                    let builder =
                        ParquetRecordBatchStreamBuilder::new(ParquetObjectReader::new(store.clone(), f)).await?;
                    let meta = builder.metadata().file_metadata();
                    let arrow = parquet_to_arrow_schema(meta.schema_descr(), meta.key_value_metadata())?;
                    let this = StructType::try_from(&arrow)?;
                    if schema.as_ref().is_some_and(|s| *s != this) {
                        return Err(DeltaTableError::Generic("files of different schemas".into()));
                    }
                    schema = Some(this);
                    adds.push(Action::Add(Add { path, size, data_change: true, ..Default::default() }));
                }
                let schema = schema.ok_or_else(|| DeltaTableError::Generic("no Parquet files".into()))?;
                let metadata = Metadata {
                    name: self.name,
                    description: self.comment,
                    schema: schema.fields().cloned().collect(),
                };
                adds.insert(0, Action::Metadata(metadata));
                if !log_store.write_commit(0, &adds, DeltaOperation::Convert.name()).await? {
                    return Err(DeltaTableError::Generic(
                        "The given location is already a delta table location".to_string(),
                    ));
                }
                let mut table = DeltaTable::new(log_store, Default::default());
                table.load().await?;
                Ok(table)
            })
        }
    }
}

pub mod transaction {
    use super::*;

    #[derive(Default)]
    pub struct CommitBuilder {
        actions: Vec<Action>,
    }

    pub struct PreCommit<'a> {
        actions: Vec<Action>,
        snapshot: Option<&'a DeltaTableState>,
        log_store: LogStoreRef,
        op: DeltaOperation,
    }

    pub struct FinalizedCommit {
        pub version: i64,
    }

    impl CommitBuilder {
        pub fn with_actions(mut self, actions: Vec<Action>) -> Self {
            self.actions = actions;
            self
        }
        pub fn build(
            self,
            snapshot: Option<&DeltaTableState>,
            log_store: LogStoreRef,
            op: DeltaOperation,
        ) -> PreCommit<'_> {
            PreCommit { actions: self.actions, snapshot, log_store, op }
        }
    }

    impl<'a> IntoFuture for PreCommit<'a> {
        type Output = DeltaResult<FinalizedCommit>;
        type IntoFuture = BoxFuture<'a, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                let mut version = self.snapshot.map_or(-1, |s| s.version()) + 1;
                for _ in 0..15 {
                    if self.log_store.write_commit(version, &self.actions, self.op.name()).await? {
                        return Ok(FinalizedCommit { version });
                    }
                    // somebody else's commit came first
                    for theirs in self.log_store.read_commit(version).await? {
                        let conflict = match &theirs {
                            Action::Remove(r) => self
                                .actions
                                .iter()
                                .any(|a| matches!(a, Action::Remove(m) if m.path == r.path)),
                            Action::Metadata(_) => true,
                            _ => false,
                        };
                        if conflict {
                            return Err(DeltaTableError::Transaction(
                                "Commit failed: a concurrent transaction deleted the same data".into(),
                            ));
                        }
                    }
                    version += 1;
                }
                Err(DeltaTableError::Transaction("Max commit attempts exceeded".into()))
            })
        }
    }
}

pub mod vacuum {
    use super::*;

    pub struct VacuumBuilder {
        log_store: LogStoreRef,
        snapshot: DeltaTableState,
    }

    #[derive(Debug)]
    pub struct VacuumMetrics {
        pub dry_run: bool,
        pub files_deleted: Vec<String>,
    }

    impl VacuumBuilder {
        pub fn new(log_store: LogStoreRef, snapshot: DeltaTableState) -> Self {
            Self { log_store, snapshot }
        }
        pub fn with_retention_period(self, _period: chrono::TimeDelta) -> Self {
            self
        }
        pub fn with_enforce_retention_duration(self, _enforce: bool) -> Self {
            self
        }
    }

    impl IntoFuture for VacuumBuilder {
        type Output = DeltaResult<(DeltaTable, VacuumMetrics)>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                let store: Arc<dyn ObjectStore> = self.log_store.object_store();
                let objects: Vec<_> = store.list(None).try_collect().await?;
                let live = |path: &String| self.snapshot.files.iter().any(|f| f.path == *path);
                let files_deleted: Vec<String> = objects
                    .into_iter()
                    .map(|o| o.location.to_string())
                    .filter(|path| !path.starts_with("_delta_log") && !live(path))
                    .collect();
                let mut table =
                    DeltaTable { log_store: self.log_store, config: Default::default(), state: Some(self.snapshot) };
                if files_deleted.is_empty() {
                    return Ok((table, VacuumMetrics { dry_run: false, files_deleted }));
                }
                let mut version = table.version();
                for name in ["VACUUM START", "VACUUM END"] {
                    loop {
                        version += 1;
                        if table.log_store.write_commit(version, &[], name).await? {
                            break;
                        }
                    }
                    if name == "VACUUM START" {
                        for path in &files_deleted {
                            match store.delete(&path.as_str().into()).await {
                                Ok(()) | Err(object_store::Error::NotFound { .. }) => {}
                                Err(e) => return Err(e.into()),
                            }
                        }
                    }
                }
                table.load().await?;
                Ok((table, VacuumMetrics { dry_run: false, files_deleted }))
            })
        }
    }
}
