use crate::errors::DeltaTableError;
use crate::kernel::Add;
use crate::logstore::{default_logstore, LogStoreRef};
use crate::table::{DeltaTable, DeltaTableState, FileStats};
use crate::DeltaResult;
use arrow_schema::{Schema, SchemaRef};
use datafusion::catalog::{Session, TableProvider, TableProviderFactory};
use datafusion::common::tree_node::{Transformed, TransformedResult, TreeNode};
use datafusion::common::{Column, DFSchema, Result};
use datafusion::datasource::listing::PartitionedFile;
use datafusion::datasource::physical_plan::{FileScanConfig, ParquetExec};
use datafusion::error::DataFusionError;
use datafusion::execution::object_store::ObjectStoreUrl;
use datafusion::logical_expr::utils::conjunction;
use datafusion::logical_expr::{CreateExternalTable, Expr, TableProviderFilterPushDown, TableType};
use datafusion::physical_optimizer::pruning::PruningPredicate;
use datafusion::physical_plan::empty::EmptyExec;
use datafusion::physical_plan::ExecutionPlan;
use object_store::prefix::PrefixStore;
use std::any::Any;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use url::Url;

fn scan_files(
    session: &dyn Session,
    log_store: &LogStoreRef,
    schema: SchemaRef,
    files: &[Add],
    projection: Option<&Vec<usize>>,
    filters: &[Expr],
    limit: Option<usize>,
) -> Result<Arc<dyn ExecutionPlan>> {
    let mut keep = vec![true; files.len()];
    let filters: Vec<Expr> = filters
        .iter()
        .map(|f| {
            f.clone()
                .transform(|e| {
                    Ok(match e {
                        Expr::Column(c) => Transformed::yes(Expr::Column(Column::new_unqualified(c.name))),
                        e => Transformed::no(e),
                    })
                })
                .data()
        })
        .collect::<Result<_>>()?;
    if let Some(filter) = conjunction(filters) {
        let df_schema = DFSchema::try_from(schema.as_ref().clone())?;
        let physical = session.create_physical_expr(filter, &df_schema)?;
        let predicate = PruningPredicate::try_new(physical, schema.clone())?;
        keep = predicate.prune(&FileStats { schema: schema.clone(), files })?;
    }
    let group: Vec<PartitionedFile> = files
        .iter()
        .zip(keep)
        .filter(|(_, keep)| *keep)
        .map(|(f, _)| PartitionedFile::new(f.path.clone(), f.size as u64))
        .collect();
    if group.is_empty() {
        let schema = match projection {
            Some(p) => Arc::new(schema.project(p)?),
            None => schema,
        };
        return Ok(Arc::new(EmptyExec::new(schema)));
    }
    let mut hasher = std::collections::hash_map::DefaultHasher::new();
    log_store.root_uri().hash(&mut hasher);
    let url = ObjectStoreUrl::parse(format!("delta-rs://t{:x}", hasher.finish()))?;
    session.runtime_env().register_object_store(url.as_ref(), log_store.object_store());
    let config = FileScanConfig::new(url, schema)
        .with_file_group(group)
        .with_projection(projection.cloned())
        .with_limit(limit);
    Ok(ParquetExec::builder(config).build_arc())
}

#[async_trait::async_trait]
impl TableProvider for DeltaTable {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn schema(&self) -> SchemaRef {
        self.state.as_ref().map_or_else(|| Arc::new(Schema::empty()), |s| s.schema.clone())
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(
        &self,
        session: &dyn Session,
        projection: Option<&Vec<usize>>,
        filters: &[Expr],
        limit: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let s = self.snapshot()?;
        scan_files(session, &self.log_store, s.schema.clone(), &s.files, projection, filters, limit)
    }
    fn supports_filters_pushdown(&self, filters: &[&Expr]) -> Result<Vec<TableProviderFilterPushDown>> {
        Ok(vec![TableProviderFilterPushDown::Inexact; filters.len()])
    }
}

#[derive(Debug, Clone, Default)]
pub struct DeltaScanConfig {}

#[derive(Debug)]
pub struct DeltaTableProvider {
    state: DeltaTableState,
    log_store: LogStoreRef,
    files: Option<Vec<Add>>,
}

impl DeltaTableProvider {
    pub fn try_new(state: DeltaTableState, log_store: LogStoreRef, _config: DeltaScanConfig) -> DeltaResult<Self> {
        Ok(Self { state, log_store, files: None })
    }
    pub fn with_files(self, files: Vec<Add>) -> Self {
        Self { files: Some(files), ..self }
    }
}

#[async_trait::async_trait]
impl TableProvider for DeltaTableProvider {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn schema(&self) -> SchemaRef {
        self.state.schema.clone()
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(
        &self,
        session: &dyn Session,
        projection: Option<&Vec<usize>>,
        filters: &[Expr],
        limit: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let files = self.files.as_ref().unwrap_or(&self.state.files);
        scan_files(session, &self.log_store, self.state.schema.clone(), files, projection, filters, limit)
    }
    fn supports_filters_pushdown(&self, filters: &[&Expr]) -> Result<Vec<TableProviderFilterPushDown>> {
        Ok(vec![TableProviderFilterPushDown::Inexact; filters.len()])
    }
}

#[derive(Debug)]
pub struct DeltaTableFactory {}

#[async_trait::async_trait]
impl TableProviderFactory for DeltaTableFactory {
    async fn create(&self, session: &dyn Session, cmd: &CreateExternalTable) -> Result<Arc<dyn TableProvider>> {
        let url = match Url::parse(&cmd.location) {
            Ok(u) => u,
            Err(_) => Url::from_directory_path(&cmd.location)
                .map_err(|_| DataFusionError::External(Box::new(DeltaTableError::InvalidTableLocation(cmd.location.clone()))))?,
        };
        let store = session.runtime_env().object_store(ObjectStoreUrl::parse(&url[..url::Position::BeforePath])?)?;
        let path = object_store::path::Path::from_url_path(url.path())?;
        let store = Arc::new(PrefixStore::new(store, path));
        let mut table = DeltaTable::new(default_logstore(store, &url, &Default::default()), Default::default());
        table.load().await?;
        Ok(Arc::new(table))
    }
}
