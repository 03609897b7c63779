use std::any::Any;
use std::sync::Arc;

use arrow::datatypes::SchemaRef;
use async_trait::async_trait;
use datafusion::catalog::{Session, TableProvider};
use datafusion::datasource::{MemTable, TableType};
use datafusion::error::{DataFusionError, Result};
use datafusion::logical_expr::{dml::InsertOp, Expr};
use datafusion::physical_plan::ExecutionPlan;
use iceberg::table::Table;

#[derive(Debug, Clone)]
pub struct IcebergTableProvider {
    table: Table,
    schema: SchemaRef,
}

impl IcebergTableProvider {
    pub async fn try_new_from_table(table: Table) -> iceberg::Result<Self> {
        let schema =
            Arc::new(iceberg::arrow::schema_to_arrow_schema(table.metadata().current_schema())?);
        Ok(IcebergTableProvider { table, schema })
    }
    pub fn table(&self) -> Table {
        self.table.clone()
    }
}

#[async_trait]
impl TableProvider for IcebergTableProvider {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn schema(&self) -> SchemaRef {
        self.schema.clone()
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(
        &self,
        state: &dyn Session,
        projection: Option<&Vec<usize>>,
        filters: &[Expr],
        limit: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let ext = |e: iceberg::Error| DataFusionError::External(Box::new(e));
        let mut batches = vec![];
        for f in self.table.data_files().await.map_err(ext)? {
            let bs = self
                .table
                .file_io()
                .new_input(f.file_path())
                .map_err(ext)?
                .read()
                .await
                .map_err(ext)?;
            for b in parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(bs)?
                .build()?
            {
                let b = b?;
                batches.push(arrow::array::RecordBatch::try_new(
                    self.schema.clone(),
                    b.columns().to_vec(),
                )?);
            }
        }
        MemTable::try_new(self.schema.clone(), vec![batches])?
            .scan(state, projection, filters, limit)
            .await
    }
    async fn insert_into(
        &self,
        _state: &dyn Session,
        _input: Arc<dyn ExecutionPlan>,
        _op: InsertOp,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        Err(DataFusionError::NotImplemented("insert_into".into()))
    }
}

pub mod table_provider_factory {
    use super::*;
    use datafusion::catalog::TableProviderFactory;
    use datafusion::logical_expr::CreateExternalTable;

    #[derive(Debug)]
    pub struct IcebergTableProviderFactory {}

    #[async_trait]
    impl TableProviderFactory for IcebergTableProviderFactory {
        async fn create(
            &self,
            _state: &dyn Session,
            cmd: &CreateExternalTable,
        ) -> Result<Arc<dyn TableProvider>> {
            let ext = |e: iceberg::Error| DataFusionError::External(Box::new(e));
            let io = iceberg::io::FileIO::from_path(&cmd.location)
                .map_err(ext)?
                .with_props(&cmd.options)
                .build()
                .map_err(ext)?;
            let ident = iceberg::TableIdent::from_strs([cmd.name.table()]).map_err(ext)?;
            let t = iceberg::table::StaticTable::from_metadata_file(&cmd.location, ident, io)
                .await
                .map_err(ext)?;
            Ok(Arc::new(
                IcebergTableProvider::try_new_from_table(t.into_table()).await.map_err(ext)?,
            ))
        }
    }
}
