//! The interactive shell, with a stand-in for the context it drives: plain DataFusion that notes every query it is given.
#![feature(let_chains)]
#![allow(dead_code)]

#[path = "/repo/src/cli/mod.rs"]
pub mod cli;

pub mod context {
    use datafusion::arrow::record_batch::RecordBatch;
    use datafusion::logical_expr::LogicalPlan;
    use datafusion::physical_plan::{collect, ExecutionPlan};
    use datafusion::prelude::{SessionConfig, SessionContext};
    use datafusion::sql::parser::{DFParser, Statement};
    use datafusion_common::Result;
    use std::sync::{Arc, Mutex};

    pub struct SeafowlContext {
        pub default_catalog: String,
        pub default_schema: String,
        inner: SessionContext,
        /// what was asked of it, in order
        pub log: Mutex<Vec<(&'static str, String)>>,
        pub out: Option<std::path::PathBuf>,
    }

    impl SeafowlContext {
        pub fn stand_in(out: Option<std::path::PathBuf>) -> Self {
            let inner = SessionContext::new_with_config(SessionConfig::new().with_information_schema(true));
            SeafowlContext { default_catalog: "default".into(), default_schema: "public".into(), inner, log: Default::default(), out }
        }
        pub fn inner(&self) -> &SessionContext {
            &self.inner
        }
        fn note(&self, what: &'static str, text: String) {
            let mut log = self.log.lock().unwrap();
            log.push((what, text));
            if let Some(p) = &self.out {
                std::fs::write(p, serde_json::to_string(&*log).unwrap()).expect("log");
            }
        }
        pub async fn parse_query(&self, sql: &str) -> Result<Vec<Statement>> {
            self.note("query", sql.to_string());
            Ok(DFParser::parse_sql(sql)?.into_iter().collect())
        }
        pub async fn create_logical_plan_from_statement(&self, statement: Statement) -> Result<LogicalPlan> {
            self.note("logical", statement.to_string());
            self.inner.state().statement_to_plan(statement).await
        }
        pub async fn create_physical_plan(&self, plan: &LogicalPlan) -> Result<Arc<dyn ExecutionPlan>> {
            self.note("physical", String::new());
            self.inner.state().create_physical_plan(plan).await
        }
        pub async fn collect(&self, plan: Arc<dyn ExecutionPlan>) -> Result<Vec<RecordBatch>> {
            self.note("collect", String::new());
            collect(plan, self.inner.task_ctx()).await
        }
    }
}
