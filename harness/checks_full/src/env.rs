//! Whole contexts to run statements in, and their results as plain values.
use crate::sqlmodel::V;
use arrow::array::*;
use arrow::datatypes::*;
use object_store_factory::local::LocalConfig;
use object_store_factory::ObjectStoreConfig;
use seafowl_full::config::context::build_context;
use seafowl_full::config::schema::{Catalog, SeafowlConfig, Sqlite};
use seafowl_full::context::SeafowlContext;
use sqlx::sqlite::SqliteJournalMode;

pub fn scratch() -> tempfile::TempDir {
    tempfile::tempdir_in("/dev/shm").or_else(|_| tempfile::tempdir()).expect("a scratch directory")
}

/// As in production, whatever is logged is rendered; here it then goes nowhere.
pub fn logging() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = tracing_subscriber::fmt()
            .with_env_filter("off,seafowl_full=debug")
            .with_writer(std::io::sink)
            .try_init();
    });
}

pub fn config(store: ObjectStoreConfig, dsn: String, max_partition_size: u32) -> SeafowlConfig {
    logging();
    let mut c = SeafowlConfig {
        object_store: Some(store),
        catalog: Some(Catalog::Sqlite(Sqlite { dsn, journal_mode: SqliteJournalMode::Wal, read_only: false })),
        frontend: Default::default(),
        runtime: Default::default(),
        misc: Default::default(),
    };
    c.misc.max_partition_size = max_partition_size;
    c
}

pub async fn memory(max_partition_size: u32) -> SeafowlContext {
    build_context(config(ObjectStoreConfig::Memory, "sqlite://:memory:".into(), max_partition_size))
        .await
        .expect("an in-memory context")
}

pub async fn local(dir: &std::path::Path, max_partition_size: u32) -> SeafowlContext {
    std::fs::create_dir_all(dir.join("data")).unwrap();
    let store = ObjectStoreConfig::Local(LocalConfig {
        data_dir: dir.join("data").to_str().unwrap().to_string(),
        disable_hardlinks: false,
    });
    let dsn = format!("sqlite://{}", dir.join("catalog.sqlite").display());
    build_context(config(store, dsn, max_partition_size)).await.expect("a context with local storage")
}

/// Runs one statement to its end; gives its rows, or what it said when it failed.
pub async fn run(ctx: &SeafowlContext, sql: &str) -> Result<Vec<RecordBatch>, String> {
    let plan = ctx.plan_query(sql).await.map_err(|e| short(&e.to_string()))?;
    ctx.collect(plan).await.map_err(|e| short(&e.to_string()))
}

pub fn short(s: &str) -> String {
    let s = s.split("\n\nbacktrace:").next().unwrap_or(s);
    s.chars().take(300).collect()
}

pub fn rows(batches: &[RecordBatch]) -> Result<Vec<Vec<V>>, String> {
    let mut out = vec![];
    for b in batches {
        let cols: Vec<Vec<V>> = b.columns().iter().map(|c| column(c)).collect::<Result<_, _>>()?;
        for i in 0..b.num_rows() {
            out.push(cols.iter().map(|c| c[i].clone()).collect());
        }
    }
    Ok(out)
}

fn prim<T: ArrowPrimitiveType>(a: &ArrayRef, f: impl Fn(T::Native) -> V) -> Vec<V> {
    a.as_primitive::<T>().iter().map(|v| v.map_or(V::Null, &f)).collect()
}

fn column(a: &ArrayRef) -> Result<Vec<V>, String> {
    Ok(match a.data_type() {
        DataType::Int8 => prim::<Int8Type>(a, |v| V::I(v as i64)),
        DataType::Int16 => prim::<Int16Type>(a, |v| V::I(v as i64)),
        DataType::Int32 => prim::<Int32Type>(a, |v| V::I(v as i64)),
        DataType::Int64 => prim::<Int64Type>(a, V::I),
        DataType::UInt64 => prim::<UInt64Type>(a, |v| V::I(v as i64)),
        DataType::Float32 => prim::<Float32Type>(a, |v| V::F(v as f64)),
        DataType::Float64 => prim::<Float64Type>(a, V::F),
        DataType::Date32 => prim::<Date32Type>(a, |v| V::D(v as i64)),
        DataType::Timestamp(TimeUnit::Second, _) => prim::<TimestampSecondType>(a, |v| V::T(v * 1_000_000)),
        DataType::Timestamp(TimeUnit::Millisecond, _) => prim::<TimestampMillisecondType>(a, |v| V::T(v * 1000)),
        DataType::Timestamp(TimeUnit::Microsecond, _) => prim::<TimestampMicrosecondType>(a, V::T),
        DataType::Timestamp(TimeUnit::Nanosecond, _) => prim::<TimestampNanosecondType>(a, |v| V::T(v / 1000)),
        DataType::Boolean => a.as_boolean().iter().map(|v| v.map_or(V::Null, V::B)).collect(),
        DataType::Utf8 => a.as_string::<i32>().iter().map(|v| v.map_or(V::Null, |v| V::S(v.into()))).collect(),
        DataType::LargeUtf8 => a.as_string::<i64>().iter().map(|v| v.map_or(V::Null, |v| V::S(v.into()))).collect(),
        DataType::Utf8View => a.as_string_view().iter().map(|v| v.map_or(V::Null, |v| V::S(v.into()))).collect(),
        DataType::Null => vec![V::Null; a.len()],
        t => return Err(format!("a column of an unexpected type {t}")),
    })
}

pub async fn select(ctx: &SeafowlContext, sql: &str) -> Result<Vec<Vec<V>>, String> {
    rows(&run(ctx, sql).await?)
}
