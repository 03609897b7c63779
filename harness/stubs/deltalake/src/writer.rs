use crate::kernel::{Add, Stats};
use crate::DeltaResult;
use datafusion::parquet::basic::{ConvertedType, LogicalType, Type as Physical};
use datafusion::parquet::data_type::AsBytes;
use datafusion::parquet::file::statistics::{from_thrift, Statistics};
use datafusion::parquet::format::FileMetaData;
use datafusion::parquet::schema::types::{from_thrift as schema_from_thrift, ColumnDescriptor, SchemaDescriptor};
use serde_json::{json, Value};
use std::collections::HashMap;

fn unsigned(d: &ColumnDescriptor) -> bool {
    matches!(d.logical_type(), Some(LogicalType::Integer { is_signed: false, .. }))
        || matches!(
            d.converted_type(),
            ConvertedType::UINT_8 | ConvertedType::UINT_16 | ConvertedType::UINT_32 | ConvertedType::UINT_64
        )
}

fn bounds(d: &ColumnDescriptor, s: &Statistics) -> Option<(Value, Value)> {
    if unsigned(d) || matches!(d.logical_type(), Some(LogicalType::Decimal { .. })) {
        return None;
    }
    let pair = |a: Value, b: Value| (!a.is_null() && !b.is_null()).then_some((a, b));
    match s {
        Statistics::Boolean(s) => pair(json!(s.min_opt()?), json!(s.max_opt()?)),
        Statistics::Int32(s) => pair(json!(s.min_opt()?), json!(s.max_opt()?)),
        Statistics::Int64(s) => pair(json!(s.min_opt()?), json!(s.max_opt()?)),
        Statistics::Float(s) => pair(json!(*s.min_opt()? as f64), json!(*s.max_opt()? as f64)),
        Statistics::Double(s) => pair(json!(s.min_opt()?), json!(s.max_opt()?)),
        Statistics::ByteArray(s)
            if matches!(d.logical_type(), Some(LogicalType::String)) && s.min_is_exact() && s.max_is_exact() =>
        {
            let text = |b: &[u8]| std::str::from_utf8(b).ok().map(|s| json!(s));
            pair(text(s.min_opt()?.as_bytes())?, text(s.max_opt()?.as_bytes())?)
        }
        _ => None,
    }
}

fn less(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => match (a.as_i64(), b.as_i64()) {
            (Some(a), Some(b)) => a < b,
            _ => a.as_f64() < b.as_f64(),
        },
        (Value::String(a), Value::String(b)) => a.as_bytes() < b.as_bytes(),
        (Value::Bool(a), Value::Bool(b)) => a < b,
        _ => false,
    }
}

pub fn create_add(
    _partition_values: &HashMap<String, String>,
    path: String,
    size: i64,
    metadata: &FileMetaData,
    _num_indexed_cols: i32,
    _stats_columns: &Option<Vec<impl AsRef<str>>>,
) -> DeltaResult<Add> {
    let schema = SchemaDescriptor::new(schema_from_thrift(&metadata.schema)?);
    let mut stats = Stats { num_records: metadata.num_rows, ..Default::default() };
    for (i, d) in schema.columns().iter().enumerate() {
        if d.path().parts().len() != 1 || d.max_rep_level() > 0 {
            continue;
        }
        let name = d.name().to_string();
        let mut nulls = Some(0i64);
        let mut min_max: Option<(Value, Value)> = None;
        let mut usable = true;
        for rg in &metadata.row_groups {
            let Some(meta) = rg.columns.get(i).and_then(|c| c.meta_data.as_ref()) else {
                usable = false;
                nulls = None;
                continue;
            };
            let physical = Physical::try_from(meta.type_)?;
            let s = from_thrift(physical, meta.statistics.clone())?;
            nulls = match (nulls, s.as_ref().and_then(|s| s.null_count_opt())) {
                (Some(a), Some(b)) => Some(a + b as i64),
                _ => None,
            };
            let all_null = s.as_ref().and_then(|s| s.null_count_opt()) == Some(rg.num_rows as u64);
            if all_null {
                continue;
            }
            match s.as_ref().and_then(|s| bounds(d, s)) {
                None => usable = false,
                Some((lo, hi)) => {
                    min_max = Some(match min_max {
                        None => (lo, hi),
                        Some((a, b)) => (if less(&lo, &a) { lo } else { a }, if less(&b, &hi) { hi } else { b }),
                    })
                }
            }
        }
        if let Some(n) = nulls {
            stats.null_count.insert(name.clone(), n);
        }
        if let (true, Some((lo, hi))) = (usable, min_max) {
            stats.min_values.insert(name.clone(), lo);
            stats.max_values.insert(name, hi);
        }
    }
    Ok(Add {
        path,
        size,
        modification_time: chrono::Utc::now().timestamp_millis(),
        data_change: true,
        stats: Some(serde_json::to_string(&stats)?),
        ..Default::default()
    })
}
