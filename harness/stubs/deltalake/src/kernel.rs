use crate::errors::DeltaTableError;
use arrow_schema::{DataType, Field, Schema as ArrowSchema, TimeUnit};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Arc;

pub type Schema = StructType;

/// A table's columns, with Arrow types standing for Delta's.
#[derive(Debug, Clone, PartialEq)]
pub struct StructType {
    fields: Vec<StructField>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct StructField {
    pub(crate) field: Field,
}

impl StructField {
    pub fn name(&self) -> &String {
        self.field.name()
    }
}

impl StructType {
    pub fn fields(&self) -> impl Iterator<Item = &StructField> {
        self.fields.iter()
    }
}

/// The Arrow type that a column gets once it went through Delta's type system.
pub(crate) fn canonical(t: &DataType) -> Result<DataType, DeltaTableError> {
    use DataType::*;
    Ok(match t {
        Utf8 | LargeUtf8 | Utf8View => Utf8,
        Int64 | UInt64 => Int64,
        Int32 | UInt32 => Int32,
        Int16 | UInt16 => Int16,
        Int8 | UInt8 => Int8,
        Float32 => Float32,
        Float64 => Float64,
        Boolean => Boolean,
        Binary | LargeBinary | BinaryView | FixedSizeBinary(_) => Binary,
        Date32 | Date64 => Date32,
        Decimal128(p, s) | Decimal256(p, s) if *p <= 38 && *s >= 0 => Decimal128(*p, *s),
        Timestamp(TimeUnit::Microsecond, None) => Timestamp(TimeUnit::Microsecond, None),
        Timestamp(TimeUnit::Microsecond, Some(tz)) if tz.eq_ignore_ascii_case("utc") || tz.as_ref() == "+00:00" => {
            Timestamp(TimeUnit::Microsecond, Some("UTC".into()))
        }
        Struct(fields) => Struct(
            fields
                .iter()
                .map(|f| Ok(f.as_ref().clone().with_data_type(canonical(f.data_type())?)))
                .collect::<Result<Vec<_>, DeltaTableError>>()?
                .into(),
        ),
        List(f) | LargeList(f) | FixedSizeList(f, _) => {
            List(Arc::new(f.as_ref().clone().with_data_type(canonical(f.data_type())?)))
        }
        Dictionary(_, v) => canonical(v)?,
        t => return Err(DeltaTableError::SchemaMismatch(t.to_string())),
    })
}

impl TryFrom<&ArrowSchema> for StructType {
    type Error = DeltaTableError;
    fn try_from(s: &ArrowSchema) -> Result<Self, DeltaTableError> {
        Ok(Self {
            fields: s
                .fields()
                .iter()
                .map(|f| {
                    Ok(StructField {
                        field: Field::new(f.name(), canonical(f.data_type())?, f.is_nullable()),
                    })
                })
                .collect::<Result<_, DeltaTableError>>()?,
        })
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Metadata {
    pub name: Option<String>,
    pub description: Option<String>,
    pub schema: Vec<StructField>,
}

impl Metadata {
    pub fn arrow_schema(&self) -> ArrowSchema {
        ArrowSchema::new(self.schema.iter().map(|f| f.field.clone()).collect::<Vec<_>>())
    }
}

#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Add {
    pub path: String,
    pub partition_values: HashMap<String, Option<String>>,
    pub size: i64,
    pub modification_time: i64,
    pub data_change: bool,
    pub stats: Option<String>,
    pub tags: Option<HashMap<String, Option<String>>>,
    pub deletion_vector: Option<Value>,
    pub base_row_id: Option<i64>,
    pub default_row_commit_version: Option<i64>,
    pub clustering_provider: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Stats {
    pub num_records: i64,
    pub min_values: HashMap<String, Value>,
    pub max_values: HashMap<String, Value>,
    pub null_count: HashMap<String, i64>,
}

impl Add {
    pub fn get_json_stats(&self) -> Result<Option<Stats>, serde_json::Error> {
        Ok(self.get_stats()?.map(|mut s| {
            s.num_records += MORE_RECORDS.get();
            s
        }))
    }
    pub fn get_stats(&self) -> Result<Option<Stats>, serde_json::Error> {
        self.stats.as_ref().map(|s| serde_json::from_str(s)).transpose()
    }
}

thread_local! {
    static MORE_RECORDS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
/// Lets files look as if they had more records than they do, from this thread.
pub fn add_to_num_records(n: i64) {
    MORE_RECORDS.set(n);
}

#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Remove {
    pub path: String,
    pub data_change: bool,
    pub deletion_timestamp: Option<i64>,
    pub extended_file_metadata: Option<bool>,
    pub partition_values: Option<HashMap<String, Option<String>>>,
    pub size: Option<i64>,
    pub tags: Option<HashMap<String, Option<String>>>,
    pub deletion_vector: Option<Value>,
    pub base_row_id: Option<i64>,
    pub default_row_commit_version: Option<i64>,
}

#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CommitInfo {
    pub timestamp: Option<i64>,
    pub operation: Option<String>,
    #[serde(flatten, default)]
    pub info: HashMap<String, Value>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Action {
    #[serde(rename = "metaData")]
    Metadata(Metadata),
    #[serde(rename = "add")]
    Add(Add),
    #[serde(rename = "remove")]
    Remove(Remove),
    #[serde(rename = "commitInfo")]
    CommitInfo(CommitInfo),
}

impl Action {
    pub fn commit_info(info: HashMap<String, Value>) -> Self {
        Self::CommitInfo(CommitInfo { info, ..Default::default() })
    }
}
