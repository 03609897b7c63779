use std::collections::HashMap;
use std::sync::Arc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    Unexpected,
    DataInvalid,
    FeatureUnsupported,
}

#[derive(Debug)]
pub struct Error {
    kind: ErrorKind,
    message: String,
    source: Option<Box<dyn std::error::Error + Send + Sync>>,
}
impl Error {
    pub fn new(kind: ErrorKind, message: impl Into<String>) -> Self {
        Error { kind, message: message.into(), source: None }
    }
    pub fn with_source(mut self, src: impl std::error::Error + Send + Sync + 'static) -> Self {
        self.source = Some(Box::new(src));
        self
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} => {}", self.kind, self.message)
    }
}
impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|s| s.as_ref() as &(dyn std::error::Error + 'static))
    }
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TableIdent {
    pub names: Vec<String>,
}
impl TableIdent {
    pub fn from_strs(iter: impl IntoIterator<Item = impl ToString>) -> Result<Self> {
        Ok(TableIdent { names: iter.into_iter().map(|s| s.to_string()).collect() })
    }
}

pub struct TableCreation {
    pub name: String,
    pub schema: spec::Schema,
    pub location: Option<String>,
}
#[derive(Default)]
pub struct TableCreationBuilder {
    name: String,
    schema: Option<spec::Schema>,
    location: Option<String>,
}
impl TableCreation {
    pub fn builder() -> TableCreationBuilder {
        TableCreationBuilder::default()
    }
}
impl TableCreationBuilder {
    pub fn name(mut self, n: String) -> Self {
        self.name = n;
        self
    }
    pub fn schema(mut self, s: spec::Schema) -> Self {
        self.schema = Some(s);
        self
    }
    pub fn location(mut self, l: String) -> Self {
        self.location = Some(l);
        self
    }
    pub fn build(self) -> TableCreation {
        TableCreation { name: self.name, schema: self.schema.expect("schema"), location: self.location }
    }
}

pub mod file_io {
    use super::*;
    use bytes::Bytes;
    use std::io::Write;
    use std::path::PathBuf;

    /// A fault to inject: called with (operation, path); an Err fails that operation.
    pub type Hook = Arc<dyn Fn(&str, &str) -> std::result::Result<(), String> + Send + Sync>;
    static HOOK: std::sync::RwLock<Option<Hook>> = std::sync::RwLock::new(None);
    pub fn set_hook(h: Option<Hook>) {
        *HOOK.write().unwrap() = h;
    }
    fn hook(op: &str, path: &str) -> Result<()> {
        let h = HOOK.read().unwrap().clone();
        match h {
            Some(h) => h(op, path).map_err(|m| Error::new(ErrorKind::Unexpected, m)),
            None => Ok(()),
        }
    }

    #[derive(Debug, Clone, Default)]
    pub struct FileIO {
        pub props: HashMap<String, String>,
    }
    pub struct FileIOBuilder {
        props: HashMap<String, String>,
    }
    impl FileIOBuilder {
        pub fn with_props(
            mut self,
            args: impl IntoIterator<Item = (impl ToString, impl ToString)>,
        ) -> Self {
            self.props.extend(args.into_iter().map(|(k, v)| (k.to_string(), v.to_string())));
            self
        }
        pub fn build(self) -> Result<FileIO> {
            Ok(FileIO { props: self.props })
        }
    }
    impl FileIO {
        pub fn from_path(_path: impl AsRef<str>) -> Result<FileIOBuilder> {
            Ok(FileIOBuilder { props: HashMap::new() })
        }
        pub fn new_input(&self, path: impl AsRef<str>) -> Result<InputFile> {
            Ok(InputFile { path: local(path.as_ref())? })
        }
        pub fn new_output(&self, path: impl AsRef<str>) -> Result<OutputFile> {
            Ok(OutputFile { path: local(path.as_ref())?, location: path.as_ref().to_string() })
        }
    }
    fn local(p: &str) -> Result<PathBuf> {
        let p = p.strip_prefix("file://").unwrap_or(p);
        if !p.starts_with('/') {
            return Err(Error::new(ErrorKind::FeatureUnsupported, format!("not a local path: {p}")));
        }
        Ok(PathBuf::from(p))
    }
    fn io(e: std::io::Error) -> Error {
        Error::new(ErrorKind::Unexpected, e.to_string()).with_source(e)
    }
    pub struct InputFile {
        path: PathBuf,
    }
    impl InputFile {
        pub async fn exists(&self) -> Result<bool> {
            hook("exists", &self.path.to_string_lossy())?;
            Ok(self.path.exists())
        }
        pub async fn read(&self) -> Result<Bytes> {
            hook("read", &self.path.to_string_lossy())?;
            Ok(std::fs::read(&self.path).map_err(io)?.into())
        }
    }
    pub struct OutputFile {
        path: PathBuf,
        location: String,
    }
    impl OutputFile {
        pub fn location(&self) -> &str {
            &self.location
        }
        pub(crate) fn tmp(&self, bs: &[u8]) -> Result<PathBuf> {
            std::fs::create_dir_all(self.path.parent().unwrap()).map_err(io)?;
            let t = self.path.with_extension(format!("tmp{}", uuid::Uuid::new_v4()));
            let mut f = std::fs::File::create(&t).map_err(io)?;
            f.write_all(bs).map_err(io)?;
            Ok(t)
        }
        pub async fn write(&self, bs: Bytes) -> Result<()> {
            hook("write", &self.path.to_string_lossy())?;
            let t = self.tmp(&bs)?;
            std::fs::rename(&t, &self.path).map_err(io)
        }
        pub async fn write_exclusive(&self, bs: Bytes) -> Result<()> {
            hook("write_exclusive", &self.path.to_string_lossy())?;
            let t = self.tmp(&bs)?;
            let r = std::fs::hard_link(&t, &self.path);
            let _ = std::fs::remove_file(&t);
            match r {
                Ok(()) => Ok(()),
                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {
                    Err(Error::new(ErrorKind::Unexpected, "exists").with_source(
                        opendal::Error::new(opendal::ErrorKind::AlreadyExists, "exists"),
                    ))
                }
                Err(e) => Err(io(e)),
            }
        }
    }
}

pub mod spec {
    use super::file_io::*;
    use super::*;
    use serde::{Deserialize, Serialize};

    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub enum PrimitiveType {
        Boolean,
        Int,
        Long,
        Float,
        Double,
        Decimal { precision: u32, scale: u32 },
        Date,
        Time,
        Timestamp,
        Timestamptz,
        TimestampNs,
        TimestamptzNs,
        String,
        Uuid,
        Fixed(u64),
        Binary,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub enum Type {
        Primitive(PrimitiveType),
        List(Box<NestedField>),
        Struct(Vec<NestedField>),
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct NestedField {
        pub id: i32,
        pub name: String,
        pub required: bool,
        pub field_type: Box<Type>,
    }
    pub type NestedFieldRef = Arc<NestedField>;
    impl NestedField {
        pub fn new(id: i32, name: impl ToString, t: Type, required: bool) -> Self {
            NestedField { id, name: name.to_string(), required, field_type: Box::new(t) }
        }
        pub fn required(id: i32, name: impl ToString, t: Type) -> Self {
            Self::new(id, name, t, true)
        }
        pub fn optional(id: i32, name: impl ToString, t: Type) -> Self {
            Self::new(id, name, t, false)
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
    pub struct StructType {
        fields: Vec<NestedFieldRef>,
    }
    impl StructType {
        pub fn fields(&self) -> &[NestedFieldRef] {
            &self.fields
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Schema {
        r#struct: StructType,
        schema_id: i32,
    }
    pub type SchemaRef = Arc<Schema>;
    impl Schema {
        pub fn builder() -> SchemaBuilder {
            SchemaBuilder::default()
        }
        pub fn as_struct(&self) -> &StructType {
            &self.r#struct
        }
    }
    #[derive(Default)]
    pub struct SchemaBuilder {
        fields: Vec<NestedFieldRef>,
        id: i32,
    }
    impl SchemaBuilder {
        pub fn with_fields(mut self, f: impl IntoIterator<Item = NestedFieldRef>) -> Self {
            self.fields.extend(f);
            self
        }
        pub fn with_schema_id(mut self, i: i32) -> Self {
            self.id = i;
            self
        }
        pub fn build(self) -> Result<Schema> {
            Ok(Schema { r#struct: StructType { fields: self.fields }, schema_id: self.id })
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub enum Operation {
        Append,
        Replace,
        Overwrite,
        Delete,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Summary {
        pub operation: Operation,
        pub additional_properties: HashMap<String, String>,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Snapshot {
        snapshot_id: i64,
        sequence_number: i64,
        timestamp_ms: i64,
        manifest_list: String,
        schema_id: i32,
        summary: Option<Summary>,
    }
    pub type SnapshotRef = Arc<Snapshot>;
    pub struct SnapshotBuilder(Snapshot);
    impl Snapshot {
        pub fn builder() -> SnapshotBuilder {
            SnapshotBuilder(Snapshot {
                snapshot_id: 0,
                sequence_number: 0,
                timestamp_ms: 0,
                manifest_list: String::new(),
                schema_id: 0,
                summary: None,
            })
        }
        pub fn snapshot_id(&self) -> i64 {
            self.snapshot_id
        }
        pub fn sequence_number(&self) -> i64 {
            self.sequence_number
        }
        pub async fn load_manifest_list(
            &self,
            io: &FileIO,
            _m: &TableMetadata,
        ) -> Result<ManifestList> {
            let bs = io.new_input(&self.manifest_list)?.read().await?;
            Ok(ManifestList { entries: de(&bs)? })
        }
    }
    impl SnapshotBuilder {
        pub fn with_snapshot_id(mut self, v: i64) -> Self {
            self.0.snapshot_id = v;
            self
        }
        pub fn with_schema_id(mut self, v: i32) -> Self {
            self.0.schema_id = v;
            self
        }
        pub fn with_manifest_list(mut self, v: String) -> Self {
            self.0.manifest_list = v;
            self
        }
        pub fn with_sequence_number(mut self, v: i64) -> Self {
            self.0.sequence_number = v;
            self
        }
        pub fn with_timestamp_ms(mut self, v: i64) -> Self {
            self.0.timestamp_ms = v;
            self
        }
        pub fn with_summary(mut self, v: Summary) -> Self {
            self.0.summary = Some(v);
            self
        }
        pub fn build(self) -> Snapshot {
            self.0
        }
    }
    fn de<T: for<'a> Deserialize<'a>>(bs: &[u8]) -> Result<T> {
        serde_json::from_slice(bs).map_err(|e| Error::new(ErrorKind::DataInvalid, e.to_string()))
    }
    fn ser<T: Serialize>(v: &T) -> bytes::Bytes {
        serde_json::to_vec(v).unwrap().into()
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub enum SnapshotRetention {
        Branch,
    }
    impl SnapshotRetention {
        pub fn branch(_a: Option<i32>, _b: Option<i64>, _c: Option<i64>) -> Self {
            SnapshotRetention::Branch
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SnapshotReference {
        pub snapshot_id: i64,
        pub retention: SnapshotRetention,
    }
    impl SnapshotReference {
        pub fn new(snapshot_id: i64, retention: SnapshotRetention) -> Self {
            SnapshotReference { snapshot_id, retention }
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct TableMetadata {
        location: String,
        last_sequence_number: i64,
        schema: SchemaRef,
        snapshots: Vec<SnapshotRef>,
        current_snapshot_id: Option<i64>,
        refs: HashMap<String, SnapshotReference>,
        metadata_log: Vec<String>,
    }
    impl TableMetadata {
        pub fn location(&self) -> &str {
            &self.location
        }
        pub fn current_schema(&self) -> &SchemaRef {
            &self.schema
        }
        pub fn last_sequence_number(&self) -> i64 {
            self.last_sequence_number
        }
        pub fn current_snapshot(&self) -> Option<&SnapshotRef> {
            let id = self.current_snapshot_id?;
            self.snapshots.iter().find(|s| s.snapshot_id == id)
        }
        pub fn snapshots(&self) -> impl ExactSizeIterator<Item = &SnapshotRef> {
            self.snapshots.iter()
        }
        pub fn metadata_log(&self) -> &[String] {
            &self.metadata_log
        }
    }
    pub struct TableMetadataBuilder(TableMetadata);
    pub struct TableMetadataBuildResult {
        pub metadata: TableMetadata,
    }
    impl From<TableMetadataBuildResult> for TableMetadata {
        fn from(r: TableMetadataBuildResult) -> Self {
            r.metadata
        }
    }
    impl TableMetadataBuilder {
        pub fn from_table_creation(c: TableCreation) -> Result<Self> {
            Ok(TableMetadataBuilder(TableMetadata {
                location: c.location.unwrap_or_default(),
                last_sequence_number: 0,
                schema: Arc::new(c.schema),
                snapshots: vec![],
                current_snapshot_id: None,
                refs: HashMap::new(),
                metadata_log: vec![],
            }))
        }
        pub fn new_from_metadata(m: TableMetadata, prev: Option<String>) -> Self {
            let mut m = m;
            m.metadata_log.extend(prev);
            TableMetadataBuilder(m)
        }
        pub fn add_snapshot(mut self, s: Snapshot) -> Result<Self> {
            if self.0.snapshots.iter().any(|o| o.snapshot_id == s.snapshot_id) {
                return Err(Error::new(ErrorKind::DataInvalid, "snapshot id already exists"));
            }
            if s.sequence_number <= self.0.last_sequence_number {
                return Err(Error::new(
                    ErrorKind::DataInvalid,
                    "cannot add snapshot with sequence number older than last sequence number",
                ));
            }
            self.0.last_sequence_number = s.sequence_number;
            self.0.snapshots.push(Arc::new(s));
            Ok(self)
        }
        pub fn set_ref(mut self, name: &str, r: SnapshotReference) -> Result<Self> {
            if !self.0.snapshots.iter().any(|o| o.snapshot_id == r.snapshot_id) {
                return Err(Error::new(ErrorKind::DataInvalid, "unknown snapshot"));
            }
            if name == "main" {
                self.0.current_snapshot_id = Some(r.snapshot_id);
            }
            self.0.refs.insert(name.to_string(), r);
            Ok(self)
        }
        pub fn build(self) -> Result<TableMetadataBuildResult> {
            Ok(TableMetadataBuildResult { metadata: self.0 })
        }
    }

    pub struct PartitionSpec;
    pub struct PartitionSpecBuilder;
    impl PartitionSpec {
        pub fn builder(_s: impl Into<SchemaRef>) -> PartitionSpecBuilder {
            PartitionSpecBuilder
        }
    }
    impl PartitionSpecBuilder {
        pub fn with_spec_id(self, _i: i32) -> Self {
            self
        }
        pub fn build(self) -> Result<PartitionSpec> {
            Ok(PartitionSpec)
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Struct;
    impl Struct {
        pub fn empty() -> Self {
            Struct
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub enum DataContentType {
        Data,
        PositionDeletes,
        EqualityDeletes,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub enum DataFileFormat {
        Avro,
        Orc,
        Parquet,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub enum FormatVersion {
        V1,
        V2,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub enum ManifestContentType {
        Data,
        Deletes,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub enum ManifestStatus {
        Existing,
        Added,
        Deleted,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct DataFile {
        pub(crate) content: DataContentType,
        pub(crate) file_path: String,
        pub(crate) record_count: u64,
    }
    impl DataFile {
        pub fn file_path(&self) -> &str {
            &self.file_path
        }
        pub fn record_count(&self) -> u64 {
            self.record_count
        }
    }
    pub struct DataFileBuilder(pub(crate) DataFile);
    impl DataFileBuilder {
        pub fn content(&mut self, c: DataContentType) -> &mut Self {
            self.0.content = c;
            self
        }
        pub fn partition(&mut self, _p: Struct) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> Result<DataFile> {
            Ok(self.0.clone())
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ManifestEntry {
        pub status: ManifestStatus,
        pub snapshot_id: i64,
        pub data_file: DataFile,
    }
    pub struct ManifestEntryBuilder {
        status: ManifestStatus,
        snapshot_id: i64,
        data_file: Option<DataFile>,
    }
    impl ManifestEntry {
        pub fn builder() -> ManifestEntryBuilder {
            ManifestEntryBuilder { status: ManifestStatus::Existing, snapshot_id: 0, data_file: None }
        }
    }
    impl ManifestEntryBuilder {
        pub fn status(mut self, s: ManifestStatus) -> Self {
            self.status = s;
            self
        }
        pub fn snapshot_id(mut self, s: i64) -> Self {
            self.snapshot_id = s;
            self
        }
        pub fn data_file(mut self, s: DataFile) -> Self {
            self.data_file = Some(s);
            self
        }
        pub fn build(self) -> ManifestEntry {
            ManifestEntry {
                status: self.status,
                snapshot_id: self.snapshot_id,
                data_file: self.data_file.unwrap(),
            }
        }
    }
    pub struct ManifestMetadata;
    pub struct ManifestMetadataBuilder;
    impl ManifestMetadata {
        pub fn builder() -> ManifestMetadataBuilder {
            ManifestMetadataBuilder
        }
    }
    impl ManifestMetadataBuilder {
        pub fn schema_id(self, _i: i32) -> Self {
            self
        }
        pub fn schema(self, _s: SchemaRef) -> Self {
            self
        }
        pub fn partition_spec(self, _s: PartitionSpec) -> Self {
            self
        }
        pub fn content(self, _s: ManifestContentType) -> Self {
            self
        }
        pub fn format_version(self, _s: FormatVersion) -> Self {
            self
        }
        pub fn build(self) -> ManifestMetadata {
            ManifestMetadata
        }
    }
    pub struct Manifest {
        entries: Vec<ManifestEntry>,
    }
    impl Manifest {
        pub fn new(_m: ManifestMetadata, entries: Vec<ManifestEntry>) -> Self {
            Manifest { entries }
        }
    }
    pub struct ManifestWriter {
        out: OutputFile,
        snapshot_id: i64,
    }
    impl ManifestWriter {
        pub fn new(out: OutputFile, snapshot_id: i64, _key_metadata: Vec<u8>) -> Self {
            ManifestWriter { out, snapshot_id }
        }
        pub async fn write(self, m: Manifest) -> Result<ManifestFile> {
            self.out.write(ser(&m.entries)).await?;
            Ok(ManifestFile {
                manifest_path: self.out.location().to_string(),
                added_snapshot_id: self.snapshot_id,
                sequence_number: -1,
            })
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ManifestFile {
        pub manifest_path: String,
        pub added_snapshot_id: i64,
        pub sequence_number: i64,
    }
    impl ManifestFile {
        pub async fn load(&self, io: &FileIO) -> Result<Vec<ManifestEntry>> {
            de(&io.new_input(&self.manifest_path)?.read().await?)
        }
    }
    pub struct ManifestList {
        entries: Vec<ManifestFile>,
    }
    impl ManifestList {
        pub fn consume_entries(self) -> Vec<ManifestFile> {
            self.entries
        }
    }
    pub struct ManifestListWriter {
        out: OutputFile,
        snapshot_id: i64,
        seq: i64,
        entries: Vec<ManifestFile>,
    }
    impl ManifestListWriter {
        pub fn v2(out: OutputFile, snapshot_id: i64, _parent: Option<i64>, seq: i64) -> Self {
            ManifestListWriter { out, snapshot_id, seq, entries: vec![] }
        }
        pub fn add_manifests(
            &mut self,
            ms: impl Iterator<Item = ManifestFile>,
        ) -> Result<()> {
            for mut m in ms {
                if m.sequence_number == -1 {
                    if m.added_snapshot_id != self.snapshot_id {
                        return Err(Error::new(
                            ErrorKind::DataInvalid,
                            "unassigned sequence number for a manifest of another snapshot",
                        ));
                    }
                    m.sequence_number = self.seq;
                }
                self.entries.push(m);
            }
            Ok(())
        }
        pub async fn close(self) -> Result<()> {
            self.out.write(ser(&self.entries)).await
        }
    }
}

pub mod arrow {
    use super::spec::*;
    use super::*;
    use ::arrow::datatypes::{DataType, TimeUnit};

    const FIELD_ID: &str = "PARQUET:field_id";

    fn ty(t: &DataType) -> Result<Type> {
        use PrimitiveType as P;
        Ok(Type::Primitive(match t {
            DataType::Boolean => P::Boolean,
            DataType::Int8 | DataType::Int16 | DataType::Int32 => P::Int,
            DataType::Int64 => P::Long,
            DataType::Float32 => P::Float,
            DataType::Float64 => P::Double,
            DataType::Decimal128(p, s) => P::Decimal { precision: *p as u32, scale: *s as u32 },
            DataType::Date32 => P::Date,
            DataType::Time64(TimeUnit::Microsecond) => P::Time,
            DataType::Timestamp(TimeUnit::Microsecond, None) => P::Timestamp,
            DataType::Timestamp(TimeUnit::Microsecond, Some(z)) if &**z == "UTC" || &**z == "+00:00" => {
                P::Timestamptz
            }
            DataType::Timestamp(TimeUnit::Nanosecond, None) => P::TimestampNs,
            DataType::Utf8 | DataType::LargeUtf8 => P::String,
            DataType::Binary | DataType::LargeBinary => P::Binary,
            t => {
                return Err(Error::new(
                    ErrorKind::DataInvalid,
                    format!("Unsupported Arrow data type: {t}"),
                ))
            }
        }))
    }

    pub fn arrow_schema_to_schema(s: &::arrow::datatypes::Schema) -> Result<Schema> {
        let mut fields = vec![];
        for f in s.fields() {
            let id = f
                .metadata()
                .get(FIELD_ID)
                .and_then(|v| v.parse::<i32>().ok())
                .ok_or_else(|| Error::new(ErrorKind::DataInvalid, "Field id not found in metadata"))?;
            fields.push(Arc::new(NestedField::new(id, f.name(), ty(f.data_type())?, !f.is_nullable())));
        }
        Schema::builder().with_fields(fields).build()
    }

    pub fn schema_to_arrow_schema(s: &Schema) -> Result<::arrow::datatypes::Schema> {
        use PrimitiveType as P;
        let fs = s
            .as_struct()
            .fields()
            .iter()
            .map(|f| {
                let t = match f.field_type.as_ref() {
                    Type::Primitive(p) => match p {
                        P::Boolean => DataType::Boolean,
                        P::Int => DataType::Int32,
                        P::Long => DataType::Int64,
                        P::Float => DataType::Float32,
                        P::Double => DataType::Float64,
                        P::Decimal { precision, scale } => {
                            DataType::Decimal128(*precision as u8, *scale as i8)
                        }
                        P::Date => DataType::Date32,
                        P::Time => DataType::Time64(TimeUnit::Microsecond),
                        P::Timestamp => DataType::Timestamp(TimeUnit::Microsecond, None),
                        P::Timestamptz => {
                            DataType::Timestamp(TimeUnit::Microsecond, Some("+00:00".into()))
                        }
                        P::TimestampNs => DataType::Timestamp(TimeUnit::Nanosecond, None),
                        P::String => DataType::Utf8,
                        P::Binary => DataType::LargeBinary,
                        t => return Err(Error::new(ErrorKind::FeatureUnsupported, format!("{t:?}"))),
                    },
                    t => return Err(Error::new(ErrorKind::FeatureUnsupported, format!("{t:?}"))),
                };
                Ok(::arrow::datatypes::Field::new(&f.name, t, !f.required))
            })
            .collect::<Result<Vec<_>>>()?;
        Ok(::arrow::datatypes::Schema::new(fs))
    }
}

pub mod table {
    use super::file_io::*;
    use super::spec::*;
    use super::*;

    #[derive(Debug, Clone)]
    pub struct Table {
        io: FileIO,
        metadata: Arc<TableMetadata>,
        metadata_location: Option<String>,
        ident: TableIdent,
    }
    impl Table {
        /// Not in the real crate under this name: a table object from its parts.
        pub fn from_parts(io: FileIO, metadata: TableMetadata, ident: TableIdent) -> Self {
            Table { io, metadata: Arc::new(metadata), metadata_location: None, ident }
        }
        pub fn metadata(&self) -> &TableMetadata {
            &self.metadata
        }
        pub fn file_io(&self) -> &FileIO {
            &self.io
        }
        pub fn identifier(&self) -> &TableIdent {
            &self.ident
        }
        pub fn metadata_location(&self) -> Option<&str> {
            self.metadata_location.as_deref()
        }
        /// Not in the real crate: the data files of the current snapshot.
        pub async fn data_files(&self) -> Result<Vec<DataFile>> {
            let mut out = vec![];
            if let Some(s) = self.metadata.current_snapshot() {
                for m in s.load_manifest_list(&self.io, &self.metadata).await?.consume_entries() {
                    for e in m.load(&self.io).await? {
                        if e.status != ManifestStatus::Deleted {
                            out.push(e.data_file);
                        }
                    }
                }
            }
            Ok(out)
        }
    }
    pub struct StaticTable(Table);
    impl StaticTable {
        pub async fn from_metadata_file(
            path: &str,
            ident: TableIdent,
            io: FileIO,
        ) -> Result<Self> {
            let bs = io.new_input(path)?.read().await?;
            let metadata: TableMetadata = serde_json::from_slice(&bs)
                .map_err(|e| Error::new(ErrorKind::DataInvalid, e.to_string()))?;
            Ok(StaticTable(Table {
                io,
                metadata: Arc::new(metadata),
                metadata_location: Some(path.to_string()),
                ident,
            }))
        }
        pub fn into_table(self) -> Table {
            self.0
        }
    }
}

pub mod writer {
    pub mod file_writer {
        use crate::io::FileIO;
        use crate::spec::*;
        use crate::{Error, ErrorKind, Result};
        use ::arrow::array::RecordBatch;
        use location_generator::*;
        use parquet::arrow::ArrowWriter;
        use parquet::file::properties::WriterProperties;

        #[allow(async_fn_in_trait)]
        pub trait FileWriterBuilder: Clone {
            type R: FileWriter;
            async fn build(self) -> Result<Self::R>;
        }
        #[allow(async_fn_in_trait)]
        pub trait FileWriter {
            async fn write(&mut self, batch: &RecordBatch) -> Result<()>;
            async fn close(self) -> Result<Vec<DataFileBuilder>>;
        }
        #[derive(Clone)]
        pub struct ParquetWriterBuilder {
            props: WriterProperties,
            schema: SchemaRef,
            io: FileIO,
            loc: DefaultLocationGenerator,
            name: DefaultFileNameGenerator,
        }
        impl ParquetWriterBuilder {
            pub fn new(
                props: WriterProperties,
                schema: SchemaRef,
                io: FileIO,
                loc: DefaultLocationGenerator,
                name: DefaultFileNameGenerator,
            ) -> Self {
                ParquetWriterBuilder { props, schema, io, loc, name }
            }
        }
        pub struct ParquetWriter {
            io: FileIO,
            path: String,
            schema: ::arrow::datatypes::SchemaRef,
            w: ArrowWriter<Vec<u8>>,
            rows: u64,
        }
        impl FileWriterBuilder for ParquetWriterBuilder {
            type R = ParquetWriter;
            async fn build(self) -> Result<ParquetWriter> {
                let schema = std::sync::Arc::new(crate::arrow::schema_to_arrow_schema(&self.schema)?);
                Ok(ParquetWriter {
                    path: self.loc.generate(&self.name.generate()),
                    w: ArrowWriter::try_new(vec![], schema.clone(), Some(self.props)).map_err(e)?,
                    schema,
                    io: self.io,
                    rows: 0,
                })
            }
        }
        fn e(x: impl std::fmt::Display) -> Error {
            Error::new(ErrorKind::Unexpected, x.to_string())
        }
        impl FileWriter for ParquetWriter {
            async fn write(&mut self, b: &RecordBatch) -> Result<()> {
                let cols = b
                    .columns()
                    .iter()
                    .zip(self.schema.fields())
                    .map(|(c, f)| ::arrow::compute::cast(c, f.data_type()).map_err(e))
                    .collect::<Result<Vec<_>>>()?;
                let b = RecordBatch::try_new(self.schema.clone(), cols).map_err(e)?;
                self.rows += b.num_rows() as u64;
                self.w.write(&b).map_err(e)
            }
            async fn close(self) -> Result<Vec<DataFileBuilder>> {
                let bytes = self.w.into_inner().map_err(e)?;
                self.io.new_output(&self.path)?.write(bytes.into()).await?;
                Ok(vec![DataFileBuilder(DataFile {
                    content: DataContentType::PositionDeletes,
                    file_path: self.path,
                    record_count: self.rows,
                })])
            }
        }

        pub mod location_generator {
            use crate::spec::*;
            use crate::Result;
            #[derive(Clone)]
            pub struct DefaultLocationGenerator {
                dir: String,
            }
            impl DefaultLocationGenerator {
                pub fn new(m: TableMetadata) -> Result<Self> {
                    Ok(DefaultLocationGenerator {
                        dir: format!("{}/data", m.location().trim_end_matches('/')),
                    })
                }
                pub fn generate(&self, f: &str) -> String {
                    format!("{}/{f}", self.dir)
                }
            }
            #[derive(Clone)]
            pub struct DefaultFileNameGenerator {
                prefix: String,
                suffix: Option<String>,
                n: std::sync::Arc<std::sync::atomic::AtomicU64>,
            }
            impl DefaultFileNameGenerator {
                pub fn new(prefix: String, suffix: Option<String>, _f: DataFileFormat) -> Self {
                    DefaultFileNameGenerator { prefix, suffix, n: Default::default() }
                }
                pub fn generate(&self) -> String {
                    let n = self.n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let s = self.suffix.as_ref().map(|s| format!("-{s}")).unwrap_or_default();
                    format!("{}-{n:05}{s}.parquet", self.prefix)
                }
            }
        }
    }
}
