//! Reference model of the catalog, operations on it, and the observation of the real one.
use arrow_schema::{DataType, Field, Fields, IntervalUnit, Schema, TimeUnit};
use pbt::{dbg_short, Fail, Src};
use seafowl::repository::interface::{DroppedTableDeletionStatus as Status, Error, Repository};
use seafowl::repository::sqlite::SqliteRepository;
use seafowl::wasm_udf::data_types::*;
use std::sync::Arc;
use uuid::Uuid;

pub const NAMES: &[&str] = &[
    "a", "A", "b", "a ", "public", "t\"x", "t'x", "ä", "Ä", "", "%", "_", "a.b", "null", "1", "01", "système", "🦭", "a\nb", "$1", "?", "a;--",
    "testdb", "x'00'", "0x1", "1e0",
];

/// per case few names, so that they collide
pub fn names(s: &mut Src, n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..n).map(|_| s.pick(NAMES).to_string()).collect();
    if s.chance(1, 20) {
        v.push("n".repeat(3000));
    }
    if s.chance(1, 2) {
        let base = v[0].clone();
        v.push(if s.bool() { base.to_uppercase() } else { format!("{base}x") });
    }
    v.sort();
    v.dedup();
    v
}

pub fn uuid(s: &mut Src) -> Uuid {
    Uuid::from_u64_pair(s.u64(), s.u64())
}

pub fn data_type(s: &mut Src, depth: usize) -> DataType {
    let n = if depth == 0 { 20 } else { 25 };
    match s.usize(n) {
        0 => DataType::Int64,
        1 => DataType::Utf8,
        2 => DataType::Boolean,
        3 => DataType::Float64,
        4 => DataType::Date32,
        5 => DataType::Timestamp(*s.pick(&[TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond]), None),
        6 => DataType::Timestamp(TimeUnit::Nanosecond, Some((*s.pick(&["UTC", "+00:00", "Europe/Paris", ""])).into())),
        7 => DataType::Decimal128(s.urange(1, 38) as u8, s.range(-5, 38) as i8),
        8 => DataType::Decimal256(s.urange(1, 76) as u8, s.range(-5, 76) as i8),
        9 => DataType::Int8,
        10 => DataType::UInt64,
        11 => DataType::Float32,
        12 => DataType::Float16,
        13 => DataType::LargeUtf8,
        14 => DataType::Binary,
        15 => DataType::Time64(TimeUnit::Nanosecond),
        16 => DataType::Interval(*s.pick(&[IntervalUnit::YearMonth, IntervalUnit::DayTime, IntervalUnit::MonthDayNano])),
        17 => DataType::Null,
        18 => DataType::FixedSizeBinary(s.range(0, 40) as i32),
        19 => DataType::Duration(TimeUnit::Microsecond),
        20 => DataType::List(Arc::new(field(s, depth - 1))),
        21 => DataType::Struct(Fields::from((0..s.usize(3)).map(|_| field(s, depth - 1)).collect::<Vec<_>>())),
        22 => DataType::Dictionary(Box::new(DataType::Int32), Box::new(DataType::Utf8)),
        23 => DataType::FixedSizeList(Arc::new(field(s, depth - 1)), s.range(0, 9) as i32),
        _ => DataType::LargeList(Arc::new(field(s, depth - 1))),
    }
}

pub fn field(s: &mut Src, depth: usize) -> Field {
    let name = s.pick(NAMES).to_string();
    let f = Field::new(name, data_type(s, depth), s.bool());
    if s.chance(1, 8) {
        f.with_metadata([(s.pick(NAMES).to_string(), s.pick(NAMES).to_string())].into())
    } else {
        f
    }
}

/// mostly distinct column names
pub fn schema(s: &mut Src, max: usize) -> Schema {
    let mut fields = s.vec(0, max, |s| field(s, 2));
    if !s.chance(1, 12) {
        let mut seen = std::collections::HashSet::new();
        fields.retain(|f| seen.insert(f.name().clone()));
    }
    Schema::new(fields)
}

pub const TYPES: &[CreateFunctionDataType] = &[
    CreateFunctionDataType::BIGINT,
    CreateFunctionDataType::I32,
    CreateFunctionDataType::I64,
    CreateFunctionDataType::F32,
    CreateFunctionDataType::F64,
    CreateFunctionDataType::SMALLINT,
    CreateFunctionDataType::INT,
    CreateFunctionDataType::CHAR,
    CreateFunctionDataType::VARCHAR,
    CreateFunctionDataType::TEXT,
    CreateFunctionDataType::DECIMAL { precision: 0, scale: 0 },
    CreateFunctionDataType::FLOAT,
    CreateFunctionDataType::REAL,
    CreateFunctionDataType::DOUBLE,
    CreateFunctionDataType::BOOLEAN,
    CreateFunctionDataType::DATE,
    CreateFunctionDataType::TIMESTAMP,
];
pub const TYPE_NAMES: &[&str] = &[
    "bigint", "i32", "i64", "f32", "f64", "smallint", "int", "char", "varchar", "text", "decimal", "float", "real", "double", "boolean",
    "date", "timestamp",
];

pub fn details(s: &mut Src) -> CreateFunctionDetails {
    CreateFunctionDetails {
        entrypoint: s.pick(&["f", "add", "", "très", "a'b", "a\"b", "x\\y"]).to_string(),
        language: s.pick(&[CreateFunctionLanguage::Wasm, CreateFunctionLanguage::WasmMessagePack]).clone(),
        input_types: s.vec(0, 5, |s| s.pick(TYPES).clone()),
        return_type: s.pick(TYPES).clone(),
        data: if s.chance(1, 10) {
            "QUJD".repeat(s.usize(3000))
        } else {
            s.pick(&["", "AGFzbQEAAAA=", "not base64 '\"\\ é", "null", "1"]).to_string()
        },
        volatility: s.pick(&[CreateFunctionVolatility::Immutable, CreateFunctionVolatility::Stable, CreateFunctionVolatility::Volatile]).clone(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Version {
    pub id: i64,
    pub number: i64,
    /// seconds; 0 until observed
    pub time: i64,
    pub fields: Vec<(String, String)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    pub id: i64,
    pub name: String,
    pub uuid: Uuid,
    pub versions: Vec<Version>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Coll {
    pub id: i64,
    pub name: String,
    pub tables: Vec<Table>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Func {
    pub id: i64,
    pub name: String,
    pub details: CreateFunctionDetails,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Db {
    pub id: i64,
    pub name: String,
    pub colls: Vec<Coll>,
    pub funcs: Vec<Func>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Dropped {
    pub db: String,
    pub coll: String,
    pub table: String,
    pub uuid: Uuid,
    pub status: Status,
    pub time: i64,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Model {
    pub dbs: Vec<Db>,
    pub dropped: Vec<Dropped>,
}

#[derive(Clone, Debug)]
pub enum Op {
    CreateDb(String),
    CreateColl(i64, String),
    CreateTable(i64, String, Schema, Uuid),
    NewVersion(Uuid, i64),
    DeleteOld(i64),
    Rename(i64, String, Option<i64>),
    CreateFunc(i64, String, bool, CreateFunctionDetails),
    DropFunc(i64, Vec<String>),
    DelTable(i64),
    DelColl(i64),
    DelDb(i64),
    SetDropped(Uuid, Status),
    DelDropped(Uuid),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Unique,
    Fk,
    NotFound,
    Other,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Id(i64),
    Ids(i64, i64),
    Count(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Ok,
    Err(Kind),
    /// unspecified: some of the functions to be dropped exist
    Either,
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::CreateDb(..) => "create database",
            Op::CreateColl(..) => "create schema",
            Op::CreateTable(..) => "create table",
            Op::NewVersion(..) => "new version",
            Op::DeleteOld(..) => "delete old versions",
            Op::Rename(..) => "rename table",
            Op::CreateFunc(..) => "create function",
            Op::DropFunc(..) => "drop function",
            Op::DelTable(..) => "drop table",
            Op::DelColl(..) => "drop schema",
            Op::DelDb(..) => "drop database",
            Op::SetDropped(..) => "set cleanup status",
            Op::DelDropped(..) => "remove from cleanup queue",
        }
    }
}

pub fn kind(e: &Error) -> Kind {
    match e {
        Error::UniqueConstraintViolation(_) => Kind::Unique,
        Error::FKConstraintViolation(_) => Kind::Fk,
        Error::SqlxError(sqlx::Error::RowNotFound) => Kind::NotFound,
        _ => Kind::Other,
    }
}

pub async fn exec(r: &dyn Repository, op: &Op) -> Result<Out, Error> {
    Ok(match op {
        Op::CreateDb(n) => Out::Id(r.create_database(n).await?),
        Op::CreateColl(d, n) => Out::Id(r.create_collection(*d, n).await?),
        Op::CreateTable(c, n, s, u) => {
            let (t, v) = r.create_table(*c, n, s, *u).await?;
            Out::Ids(t, v)
        }
        Op::NewVersion(u, n) => Out::Id(r.create_new_version(*u, *n).await?),
        Op::DeleteOld(t) => Out::Count(r.delete_old_versions(*t).await?),
        Op::Rename(t, n, c) => {
            r.rename_table(*t, n, *c).await?;
            Out::Unit
        }
        Op::CreateFunc(d, n, o, x) => Out::Id(r.create_function(*d, n, *o, x).await?),
        Op::DropFunc(d, n) => {
            r.drop_function(*d, n).await?;
            Out::Unit
        }
        Op::DelTable(t) => {
            r.delete_table(*t).await?;
            Out::Unit
        }
        Op::DelColl(c) => {
            r.delete_collection(*c).await?;
            Out::Unit
        }
        Op::DelDb(d) => {
            r.delete_database(*d).await?;
            Out::Unit
        }
        Op::SetDropped(u, st) => {
            r.update_dropped_table(*u, *st).await?;
            Out::Unit
        }
        Op::DelDropped(u) => {
            r.delete_dropped_table(*u).await?;
            Out::Unit
        }
    })
}

impl Model {
    pub fn db(&self, id: i64) -> Option<&Db> {
        self.dbs.iter().find(|d| d.id == id)
    }
    pub fn colls(&self) -> impl Iterator<Item = (&Db, &Coll)> {
        self.dbs.iter().flat_map(|d| d.colls.iter().map(move |c| (d, c)))
    }
    pub fn tables(&self) -> impl Iterator<Item = (&Db, &Coll, &Table)> {
        self.colls().flat_map(|(d, c)| c.tables.iter().map(move |t| (d, c, t)))
    }
    pub fn table_mut(&mut self, id: i64) -> Option<&mut Table> {
        self.dbs.iter_mut().flat_map(|d| &mut d.colls).flat_map(|c| &mut c.tables).find(|t| t.id == id)
    }

    pub fn expect(&self, op: &Op) -> Expect {
        use Expect::{Err as E, Ok};
        let cond = |c: bool, k: Kind| if c { Ok } else { E(k) };
        match op {
            Op::CreateDb(n) => cond(!self.dbs.iter().any(|d| d.name == *n), Kind::Unique),
            Op::CreateColl(d, n) => match self.db(*d) {
                None => E(Kind::Fk),
                Some(d) => cond(!d.colls.iter().any(|c| c.name == *n), Kind::Unique),
            },
            Op::CreateTable(c, n, s, _) => match self.colls().find(|x| x.1.id == *c) {
                None => E(Kind::Fk),
                Some((_, c)) if c.tables.iter().any(|t| t.name == *n) => E(Kind::Unique),
                Some(_) => {
                    let mut names: Vec<_> = s.fields().iter().map(|f| f.name()).collect();
                    names.sort();
                    cond(!names.windows(2).any(|w| w[0] == w[1]), Kind::Unique)
                }
            },
            Op::NewVersion(u, _) => cond(self.tables().any(|t| t.2.uuid == *u), Kind::NotFound),
            Op::DeleteOld(_) => Ok,
            Op::Rename(t, n, c) => {
                let Some((_, cur, _)) = self.tables().find(|x| x.2.id == *t) else { return E(Kind::NotFound) };
                let target = c.unwrap_or(cur.id);
                match self.colls().find(|x| x.1.id == target) {
                    None => E(Kind::Fk),
                    Some((_, c)) => cond(!c.tables.iter().any(|x| x.name == *n && x.id != *t), Kind::Unique),
                }
            }
            Op::CreateFunc(d, n, o, _) => match self.db(*d) {
                None => E(Kind::Fk),
                Some(d) => cond(*o || !d.funcs.iter().any(|f| f.name == *n), Kind::Unique),
            },
            Op::DropFunc(d, ns) => {
                let has = |n: &String| self.db(*d).map_or(false, |d| d.funcs.iter().any(|f| f.name == *n));
                let k = ns.iter().filter(|n| has(n)).count();
                if k == 0 {
                    E(Kind::NotFound)
                } else if k == ns.len() {
                    Ok
                } else {
                    Expect::Either
                }
            }
            Op::DelTable(t) => cond(self.tables().any(|x| x.2.id == *t), Kind::NotFound),
            Op::DelColl(c) => cond(self.colls().any(|x| x.1.id == *c), Kind::NotFound),
            Op::DelDb(d) => cond(self.db(*d).is_some(), Kind::NotFound),
            Op::SetDropped(u, _) | Op::DelDropped(u) => cond(self.dropped.iter().any(|d| d.uuid == *u), Kind::NotFound),
        }
    }

    /// the effect of a successful operation; complains about impossible results
    pub fn apply(&mut self, op: &Op, out: &Out) -> Result<(), Fail> {
        let bad = |w: &str| Err(Fail::new("result", format!("{w}: {} returned {out:?}", dbg_short(op))));
        match (op, out) {
            (Op::CreateDb(n), Out::Id(i)) => {
                if self.db(*i).is_some() {
                    return bad("the identifier of another database");
                }
                self.dbs.push(Db { id: *i, name: n.clone(), colls: vec![], funcs: vec![] });
            }
            (Op::CreateColl(d, n), Out::Id(i)) => {
                if self.colls().any(|c| c.1.id == *i) {
                    return bad("the identifier of another schema");
                }
                let d = self.dbs.iter_mut().find(|x| x.id == *d).unwrap();
                d.colls.push(Coll { id: *i, name: n.clone(), tables: vec![] });
            }
            (Op::CreateTable(c, n, s, u), Out::Ids(t, v)) => {
                if self.tables().any(|x| x.2.id == *t) || self.tables().any(|x| x.2.versions.iter().any(|y| y.id == *v)) {
                    return bad("the identifier of another table or version");
                }
                let fields = s.fields().iter().map(|f| (f.name().clone(), serde_json::to_string(f).unwrap())).collect();
                let c = self.dbs.iter_mut().flat_map(|d| &mut d.colls).find(|x| x.id == *c).unwrap();
                c.tables.push(Table {
                    id: *t,
                    name: n.clone(),
                    uuid: *u,
                    versions: vec![Version { id: *v, number: 0, time: 0, fields }],
                });
            }
            (Op::NewVersion(u, n), Out::Id(i)) => {
                if self.tables().any(|x| x.2.versions.iter().any(|y| y.id == *i)) {
                    return bad("the identifier of another version");
                }
                let t = self.dbs.iter_mut().flat_map(|d| &mut d.colls).flat_map(|c| &mut c.tables).find(|t| t.uuid == *u).unwrap();
                let fields = t.versions.last().unwrap().fields.clone();
                t.versions.push(Version { id: *i, number: *n, time: 0, fields });
            }
            (Op::DeleteOld(t), Out::Count(n)) => {
                let mut removed = 0;
                if let Some(t) = self.table_mut(*t) {
                    removed = t.versions.len() - 1;
                    t.versions.drain(..removed);
                }
                if removed as u64 != *n {
                    return bad(&format!("{removed} versions were to be deleted"));
                }
            }
            (Op::Rename(t, n, c), Out::Unit) => {
                let from = self.tables().find(|x| x.2.id == *t).unwrap().1.id;
                let to = c.unwrap_or(from);
                let mut tab = None;
                for coll in self.dbs.iter_mut().flat_map(|d| &mut d.colls) {
                    if let Some(i) = coll.tables.iter().position(|x| x.id == *t) {
                        tab = Some(coll.tables.remove(i));
                    }
                }
                let mut tab = tab.unwrap();
                tab.name = n.clone();
                let coll = self.dbs.iter_mut().flat_map(|d| &mut d.colls).find(|x| x.id == to).unwrap();
                coll.tables.push(tab);
            }
            (Op::CreateFunc(d, n, _, x), Out::Id(i)) => {
                let old = self.db(*d).unwrap().funcs.iter().find(|f| f.name == *n).map(|f| f.id);
                match old {
                    Some(o) if o != *i => return bad("a replaced function changes its identifier"),
                    None if self.dbs.iter().any(|d| d.funcs.iter().any(|f| f.id == *i)) => return bad("the identifier of another function"),
                    _ => {}
                }
                let d = self.dbs.iter_mut().find(|x| x.id == *d).unwrap();
                d.funcs.retain(|f| f.name != *n);
                d.funcs.push(Func { id: *i, name: n.clone(), details: x.clone() });
            }
            (Op::DropFunc(d, ns), Out::Unit) => {
                let d = self.dbs.iter_mut().find(|x| x.id == *d).unwrap();
                d.funcs.retain(|f| !ns.contains(&f.name));
            }
            (Op::DelTable(t), Out::Unit) => {
                for c in self.dbs.iter_mut().flat_map(|d| &mut d.colls) {
                    c.tables.retain(|x| x.id != *t);
                }
            }
            (Op::DelColl(c), Out::Unit) => {
                for d in &mut self.dbs {
                    d.colls.retain(|x| x.id != *c);
                }
            }
            (Op::DelDb(d), Out::Unit) => self.dbs.retain(|x| x.id != *d),
            (Op::SetDropped(u, st), Out::Unit) => {
                for d in self.dropped.iter_mut().filter(|d| d.uuid == *u) {
                    d.status = *st;
                }
            }
            (Op::DelDropped(u), Out::Unit) => self.dropped.retain(|d| d.uuid != *u),
            _ => return bad("impossible result"),
        }
        Ok(())
    }

    /// Runs one operation on both; the outcome must be the predicted one.
    pub async fn step(&mut self, r: &dyn Repository, op: &Op) -> Result<Result<(), Kind>, Fail> {
        let want = self.expect(op);
        let got = exec(r, op).await;
        self.judge(op, want, got)
    }
    pub fn judge(&mut self, op: &Op, want: Expect, got: Result<Out, Error>) -> Result<Result<(), Kind>, Fail> {
        match (&want, got) {
            (Expect::Ok | Expect::Either, Ok(out)) => {
                self.apply(op, &out)?;
                Ok(Ok(()))
            }
            (Expect::Either, Err(e)) if kind(&e) == Kind::NotFound => Ok(Err(Kind::NotFound)),
            (Expect::Err(k), Err(e)) if kind(&e) == *k => Ok(Err(*k)),
            (_, got) => Err(Fail::new(
                format!("outcome:{}", op.name()),
                format!("{} gives {} where {want:?} is due", dbg_short(op), dbg_short(&got)),
            )),
        }
    }

    /// an operation that makes sense in this state, or nearly
    pub fn gen(&self, s: &mut Src, names: &[String], weights: &[u64; 13]) -> Op {
        let name = |s: &mut Src| s.pick(names).clone();
        let id = |s: &mut Src, ids: Vec<i64>| -> i64 {
            if ids.is_empty() || s.chance(1, 15) {
                *s.pick(&[999_999, -1, 0, 1, 2, 3])
            } else {
                *s.pick(&ids)
            }
        };
        let dbs: Vec<i64> = self.dbs.iter().map(|d| d.id).collect();
        let colls: Vec<i64> = self.colls().map(|d| d.1.id).collect();
        let tables: Vec<i64> = self.tables().map(|d| d.2.id).collect();
        let uuids: Vec<Uuid> = self.tables().map(|d| d.2.uuid).collect();
        let q: Vec<Uuid> = self.dropped.iter().map(|d| d.uuid).collect();
        let status = |s: &mut Src| *s.pick(&[Status::Pending, Status::Retry, Status::Failed]);
        let some = |s: &mut Src, v: &[Uuid]| if v.is_empty() || s.chance(1, 15) { uuid(s) } else { *s.pick(v) };
        // build up first
        let mut w = *weights;
        if self.dbs.is_empty() {
            w[0] *= 30;
        } else if colls.is_empty() {
            w[1] *= 20;
        } else if tables.is_empty() {
            w[2] *= 10;
        }
        match s.weighted(&w) {
            0 => Op::CreateDb(name(s)),
            1 => Op::CreateColl(id(s, dbs), name(s)),
            2 => Op::CreateTable(id(s, colls), name(s), schema(s, 5), uuid(s)),
            3 => Op::NewVersion(some(s, &uuids), if s.bool() { s.range(0, 50) } else { s.edgy_i64() }),
            4 => Op::DeleteOld(id(s, tables)),
            5 => Op::Rename(id(s, tables), name(s), if s.bool() { Some(id(s, colls)) } else { None }),
            6 => Op::CreateFunc(id(s, dbs), name(s), s.bool(), details(s)),
            7 => {
                let d = id(s, dbs);
                let have: Vec<String> = self.db(d).map(|d| d.funcs.iter().map(|f| f.name.clone()).collect()).unwrap_or_default();
                let mut v = s.subset(&have);
                s.shuffle(&mut v);
                if v.is_empty() || s.chance(1, 5) {
                    v.push(name(s));
                    v.dedup();
                }
                Op::DropFunc(d, v)
            }
            8 => Op::DelTable(id(s, tables)),
            9 => Op::DelColl(id(s, colls)),
            10 => Op::DelDb(id(s, dbs)),
            11 => Op::SetDropped(some(s, &q), status(s)),
            _ => Op::DelDropped(some(s, &q)),
        }
    }

    /// the model's contents as lines, in the form `observe` gives
    pub fn lines(&self, w: What) -> Vec<String> {
        let mut v = vec![];
        for d in &self.dbs {
            if w.objects {
                v.push(format!("database {:?} id={}", d.name, d.id));
                for f in &d.funcs {
                    v.push(func_line(&d.name, f.id, &f.name, &f.details));
                }
            }
            for c in &d.colls {
                if w.objects {
                    v.push(format!("schema {:?}.{:?} id={} database={}", d.name, c.name, c.id, d.id));
                }
                for t in &c.tables {
                    let n = format!("{:?}.{:?}.{:?}", d.name, c.name, t.name);
                    let cur = t.versions.last().unwrap();
                    if w.objects {
                        v.push(format!("table {n} id={} schema={} uuid={}", t.id, c.id, t.uuid));
                    }
                    if w.columns {
                        let mut f = cur.fields.clone();
                        f.sort();
                        v.push(format!("columns {n} version={} {f:?}", cur.id));
                    }
                    if w.versions {
                        v.push(format!("versions {n} {:?}", t.versions.iter().map(|x| (x.id, x.number)).collect::<Vec<_>>()));
                    }
                }
            }
        }
        if w.dropped {
            for d in &self.dropped {
                v.push(dropped_line(d));
            }
        }
        v.sort();
        v
    }
}

fn dropped_line(d: &Dropped) -> String {
    format!("dropped {:?}.{:?}.{:?} uuid={} {:?} time={}", d.db, d.coll, d.table, d.uuid, d.status, d.time)
}
fn func_line(db: &str, id: i64, name: &str, d: &CreateFunctionDetails) -> String {
    format!("function {db:?}.{name:?} id={id} {d:?}")
}

#[derive(Clone, Copy, Default)]
pub struct What {
    pub objects: bool,
    pub columns: bool,
    pub versions: bool,
    pub dropped: bool,
}
pub const ALL: What = What { objects: true, columns: true, versions: true, dropped: true };

/// as catalog/metastore.rs reads a stored function
pub fn parse_function(r: &seafowl::repository::interface::AllDatabaseFunctionsResult) -> Result<CreateFunctionDetails, String> {
    use std::str::FromStr;
    Ok(CreateFunctionDetails {
        entrypoint: r.entrypoint.clone(),
        language: CreateFunctionLanguage::from_str(&r.language).map_err(|e| format!("language {:?}: {e}", r.language))?,
        input_types: serde_json::from_str(&r.input_types).map_err(|e| format!("input types {:?}: {e}", r.input_types))?,
        return_type: CreateFunctionDataType::from_str(&r.return_type.to_ascii_uppercase())
            .map_err(|e| format!("return type {:?}: {e}", r.return_type))?,
        data: r.data.clone(),
        volatility: CreateFunctionVolatility::from_str(&r.volatility).map_err(|e| format!("volatility {:?}: {e}", r.volatility))?,
    })
}

/// Everything the catalog shows about the databases of these names, in the form of `Model::lines`; the different ways to
/// look at it must agree.
pub async fn observe(r: &dyn Repository, names: &[String], w: What) -> Result<Vec<String>, Fail> {
    let mut v = vec![];
    let err = |what: &str, e: Error| Fail::new("read", format!("{what} fails: {e:?}"));
    for name in names {
        let db = match r.get_database(name).await {
            Ok(d) => d,
            Err(e) if kind(&e) == Kind::NotFound => {
                let l = r.list_collections(name).await.map_err(|e| err("list_collections", e))?;
                if !l.is_empty() {
                    return Err(Fail::new("lookup", format!("database {name:?} is not found but has contents {l:?}")));
                }
                continue;
            }
            Err(e) => return Err(err("get_database", e)),
        };
        if db.name != *name {
            return Err(Fail::new("lookup", format!("get_database({name:?}) gives {db:?}")));
        }
        if w.objects {
            v.push(format!("database {name:?} id={}", db.id));
            for f in r.get_all_functions_in_database(db.id).await.map_err(|e| err("get_all_functions", e))? {
                let d = parse_function(&f).map_err(|e| Fail::new("function", format!("function {:?} cannot be read back: {e}", f.name)))?;
                v.push(func_line(name, f.id, &f.name, &d));
            }
        }
        if w.objects || w.columns {
            let rows = r.list_collections(name).await.map_err(|e| err("list_collections", e))?;
            let mut i = 0;
            let mut seen = std::collections::HashSet::new();
            while i < rows.len() {
                let row = &rows[i];
                let c = r
                    .get_collection(name, &row.collection_name)
                    .await
                    .map_err(|e| Fail::new("lookup", format!("schema {:?} is listed but {e:?}", row.collection_name)))?;
                if c.name != row.collection_name || c.database_id != db.id || row.database_name != *name {
                    return Err(Fail::new("lookup", format!("{row:?} is listed in {name:?} but get_collection gives {c:?}")));
                }
                if w.objects {
                    v.push(format!("schema {name:?}.{:?} id={} database={}", c.name, c.id, c.database_id));
                }
                let coll_start = v.len();
                if !seen.insert(c.name.clone()) {
                    return Err(Fail::new("grouping", format!("the rows of schema {:?} are not listed together", c.name)));
                }
                let mut tabs = std::collections::HashSet::new();
                while i < rows.len() && rows[i].collection_name == c.name {
                    let Some(tn) = rows[i].table_name.clone() else {
                        if v.len() != coll_start || rows.get(i + 1).map_or(false, |n| n.collection_name == c.name) {
                            return Err(Fail::new("listing", format!("schema {:?} is listed as empty and with tables: {rows:?}", c.name)));
                        }
                        i += 1;
                        continue;
                    };
                    if !tabs.insert(tn.clone()) {
                        return Err(Fail::new("grouping", format!("the rows of table {tn:?} are not listed together")));
                    }
                    let t = r
                        .get_table(name, &c.name, &tn)
                        .await
                        .map_err(|e| Fail::new("lookup", format!("table {tn:?} is listed but {e:?}")))?;
                    let first = &rows[i];
                    if t.name != tn || t.collection_id != c.id || Some(t.id) != first.table_id {
                        return Err(Fail::new("lookup", format!("{first:?} is listed but get_table gives {t:?}")));
                    }
                    let n = format!("{name:?}.{:?}.{tn:?}", c.name);
                    if w.objects {
                        v.push(format!(
                            "table {n} id={} schema={} uuid={}",
                            t.id,
                            t.collection_id,
                            first.table_uuid.map(|u| u.to_string()).unwrap_or("none".into())
                        ));
                    }
                    let mut cols: Vec<(String, String)> = vec![];
                    let start = i;
                    while i < rows.len() && rows[i].collection_name == c.name && rows[i].table_name.as_ref() == Some(&tn) {
                        let x = &rows[i];
                        if (x.table_id, x.table_uuid, x.table_version_id) != (first.table_id, first.table_uuid, first.table_version_id) {
                            return Err(Fail::new("listing", format!("rows of one table disagree: {first:?} and {x:?}")));
                        }
                        match (&x.column_name, &x.column_type) {
                            (Some(a), Some(b)) => cols.push((a.clone(), b.clone())),
                            (None, None) if i == start => {}
                            _ => return Err(Fail::new("listing", format!("half a column: {x:?}"))),
                        }
                        i += 1;
                    }
                    if w.columns {
                        cols.sort();
                        v.push(format!("columns {n} version={} {cols:?}", first.table_version_id.map(|u| u.to_string()).unwrap_or("none".into())));
                    }
                }
            }
        }
        if w.versions {
            let mut all: Vec<(String, Vec<(i64, i64)>)> = vec![];
            for x in r.get_all_versions(name, None).await.map_err(|e| err("get_all_versions", e))? {
                if x.database_name != *name {
                    return Err(Fail::new("versions", format!("{x:?} listed for database {name:?}")));
                }
                let n = format!("{:?}.{:?}.{:?}", x.database_name, x.collection_name, x.table_name);
                match all.iter_mut().find(|y| y.0 == n) {
                    Some(y) => y.1.push((x.table_version_id, x.version)),
                    None => all.push((n, vec![(x.table_version_id, x.version)])),
                }
            }
            v.extend(all.into_iter().map(|(n, l)| format!("versions {n} {l:?}")));
        }
    }
    if w.dropped {
        let all = r.get_dropped_tables(None).await.map_err(|e| err("get_dropped_tables", e))?;
        for d in all {
            v.push(dropped_line(&Dropped {
                db: d.database_name,
                coll: d.collection_name,
                table: d.table_name,
                uuid: d.uuid,
                status: d.deletion_status,
                time: d.drop_time,
            }));
        }
    }
    v.sort();
    Ok(v)
}

pub fn diff(got: &[String], want: &[String]) -> Option<String> {
    if got == want {
        return None;
    }
    let mut m: std::collections::BTreeMap<&String, i64> = Default::default();
    for l in got {
        *m.entry(l).or_default() += 1;
    }
    for l in want {
        *m.entry(l).or_default() -= 1;
    }
    let cut = |l: &String| l.chars().take(600).collect::<String>();
    let mut out = String::new();
    for (l, n) in m.iter().filter(|x| *x.1 != 0).take(8) {
        out += &format!("\n  {} {}", if *n > 0 { "present, but should not be:" } else { "missing:" }, cut(l));
    }
    Some(out)
}

pub async fn compare(r: &dyn Repository, m: &Model, names: &[String], w: What, after: &str) -> Result<(), Fail> {
    let got = observe(r, names, w).await.map_err(|mut f| {
        f.msg = format!("after {after}: {}", f.msg);
        f
    })?;
    match diff(&got, &m.lines(w)) {
        None => Ok(()),
        Some(d) => Err(Fail::new("contents", format!("after {after}, the catalog differs from the history:{d}"))),
    }
}

/// lookups of names that are near those that exist
pub async fn probe(s: &mut Src, r: &dyn Repository, m: &Model, names: &[String]) -> Result<(), Fail> {
    for _ in 0..6 {
        let (d, c, t) = (s.pick(names).clone(), s.pick(names).clone(), s.pick(names).clone());
        let db = m.dbs.iter().find(|x| x.name == d);
        let coll = db.and_then(|x| x.colls.iter().find(|y| y.name == c));
        let tab = coll.and_then(|x| x.tables.iter().find(|y| y.name == t));
        let got = r.get_collection(&d, &c).await;
        let ok = match (&got, coll) {
            (Ok(g), Some(w)) => g.id == w.id && g.name == c && g.database_id == db.unwrap().id,
            (Err(e), None) => kind(e) == Kind::NotFound,
            _ => false,
        };
        if !ok {
            return Err(Fail::new("lookup", format!("get_collection({d:?}, {c:?}) gives {got:?} where {} is due", dbg_short(&coll.map(|c| c.id)))));
        }
        let got = r.get_table(&d, &c, &t).await;
        let ok = match (&got, tab) {
            (Ok(g), Some(w)) => g.id == w.id && g.name == t && g.collection_id == coll.unwrap().id,
            (Err(e), None) => kind(e) == Kind::NotFound,
            _ => false,
        };
        if !ok {
            return Err(Fail::new("lookup", format!("get_table({d:?}, {c:?}, {t:?}) gives {got:?} where {} is due", dbg_short(&tab.map(|c| c.id)))));
        }
    }
    Ok(())
}

pub async fn open(path: &str) -> Result<SqliteRepository, Fail> {
    use sqlx::sqlite::SqliteJournalMode;
    SqliteRepository::try_new(path.to_string(), SqliteJournalMode::Wal).await.map_err(|e| Fail::new("open", format!("cannot open {path}: {e:?}")))
}
pub async fn memory() -> Result<SqliteRepository, Fail> {
    open("sqlite::memory:").await
}
