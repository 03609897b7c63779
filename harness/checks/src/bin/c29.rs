//! C29: catalogs written by earlier releases open with everything they hold.
use arrow_integration_test::{data_type_to_json, field_from_json, field_to_json};
use arrow_schema::Field;
use checks::catmodel::*;
use pbt::*;
use seafowl::repository::interface::{DroppedTableDeletionStatus as Status, Repository};
use seafowl::repository::sqlite::SqliteRepository;
use seafowl::wasm_udf::data_types::*;
use sqlx::migrate::{Migration, MigrationType, Migrator};
use sqlx::sqlite::{SqliteConnectOptions, SqliteJournalMode, SqlitePool, SqlitePoolOptions};
use sqlx::Executor;
use std::str::FromStr;
use uuid::Uuid;

/// The steps the catalog's layout has taken, as released
const STEPS: &[(i64, &str, &str)] = &[
    (20220728071524, "create tables", include_str!("../migrations/20220728071524_create_tables.up.sql")),
    (20220921081323, "arrow datatype storage", include_str!("../migrations/20220921081323_arrow_datatype_storage.up.sql")),
    (20230221081928, "delta lake integration", include_str!("../migrations/20230221081928_delta_lake_integration.up.sql")),
    (20230505071716, "remove legacy tables", include_str!("../migrations/20230505071716_remove_legacy_tables.up.sql")),
];

async fn take_steps(pool: &SqlitePool, n: usize) {
    let migrations: Vec<Migration> =
        STEPS[..n].iter().map(|(v, d, sql)| Migration::new(*v, (*d).into(), MigrationType::ReversibleUp, (*sql).into())).collect();
    let m = Migrator { migrations: migrations.into(), ..Migrator::DEFAULT };
    m.run(pool).await.expect("the released layouts");
}

fn lang(l: &CreateFunctionLanguage) -> &'static str {
    match l {
        CreateFunctionLanguage::Wasm => "Wasm",
        CreateFunctionLanguage::WasmMessagePack => "WasmMessagePack",
    }
}
fn vol(v: &CreateFunctionVolatility) -> &'static str {
    match v {
        CreateFunctionVolatility::Immutable => "Immutable",
        CreateFunctionVolatility::Stable => "Stable",
        CreateFunctionVolatility::Volatile => "Volatile",
    }
}
fn type_name(t: &CreateFunctionDataType) -> &'static str {
    TYPE_NAMES[TYPES.iter().position(|x| x == t).unwrap()]
}

/// a field that the old form can express
fn old_field(s: &mut Src, flat: bool) -> Field {
    for _ in 0..20 {
        let f = field(s, if flat { 0 } else { 2 });
        let f = if flat { Field::new(f.name(), f.data_type().clone(), true) } else { f };
        let there = no_panic(|| field_from_json(&field_to_json(&f)).ok()).ok().flatten();
        if there.as_ref() == Some(&f) && no_panic(|| data_type_to_json(f.data_type())).is_ok() {
            return f;
        }
    }
    Field::new("a", arrow_schema::DataType::Int64, true)
}

struct Old {
    step: usize,
    model: Model,
    /// creation times by version id
    times: Vec<(i64, i64)>,
    fields: Vec<(i64, Vec<(Field, bool)>)>,
    partitions: bool,
}

fn generate(s: &mut Src, names: &[String]) -> Old {
    let step = s.urange(1, 4);
    let mut id = 0;
    let mut next = |s: &mut Src| {
        id += if s.chance(1, 4) { s.range(1, 50) } else { 1 };
        id
    };
    let mut m = Model::default();
    let mut times = vec![];
    let mut fields = vec![];
    let few = |s: &mut Src, most: usize| {
        let mut v = s.subset(names);
        v.truncate(most);
        v
    };
    for db in few(s, 3) {
        let mut d = Db { id: next(s), name: db, colls: vec![], funcs: vec![] };
        for f in few(s, 3) {
            let mut x = details(s);
            // a type without its size has no place in the old form
            x.input_types.retain(|t| !matches!(t, CreateFunctionDataType::DECIMAL { .. }));
            if matches!(x.return_type, CreateFunctionDataType::DECIMAL { .. }) {
                x.return_type = CreateFunctionDataType::TEXT;
            }
            d.funcs.push(Func { id: next(s), name: f, details: x });
        }
        for c in few(s, 3) {
            let mut c = Coll { id: next(s), name: c, tables: vec![] };
            for t in few(s, 4) {
                let lake = step == 4 || step == 3 && s.bool();
                let mut t = Table { id: next(s), name: t, uuid: if lake { uuid(s) } else { Uuid::nil() }, versions: vec![] };
                for k in 0..s.urange(1, 4) {
                    let v = next(s);
                    let mut fs: Vec<Field> = s.vec(0, 5, |s| old_field(s, step == 1));
                    let mut seen = std::collections::HashSet::new();
                    fs.retain(|f| seen.insert(f.name().clone()));
                    t.versions.push(Version {
                        id: v,
                        number: if lake { k as i64 } else { -1 },
                        time: 0,
                        fields: fs.iter().map(|f| (f.name().clone(), serde_json::to_string(f).unwrap())).collect(),
                    });
                    // from release 0.5.8 on, columns are stored in the new form
                    fields.push((v, fs.into_iter().map(|f| (f, step == 4 && s.bool())).collect()));
                    times.push((v, *s.pick(&[0, 1, 1_660_000_000, 1_677_000_000, 4_000_000_000]) + k as i64));
                }
                c.tables.push(t);
            }
            d.colls.push(c);
        }
        m.dbs.push(d);
    }
    if step >= 3 {
        for _ in 0..s.usize(4) {
            m.dropped.push(Dropped {
                db: s.pick(names).clone(),
                coll: s.pick(names).clone(),
                table: s.pick(names).clone(),
                uuid: uuid(s),
                status: *s.pick(&[Status::Pending, Status::Retry, Status::Failed]),
                time: s.range(0, 2_000_000_000),
            });
        }
    }
    Old { step, model: m, times, fields, partitions: step < 4 && s.bool() }
}

async fn write(pool: &SqlitePool, o: &Old) -> Result<(), sqlx::Error> {
    // tables of step 3 on come with their identifiers, so earlier rows are written before it
    take_steps(pool, o.step).await;
    let e = pool;
    for d in &o.model.dbs {
        sqlx::query("INSERT INTO database (id, name) VALUES (?, ?)").bind(d.id).bind(&d.name).execute(e).await?;
        for f in &d.funcs {
            let inputs: Vec<&str> = f.details.input_types.iter().map(type_name).collect();
            sqlx::query("INSERT INTO \"function\" (id, database_id, name, entrypoint, language, input_types, return_type, data, volatility) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)")
                .bind(f.id)
                .bind(d.id)
                .bind(&f.name)
                .bind(&f.details.entrypoint)
                .bind(lang(&f.details.language))
                .bind(serde_json::to_string(&inputs).unwrap())
                .bind(type_name(&f.details.return_type).to_uppercase())
                .bind(&f.details.data)
                .bind(vol(&f.details.volatility))
                .execute(e)
                .await?;
        }
        for c in &d.colls {
            sqlx::query("INSERT INTO collection (id, database_id, name) VALUES (?, ?, ?)").bind(c.id).bind(d.id).bind(&c.name).execute(e).await?;
            for t in &c.tables {
                let legacy = t.versions[0].number == -1;
                match o.step {
                    1 | 2 => sqlx::query("INSERT INTO \"table\" (id, collection_id, name) VALUES (?, ?, ?)").bind(t.id).bind(c.id).bind(&t.name),
                    3 => sqlx::query("INSERT INTO \"table\" (id, collection_id, name, legacy, uuid) VALUES (?, ?, ?, ?, ?)").bind(t.id).bind(c.id).bind(&t.name).bind(legacy).bind(t.uuid),
                    _ => sqlx::query("INSERT INTO \"table\" (id, collection_id, name, uuid) VALUES (?, ?, ?, ?)").bind(t.id).bind(c.id).bind(&t.name).bind(t.uuid),
                }
                .execute(e)
                .await?;
                for v in &t.versions {
                    let time = o.times.iter().find(|x| x.0 == v.id).unwrap().1;
                    if o.step < 3 {
                        sqlx::query("INSERT INTO table_version (id, table_id, creation_time) VALUES (?, ?, ?)").bind(v.id).bind(t.id).bind(time)
                    } else {
                        sqlx::query("INSERT INTO table_version (id, table_id, creation_time, version) VALUES (?, ?, ?, ?)").bind(v.id).bind(t.id).bind(time).bind(v.number)
                    }
                    .execute(e)
                    .await?;
                    for (f, new) in &o.fields.iter().find(|x| x.0 == v.id).unwrap().1 {
                        let text = match (o.step, new) {
                            (1, _) => data_type_to_json(f.data_type()).to_string(),
                            (_, false) => field_to_json(f).to_string(),
                            _ => serde_json::to_string(f).unwrap(),
                        };
                        sqlx::query("INSERT INTO table_column (table_version_id, name, type) VALUES (?, ?, ?)").bind(v.id).bind(f.name()).bind(text).execute(e).await?;
                    }
                    if o.partitions {
                        sqlx::query("INSERT INTO physical_partition (id, row_count, object_storage_id) VALUES (?, 3, 'x.parquet')").bind(v.id).execute(e).await?;
                        sqlx::query("INSERT INTO table_partition (table_version_id, physical_partition_id) VALUES (?, ?)").bind(v.id).bind(v.id).execute(e).await?;
                        let ty = data_type_to_json(&arrow_schema::DataType::Int64).to_string();
                        sqlx::query("INSERT INTO physical_partition_column (physical_partition_id, name, type, null_count) VALUES (?, 'a', ?, 0)").bind(v.id).bind(ty).execute(e).await?;
                    }
                }
            }
        }
    }
    for d in &o.model.dropped {
        let status = match d.status {
            Status::Pending => "PENDING",
            Status::Retry => "RETRY",
            Status::Failed => "FAILED",
        };
        sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid, deletion_status, drop_time) VALUES (?, ?, ?, ?, ?, ?)")
            .bind(&d.db)
            .bind(&d.coll)
            .bind(&d.table)
            .bind(d.uuid)
            .bind(status)
            .bind(d.time)
            .execute(e)
            .await?;
    }
    Ok(())
}

async fn times(r: &SqliteRepository, o: &Old, m: &Model, after: &str) -> Result<(), Fail> {
    for d in &m.dbs {
        for x in r.get_all_versions(&d.name, None).await.map_err(|e| Fail::new("read", format!("{e:?}")))? {
            if let Some((_, t)) = o.times.iter().find(|v| v.0 == x.table_version_id) {
                ensure!(x.creation_time == *t, "time", "{after}, version {} was created at {} and not {t}", x.table_version_id, x.creation_time);
            }
        }
    }
    Ok(())
}

fn upgrade(s: &mut Src, cx: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(2, 5);
    let names = names(s, n);
    let o = generate(s, &names);
    let journal = *s.pick(&[SqliteJournalMode::Wal, SqliteJournalMode::Delete]);
    let lines = o.model.lines(ALL);
    cx.describe(format!("written in layout {} (with partitions: {}):\n{}", o.step, o.partitions, lines.join("\n").chars().take(3000).collect::<String>()));
    cx.label(format!("layout {}", o.step));
    if o.model.tables().count() > 0 {
        cx.nontrivial(&(o.step, &lines));
    }
    let dir = tempfile::tempdir_in("/dev/shm").or_else(|_| tempfile::tempdir()).unwrap();
    let path = dir.path().join("c.sqlite").to_string_lossy().into_owned();
    let mut log = String::new();
    let r = block_on(async {
        let options = SqliteConnectOptions::from_str(&path).unwrap().create_if_missing(true).journal_mode(journal);
        let pool = SqlitePoolOptions::new().max_connections(1).connect_with(options).await.unwrap();
        pool.execute("BEGIN").await.unwrap();
        pool.execute("COMMIT").await.unwrap();
        write(&pool, &o).await.expect("the old catalog");
        pool.close().await;

        let mut m = Model { dbs: o.model.dbs.clone(), dropped: o.model.dropped.clone() };
        let mut r = open(&path).await?;
        cx.evals += 1;
        compare(&r, &m, &names, ALL, "the upgrade").await?;
        times(&r, &o, &m, "after the upgrade").await?;
        probe(s, &r, &m, &names).await?;
        // and it is a catalog like any other
        let nil = m.tables().any(|t| t.2.uuid.is_nil());
        for k in 0..s.usize(10) {
            let w = if nil { [2, 2, 4, 0, 1, 4, 3, 2, 2, 1, 1, 0, 0] } else { [2, 2, 4, 2, 1, 4, 3, 2, 2, 1, 1, 1, 1] };
            let op = m.gen(s, &names, &w);
            let dropped = matches!(op, Op::DelTable(_) | Op::DelColl(_) | Op::DelDb(_));
            let out = m.step(&r, &op).await?;
            log.push_str(&format!("\nthen {} -> {out:?}", dbg_short(&op)));
            if dropped || out.is_err() || k % 3 == 0 {
                compare(&r, &m, &names, ALL, &log).await?;
            }
            if s.chance(1, 5) {
                r.executor.close().await;
                r = open(&path).await?;
                log.push_str("\nthen reopened");
                compare(&r, &m, &names, ALL, &log).await?;
            }
        }
        times(&r, &o, &m, "in the end").await?;
        let ro = SqliteRepository::try_new_read_only(path.clone(), SqliteJournalMode::Wal).await.map_err(|e| Fail::new("open", format!("read-only: {e}")))?;
        compare(&ro, &m, &names, ALL, "opening read-only in the end").await?;
        ro.executor.close().await;
        r.executor.close().await;
        Ok(())
    });
    cx.describe_more(log);
    r
}

fn main() {
    pbt::main(Property {
        id: "C29",
        rule: "A catalog with generated databases, schemas, tables, versions, columns, functions and cleanup queue is written in one of the four layouts released so far, then opened, compared with what was written, worked with, reopened. Non-trivial: there are tables; distinct by layout and contents.",
        assumptions: &[
            "the layouts and their checksums are those of the pinned commit's migrations",
            "a column's old form is what arrow-integration-test writes; types it cannot read back are left out",
            "SQLite catalog; Postgres cannot run here",
        ],
        legs: vec![leg("upgrade", 600, 30_000, upgrade)],
    })
}
