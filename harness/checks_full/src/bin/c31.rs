//! C31: tables of catalogs served from elsewhere: exactly the listed ones, at exactly their locations.
use arrow::array::*;
use arrow::datatypes::*;
use arrow::record_batch::RecordBatch;
use checks_full::env::*;
use checks_full::sqlmodel::{bag, id, Row, V};
use clade::schema::schema_store_service_server::{SchemaStoreService, SchemaStoreServiceServer};
use clade::schema::{ListSchemaRequest, ListSchemaResponse, SchemaObject, StorageLocation, TableObject};
use clade::sync::{ColumnDescriptor, ColumnRole};
use object_store_factory::local::LocalConfig;
use object_store_factory::ObjectStoreConfig;
use pbt::*;
use seafowl_full::catalog::memory::MemoryStore;
use seafowl_full::catalog::metastore::Metastore;
use seafowl_full::config::context::build_context;
use seafowl_full::config::schema::{Catalog, Clade, SeafowlConfig};
use seafowl_full::context::SeafowlContext;
use seafowl_full::sync::schema::SyncSchema;
use seafowl_full::sync::{LakehouseSyncTarget, VerifSyncWriter};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use std::sync::{Arc, Mutex};
use url::Url;

#[derive(Default)]
struct State {
    /// what is listed for each database
    lists: BTreeMap<String, ListSchemaResponse>,
    down: bool,
    asked: Vec<String>,
}

#[derive(Clone, Default)]
struct Remote(Arc<Mutex<State>>);

#[tonic::async_trait]
impl SchemaStoreService for Remote {
    async fn list_schemas(&self, r: tonic::Request<ListSchemaRequest>) -> Result<tonic::Response<ListSchemaResponse>, tonic::Status> {
        let mut s = self.0.lock().unwrap();
        let name = r.into_inner().catalog_name;
        s.asked.push(name.clone());
        if s.down {
            return Err(tonic::Status::unavailable("down for now"));
        }
        s.lists.get(&name).cloned().map(tonic::Response::new).ok_or_else(|| tonic::Status::not_found(format!("no database {name}")))
    }
}

/// A table somewhere.
struct Place {
    /// location of the storage it is in, and where in there
    location: String,
    path: String,
    dir: String,
    rows: Vec<Row>,
    /// also within the server's own storage
    own: Option<String>,
}

fn column_batch(rs: &[Row]) -> RecordBatch {
    let n = |r: &Row| match &r[0] {
        V::I(i) => Some(*i),
        _ => None,
    };
    let t = |r: &Row| match &r[1] {
        V::S(x) => Some(x.clone()),
        _ => None,
    };
    let schema = Schema::new(vec![
        Field::new("old", DataType::Int64, true),
        Field::new("new", DataType::Int64, true),
        Field::new("v", DataType::Utf8, true),
    ]);
    RecordBatch::try_new(
        Arc::new(schema),
        vec![
            Arc::new(Int64Array::from_iter(rs.iter().map(|_| None))),
            Arc::new(Int64Array::from_iter(rs.iter().map(n))),
            Arc::new(StringArray::from_iter(rs.iter().map(t))),
        ],
    )
    .unwrap()
}

/// Writes the rows to the table at a location, as synced rows are.
async fn write(cx: &Arc<SeafowlContext>, location: &str, path: &str, rs: &[Row]) -> Result<(), Fail> {
    let url = Url::parse(location).map_err(|e| Fail::new("location refused", format!("{location}: {e}")))?;
    let log = cx
        .metastore
        .object_stores
        .get_log_store_for_table(url, HashMap::new(), path.to_string())
        .await
        .map_err(|e| Fail::new("location refused", format!("{location} {path}: {e}")))?;
    let d = |r: ColumnRole, n: &str| ColumnDescriptor { role: r as i32, name: n.into() };
    let b = column_batch(rs);
    let schema = SyncSchema::try_new(vec![d(ColumnRole::OldPk, "n"), d(ColumnRole::NewPk, "n"), d(ColumnRole::Value, "s")], b.schema(), true).expect("a schema");
    let mut w = VerifSyncWriter::new(cx.clone());
    let bad = |e: seafowl_full::sync::SyncError| Fail::new("can't be written", format!("{location} {path}: {e}"));
    w.enqueue_sync(LakehouseSyncTarget::Delta(log), Some(1), "here".into(), schema, vec![b]).map_err(bad)?;
    w.flush().await.map_err(bad)?;
    Ok(())
}

fn file_url(p: &Path, slash: bool) -> String {
    let mut u = Url::from_file_path(p).unwrap().to_string();
    if slash {
        u.push('/');
    }
    u
}

const SCHEMAS: [&str; 3] = ["public", "one", "Two"];
const NAMES: [&str; 5] = ["t", "T", "two words", "é", "tbl"];
const DBS: [&str; 2] = ["default", "other"];

fn start(dir: &Path, remote: Option<std::net::SocketAddr>, own: bool) -> SeafowlConfig {
    let store = ObjectStoreConfig::Local(LocalConfig { data_dir: dir.join("own").to_str().unwrap().into(), disable_hardlinks: false });
    std::fs::create_dir_all(dir.join("own")).unwrap();
    let mut c = config(store, "sqlite://:memory:".into(), 1000);
    if !own {
        c.object_store = None;
        c.catalog = None;
    }
    c.misc.sync_conf.max_replication_lag_s = 0;
    c.misc.sync_conf.max_in_memory_bytes = 1;
    if let Some(a) = remote {
        c.catalog = Some(Catalog::Clade(Clade { dsn: format!("http://{a}") }));
    }
    c
}

/// Tables in several storages, with the same names within them.
async fn places(s: &mut Src, cx: &Arc<SeafowlContext>, dir: &Path, own: bool) -> Result<Vec<Place>, Fail> {
    let mut out: Vec<Place> = vec![];
    let mut taken = BTreeSet::new();
    for i in 0..s.urange(3, 6) {
        let home = *s.pick(&["own", "data", "data/deeper", "with space", "ö"]);
        if home == "own" && !own {
            continue;
        }
        let name = s.pick(&["a", "b", "a b", "deeper/a", "x/y/z", "a=1/b", "a+b"]).to_string();
        let full = format!("{home}/{name}");
        if !taken.insert(full.clone()) || taken.iter().any(|t| t != &full && (t.starts_with(&format!("{full}/")) || full.starts_with(&format!("{t}/")))) {
            continue;
        }
        std::fs::create_dir_all(dir.join(home)).unwrap();
        let rows: Vec<Row> = (0..s.urange(1, 3)).map(|k| vec![V::I((i * 100 + k) as i64), V::S(format!("{full} {k}"))]).collect();
        let location = file_url(&dir.join(home), s.chance(1, 3));
        write(cx, &location, &name, &rows).await?;
        // exactly there
        ensure!(dir.join(&full).join("_delta_log").is_dir(), "written elsewhere", "nothing at {full} after writing {name} in {location}");
        out.push(Place { own: (home == "own").then(|| name.clone()), location, path: name, dir: full, rows });
    }
    Ok(out)
}

/// Other ways to say where a table is.
fn address(s: &mut Src, dir: &Path, p: &Place) -> (Option<String>, String) {
    if let (Some(o), true) = (&p.own, s.chance(1, 2)) {
        return (None, o.clone());
    }
    match s.below(4) {
        0 | 1 => (Some(p.location.clone()), p.path.clone()),
        2 if p.dir.is_ascii() => (Some(file_url(dir, s.bool())), p.dir.clone()),
        // its own directory, deeper by one
        _ => match p.path.rsplit_once('/') {
            Some((_, b)) => (Some(file_url(&dir.join(p.dir.rsplit_once('/').unwrap().0), s.bool())), b.to_string()),
            None => (Some(p.location.clone()), p.path.clone()),
        },
    }
}

/// One listing: names and which tables they stand for.
fn listing(s: &mut Src, dir: &Path, ps: &[Place]) -> (ListSchemaResponse, BTreeMap<(String, String), usize>) {
    let mut seen = BTreeMap::new();
    let mut schemas: BTreeMap<String, Vec<TableObject>> = BTreeMap::new();
    let mut stores: Vec<StorageLocation> = vec![];
    for _ in 0..s.urange(0, 6) {
        let (sc, name) = (s.pick(&SCHEMAS).to_string(), s.pick(&NAMES).to_string());
        if seen.contains_key(&(sc.clone(), name.clone())) || ps.is_empty() {
            continue;
        }
        let k = s.usize(ps.len());
        let (location, path) = address(s, dir, &ps[k]);
        let store = location.map(|l| match stores.iter().find(|x| x.location == l) {
            Some(x) => x.name.clone(),
            None => {
                let n = format!("{}{}", s.pick(&["s", "S", "store ", ""]), stores.len());
                stores.push(StorageLocation { name: n.clone(), location: l, options: Default::default() });
                n
            }
        });
        schemas.entry(sc.clone()).or_default().push(TableObject { name: name.clone(), path, store, format: 0 });
        seen.insert((sc, name), k);
    }
    if s.chance(1, 4) {
        schemas.entry(s.pick(&SCHEMAS).to_string()).or_default();
    }
    let mut schemas: Vec<SchemaObject> = schemas.into_iter().map(|(name, tables)| SchemaObject { name, tables }).collect();
    s.shuffle(&mut schemas);
    s.shuffle(&mut stores);
    (ListSchemaResponse { schemas, stores }, seen)
}

type Seen = BTreeMap<(String, String), usize>;

async fn queries(s: &mut Src, ctx: &mut Ctx, cx: &Arc<SeafowlContext>, ps: &[Place], seen: &Seen, n: usize, trail: &mut Vec<String>) -> Result<usize, Fail> {
    let mut hits = 0;
    for _ in 0..n {
        let default = *s.pick(&SCHEMAS);
        let cx = match default {
            "public" => cx.clone(),
            d => cx.scope_to_schema(d.to_string()),
        };
        let mut refer = |s: &mut Src| {
            let (sc, name) = match seen.keys().collect::<Vec<_>>() {
                k if !k.is_empty() && s.chance(4, 5) => (*s.pick(&k)).clone(),
                _ => (s.pick(&SCHEMAS).to_string(), s.pick(&NAMES).to_string()),
            };
            let text = if sc == default && s.bool() { id(&name) } else { format!("{}.{}", id(&sc), id(&name)) };
            (text, seen.get(&(sc, name)).copied())
        };
        let (sql, want) = match s.below(8) {
            0..=3 => {
                let (t, k) = refer(s);
                (format!("SELECT * FROM {t}"), k.map(|k| bag(&ps[k].rows)))
            }
            4 | 5 => {
                let ((t, k), (u, l)) = (refer(s), refer(s));
                let want = match (k, l) {
                    (Some(k), Some(l)) => {
                        let mut r = ps[k].rows.clone();
                        r.extend(ps[l].rows.clone());
                        Some(bag(&r))
                    }
                    _ => None,
                };
                (format!("SELECT * FROM {t} UNION ALL SELECT * FROM {u}"), want)
            }
            6 => {
                let rows: Vec<Row> = seen.keys().map(|(a, b)| vec![V::S(a.clone()), V::S(b.clone())]).collect();
                (
                    "SELECT table_schema, table_name FROM information_schema.tables WHERE table_schema IN ('public', 'one', 'Two')".to_string(),
                    Some(bag(&rows)),
                )
            }
            _ => {
                // these catalogs are not for changing
                let (t, _) = refer(s);
                let sql = match s.below(10) {
                    4 => format!("TRUNCATE TABLE {t}"),
                    5 => format!("DELETE FROM {t}"),
                    6 => format!("INSERT INTO {t} SELECT * FROM {t}"),
                    7 => "DROP SCHEMA public".into(),
                    8 => "CREATE TABLE more AS SELECT 1 AS x".into(),
                    9 => "DROP FUNCTION f".into(),
                    0 => format!("CREATE TABLE {t} (x BIGINT)"),
                    1 => format!("DROP TABLE {t}"),
                    2 => "CREATE SCHEMA more".into(),
                    _ => format!("ALTER TABLE {t} RENAME TO other"),
                };
                (sql, None)
            }
        };
        trail.push(format!("[{default}] {sql}"));
        match (want, run(&cx, &sql).await) {
            (None, Err(_)) => ctx.label("refused"),
            (None, Ok(_)) => fail!("statement taken", "{sql}, though it names no table, or would change the catalog"),
            (Some(_), Err(e)) => fail!("statement refused", "{sql}: {e}"),
            (Some(w), Ok(b)) => {
                hits += 1;
                ensure_eq!(bag(&rows(&b).map_err(|e| Fail::new("type of a column", e))?), w, "rows", "{sql}");
            }
        }
    }
    Ok(hits)
}

/// a catalog served over gRPC, which changes and fails
fn remote(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = scratch();
    let mut trail = vec![];
    let mut hits = 0;
    let r = {
        let (trail, ctx, hits, dir) = (&mut trail, &mut *ctx, &mut hits, dir.path());
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r = rt.block_on(async move {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            let at = l.local_addr().unwrap();
            let remote = Remote::default();
            let incoming = futures::stream::unfold(l, |l| async move { Some((l.accept().await.map(|x| x.0), l)) });
            tokio::spawn(tonic::transport::Server::builder().add_service(SchemaStoreServiceServer::new(remote.clone())).serve_with_incoming(incoming));
            let own = s.chance(2, 3);
            let mut conf = start(dir, Some(at), true);
            if !own {
                conf.object_store = None;
            }
            let cx = Arc::new(build_context(conf).await.expect("a context"));
            let other = cx.scope_to_catalog("other".to_string());
            let ps = places(s, &cx, dir, own).await?;
            trail.extend(ps.iter().map(|p| format!("{} in {}", p.path, p.location)));
            for _ in 0..s.urange(2, 6) {
                let mut seens = vec![];
                for db in DBS {
                    let (list, seen) = listing(s, dir, &ps);
                    trail.push(format!("{db} now has {list:?}"));
                    remote.0.lock().unwrap().lists.insert(db.into(), list);
                    seens.push(seen);
                }
                let which = s.usize(2);
                let here = if which == 0 { &cx } else { &other };
                if s.chance(1, 5) {
                    // nothing can be told while it is down
                    remote.0.lock().unwrap().down = true;
                    let (sc, name) = (s.pick(&SCHEMAS), s.pick(&NAMES));
                    let sql = format!("SELECT * FROM {}.{}", id(sc), id(name));
                    let r = run(here, &sql).await;
                    ensure!(r.is_err(), "answer without a catalog", "{sql} is answered while the catalog is down");
                    remote.0.lock().unwrap().down = false;
                    ctx.label("down");
                }
                remote.0.lock().unwrap().asked.clear();
                let n = s.urange(1, 4);
                let found = queries(s, ctx, here, &ps, &seens[which], n, trail).await?;
                *hits += found;
                let asked = remote.0.lock().unwrap().asked.clone();
                ensure!(asked.iter().all(|a| a == DBS[which]), "database asked about", "{asked:?} in statements of {}", DBS[which]);
                ensure!(asked.len() >= found, "catalog not asked", "{found} queries ask {} times", asked.len());
            }
            let nowhere = cx.scope_to_catalog("nowhere".to_string());
            let r = run(&nowhere, "SELECT 1").await;
            ensure!(r.is_err(), "answer without a catalog", "a database there isn't takes a statement");
            Ok(())
        });
        rt.shutdown_background();
        r
    };
    if hits > 1 {
        ctx.nontrivial(&trail);
    }
    ctx.describe(trail.join("\n"));
    r
}

/// several catalogs sent along with statements, over one set of storages
fn sent(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = scratch();
    let mut trail = vec![];
    let mut hits = 0;
    let r = {
        let (trail, ctx, hits, dir) = (&mut trail, &mut *ctx, &mut hits, dir.path());
        block_on(async move {
            let own = s.chance(2, 3);
            let cx = Arc::new(build_context(start(dir, None, own)).await.expect("a context"));
            let mut ps = places(s, &cx, dir, own).await?;
            trail.extend(ps.iter().map(|p| format!("{} in {}", p.path, p.location)));
            for _ in 0..s.urange(2, 6) {
                let (list, seen) = listing(s, dir, &ps);
                trail.push(format!("sent {list:?}"));
                let with = cx.with_metastore(Arc::new(Metastore::new_from_memory(Arc::new(MemoryStore { schemas: list }), cx.metastore.object_stores.clone())));
                let n = s.urange(1, 4);
                *hits += queries(s, ctx, &with, &ps, &seen, n, trail).await?;
                if s.chance(1, 3) && !ps.is_empty() {
                    // more rows
                    let k = s.usize(ps.len());
                    let p = &mut ps[k];
                    let new: Vec<Row> = vec![vec![V::I(1000 + p.rows.len() as i64), V::S("more".into())]];
                    trail.push(format!("more in {}", p.dir));
                    write(&cx, &p.location, &p.path, &new).await?;
                    p.rows.extend(new);
                }
            }
            Ok(())
        })
    };
    if hits > 1 {
        ctx.nontrivial(&trail);
    }
    ctx.describe(trail.join("\n"));
    r
}

/// a listing with something wrong in it
fn broken(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = scratch();
    let mut text = String::new();
    let r = {
        let (text, ctx, dir) = (&mut text, &mut *ctx, dir.path());
        block_on(async move {
            let own = s.bool();
            let cx = Arc::new(build_context(start(dir, None, own)).await.expect("a context"));
            let ps = places(s, &cx, dir, own).await?;
            let (mut list, seen) = listing(s, dir, &ps);
            let (sc, name) = (s.pick(&SCHEMAS).to_string(), "wrong".to_string());
            let good = list.stores.first().cloned().unwrap_or_else(|| StorageLocation { name: "good".into(), location: file_url(dir, false), options: Default::default() });
            if !list.stores.contains(&good) {
                list.stores.push(good.clone());
            }
            let mut t = TableObject { name: name.clone(), path: "nothing here".into(), store: Some(good.name.clone()), format: 0 };
            // whether the other tables can still be used
            let mut others = false;
            match s.below(5) {
                0 => t.store = Some(format!("{}x", good.name)),
                1 => t.format = *s.pick(&[-1, 2, 99]),
                2 => {
                    let l = s.pick(&["", "no url", "ftp://x/y", "file://host/x", "://", "data:text"]).to_string();
                    list.stores.push(StorageLocation { name: "bad".into(), location: l, options: Default::default() });
                    t.store = Some("bad".into());
                }
                3 if !own => t.store = None,
                _ => others = true,
            }
            *text = format!("{t:?} of {sc} in {list:?}");
            match list.schemas.iter_mut().find(|x| x.name == sc) {
                Some(x) => x.tables.push(t),
                None => list.schemas.push(SchemaObject { name: sc.clone(), tables: vec![t] }),
            }
            let with = cx.with_metastore(Arc::new(Metastore::new_from_memory(Arc::new(MemoryStore { schemas: list }), cx.metastore.object_stores.clone())));
            let sql = format!("SELECT * FROM {}.{name}", id(&sc));
            let r = run(&with, &sql).await;
            ensure!(r.is_err(), "rows out of nowhere", "{sql} is answered: {text}");
            if others {
                ctx.label("only that table is unusable");
                for ((sc, name), k) in &seen {
                    let sql = format!("SELECT * FROM {}.{}", id(sc), id(name));
                    let got = run(&with, &sql).await.map_err(|e| Fail::new("statement refused", format!("{sql}: {e}")))?;
                    ensure_eq!(bag(&rows(&got).unwrap()), bag(&ps[*k].rows), "rows", "{sql}");
                }
            } else {
                ctx.label("refused");
            }
            Ok(())
        })
    };
    ctx.nontrivial(&text);
    ctx.describe(text);
    r
}

/// paths of names that object_store encodes
fn encoded(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = scratch();
    let name = s.pick(&["é", "a~b", "50%", "[1]", "名", "a#b"]).to_string();
    ctx.describe(&name);
    ctx.nontrivial(&name);
    block_on(async {
        let cx = Arc::new(build_context(start(dir.path(), None, true)).await.expect("a context"));
        let home = dir.path().join(&name);
        std::fs::create_dir_all(&home).unwrap();
        let rs: Vec<Row> = vec![vec![V::I(1), V::S("x".into())]];
        write(&cx, &file_url(&home, false), "t", &rs).await?;
        let object = |name: &str, store: &str, path: String| TableObject { name: name.into(), path, store: Some(store.into()), format: 0 };
        let store = |name: &str, location: String| StorageLocation { name: name.into(), location, options: Default::default() };
        for (what, o, l) in [("location", object("t", "x", "t".into()), file_url(&home, false)), ("path", object("t", "x", format!("{name}/t")), file_url(dir.path(), false))] {
            let list = ListSchemaResponse { schemas: vec![SchemaObject { name: "public".into(), tables: vec![o] }], stores: vec![store("x", l)] };
            let with = cx.with_metastore(Arc::new(Metastore::new_from_memory(Arc::new(MemoryStore { schemas: list }), cx.metastore.object_stores.clone())));
            let got = run(&with, "SELECT * FROM t").await.map_err(|e| {
                let why = if e.to_string().contains("Not a Delta table: no log files") { "found elsewhere" } else { "unreadable" };
                Fail::new(format!("table {why} by its {what}"), format!("the table in {name}/t: {e}"))
            })?;
            ensure_eq!(bag(&rows(&got).unwrap()), bag(&rs), "rows", "{name}, by its {what}");
        }
        Ok(())
    })
}

fn main() {
    pbt::main(Property {
        id: "C31",
        rule: "non-trivial: at least two statements are answered from listed tables (remote, sent), or a listing has something wrong in it (broken)",
        assumptions: &[
            "storages are directories; locations in the cloud are subject of C17",
            "Delta tables are written and read through the stand-in for the deltalake crate",
        ],
        legs: vec![leg("remote", 300, 8_000, remote), leg("sent", 300, 8_000, sent), leg("broken", 300, 8_000, broken), leg("encoded", 20, 100, encoded)],
    })
}
