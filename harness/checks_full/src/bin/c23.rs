//! C23: the storage of dropped tables is cleaned up, or stays on record.
use checks_full::env::*;
use checks_full::faults::FaultStore;
use checks_full::sqlmodel::*;
use futures::TryStreamExt;
use object_store::ObjectStore;
use pbt::*;
use seafowl_full::context::SeafowlContext;
use seafowl_full::object_store::wrapped::InternalObjectStore;
use seafowl_full::utils::gc_databases;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const DBS: [&str; 4] = ["default", "db1", "db11", "Big db"];
const NAMES: [&str; 4] = ["t", "u", "t1", "Mixed"];

struct Live {
    db: String,
    schema: String,
    name: String,
    uuid: String,
}

/// (database, schema, name, status) by uuid
type Dropped = BTreeMap<String, (String, String, String, &'static str)>;

async fn objects(store: &dyn ObjectStore) -> BTreeMap<String, BTreeSet<String>> {
    let all: Vec<_> = store.list(None).try_collect().await.expect("list");
    let mut out: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for o in all {
        let dir = o.location.parts().next().unwrap().as_ref().to_string();
        out.entry(dir).or_default().insert(o.location.to_string());
    }
    out
}

async fn listed(ctx: &SeafowlContext, dbs: &BTreeSet<String>) -> Result<Vec<String>, Fail> {
    let mut out = vec![];
    for db in dbs {
        let here = ctx.scope_to_catalog(db.clone());
        let rows = select(&here, "SELECT table_schema, table_name, uuid, deletion_status FROM system.dropped_tables")
            .await
            .map_err(|e| Fail::new("listing fails", e))?;
        for r in rows {
            out.push(r.iter().map(V::key).fold(db.clone(), |a, b| a + ", " + &b));
        }
    }
    out.sort();
    Ok(out)
}

async fn go(s: &mut Src, ctx: &mut Ctx, dir: &std::path::Path, trail: &mut Vec<String>) -> Result<(), Fail> {
    let part = *s.pick(&[2, 1000]);
    let base = local(dir, part).await;
    let catalog = sqlx::SqlitePool::connect(&format!("sqlite://{}", dir.join("catalog.sqlite").display())).await.expect("the catalog");
    let inner = base.internal_object_store.clone().unwrap();
    let faulty = FaultStore::new(inner.inner.clone());
    let gc_store = Arc::new(InternalObjectStore { inner: faulty.clone(), root_uri: inner.root_uri.clone(), config: inner.config.clone() });
    let mut dbs: BTreeSet<String> = ["default".to_string()].into();
    let mut live: Vec<Live> = vec![];
    let mut dropped = Dropped::new();
    let (mut cleaned, mut failed, mut kept) = (0, 0, 0);
    let mut shape = vec![];
    let steps = s.urange(12, 40);
    let sql = |e: String| move |x: String| Fail::new("statement fails", format!("{e}: {x}"));
    for _ in 0..steps {
        match s.below(10) {
            0 => {
                let db = s.pick(&DBS).to_string();
                if dbs.insert(db.clone()) {
                    let q = format!("CREATE DATABASE {}", id(&db));
                    run(&base, &q).await.map_err(sql(q.clone()))?;
                    trail.push(q);
                }
            }
            1..=3 => {
                let all: Vec<&String> = dbs.iter().collect();
                let db = s.pick(&all).to_string();
                let name = s.pick(&NAMES).to_string();
                let schema = if s.chance(1, 4) { "s1" } else { "public" }.to_string();
                if live.iter().any(|t| t.db == db && t.name == name && t.schema == schema) {
                    continue;
                }
                let here = base.scope_to_catalog(db.clone());
                let mut sqls = vec![format!("CREATE SCHEMA IF NOT EXISTS {schema}"), format!("CREATE TABLE {schema}.{} (a INTEGER)", id(&name))];
                for k in 0..s.below(3) {
                    sqls.push(format!("INSERT INTO {schema}.{} VALUES ({k}), (1), (2)", id(&name)));
                }
                for q in &sqls {
                    run(&here, q).await.map_err(sql(q.clone()))?;
                }
                run(&here, "SELECT 1").await.map_err(sql("SELECT 1".into()))?;
                let uuid = here.get_table_uuid(format!("{schema}.{}", id(&name)).as_str()).await.map_err(|e| Fail::new("no uuid", e.to_string()))?;
                trail.push(format!("in {db}: {}   -- {uuid}", sqls.join("; ")));
                live.push(Live { db, schema, name, uuid: uuid.to_string() });
            }
            4..=6 => {
                if live.is_empty() {
                    continue;
                }
                if s.chance(1, 3) {
                    let t = live.remove(s.usize(live.len()));
                    let q = format!("DROP TABLE {}.{}", t.schema, id(&t.name));
                    run(&base.scope_to_catalog(t.db.clone()), &q).await.map_err(sql(q.clone()))?;
                    trail.push(format!("in {}: {q}", t.db));
                    continue;
                }
                // a table that an earlier version dropped
                let db = s.pick(&DBS).to_string();
                if !dbs.contains(&db) {
                    continue;
                }
                let uuid = uuid::Uuid::from_u64_pair(s.u64(), s.u64());
                let (schema, name) = (s.pick(&["public", "s1"]).to_string(), s.pick(&NAMES).to_string());
                let n = s.below(5);
                for k in 0..n {
                    let at = if k == 0 { format!("{uuid}/_delta_log/00000000000000000000.json") } else { format!("{uuid}/part-{k}.parquet") };
                    inner.inner.put(&at.into(), vec![k as u8].into()).await.expect("put");
                }
                sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid) VALUES ($1, $2, $3, $4)")
                    .bind(&db)
                    .bind(&schema)
                    .bind(&name)
                    .bind(uuid)
                    .execute(&catalog)
                    .await
                    .expect("a record");
                trail.push(format!("a dropped table {db}.{schema}.{name}, with {n} objects left in {uuid}"));
                dropped.insert(uuid.to_string(), (db, schema, name, "PENDING"));
            }
            7 if s.bool() => {
                let all: Vec<&String> = dbs.iter().collect();
                let db = s.pick(&all).to_string();
                let q = format!("VACUUM DATABASE {}", id(&db));
                run(&base, &q).await.map_err(sql(q.clone()))?;
                trail.push(q);
                cleaned += dropped.values().filter(|d| d.0 == db && d.3 != "FAILED").count();
                dropped.retain(|_, d| d.0 != db || d.3 == "FAILED");
                ctx.label("vacuum database");
            }
            _ => {
                let all: Vec<&String> = dbs.iter().collect();
                let only = s.chance(1, 3).then(|| s.pick(&all).to_string());
                // which directories trouble strikes, in what, after how many
                let mut plan: BTreeMap<String, (&str, u64)> = BTreeMap::new();
                for u in dropped.keys() {
                    if s.chance(1, 2) {
                        plan.insert(u.clone(), (*s.pick(&["list", "delete"]), s.below(4)));
                    }
                }
                trail.push(format!("cleanup of {only:?} with failures {plan:?}"));
                let p = plan.clone();
                let mut count: BTreeMap<String, u64> = BTreeMap::new();
                faulty.arm(Some(Box::new(move |op, at| {
                    let Some((what, n)) = at.split('/').next().and_then(|u| p.get_key_value(u)).map(|(_, v)| *v) else { return false };
                    if what != op {
                        return false;
                    }
                    let k = count.entry(at.split('/').next().unwrap().into()).or_default();
                    *k += 1;
                    *k > n
                })));
                let before = objects(inner.inner.as_ref()).await;
                faulty.taken();
                gc_databases(&base, gc_store.clone(), only.clone()).await;
                faulty.arm(None);
                let log = faulty.taken();
                let struck: BTreeSet<String> =
                    log.iter().filter(|l| l.2).map(|l| l.1.split('/').next().unwrap().to_string()).collect();
                let after = objects(inner.inner.as_ref()).await;
                let mut gone = vec![];
                for (u, d) in dropped.iter_mut() {
                    let mine = only.as_ref().is_none_or(|o| *o == d.0) && d.3 != "FAILED";
                    if !mine {
                        ensure_eq!(after.get(u), before.get(u), "touched", "the objects of {u}, which wasn't to be cleaned up");
                        continue;
                    }
                    if struck.contains(u) {
                        failed += 1;
                        d.3 = if d.3 == "PENDING" { "RETRY" } else { "FAILED" };
                        ctx.label(d.3);
                    } else {
                        ensure!(!after.contains_key(u), "left over", "{u} is cleaned up, and its objects are still there: {:?}", after[u]);
                        cleaned += 1;
                        gone.push(u.clone());
                    }
                }
                for u in gone {
                    dropped.remove(&u);
                }
                shape.push((only.is_some(), plan.len(), struck.len()));
                ctx.label("cleanup");
            }
        }
        // the records, and the live tables
        let mut want: Vec<String> = dropped
            .iter()
            .map(|(u, d)| format!("{}, S({:?}), S({:?}), S({u:?}), S({:?})", d.0, d.1, d.2, d.3))
            .collect();
        want.sort();
        ensure_eq!(listed(&base, &dbs).await?, want, "dropped tables", "system.dropped_tables of all databases after {}", trail.last().unwrap_or(&String::new()));
        let there = objects(inner.inner.as_ref()).await;
        for t in &live {
            let q = format!("SELECT * FROM {}.{}", t.schema, id(&t.name));
            select(&base.scope_to_catalog(t.db.clone()), &q).await.map_err(|e| Fail::new("live table", format!("{q} in {}: {e}", t.db)))?;
            kept += 1;
        }
        for d in there.keys() {
            ensure!(live.iter().any(|t| t.uuid == *d) || dropped.contains_key(d), "forgotten", "the directory {d} holds objects, of no table and not on record");
        }
    }
    if cleaned > 0 && failed > 0 && kept > 0 {
        ctx.nontrivial(&(steps, shape, cleaned, failed));
    }
    Ok(())
}

fn case(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let dir = scratch();
    let mut trail = vec![];
    let r = block_on(go(s, ctx, dir.path(), &mut trail));
    for t in &trail {
        ctx.describe_more(format!("\n{t}"));
    }
    r
}

fn main() {
    pbt::main(Property {
        id: "C23",
        rule: "tables that were cleaned up, a cleanup that failed, and a table that stayed alive all along",
        assumptions: &["records of dropped tables are made directly in the catalog, as only earlier versions of Seafowl made them", "deltalake is the stand-in; storage is a local directory, with injected failures of listing and deleting"],
        legs: vec![leg("cleanup", 150, 6000, case)],
    })
}
