//! C11: table version history is append-only, ordered and attributed.
use checks::catmodel::*;
use pbt::*;
use seafowl::repository::interface::Repository;
use seafowl::repository::sqlite::SqliteRepository;
use std::collections::BTreeMap;

const SEE: What = What { objects: false, columns: true, versions: true, dropped: false };

/// columns of every stored version
async fn columns(r: &SqliteRepository) -> BTreeMap<i64, Vec<(String, String)>> {
    let rows: Vec<(i64, String, String)> =
        sqlx::query_as("SELECT table_version_id, name, type FROM table_column").fetch_all(&r.executor).await.expect("read columns");
    let mut m: BTreeMap<i64, Vec<(String, String)>> = Default::default();
    for (v, n, t) in rows {
        m.entry(v).or_default().push((n, t));
    }
    m.values_mut().for_each(|v| v.sort());
    m
}

async fn versions(s: &mut Src, r: &SqliteRepository, m: &mut Model, names: &[String], times: &mut BTreeMap<i64, i64>, start: i64) -> Result<(), Fail> {
    let now = unix();
    // filtered listings: every version of every requested table, and no other
    for d in names {
        let filter: Option<Vec<String>> = match s.usize(3) {
            0 => None,
            1 => Some(vec![s.pick(names).clone()]),
            _ => {
                let mut v = s.subset(names);
                s.shuffle(&mut v);
                if v.is_empty() {
                    v.push(s.pick(names).clone());
                }
                Some(v)
            }
        };
        let rows = r
            .get_all_versions(d, filter.clone())
            .await
            .map_err(|e| Fail::new("read", format!("get_all_versions({d:?}, {filter:?}) fails: {e:?}")))?;
        let mut got: BTreeMap<(String, String, String), Vec<(i64, i64)>> = Default::default();
        for x in &rows {
            let t = *times.entry(x.table_version_id).or_insert(x.creation_time);
            ensure_eq!(x.creation_time, t, "time", "creation time of version {}", x.table_version_id);
            ensure!(t < 1_000_000_000 || (start - 1 <= t && t <= now + 1), "time", "version {} was created at {t}, not between {start} and {now}", x.table_version_id);
            got.entry((x.database_name.clone(), x.collection_name.clone(), x.table_name.clone())).or_default().push((x.table_version_id, x.version));
        }
        let mut want: BTreeMap<(String, String, String), Vec<(i64, i64)>> = Default::default();
        for (db, c, t) in m.tables() {
            if db.name == *d && filter.as_ref().map_or(true, |f| f.contains(&t.name)) {
                want.insert((db.name.clone(), c.name.clone(), t.name.clone()), t.versions.iter().map(|v| (v.id, v.number)).collect());
            }
        }
        ensure_eq!(got, want, "listing", "versions listed for database {d:?}, tables {filter:?}, as (id, number)");
    }
    // stored columns of old versions
    let cols = columns(r).await;
    for (_, _, t) in m.tables() {
        for v in &t.versions {
            let mut f = v.fields.clone();
            f.sort();
            ensure_eq!(cols.get(&v.id).cloned().unwrap_or_default(), f, "old-columns", "columns of version {} of table {:?}", v.id, t.name);
        }
    }
    Ok(())
}

fn unix() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

fn history(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 3);
    let names = names(s, n);
    let steps = s.urange(3, 40);
    let w = [1, 2, 4, 16, 4, 3, 0, 0, 1, 0, 0, 0, 0];
    let clock = s.chance(1, 2);
    let evolve = s.chance(1, 2);
    let mut log = vec![];
    let r = block_on(async {
        let r = memory().await?;
        let mut m = Model::default();
        let mut times = BTreeMap::new();
        let start = unix();
        for k in 0..steps {
            let op = m.gen(s, &names, &w);
            let out = m.step(&r, &op).await?;
            ctx.label(format!("{}: {}", op.name(), out.err().map(|k| format!("{k:?}")).unwrap_or("ok".into())));
            log.push(format!("{op:?} -> {out:?}"));
            if s.chance(1, 2) || k + 1 == steps {
                compare(&r, &m, &names, SEE, &log[log.len() - 1]).await?;
                versions(s, &r, &mut m, &names, &mut times, start).await?;
            }
            let live: Vec<i64> = m.tables().flat_map(|t| t.2.versions.iter().map(|v| v.id)).collect();
            times.retain(|v, _| live.contains(v));
            // the clock of the server steps back or jumps
            if clock && s.chance(1, 4) && !live.is_empty() {
                let v = *s.pick(&live);
                let t = s.range(0, 1000);
                sqlx::query("UPDATE table_version SET creation_time = $1 WHERE id = $2").bind(t).bind(v).execute(&r.executor).await.expect("set time");
                times.insert(v, t);
                ctx.label("clock change");
                log.push(format!("version {v} was created at {t}"));
            }
            // the newest version has another schema than the ones before
            if evolve && s.chance(1, 4) {
                let tabs: Vec<i64> = m.tables().map(|t| t.2.id).collect();
                if !tabs.is_empty() {
                    let t = m.table_mut(*s.pick(&tabs)).unwrap();
                    let v = t.versions.last_mut().unwrap();
                    let mut fields: Vec<(String, String)> = vec![];
                    let sch = schema(s, 4);
                    for f in sch.fields() {
                        if fields.iter().all(|x| x.0 != *f.name()) {
                            fields.push((f.name().clone(), serde_json::to_string(f).unwrap()));
                        }
                    }
                    sqlx::query("DELETE FROM table_column WHERE table_version_id = $1").bind(v.id).execute(&r.executor).await.expect("evolve");
                    for f in &fields {
                        sqlx::query("INSERT INTO table_column (table_version_id, name, type) VALUES ($1, $2, $3)")
                            .bind(v.id)
                            .bind(&f.0)
                            .bind(&f.1)
                            .execute(&r.executor)
                            .await
                            .expect("evolve");
                    }
                    v.fields = fields;
                    ctx.label("schema change");
                    log.push(format!("version {} has columns {:?}", v.id, v.fields));
                }
            }
        }
        r.executor.close().await;
        Ok(m)
    });
    ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
    let m = r?;
    let max = m.tables().map(|t| t.2.versions.len()).max().unwrap_or(0);
    ctx.label(format!("most versions of one table: {}", max.min(8)));
    if max > 1 {
        ctx.nontrivial(&log);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C11",
        rule: "non-trivial: at the end some table has at least two versions. Distinct by history.",
        assumptions: &[
            "schema and clock changes are made by SQL on the catalog's tables, as nothing in this version changes the schema of a table in place",
            "an empty list of requested tables is unspecified",
        ],
        legs: vec![leg("history", 1500, 60_000, history)],
    })
}
