//! C22: histories of SQL statements leave tables with the rows that SQL gives them, at every point in time.
use checks_full::env::*;
use checks_full::sqlmodel::*;
use pbt::*;
use seafowl_full::context::SeafowlContext;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Table {
    cols: Vec<Col>,
    rows: Vec<Row>,
    /// what the table held at a moment (RFC 3339)
    past: Vec<(String, Vec<Row>)>,
    /// how many versions the catalog lists
    versions: usize,
}

type Name = (String, String);

#[derive(Clone, Debug, Default)]
struct Db {
    schemas: BTreeSet<String>,
    tables: BTreeMap<Name, Table>,
}

/// What may be seen after the statement.
enum Expect {
    Ok,
    Err,
}

struct Step {
    sql: String,
    expect: Expect,
    /// the state if it takes place
    after: Db,
    /// the tables that it writes
    writes: Vec<Name>,
    kind: &'static str,
    /// the default schema that it runs with
    scope: Option<String>,
}

const NAMES: [&str; 7] = ["t", "u", "orders", "Mixed", "with space", "select", "t_1"];
const SCHEMAS: [&str; 3] = ["s1", "Big", "s 2"];
const COLS: [&str; 8] = ["a", "b", "c", "id", "Value", "some col", "x1", "order"];

fn qualified(n: &Name, scope: Option<&str>, s: &mut Src) -> String {
    let default = scope.unwrap_or("public");
    match s.below(4) {
        0 => format!("\"default\".{}.{}", id(&n.0), id(&n.1)),
        1 | 2 if n.0 == default => id(&n.1),
        _ => format!("{}.{}", id(&n.0), id(&n.1)),
    }
}

fn columns(s: &mut Src) -> Vec<Col> {
    let n = s.urange(1, 5);
    let mut names = COLS.to_vec();
    s.shuffle(&mut names);
    names[..n].iter().map(|c| Col { name: c.to_string(), ty: *s.pick(&TYPES), nn: s.chance(1, 6) }).collect()
}

fn col_list(cols: &[Col]) -> String {
    cols.iter().map(|c| id(&c.name)).collect::<Vec<_>>().join(", ")
}

fn values(rows: &[Row]) -> String {
    rows.iter()
        .map(|r| format!("({})", r.iter().map(V::sql).collect::<Vec<_>>().join(", ")))
        .collect::<Vec<_>>()
        .join(", ")
}

struct Gen<'a> {
    db: &'a Db,
    time_travel: bool,
}

impl Gen<'_> {
    fn schema(&self, s: &mut Src) -> String {
        let all: Vec<&String> = self.db.schemas.iter().collect();
        s.pick(&all).to_string()
    }
    fn some(&self, s: &mut Src) -> Option<Name> {
        let all: Vec<&Name> = self.db.tables.keys().collect();
        (!all.is_empty()).then(|| s.pick(&all).clone().clone())
    }
    fn fresh(&self, s: &mut Src) -> Name {
        for _ in 0..20 {
            let n = (self.schema(s), s.pick(&NAMES).to_string());
            if !self.db.tables.contains_key(&n) {
                return n;
            }
        }
        ("public".into(), format!("extra{}", self.db.tables.len()))
    }
    /// A table to read from: its text, columns and rows; now or in the past.
    fn source(&self, s: &mut Src, scope: Option<&str>) -> Option<(String, Vec<Col>, Vec<Row>)> {
        let n = self.some(s)?;
        let t = &self.db.tables[&n];
        let q = qualified(&n, scope, s);
        if self.time_travel && !t.past.is_empty() && s.chance(1, 2) {
            let (when, rows) = s.pick(&t.past).clone();
            return Some((format!("{q}('{when}')"), t.cols.clone(), rows));
        }
        Some((q, t.cols.clone(), t.rows.clone()))
    }

    /// SELECT over a table: its text and what it gives.
    fn query(&self, s: &mut Src, scope: Option<&str>, want: Option<&[Col]>) -> Option<(String, Vec<Col>, Vec<Row>)> {
        let (q, cols, rows) = self.source(s, scope)?;
        let p = s.chance(2, 3).then(|| P::gen(s, &cols, 2));
        let out: Vec<Col> = match want {
            Some(w) => w.to_vec(),
            None => {
                let n = s.urange(1, 4);
                (0..n).map(|i| Col { name: COLS[i].to_string(), ty: *s.pick(&TYPES), nn: false }).collect()
            }
        };
        let plain = want.is_none() && s.chance(1, 3);
        let exprs: Vec<E> = match plain {
            true => cols.iter().enumerate().map(|(i, c)| E::Col(i, c.name.clone())).collect(),
            false => out.iter().map(|c| E::gen(s, &cols, c.ty, 2)).collect(),
        };
        let out = if plain { cols.clone() } else { out };
        let list = match plain {
            true => "*".to_string(),
            false => exprs
                .iter()
                .zip(&out)
                // literals take the type of the column
                .map(|(e, c)| format!("CAST({} AS {}) AS {}", e.sql("x."), c.ty.sql(), id(&c.name)))
                .collect::<Vec<_>>()
                .join(", "),
        };
        let wh = p.as_ref().map_or(String::new(), |p| format!(" WHERE {}", p.sql("x.")));
        let got = rows
            .iter()
            .filter(|r| p.as_ref().is_none_or(|p| p.eval(r) == Some(true)))
            .map(|r| exprs.iter().map(|e| e.eval(r)).collect())
            .collect();
        Some((format!("SELECT {list} FROM {q} AS x{wh}"), out, got))
    }

    fn step(&self, s: &mut Src) -> Step {
        let scope = s.chance(1, 8).then(|| self.schema(s)).filter(|x| x != "public");
        let sc = scope.as_deref();
        let mut after = self.db.clone();
        let mk = |kind, sql: String, expect, after, writes| Step { sql, expect, after, writes, kind, scope: scope.clone() };
        let mut target = self.some(s);
        // rows first, most of the time
        let empty = target.as_ref().is_some_and(|n| self.db.tables[n].rows.is_empty());
        let w = if target.is_none() {
            s.below(4)
        } else if empty && s.chance(3, 5) {
            4
        } else {
            if empty && s.bool() {
                target = self.db.tables.iter().max_by_key(|(_, t)| t.rows.len()).map(|(n, _)| n.clone());
            }
            match s.below(100) {
                0..=9 => 0,
                10..=15 => 1,
                16..=17 => 2,
                18..=41 => 4,
                42..=45 => 5,
                46..=63 => 6,
                64..=81 => 7,
                82..=83 => 8,
                84..=88 => 9,
                89..=92 => 10,
                93..=94 => 11,
                95..=97 => 12,
                _ => 13,
            }
        };
        match (w, target) {
            (1, Some(_)) if s.chance(3, 4) => {
                // CREATE TABLE AS
                let n = self.fresh(s);
                let Some((q, cols, rows)) = self.query(s, sc, None) else { unreachable!() };
                after.tables.insert(n.clone(), Table { cols, rows, past: vec![], versions: 2 });
                let ine = if s.chance(1, 4) { "IF NOT EXISTS " } else { "" };
                mk("ctas", format!("CREATE TABLE {ine}{} AS {q}", qualified(&n, sc, s)), Expect::Ok, after, vec![n])
            }
            (2, _) | (3, None) if self.db.schemas.len() < 4 => {
                let n = s.pick(&SCHEMAS).to_string();
                let there = !after.schemas.insert(n.clone());
                let ine = s.chance(1, 3);
                let sql = format!("CREATE SCHEMA {}{}", if ine { "IF NOT EXISTS " } else { "" }, id(&n));
                mk("create schema", sql, if there && !ine { Expect::Err } else { Expect::Ok }, after, vec![])
            }
            (4, Some(n)) => {
                // INSERT
                let t = after.tables.get_mut(&n).unwrap();
                let mut order: Vec<usize> = (0..t.cols.len()).collect();
                let named = s.chance(2, 3);
                if named {
                    s.shuffle(&mut order);
                    let keep = s.urange(1, order.len());
                    let left_out = order.split_off(keep);
                    // leaving out a NOT NULL column rarely works
                    order.extend(left_out.into_iter().filter(|i| t.cols[*i].nn && s.chance(5, 6)));
                }
                let cols: Vec<Col> = order.iter().map(|i| t.cols[*i].clone()).collect();
                let q = qualified(&n, sc, s);
                let list = if named { format!(" ({})", col_list(&cols)) } else { String::new() };
                let (src, new) = if s.chance(1, 3) {
                    let (q, _, rows) = self.query(s, sc, Some(&cols)).unwrap();
                    (q, rows)
                } else {
                    let k = match s.below(6) {
                        0 | 1 => s.urange(5, 14),
                        _ => s.urange(1, 4),
                    };
                    let rows: Vec<Row> = (0..k).map(|_| cols.iter().map(|c| if c.nn && s.chance(5, 6) { c.ty.value(s) } else { c.ty.maybe(s) }).collect()).collect();
                    (format!("VALUES {}", values(&rows)), rows)
                };
                let t_cols = t.cols.len();
                for r in new {
                    let mut full = vec![V::Null; t_cols];
                    for (i, v) in order.iter().zip(r) {
                        full[*i] = v;
                    }
                    t.rows.push(full);
                }
                t.versions += 1;
                let sql = format!("INSERT INTO {q}{list} {src}");
                if !t.rows.iter().all(|r| fits(r, &t.cols)) {
                    return mk("insert NULL", sql, Expect::Err, self.db.clone(), vec![n]);
                }
                mk("insert", sql, Expect::Ok, after, vec![n])
            }
            (6, Some(n)) => {
                let t = after.tables.get_mut(&n).unwrap();
                let mut order: Vec<usize> = (0..t.cols.len()).collect();
                s.shuffle(&mut order);
                let keep = s.urange(1, order.len());
                order.truncate(keep);
                let sets: Vec<(usize, E)> = order.iter().map(|i| (*i, E::gen(s, &t.cols, t.cols[*i].ty, 2))).collect();
                let p = s.chance(5, 6).then(|| P::gen(s, &t.cols, 2));
                let cols = t.cols.clone();
                for r in &mut t.rows {
                    if p.as_ref().is_none_or(|p| p.eval(r) == Some(true)) {
                        let old = r.clone();
                        for (i, e) in &sets {
                            r[*i] = e.eval(&old);
                        }
                    }
                }
                t.versions += 1;
                let set = sets.iter().map(|(i, e)| format!("{} = {}", id(&cols[*i].name), e.sql(""))).collect::<Vec<_>>().join(", ");
                let wh = p.map_or(String::new(), |p| format!(" WHERE {}", p.sql("")));
                let sql = format!("UPDATE {} SET {set}{wh}", qualified(&n, sc, s));
                if !t.rows.iter().all(|r| fits(r, &t.cols)) {
                    return mk("update NULL", sql, Expect::Err, self.db.clone(), vec![n]);
                }
                mk("update", sql, Expect::Ok, after, vec![n])
            }
            (7, Some(n)) => {
                let t = after.tables.get_mut(&n).unwrap();
                let p = s.chance(11, 12).then(|| P::gen(s, &t.cols, 2));
                t.rows.retain(|r| p.as_ref().is_some_and(|p| p.eval(r) != Some(true)));
                t.versions += 1;
                let wh = p.map_or(String::new(), |p| format!(" WHERE {}", p.sql("")));
                mk("delete", format!("DELETE FROM {}{wh}", qualified(&n, sc, s)), Expect::Ok, after, vec![n])
            }
            (8, Some(n)) => {
                let t = after.tables.get_mut(&n).unwrap();
                t.rows.clear();
                t.versions += 1;
                mk("truncate", format!("TRUNCATE TABLE {}", qualified(&n, sc, s)), Expect::Ok, after, vec![n])
            }
            (9, Some(n)) => {
                let t = after.tables.remove(&n).unwrap();
                let m = self.fresh(s);
                after.tables.insert(m.clone(), t);
                let sql = format!("ALTER TABLE {} RENAME TO {}", qualified(&n, sc, s), qualified(&m, sc, s));
                mk("rename", sql, Expect::Ok, after, vec![])
            }
            (10, Some(n)) => {
                after.tables.remove(&n).unwrap();
                let ie = if s.bool() { "IF EXISTS " } else { "" };
                mk("drop", format!("DROP TABLE {ie}{}", qualified(&n, sc, s)), Expect::Ok, after, vec![n])
            }
            (11, Some(_)) => {
                let n = s.pick(&SCHEMAS).to_string();
                let there = after.schemas.remove(&n);
                after.tables.retain(|k, _| k.0 != n);
                let ie = s.bool();
                let sql = format!("DROP SCHEMA {}{}", if ie { "IF EXISTS " } else { "" }, id(&n));
                let mut st = mk("drop schema", sql, if there || ie { Expect::Ok } else { Expect::Err }, after, vec![]);
                if st.scope.as_ref() == Some(&n) {
                    st.scope = None;
                }
                st
            }
            (12, Some(n)) => {
                if s.chance(1, 3) {
                    return mk("vacuum database", "VACUUM DATABASE \"default\"".into(), Expect::Ok, after, vec![]);
                }
                let t = after.tables.get_mut(&n).unwrap();
                // only the latest version is kept
                t.past.clear();
                t.versions = 1;
                mk("vacuum table", format!("VACUUM TABLE {}", qualified(&n, sc, s)), Expect::Ok, after, vec![n])
            }
            (13, Some(n)) => {
                // statements that have to fail
                let q = qualified(&n, sc, s);
                let missing = id(&format!("missing{}", s.below(3)));
                let t = &self.db.tables[&n];
                let sql = match s.below(16) {
                    0 => format!("INSERT INTO {missing} VALUES (1)"),
                    1 => format!("UPDATE {missing} SET a = 1"),
                    2 => format!("DELETE FROM {missing}"),
                    3 => format!("DROP TABLE {missing}"),
                    4 => format!("TRUNCATE TABLE {missing}"),
                    5 => format!("ALTER TABLE {missing} RENAME TO {}", qualified(&self.fresh(s), sc, s)),
                    6 => {
                        let other = self.some(s).unwrap();
                        format!("ALTER TABLE {q} RENAME TO {}", qualified(&other, sc, s))
                    }
                    7 => format!("CREATE TABLE {q} (a INTEGER)"),
                    8 => format!("CREATE TABLE {q} AS SELECT 1 AS a"),
                    9 => format!("UPDATE {q} SET nosuchcolumn = 1"),
                    10 => format!("DELETE FROM {q} WHERE nosuchcolumn = 1"),
                    11 => format!("INSERT INTO {q} (nosuchcolumn) VALUES (1)"),
                    12 => format!("INSERT INTO {q} VALUES ({})", vec!["NULL"; t.cols.len() + 1].join(", ")),
                    13 => format!("CREATE TABLE nosuchschema.{} (a INTEGER)", id(&n.1)),
                    14 => format!("ALTER TABLE {q} RENAME TO nosuchschema.{}", id(&n.1)),
                    _ => format!("CREATE TABLE {} AS SELECT CAST(z AS INTEGER) AS z FROM (VALUES ('1'), ('one')) AS v(z)", qualified(&self.fresh(s), sc, s)),
                };
                mk("failing", sql, Expect::Err, after, vec![])
            }
            (5, Some(n)) if s.chance(1, 2) => {
                // statements about things that are there already, or not at all
                let (sql, kind) = match s.below(3) {
                    0 => (format!("CREATE TABLE IF NOT EXISTS {} (a INTEGER)", qualified(&n, sc, s)), "if not exists"),
                    1 => (format!("CREATE TABLE IF NOT EXISTS {} AS SELECT 1 AS a", qualified(&n, sc, s)), "if not exists"),
                    _ => ("DROP TABLE IF EXISTS missing0".to_string(), "if exists"),
                };
                mk(kind, sql, Expect::Ok, after, vec![])
            }
            _ => {
                let n = self.fresh(s);
                let cols = columns(s);
                let defs = cols.iter().map(|c| format!("{} {}{}", id(&c.name), c.ty.sql(), if c.nn { " NOT NULL" } else { "" })).collect::<Vec<_>>().join(", ");
                let ine = if s.chance(1, 4) { "IF NOT EXISTS " } else { "" };
                let sql = format!("CREATE TABLE {ine}{} ({defs})", qualified(&n, sc, s));
                after.tables.insert(n.clone(), Table { cols, rows: vec![], past: vec![], versions: 1 });
                mk("create", sql, Expect::Ok, after, vec![n])
            }
        }
    }
}

async fn show(ctx: &SeafowlContext, n: &Name) -> Result<Vec<Row>, String> {
    select(ctx, &format!("SELECT * FROM {}.{}", id(&n.0), id(&n.1))).await
}

/// The difference between what is there and the model, if any.
async fn differs(ctx: &SeafowlContext, db: &Db, only: Option<&[Name]>) -> Result<(), Fail> {
    let listed = select(
        ctx,
        "SELECT table_schema, table_name FROM information_schema.tables WHERE table_schema NOT IN ('information_schema', 'system')",
    )
    .await
    .map_err(|e| Fail::new("listing fails", e))?;
    let want: Vec<Row> = db.tables.keys().map(|n| vec![V::S(n.0.clone()), V::S(n.1.clone())]).collect();
    ensure_eq!(bag(&listed), bag(&want), "listed tables", "the tables listed in information_schema");
    for (n, t) in &db.tables {
        if only.is_some_and(|o| !o.contains(n)) {
            continue;
        }
        let got = show(ctx, n).await.map_err(|e| Fail::new("table unreadable", format!("SELECT * FROM {n:?}: {e}")))?;
        ensure_eq!(bag(&got), bag(&t.rows), "rows", "the rows of {n:?}");
    }
    Ok(())
}

async fn schema_check(ctx: &SeafowlContext, n: &Name, t: &Table) -> Result<(), Fail> {
    let got = select(
        ctx,
        &format!(
            "SELECT column_name, data_type, is_nullable FROM information_schema.columns WHERE table_schema = {} AND table_name = {} ORDER BY ordinal_position",
            V::S(n.0.clone()).sql(),
            V::S(n.1.clone()).sql()
        ),
    )
    .await
    .map_err(|e| Fail::new("listing fails", e))?;
    let arrow = |t: T| match t {
        T::Int => "Int32",
        T::Big => "Int64",
        T::Double => "Float64",
        T::Text => "Utf8",
        T::Bool => "Boolean",
        T::Date => "Date32",
        T::Ts => "Timestamp(Microsecond, None)",
    };
    let want: Vec<Row> =
        t.cols.iter().map(|c| vec![V::S(c.name.clone()), V::S(arrow(c.ty).into()), V::S(if c.nn { "NO" } else { "YES" }.into())]).collect();
    ensure_eq!(got, want, "columns", "the columns of {n:?}");
    Ok(())
}

async fn versions_check(ctx: &SeafowlContext, db: &Db) -> Result<(), Fail> {
    let got = select(ctx, "SELECT table_schema, table_name, version FROM system.table_versions").await.map_err(|e| Fail::new("versions fail", e))?;
    let mut seen: BTreeMap<Name, Vec<i64>> = BTreeMap::new();
    for r in got {
        let [V::S(a), V::S(b), V::I(v)] = &r[..] else { fail!("versions shape", "{r:?}") };
        seen.entry((a.clone(), b.clone())).or_default().push(*v);
    }
    for (n, t) in &db.tables {
        let mut vs = seen.remove(n).unwrap_or_default();
        vs.sort();
        vs.dedup();
        ensure_eq!(vs.len(), t.versions, "versions listed", "how many versions system.table_versions lists for {n:?} ({vs:?})");
    }
    ensure!(seen.is_empty(), "versions of others", "versions of tables that are not there: {seen:?}");
    Ok(())
}

/// The directories in storage that hold anything.
async fn dirs(ctx: &SeafowlContext) -> BTreeSet<String> {
    use futures::TryStreamExt;
    let store = ctx.internal_object_store.as_ref().unwrap().inner.clone();
    let all: Vec<_> = store.list(None).try_collect().await.expect("list");
    all.iter().map(|o| o.location.parts().next().unwrap().as_ref().to_string()).collect()
}

async fn live(ctx: &SeafowlContext, db: &Db) -> Result<BTreeSet<String>, Fail> {
    // (sees what other instances created)
    run(ctx, "SELECT 1").await.map_err(|e| Fail::new("query fails", e))?;
    let mut out = BTreeSet::new();
    for n in db.tables.keys() {
        let q = format!("{}.{}", id(&n.0), id(&n.1));
        out.insert(ctx.get_table_uuid(q.as_str()).await.map_err(|e| Fail::new("no uuid", e.to_string()))?.to_string());
    }
    Ok(out)
}

/// Failures of DataFusion 44 itself, of CASE with conditions that turn out constant.
fn upstream(e: &str) -> bool {
    e.contains("Internal error: predicate did not evaluate to an array")
}

async fn pause(local: bool) -> String {
    let gap = std::time::Duration::from_millis(if local { 12 } else { 2 });
    tokio::time::sleep(gap).await;
    let t = chrono::DateTime::<chrono::Utc>::from(std::time::SystemTime::now());
    let text = t.to_rfc3339_opts(chrono::SecondsFormat::Millis, true);
    tokio::time::sleep(gap).await;
    text
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    TimeTravel,
    Faults,
    Local,
}

fn history(s: &mut Src, ctx: &mut Ctx, mode: Mode) -> Result<(), Fail> {
    let part = *s.pick(&[2, 3, 5, 1000]);
    let steps = s.urange(4, if mode == Mode::Plain { 22 } else { 14 });
    let dir = (mode == Mode::Local).then(scratch);
    ctx.describe(format!("max_partition_size {part}"));
    let mut trail: Vec<String> = vec![];
    let r = block_on(go(s, ctx, mode, part, steps, dir.as_ref().map(|d| d.path()), &mut trail));
    deltalake::logstore::set_hook(None);
    for t in &trail {
        ctx.describe_more(format!("\n{t}"));
    }
    r
}

async fn go(
    s: &mut Src,
    ctx: &mut Ctx,
    mode: Mode,
    part: u32,
    steps: usize,
    dir: Option<&std::path::Path>,
    trail: &mut Vec<String>,
) -> Result<(), Fail> {
    let open = || async {
        Arc::new(match dir {
            Some(d) => local(d, part).await,
            None => memory(part).await,
        })
    };
    let mut nodes = vec![open().await];
    if dir.is_some() && s.bool() {
        nodes.push(open().await);
        trail.push("(two instances)".into());
    }
    let mut db = Db::default();
    db.schemas.insert("public".into());
    let travel = mode == Mode::TimeTravel || (mode == Mode::Local && s.chance(1, 3));
    let (mut changed, mut filtered, mut travelled) = (0, 0, 0);
    let mut sqls = vec![];
    let mut leaky = false;
    let mut counts_known = true;
    for _ in 0..steps {
        if dir.is_some() && s.chance(1, 8) {
            let i = s.usize(nodes.len());
            nodes[i] = open().await;
            trail.push(format!("(restart of instance {i})"));
            ctx.label("restart");
        }
        let at = s.usize(nodes.len());
        let node = nodes[at].clone();
        if s.chance(1, 5) {
            // a query
            let scope = s.chance(1, 4).then(|| Gen { db: &db, time_travel: travel }.schema(s));
            let here = match &scope {
                Some(x) => node.scope_to_schema(x.clone()),
                None => node.clone(),
            };
            if let Some((q, _, want)) = (Gen { db: &db, time_travel: travel }).query(s, scope.as_deref(), None) {
                trail.push(format!("[{at}{}] {q}", scope.as_ref().map_or(String::new(), |x| format!(" {x}"))));
                let got = match select(&here, &q).await {
                    Err(e) if upstream(&e) => {
                        ctx.label("failure of DataFusion");
                        continue;
                    }
                    r => r.map_err(|e| Fail::new("query fails", format!("{q}: {e}")))?,
                };
                ensure_eq!(bag(&got), bag(&want), "query", "the rows of {q}");
                ctx.label("query");
                if q.contains("Z')") {
                    travelled += 1;
                }
            }
            continue;
        }
        let st = Gen { db: &db, time_travel: travel }.step(s);
        let here = match &st.scope {
            Some(x) => node.scope_to_schema(x.clone()),
            None => node.clone(),
        };
        let fault = (mode == Mode::Faults && !matches!(st.kind, "failing" | "create schema") && s.chance(1, 3)).then(|| {
            let ops: &[&str] = *s.pick::<&[&str]>(&[
                &["put", "put_multipart", "put_part", "complete"],
                &["put"],
                &["get"],
                &["complete"],
                &["list"],
                &["delete"],
            ]);
            (ops, s.below(6), s.chance(1, 3))
        });
        trail.push(format!(
            "[{at}{}] {}{}",
            st.scope.as_ref().map_or(String::new(), |x| format!(" {x}")),
            st.sql,
            fault.as_ref().map_or(String::new(), |(ops, n, more)| format!(
                "   -- with a failure of {ops:?} number {n}{}",
                if *more { " and later" } else { "" }
            ))
        ));
        let mut hit = Arc::new(std::sync::atomic::AtomicBool::new(false));
        if let Some((ops, n, more)) = fault {
            let (flag, mut k) = (hit.clone(), 0);
            deltalake::logstore::set_hook(Some(Box::new(move |op, _| {
                if !ops.contains(&op) {
                    return false;
                }
                k += 1;
                let fail = k == n + 1 || (more && k > n);
                if fail {
                    flag.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                fail
            })));
        }
        let r = run(&here, &st.sql).await;
        deltalake::logstore::set_hook(None);
        let hit = std::mem::take(&mut hit).load(std::sync::atomic::Ordering::Relaxed);
        ctx.label(st.kind);
        if st.scope.is_some() {
            ctx.label("scoped");
        }
        sqls.push(st.sql.clone());
        let before = db.clone();
        match (&st.expect, r) {
            (Expect::Ok, Ok(_)) => db = st.after,
            (Expect::Ok, Err(e)) if hit => {
                // either it took place or it didn't
                ctx.label("fault");
                trail.push(format!("   ({e})"));
                leaky = true;
                counts_known = false;
                let all: Vec<Name> = st.writes.clone();
                let old = differs(&nodes[0], &before, Some(&all)).await;
                if let Err(old) = old {
                    differs(&nodes[0], &st.after, Some(&all)).await.map_err(|new| {
                        Fail::new(
                            format!("halfway {}", st.kind),
                            format!("after a failure in\n{}\nthe state is neither the old one ({})\nnor the new one ({})", st.sql, old.msg, new.msg),
                        )
                    })?;
                    db = st.after;
                    ctx.label("fault after the commit");
                }
            }
            (Expect::Ok, Err(e)) if upstream(&e) => {
                ctx.label("failure of DataFusion");
                leaky = true;
                counts_known = false;
            }
            (Expect::Ok, Err(e)) => fail!(format!("{} fails", st.kind), "{}\nfails: {e}", st.sql),
            (Expect::Err, Err(_)) => {
                if st.sql.starts_with("CREATE TABLE") || st.kind.ends_with("NULL") {
                    leaky = true;
                }
            }
            (Expect::Err, Ok(_)) => fail!("failing succeeds", "{}\nsucceeds", st.sql),
        }
        if hit {
            leaky = true;
        }
        let reader = &nodes[s.usize(nodes.len())];
        differs(reader, &db, None).await.map_err(|f| Fail::new(format!("{} after {}", f.sig, st.kind), format!("after\n{}\n{}", st.sql, f.msg)))?;
        if matches!(st.kind, "create" | "ctas") && !hit {
            for n in &st.writes {
                if let Some(t) = db.tables.get_mut(n) {
                    if st.kind == "ctas" {
                        // an expression that can't be NULL makes a NOT NULL column
                        let q = format!(
                            "SELECT is_nullable FROM information_schema.columns WHERE table_schema = {} AND table_name = {} ORDER BY ordinal_position",
                            V::S(n.0.clone()).sql(),
                            V::S(n.1.clone()).sql()
                        );
                        let got = select(reader, &q).await.map_err(|e| Fail::new("listing fails", e))?;
                        for (c, r) in t.cols.iter_mut().zip(got) {
                            c.nn = r[0] == V::S("NO".into());
                        }
                    }
                    let t = &*t;
                    schema_check(reader, n, t).await?;
                }
            }
        }
        if st.kind == "delete" || st.kind == "update" {
            let n = &st.writes[0];
            let (a, b) = (before.tables[n].rows.len(), db.tables[n].rows.len());
            let same = bag(&before.tables[n].rows) == bag(&db.tables[n].rows);
            if st.kind == "delete" && 0 < b && b < a || st.kind == "update" && !same {
                filtered += 1;
            }
        }
        changed += st.writes.len();
        if travel {
            let now = pause(dir.is_some()).await;
            for n in &st.writes {
                if let Some(t) = db.tables.get_mut(n) {
                    let rows = t.rows.clone();
                    if !t.past.iter().any(|(w, _)| *w == now) {
                        t.past.push((now.clone(), rows));
                    }
                }
            }
        }
        if mode != Mode::Faults && counts_known && s.chance(1, 3) {
            versions_check(&node, &db).await?;
        }
    }
    let end = &nodes[0];
    if travel {
        // the whole past is still there
        for (n, t) in &db.tables {
            for (when, rows) in &t.past {
                let q = format!("SELECT * FROM {}.{}('{when}')", id(&n.0), id(&n.1));
                let got = select(end, &q).await.map_err(|e| Fail::new("time travel fails", format!("{q}: {e}")))?;
                ensure_eq!(bag(&got), bag(rows), "time travel", "the rows of {q}");
                travelled += 1;
            }
        }
    }
    // what was dropped doesn't stay in storage
    if !leaky {
        let want = live(end, &db).await?;
        let there = dirs(end).await;
        ensure_eq!(there, want, "storage", "the directories in storage against the tables that are there");
    } else {
        run(end, "VACUUM DATABASE \"default\"").await.map_err(|e| Fail::new("gc fails", e))?;
        differs(end, &db, None).await?;
    }
    if filtered > 0 && changed > 2 && (!travel || travelled > 0) {
        ctx.nontrivial(&sqls);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C22",
        rule: "an UPDATE or DELETE that changed some rows and left others, at least three writes, and in time-travel legs a query of the past",
        assumptions: &[
            "deltalake is a stand-in that keeps the log protocol (versions, adds, removes, put-if-absent commits, whole-file pruning by statistics) without checkpoints; it is validated against the repository's own integration tests",
            "the catalog is SQLite",
        ],
        legs: vec![
            leg("history", 400, 12000, |s, c| history(s, c, Mode::Plain)),
            leg("time-travel", 120, 4000, |s, c| history(s, c, Mode::TimeTravel)),
            leg("faults", 200, 8000, |s, c| history(s, c, Mode::Faults)),
            leg("restart", 60, 2000, |s, c| history(s, c, Mode::Local)),
        ],
    })
}
