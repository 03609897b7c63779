//! C26: what the HTTP API answers, and what uploads leave.
use checks_full::env::*;
use checks_full::http::*;
use checks_full::sqlmodel::{bag, Row, V};
use pbt::*;
use seafowl_full::config::schema::HttpFrontend;
use seafowl_full::context::SeafowlContext;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

fn front() -> HttpFrontend {
    HttpFrontend {
        write_access: seafowl_full::config::schema::AccessSettings::Any,
        cache_control: "max-age=7".into(),
        upload_data_max_length: 1,
        ..Default::default()
    }
}

/// Is this JSON value that SQL value?
fn same(j: &Value, v: &V) -> bool {
    match v {
        V::Null => j.is_null(),
        V::I(i) => j.as_i64() == Some(*i),
        V::F(f) => j.as_f64() == Some(*f),
        V::S(s) => j.as_str() == Some(s),
        V::B(b) => j.as_bool() == Some(*b),
        V::D(d) => j.as_str().and_then(|s| s.parse::<chrono::NaiveDate>().ok()) == chrono::DateTime::from_timestamp(d * 86400, 0).map(|t| t.date_naive()),
        V::T(t) => {
            j.as_str().and_then(|s| chrono::NaiveDateTime::parse_from_str(s.trim_end_matches('Z'), "%Y-%m-%dT%H:%M:%S%.f").ok())
                == chrono::DateTime::from_timestamp_micros(*t).map(|t| t.naive_utc())
        }
    }
}

/// Names and rows of a response.
fn lines(body: &[u8]) -> Result<Vec<Value>, String> {
    let t = std::str::from_utf8(body).map_err(|e| e.to_string())?;
    if !t.is_empty() && !t.ends_with('\n') {
        return Err(format!("no newline ends the last row: {t:?}"));
    }
    t.lines().map(|l| serde_json::from_str(l).map_err(|e| format!("{l}: {e}"))).collect()
}

fn compare_rows(resp: &Resp, names: &[String], want: &[Row], ordered: bool, what: &str) -> Result<(), Fail> {
    let got = lines(&resp.body).map_err(|e| Fail::new("rows aren't JSON lines", format!("{what}: {e}")))?;
    ensure_eq!(got.len(), want.len(), "number of rows", "{what}");
    let fits = |j: &Value, r: &Row| j.as_object().is_some_and(|o| o.len() == names.len()) && names.iter().zip(r).all(|(n, v)| j.get(n).is_some_and(|j| same(j, v)));
    if ordered {
        for (j, r) in got.iter().zip(want) {
            ensure!(fits(j, r), "rows differ", "{what}: {j} instead of {r:?}");
        }
    } else {
        let mut left: Vec<&Row> = want.iter().collect();
        for j in &got {
            match left.iter().position(|r| fits(j, r)) {
                Some(i) => {
                    left.swap_remove(i);
                }
                None => return Err(Fail::new("rows differ", format!("{what}: {j} is none of {left:?}"))),
            }
        }
    }
    Ok(())
}

const TABLES: [&str; 2] = ["t", "u"];

fn text(s: &mut Src) -> String {
    s.pick(&["a", "", "it's", "q\"q", "new\nline", "é", "\\", "NULL", "a,b", "{\"a\":1}", "\u{1}"]).to_string()
}

/// A query, whether its order is told, and whether its tables' versions tell its result.
fn query(s: &mut Src) -> (String, bool, bool) {
    let t = *s.pick(&TABLES);
    let u = *s.pick(&TABLES);
    let n = s.below(4);
    match s.below(19) {
        0 | 1 => (format!("SELECT * FROM {t}"), false, true),
        2 => (format!("SELECT * FROM {t} ORDER BY n, s"), true, true),
        3 => (format!("SELECT count(*) AS c, sum(n) AS s FROM {t} WHERE n > {n}"), true, true),
        4 => (format!("SELECT (SELECT count(*) FROM {t}) AS c"), true, true),
        5 => (format!("SELECT n FROM {t} WHERE n IN (SELECT n FROM {u} WHERE s <> 'a')"), false, true),
        6 => (format!("WITH x AS (SELECT n, s FROM {t}) SELECT * FROM x WHERE n < {n}"), false, true),
        7 => (format!("SELECT a.n, b.s FROM {t} AS a JOIN {u} AS b ON a.n = b.n"), false, true),
        8 => (format!("SELECT n FROM {t} UNION ALL SELECT n + 10 FROM {u}"), false, true),
        9 => (format!("SELECT n FROM {t} AS a WHERE EXISTS (SELECT 1 FROM {u} AS b WHERE b.n = a.n)"), false, true),
        10 => (format!("SELECT 'x' AS x WHERE (SELECT max(n) FROM {t}) > {n}"), true, true),
        11 => ("SELECT table_name, version FROM system.table_versions".into(), false, false),
        12 => ("SELECT table_schema, table_name FROM information_schema.tables".into(), false, false),
        13 => ("SELECT 1.5 AS a, 'a.b/c?d#e%41' AS b, NULL AS c".into(), true, true),
        14 => (format!("SELECT b, i, f, s, d, ts FROM typed WHERE i < {}", n * 2), false, true),
        15 => (format!("SELECT value AS n FROM generate_series(1, {})", [3, 0, 20_000][s.usize(3)]), true, false),
        16 => (format!("SELECT n AS \"{}\" FROM {t}", s.pick(&["N", "a b", "é", "x\"\"y"])), false, true),
        17 => ("SELECT count(*) AS c FROM information_schema.columns WHERE table_schema = 'public'".into(), true, false),
        _ => (format!("SELECT * FROM {t} AS a LEFT JOIN (SELECT n AS m FROM {u} WHERE n > {n}) AS b ON a.n = b.m"), false, true),
    }
}

fn write(s: &mut Src) -> String {
    let t = *s.pick(&TABLES);
    let n = s.below(5);
    match s.below(12) {
        0..=4 => format!("INSERT INTO {t} VALUES ({n}, '{}')", text(s).replace('\'', "''")),
        5 => format!("DELETE FROM {t} WHERE n = {n}"),
        6 => format!("UPDATE {t} SET n = n + 1 WHERE n = {n}"),
        7 => format!("TRUNCATE TABLE {t}"),
        8 => format!("DROP TABLE {t}"),
        9 => format!("CREATE TABLE {t} (n BIGINT, s TEXT)"),
        10 => format!("ALTER TABLE {t} RENAME TO {}", s.pick(&TABLES)),
        _ => format!("CREATE TABLE {t} AS SELECT * FROM (VALUES ({n}, 'new')) AS v (n, s)"),
    }
}

#[derive(Clone)]
struct Tag {
    etag: String,
    /// rows then
    bag: Vec<String>,
    writes: usize,
}

async fn answers(s: &mut Src, ctx: &mut Ctx, trail: &mut Vec<String>) -> Result<(), Fail> {
    let cx = Arc::new(memory(*s.pick(&[1000, 2])).await);
    let conf = front();
    let dbs: [Option<&str>; 2] = [None, Some("other")];
    run(&cx, "CREATE DATABASE other").await.map_err(|e| Fail::new("setup", e))?;
    for (k, d) in dbs.iter().enumerate() {
        for q in [
            "CREATE TABLE t (n BIGINT, s TEXT)".to_string(),
            format!("INSERT INTO t VALUES (1, 'a'), ({k}, NULL)"),
            "CREATE TABLE u (n BIGINT, s TEXT)".into(),
            "CREATE TABLE typed (b BOOLEAN, i INT, f DOUBLE, s TEXT, d DATE, ts TIMESTAMP)".into(),
            "INSERT INTO typed VALUES (true, 1, 1.5, 'x\"y\nz', DATE '2020-02-29', TIMESTAMP '2021-03-04 05:06:07.000009'), \
             (NULL, NULL, NULL, NULL, NULL, NULL), (false, -2147483648, -0.1, '', DATE '0001-01-01', TIMESTAMP '1969-12-31 23:59:59.5')"
                .into(),
        ] {
            let r = send(&cx, &conf, &post(*d, &q)).await;
            ensure_eq!(r.status, 200, "setup fails", "{q}: {}", r.text());
        }
    }
    let mut tags: HashMap<(Option<&str>, String), Vec<Tag>> = HashMap::new();
    let mut writes = [0usize; 2];
    let (mut spared, mut fresh, mut good) = (0, 0, 0);
    // a few queries asked again and again
    let mine: Vec<(String, bool, bool)> = (0..s.urange(1, 4)).map(|_| query(s)).collect();
    for _ in 0..s.urange(4, 20) {
        let k = s.usize(2);
        let db = dbs[k];
        let scoped = cx.scope_to_catalog(db.unwrap_or("default").to_string());
        if s.chance(2, 5) {
            let n = s.urange(1, 2);
            let sql = (0..n).map(|_| write(s)).collect::<Vec<_>>().join("; ");
            let r = send(&cx, &conf, &post(db, &sql)).await;
            trail.push(format!("{db:?} {sql}: {}", r.status));
            ensure!(r.status == 200 || r.status == 400, "status", "{sql}: {} {}", r.status, r.text());
            writes[0] += 1;
            writes[1] += 1;
            continue;
        }
        let (sql, ordered, versioned) = if s.chance(4, 5) { s.pick(&mine).clone() } else { query(s) };
        let direct = async {
            let plan = scoped.plan_query(&sql).await.map_err(|e| short(&e.to_string()))?;
            let names: Vec<String> = plan.schema().fields().iter().map(|f| f.name().clone()).collect();
            let schema = plan.schema();
            let b = scoped.collect(plan).await.map_err(|e| short(&e.to_string()))?;
            Ok::<_, String>((names, schema, rows(&b)?))
        }
        .await;
        let as_post = s.chance(1, 4);
        let how = s.below(3) as u8;
        let mut req = if as_post { post(db, &sql) } else { get(db, &sql, how, *s.pick(&["", ".csv", ".a.b"])) };
        let known = tags.entry((db, sql.clone())).or_default();
        let mut offered: Option<Tag> = None;
        if !as_post {
            match s.below(4) {
                0 => {}
                1 => req.headers.push(("If-None-Match".into(), "\"junk\"".into())),
                _ if !known.is_empty() => {
                    let t = s.pick(known).clone();
                    req.headers.push(("If-None-Match".into(), t.etag.clone()));
                    offered = Some(t);
                }
                _ => {}
            }
            if how > 0 && s.chance(1, 15) {
                req.path = req.path.replace("/q/", "/q/0");
                let r = send(&cx, &conf, &req).await;
                ensure_eq!(r.status, 400, "wrong hash accepted", "{sql}");
                continue;
            }
        }
        let r = send(&cx, &conf, &req).await;
        let what = format!("{} {sql} in {db:?}", req.method);
        trail.push(format!("{what}: {}", r.status));
        let (names, schema, want) = match direct {
            Err(e) => {
                ensure!(r.status == 400, "fails only there", "{what}: {} {}, though: {e}", r.status, r.text());
                ensure!(r.header("cache-control").is_none(), "an error may be cached", "{what}");
                continue;
            }
            Ok(x) => x,
        };
        if r.status == 304 {
            let t = match &offered {
                None => return Err(Fail::new("not modified since nothing", what)),
                Some(t) => t,
            };
            ensure_eq!(bag(&want), t.bag, "stale answer", "{what}");
            spared += 1;
        } else {
            ensure_eq!(r.status, 200, "read fails", "{what}: {}", r.text());
            if !as_post || !want.is_empty() || r.header("content-type").is_some() {
                let ct = r.header("content-type").unwrap_or_default();
                let sch = ct.strip_prefix("application/json; arrow-schema=").unwrap_or_default();
                let sch = percent_encoding::percent_decode_str(sch).decode_utf8_lossy().to_string();
                let got: arrow_schema::Schema = serde_json::from_str(&sch).map_err(|e| Fail::new("content type", format!("{what}: {ct}: {e}")))?;
                ensure!(got == *schema, "schema differs", "{what}: {got:?} instead of {schema:?}");
            }
            compare_rows(&r, &names, &want, ordered, &what)?;
            good += 1;
            if !as_post {
                ensure_eq!(r.header("cache-control").unwrap_or_default(), "max-age=7", "cache control", "{what}");
                let vary = r.header("vary").unwrap_or_default().to_lowercase();
                ensure!(vary.contains("x-seafowl-query") && vary.contains("authorization"), "vary", "{what}: {vary}");
                if let Some(t) = &offered {
                    fresh += 1;
                    ensure!(!versioned || t.writes < writes[k], "sent again for nothing", "{what}");
                }
                if let Some(e) = r.header("etag") {
                    known.push(Tag { etag: e, bag: bag(&want), writes: writes[k] });
                } else {
                    ensure!(!versioned, "no ETag", "{what}");
                }
            }
        }
    }
    ctx.label_n("spared", spared);
    ctx.label_n("asked and sent again", fresh);
    if good >= 2 && writes[0] > 0 && spared + fresh > 0 {
        ctx.nontrivial(&trail);
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Int,
    Text,
    Float,
    Bool,
}

#[derive(Clone, Debug)]
struct Tbl {
    cols: Vec<(String, Ty)>,
    rows: Vec<Row>,
}

fn value(s: &mut Src, t: Ty) -> V {
    match t {
        Ty::Int => V::I(*s.pick(&[0, 1, -7, i64::MAX, 42])),
        Ty::Float => V::F(*s.pick(&[0.5, -1.25, 1e10 + 0.5])),
        Ty::Bool => V::B(s.bool()),
        Ty::Text => V::S(s.pick(&["a", "it's", "a,b", "q\"q", "é", "two words", "x\ny", "0x", "-"]).to_string()),
    }
}

fn csv(cols: &[(String, Ty)], rows: &[Row], header: bool) -> Vec<u8> {
    let cell = |t: &str| if t.contains([',', '"', '\n']) { format!("\"{}\"", t.replace('"', "\"\"")) } else { t.to_string() };
    let mut out = String::new();
    if header {
        out += &cols.iter().map(|(n, _)| cell(n)).collect::<Vec<_>>().join(",");
        out.push('\n');
    }
    for r in rows {
        out += &r
            .iter()
            .map(|v| match v {
                V::Null => "".into(),
                V::I(i) => i.to_string(),
                V::F(f) => format!("{f:?}"),
                V::B(b) => b.to_string(),
                V::S(t) => cell(t),
                v => panic!("{v:?}"),
            })
            .collect::<Vec<_>>()
            .join(",");
        out.push('\n');
    }
    out.into_bytes()
}

fn arrow_type(t: Ty) -> arrow_schema::DataType {
    use arrow_schema::DataType::*;
    match t {
        Ty::Int => Int64,
        Ty::Float => Float64,
        Ty::Bool => Boolean,
        Ty::Text => Utf8,
    }
}

fn schema_of(cols: &[(String, Ty)]) -> arrow_schema::Schema {
    arrow_schema::Schema::new(cols.iter().map(|(n, t)| arrow_schema::Field::new(n, arrow_type(*t), true)).collect::<Vec<_>>())
}

fn batch(cols: &[(String, Ty)], rows: &[Row]) -> arrow::record_batch::RecordBatch {
    use arrow::array::*;
    let arrays: Vec<ArrayRef> = cols
        .iter()
        .enumerate()
        .map(|(i, (_, t))| -> ArrayRef {
            let col = rows.iter().map(|r| &r[i]);
            match t {
                Ty::Int => Arc::new(col.map(|v| if let V::I(i) = v { Some(*i) } else { None }).collect::<Int64Array>()),
                Ty::Float => Arc::new(col.map(|v| if let V::F(i) = v { Some(*i) } else { None }).collect::<Float64Array>()),
                Ty::Bool => Arc::new(col.map(|v| if let V::B(i) = v { Some(*i) } else { None }).collect::<BooleanArray>()),
                Ty::Text => Arc::new(col.map(|v| if let V::S(i) = v { Some(i.clone()) } else { None }).collect::<StringArray>()),
            }
        })
        .collect();
    arrow::record_batch::RecordBatch::try_new(Arc::new(schema_of(cols)), arrays).unwrap()
}

fn parquet(cols: &[(String, Ty)], rows: &[Row]) -> Vec<u8> {
    let b = batch(cols, rows);
    let mut out = vec![];
    let mut w = datafusion::parquet::arrow::ArrowWriter::try_new(&mut out, b.schema(), None).unwrap();
    w.write(&b).unwrap();
    w.close().unwrap();
    out
}

type World = BTreeMap<(usize, String, String), Tbl>;

async fn check(cx: &Arc<SeafowlContext>, w: &World, dbs: &[Option<&str>; 2], what: &str) -> Result<(), Fail> {
    for k in 0..2 {
        let scoped = cx.scope_to_catalog(dbs[k].unwrap_or("default").to_string());
        let b = run(&scoped, "SELECT table_schema, table_name FROM information_schema.tables WHERE table_schema NOT IN ('information_schema', 'system')").await.map_err(|e| Fail::new("listing", e))?;
        let mut got: Vec<(String, String)> = rows(&b)
            .unwrap()
            .into_iter()
            .map(|r| match &r[..] {
                [V::S(a), V::S(b)] => (a.clone(), b.clone()),
                _ => panic!(),
            })
            .collect();
        got.sort();
        let want: Vec<(String, String)> = w.keys().filter(|x| x.0 == k).map(|(_, s, t)| (s.clone(), t.clone())).collect();
        ensure_eq!(got, want, "tables differ", "in {:?} after {what}", dbs[k]);
        for ((_, sc, t), tbl) in w.iter().filter(|(x, _)| x.0 == k) {
            let list = tbl.cols.iter().map(|(n, _)| format!("\"{}\"", n.replace('"', "\"\""))).collect::<Vec<_>>().join(", ");
            let b = run(&scoped, &format!("SELECT {list} FROM \"{sc}\".\"{t}\"")).await.map_err(|e| Fail::new("table can't be read", format!("{sc}.{t} after {what}: {e}")))?;
            ensure_eq!(bag(&rows(&b).unwrap()), bag(&tbl.rows), "table contents differ", "{sc}.{t} after {what}");
        }
    }
    Ok(())
}

async fn uploads(s: &mut Src, ctx: &mut Ctx, trail: &mut Vec<String>) -> Result<(), Fail> {
    let cx = Arc::new(memory(*s.pick(&[1000, 2])).await);
    let conf = front();
    let dbs: [Option<&str>; 2] = [None, Some("other")];
    run(&cx, "CREATE DATABASE other").await.map_err(|e| Fail::new("setup", e))?;
    let mut w = World::new();
    let (mut made, mut appended) = (0, 0);
    for _ in 0..s.urange(2, 8) {
        let k = s.usize(2);
        let schema = s.pick(&["public", "public", "fresh", "Sc"]).to_string();
        let table = s.pick(&["t", "t", "u", "Upper", "a.b", "select"]).to_string();
        let key = (k, schema.clone(), table.clone());
        let old = w.get(&key).cloned();
        let types = [Ty::Int, Ty::Text, Ty::Float, Ty::Bool];
        let cols: Vec<(String, Ty)> = match &old {
            Some(t) => t.cols.clone(),
            None => (0..s.urange(1, 4)).map(|i| (format!("{}{i}", s.pick(&["c", "C", "a b", "é"])), *s.pick(&types))).collect(),
        };
        let n = if s.chance(1, 6) { 0 } else { s.urange(1, 6) };
        let as_csv = s.bool();
        let told = s.chance(1, 2);
        let header = !as_csv || told || old.is_some() || s.chance(2, 3);
        let header = if as_csv && (told || old.is_some()) { s.bool() } else { header };
        // what's inferred from CSV is only certain without NULLs and with a row
        let certain = !as_csv || told || old.is_some();
        let n = if certain { n } else { n.max(1) };
        let data: Vec<Row> = (0..n)
            .map(|_| cols.iter().map(|(_, t)| if certain && s.chance(1, 5) && (!as_csv || cols.len() > 1) && *t != Ty::Text { V::Null } else { value(s, *t) }).collect())
            .collect();
        let named: Vec<(String, Ty)> = if as_csv && !header && !told && old.is_none() {
            cols.iter().enumerate().map(|(i, (_, t))| (format!("column_{}", i + 1), *t)).collect()
        } else {
            cols.clone()
        };
        let bad = s.chance(1, 6);
        let mut bytes = if as_csv { csv(&named, &data, header) } else { parquet(&cols, &data) };
        let mut fails = false;
        if bad {
            // something that can't be read
            if as_csv {
                bytes.extend(b"1,2,3,4,5,6,7,8,9\n");
            } else {
                bytes.truncate(bytes.len() / 2);
            }
            fails = true;
        }
        let file = match s.below(8) {
            0 if fails => "f.txt",
            _ if as_csv => *s.pick(&["f.csv", "a.b.csv", "x y.csv"]),
            _ => *s.pick(&["f.parquet", "f.v1.parquet"]),
        };
        let mut parts = vec![];
        if as_csv && (!header || s.bool()) {
            parts.push(Part { name: "has_header", filename: None, data: header.to_string().into_bytes() });
        }
        if told {
            parts.push(Part { name: "schema", filename: None, data: serde_json::to_vec(&schema_of(&cols)).unwrap() });
        }
        parts.push(Part { name: *s.pick(&["data", "file"]), filename: Some(file), data: bytes });
        if s.bool() {
            parts.rotate_left(1);
        }
        let what = format!(
            "{}upload of {file} to {:?} {schema}.{table}: {named:?} {data:?}{}{}",
            if fails { "failing " } else { "" },
            dbs[k],
            if told { " with its schema" } else { "" },
            if header { "" } else { " without header" }
        );
        trail.push(what.clone());
        let r = send(&cx, &conf, &upload(dbs[k], &schema, &table, &parts)).await;
        if fails {
            ensure!(r.status >= 400, "accepts what it can't read", "{what}: {}", r.text());
        } else {
            ensure_eq!(r.status, 200, "upload fails", "{what}: {}", r.text());
            let e = w.entry(key).or_insert(Tbl { cols: named, rows: vec![] });
            e.rows.extend(data);
            if old.is_some() {
                appended += 1;
            } else {
                made += 1;
            }
        }
        check(&cx, &w, &dbs, &what).await?;
    }
    ctx.label_n("appended", appended);
    if made > 0 && appended > 0 {
        ctx.nontrivial(&trail);
    }
    Ok(())
}

fn guarded<F>(c: &mut Ctx, f: F) -> Result<(), Fail>
where
    F: FnOnce(&mut Ctx, &mut Vec<String>) -> Result<(), Fail>,
{
    let mut trail = vec![];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c, &mut trail)));
    for t in &trail {
        c.describe_more(format!("\n{t}"));
    }
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}

fn main() {
    pbt::main(Property {
        id: "C26",
        rule: "a result was asked for again after a write, or a table was uploaded to twice",
        assumptions: &["the stand-in for the deltalake crate", "DataFusion runs queries right"],
        legs: vec![
            leg("answers", 400, 20_000, |s, c| guarded(c, |c, t| block_on(answers(s, c, t)))),
            leg("uploads", 400, 20_000, |s, c| guarded(c, |c, t| block_on(uploads(s, c, t)))),
        ],
    })
}
