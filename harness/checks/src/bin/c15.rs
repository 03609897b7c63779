//! C15: a filter pushed down to SQLite selects exactly the rows it selects in DataFusion.
use checks::pushgen::*;
use datafusion_expr::utils::conjunction;
use datafusion_expr::Expr;
use datafusion_remote_tables::filter_pushdown::{filter_expr_to_sql, quote_identifier_double_quotes, SQLiteFilterPushdown};
use pbt::*;
use sqlx::{Connection, Row, SqliteConnection};

fn sql_type(ty: Ty) -> &'static str {
    match ty {
        Ty::I16 => "SMALLINT",
        Ty::I32 => "INTEGER",
        Ty::I64 | Ty::U64 => "BIGINT",
        Ty::F32 => "FLOAT",
        Ty::F64 => "DOUBLE",
        Ty::Text => "TEXT",
        Ty::Bool => "BOOLEAN",
        Ty::Date => "DATE",
        Ty::Date64 | Ty::Ts(_) => "DATETIME",
    }
}

async fn fill(t: &Table) -> SqliteConnection {
    let mut c = SqliteConnection::connect("sqlite::memory:").await.expect("sqlite");
    // Identifiers are quoted independently of the code under test
    let cols: Vec<String> = t.cols.iter().map(|c| format!(", \"{}\" {}", c.name.replace('"', "\"\""), sql_type(c.ty))).collect();
    sqlx::query(&format!("CREATE TABLE t (\"#row\" INTEGER{})", cols.concat())).execute(&mut c).await.expect("create");
    let marks = ", ?".repeat(t.cols.len());
    for (i, row) in t.rows.iter().enumerate() {
        let sql = format!("INSERT INTO t VALUES (?{marks})");
        let mut q = sqlx::query(&sql).bind(i as i64);
        for (c, v) in t.cols.iter().zip(row) {
            q = match v {
                V::Null => q.bind(None::<i64>),
                V::Bool(b) => q.bind(*b),
                V::Int(i) => q.bind(*i as i64),
                V::Float(f) => q.bind(*f),
                V::Text(s) => q.bind(s.clone()),
                V::Time(x) => q.bind(time_text(c.ty, *x)),
            };
        }
        q.execute(&mut c).await.expect("insert");
    }
    c
}

async fn select(c: &mut SqliteConnection, sql: &str) -> Result<Vec<i64>, String> {
    let q = format!("SELECT \"#row\" FROM t WHERE {sql}");
    let rows = sqlx::query(&q).fetch_all(c).await.map_err(|e| e.to_string())?;
    let mut v: Vec<i64> = rows.iter().map(|r| r.get::<i64, _>(0)).collect();
    v.sort();
    Ok(v)
}

fn ids(v: &[Option<bool>]) -> Vec<i64> {
    (0..v.len()).filter(|i| v[*i] == Some(true)).map(|i| i as i64).collect()
}

fn push(e: &Expr) -> Result<Option<String>, Fail> {
    match no_panic(|| filter_expr_to_sql(e, SQLiteFilterPushdown {})) {
        Err((at, msg)) => Err(Fail::new("panic", format!("translating {e} panicked at {at}: {msg}"))),
        Ok(r) => Ok(r.ok()),
    }
}

fn filters(s: &mut Src, ctx: &mut Ctx, special: &[&str]) -> Result<(), Fail> {
    let t = table(s, special);
    let g = Gen { t: &t, like: true, regex: true, xor: true };
    let exprs = s.vec(1, 8, |s| {
        let depth = s.below(5) as u32;
        g.filter(s, depth)
    });
    ctx.describe(t.describe());
    // (text, expression, rows)
    let mut pushed: Vec<(String, Expr, Vec<i64>)> = vec![];
    block_on(async {
        let mut c = fill(&t).await;
        for e in &exprs {
            let Some(sql) = push(e)? else {
                ctx.label("refused");
                for l in shape(e) {
                    ctx.label(format!("refused with {l}"));
                }
                continue;
            };
            ctx.describe_more(format!("{e}\n  pushed as {sql}\n"));
            let want = match reference(&t, e, false) {
                Ok(v) => v,
                Err(Outside(why)) => {
                    ctx.label(format!("not compared: {why}"));
                    continue;
                }
            };
            // What the query would give without the pushdown
            match datafusion(&t, e) {
                Some(v) if v == want => {}
                Some(v) => {
                    ctx.label("not compared: the reference model differs from DataFusion");
                    if std::env::var_os("C15_MODEL").is_some() {
                        return Err(Fail::new("model", format!("{e}: DataFusion {v:?}, model {want:?}")));
                    }
                    continue;
                }
                None => {
                    ctx.label("not compared: DataFusion reports an error");
                    continue;
                }
            }
            let want = ids(&want);
            let nodes = shape(e);
            let sig = if truth_named(&t) && nodes.iter().any(|l| ["IsTrue", "IsFalse", "IsNotTrue", "IsNotFalse"].contains(&l.as_str())) {
                "IS TRUE with a column of that name".to_string()
            } else {
                nodes.iter().find(|l| !l.starts_with("literal")).cloned().unwrap_or_default()
            };
            let got = select(&mut c, &sql).await.map_err(|err| Fail::new(format!("sql error:{sig}"), format!("{e} was pushed down as {sql}, which SQLite reports as {err}")))?;
            ensure_eq!(got, want, format!("rows:{sig}"), "rows selected by {sql}, pushed down for {e}");
            ctx.label("pushed");
            let ops = shape(e);
            for l in &ops {
                ctx.label(format!("pushed with {l}"));
            }
            if !want.is_empty() && want.len() < t.rows.len() && ops.iter().filter(|l| !l.starts_with("literal")).count() >= 2 {
                ctx.nontrivial(&sql);
            }
            pushed.push((sql, e.clone(), want));
        }
        // Several filters arrive as one
        if pushed.len() > 1 {
            let n = s.urange(2, pushed.len());
            let all = conjunction(pushed[..n].iter().map(|p| p.1.clone())).unwrap();
            let Some(sql) = push(&all)? else { fail!("conjunction refused", "{all} is refused although each part can be pushed down") };
            let want: Vec<i64> = (0..t.rows.len() as i64).filter(|i| pushed[..n].iter().all(|p| p.2.contains(i))).collect();
            let got = select(&mut c, &sql).await.map_err(|err| Fail::new("sql error:conjunction", format!("{all} was pushed down as {sql}, which SQLite reports as {err}")))?;
            ensure_eq!(got, want, "rows:conjunction", "rows selected by {sql}, pushed down for {all}");
            ctx.label("conjunction");
        }
        c.close().await.ok();
        Ok(())
    })
}

/// SQLite takes TRUE and FALSE for columns if there are such
fn truth_named(t: &Table) -> bool {
    t.cols.iter().any(|c| c.name.eq_ignore_ascii_case("true") || c.name.eq_ignore_ascii_case("false"))
}

fn truth(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    filters(s, ctx, &["true", "false", "TRUE", "False"])
}

fn rows(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    filters(s, ctx, &[])
}

fn names(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    filters(s, ctx, &["rowid", "oid", "TRUE1", "null", "current_date", "t", "in", "is", "not", "a\"b", "\"a\"", "''", "\"; DROP TABLE t; --", "$1", "?", ":a", "@x", "#", "[a]"])
}

/// Any text at all is one identifier
fn quoting(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 4);
    let names: Vec<String> = (0..n).map(|_| text(s)).collect();
    let q: Vec<String> = names.iter().map(|n| quote_identifier_double_quotes(n)).collect();
    block_on(async {
        let mut c = SqliteConnection::connect("sqlite::memory:").await.expect("sqlite");
        let sql = format!("SELECT {}", q.iter().map(|q| format!("1 AS {q}")).collect::<Vec<_>>().join(", "));
        ctx.describe(sql.clone());
        let row = sqlx::query(&sql).fetch_one(&mut c).await.map_err(|e| Fail::new("quoting", format!("{sql}: {e}")))?;
        let got: Vec<String> = row.columns().iter().map(|c| sqlx::Column::name(c).to_string()).collect();
        ensure_eq!(got, names, "quoting", "column names SQLite reads in {sql}");
        c.close().await.ok();
        Ok(())
    })?;
    if names.iter().any(|n| n.contains('"')) {
        ctx.nontrivial(&names);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C15",
        rule: "non-trivial: a pushed filter with at least two operators that keeps some rows and drops others (quoting: a name with a quote). Distinct by SQL text.",
        assumptions: &[
            "dates and times are stored as text, the way chrono prints them; booleans as 1 and 0; default (binary) collation",
            "outside the comparison: integer overflow, division by zero, floats that are NaN, infinite, negative zero or subnormal, years outside 1 to 9999 in the stored rows",
            "filters are well typed, with both sides of an operator coerced to one type, and arithmetic on literals alone folded, as the optimiser leaves them",
        ],
        legs: vec![leg("rows", 40_000, 2_000_000, rows), leg("names", 10_000, 500_000, names), leg("truth", 4000, 200_000, truth), leg("quoting", 5000, 200_000, quoting)],
    })
}
