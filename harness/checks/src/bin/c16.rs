//! C16: a filter pushed down to Postgres or MySQL, read by that database's rules, means the same.
use checks::pushgen::*;
use checks::pushsql::*;
use datafusion_expr::utils::conjunction;
use datafusion_expr::Expr;
use datafusion_remote_tables::filter_pushdown::{
    filter_expr_to_sql, quote_identifier_backticks, quote_identifier_double_quotes, MySQLFilterPushdown, PostgresFilterPushdown,
};
use pbt::*;

fn push(db: Db, e: &Expr) -> Result<Option<String>, Fail> {
    let r = no_panic(|| match db {
        Db::Postgres => filter_expr_to_sql(e, PostgresFilterPushdown {}),
        Db::MySql => filter_expr_to_sql(e, MySQLFilterPushdown {}),
    });
    match r {
        Err((at, msg)) => Err(Fail::new("panic", format!("translating {e} for {db:?} panicked at {at}: {msg}"))),
        Ok(r) => Ok(r.ok()),
    }
}

fn ids(v: &[Option<bool>]) -> Vec<usize> {
    (0..v.len()).filter(|i| v[*i] == Some(true)).collect()
}

/// None: outside the comparison
fn select(db: Db, t: &Table, sql: &str) -> Result<Option<Vec<usize>>, String> {
    let n = parse(db, sql)?;
    let mut out = vec![];
    let mut outside = false;
    for row in &t.rows {
        match (Sql { db, t, row }).filter(&n)? {
            Ok(v) => out.push(v),
            Err(_) => outside = true,
        }
    }
    Ok((!outside).then(|| ids(&out)))
}

fn filters(s: &mut Src, ctx: &mut Ctx, db: Db, special: &[&str]) -> Result<(), Fail> {
    let mut t = table(s, special);
    // What the remote can hold: microseconds; and the least integer, which is no literal, is left out
    for row in &mut t.rows {
        for (c, v) in t.cols.iter().zip(row) {
            match v {
                V::Time(x) if c.ty == Ty::Ts(3) => *x -= x.rem_euclid(1000),
                V::Int(i) if *i == i64::MIN as i128 => *i += 1,
                _ => {}
            }
        }
    }
    for i in &mut t.ints {
        *i = (*i).max(i64::MIN + 1);
    }
    let g = Gen { t: &t, like: true, regex: true, xor: true };
    let exprs = s.vec(1, 8, |s| {
        let depth = s.below(5) as u32;
        g.filter(s, depth)
    });
    ctx.describe(t.describe());
    let mut pushed: Vec<(Expr, Vec<usize>)> = vec![];
    for e in &exprs {
        let Some(sql) = push(db, e)? else {
            ctx.label("refused");
            for l in shape(e) {
                ctx.label(format!("refused with {l}"));
            }
            continue;
        };
        ctx.describe_more(format!("{e}\n  pushed as {sql}\n"));
        let want = match reference(&t, e, db == Db::MySql) {
            Ok(v) => v,
            Err(Outside(why)) => {
                ctx.label(format!("not compared: {why}"));
                continue;
            }
        };
        match datafusion(&t, e) {
            Some(v) if v == want => {}
            Some(v) => {
                ctx.label("not compared: the reference model differs from DataFusion");
                if std::env::var_os("C15_MODEL").is_some() {
                    return Err(Fail::new("model", format!("{e}: DataFusion {v:?}, model {want:?}")));
                }
                continue;
            }
            None => {
                ctx.label("not compared: DataFusion reports an error");
                continue;
            }
        }
        let want = ids(&want);
        let nodes = shape(e);
        let sig = nodes.iter().find(|l| !l.starts_with("literal")).cloned().unwrap_or_default();
        let got = select(db, &t, &sql).map_err(|err| Fail::new(format!("sql error:{sig}"), format!("{e} was pushed down to {db:?} as {sql}, which it cannot read or does not accept: {err}")))?;
        let Some(got) = got else {
            ctx.label("not compared: outside the range of the remote's arithmetic");
            continue;
        };
        ensure_eq!(got, want, format!("rows:{sig}"), "rows {db:?} selects by {sql}, pushed down for {e}");
        ctx.label("pushed");
        for l in &nodes {
            ctx.label(format!("pushed with {l}"));
        }
        if !want.is_empty() && want.len() < t.rows.len() && nodes.iter().filter(|l| !l.starts_with("literal")).count() >= 2 {
            ctx.nontrivial(&sql);
        }
        pushed.push((e.clone(), want));
    }
    if pushed.len() > 1 {
        let n = s.urange(2, pushed.len());
        let all = conjunction(pushed[..n].iter().map(|p| p.0.clone())).unwrap();
        let Some(sql) = push(db, &all)? else { fail!("conjunction refused", "{all} is refused although each part can be pushed down") };
        let want: Vec<usize> = (0..t.rows.len()).filter(|i| pushed[..n].iter().all(|p| p.1.contains(i))).collect();
        let got = select(db, &t, &sql).map_err(|err| Fail::new("sql error:conjunction", format!("{all} was pushed down to {db:?} as {sql}, which it cannot read or does not accept: {err}")))?;
        ensure_eq!(got, Some(want), "rows:conjunction", "rows {db:?} selects by {sql}, pushed down for {all}");
        ctx.label("conjunction");
    }
    Ok(())
}

const SPECIAL: [&str; 16] = [
    "null", "true", "current_user", "t", "in", "is", "not", "a\"b", "a`b", "\"a\"", "`a`", "\"; DROP TABLE t; --", "`; DROP TABLE t; --", "$1", "?", "#",
];

fn postgres(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    filters(s, ctx, Db::Postgres, &SPECIAL)
}

fn mysql(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    filters(s, ctx, Db::MySql, &SPECIAL)
}

/// Any text is one identifier, and nothing but it
fn quoting(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let name = text(s);
    let pg = quote_identifier_double_quotes(&name);
    let my = quote_identifier_backticks(&name);
    ctx.describe(format!("{name:?}: {pg} and {my}"));
    ensure_eq!(lex(Db::Postgres, &pg), Ok(vec![Tok::Ident(name.clone())]), "quoting:postgres", "tokens of {pg}");
    ensure_eq!(lex(Db::MySql, &my), Ok(vec![Tok::Ident(name.clone())]), "quoting:mysql", "tokens of {my}");
    if name.contains(['"', '`']) {
        ctx.nontrivial(&name);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C16",
        rule: "non-trivial: a pushed filter with at least two operators that keeps some rows and drops others (quoting: a name with a quote). Distinct by SQL text.",
        assumptions: &[
            "no server is at hand: the text is read by parsers and evaluators written from the grammars and manuals of Postgres (9.5 or later, standard_conforming_strings) and MySQL (8, default sql_mode)",
            "default, binary collation; regular expressions of the simple kind that all engines read alike; the remote columns have the types the table was declared with",
            "outside the comparison: integer overflow (and unsigned subtraction in MySQL), division by zero, floats that are NaN, infinite, negative zero or subnormal, bit operations on negative numbers in MySQL, the least 64-bit integer",
            "filters are well typed, with both sides of an operator coerced to one type, and arithmetic on literals alone folded, as the optimiser leaves them",
        ],
        legs: vec![leg("postgres", 60_000, 2_000_000, postgres), leg("mysql", 60_000, 2_000_000, mysql), leg("quoting", 20_000, 500_000, quoting)],
    })
}
