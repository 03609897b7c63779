//! C03: column definitions map to exactly the Arrow schema they declare.
use arrow_schema::{DataType, Field, IntervalUnit, Schema, TimeUnit};
use checks::sqlgen::*;
use pbt::*;
use seafowl::datafusion::parser::{DFParser, Statement};
use seafowl::verif;
use sqlparser::ast::{DataType as SQL, ExactNumberInfo, Statement as SQLStatement};
use sqlparser::dialect::GenericDialect;
use sqlparser::parser::Parser;

/// SQL text of a type and the Arrow type it must become; None: must be rejected
fn sql_type(s: &mut Src) -> (String, Option<DataType>) {
    let n = |s: &mut Src| if s.chance(1, 3) { format!("({})", 1 + s.below(300)) } else { String::new() };
    let r = match s.weighted(&[6, 6, 4, 3, 4, 8, 2, 4]) {
        0 => {
            let (w, t) = s
                .pick(&[
                    ("TINYINT", DataType::Int8),
                    ("SMALLINT", DataType::Int16),
                    ("INT2", DataType::Int16),
                    ("INT", DataType::Int32),
                    ("INTEGER", DataType::Int32),
                    ("INT4", DataType::Int32),
                    ("BIGINT", DataType::Int64),
                    ("INT8", DataType::Int64),
                ])
                .clone();
            (format!("{w}{}", n(s)), Some(t))
        }
        1 => {
            let (w, t) = s
                .pick(&[
                    ("TINYINT", DataType::UInt8),
                    ("SMALLINT", DataType::UInt16),
                    ("INT2", DataType::UInt16),
                    ("INT", DataType::UInt32),
                    ("INTEGER", DataType::UInt32),
                    ("INT4", DataType::UInt32),
                    ("BIGINT", DataType::UInt64),
                    ("INT8", DataType::UInt64),
                ])
                .clone();
            (format!("{w}{} UNSIGNED", n(s)), Some(t))
        }
        2 if s.chance(1, 6) => (format!("FLOAT({})", 1 + s.below(60)), Some(DataType::Float32)),
        2 => {
            let (w, t) = s
                .pick(&[
                    ("BOOL", DataType::Boolean),
                    ("BOOLEAN", DataType::Boolean),
                    ("FLOAT", DataType::Float32),
                    ("REAL", DataType::Float32),
                    ("FLOAT4", DataType::Float32),
                    ("DOUBLE", DataType::Float64),
                    ("DOUBLE PRECISION", DataType::Float64),
                    ("FLOAT8", DataType::Float64),
                    ("BYTEA", DataType::Binary),
                    ("INTERVAL", DataType::Interval(IntervalUnit::MonthDayNano)),
                    ("DATE", DataType::Date32),
                ])
                .clone();
            (w.to_string(), Some(t))
        }
        3 => {
            let w = *s.pick(&["CHAR", "VARCHAR", "STRING"]);
            (format!("{w}{}", n(s)), Some(DataType::Utf8))
        }
        4 => s
            .pick(&[
                ("TEXT", Some(DataType::Utf8)),
                ("TIMESTAMP", Some(DataType::Timestamp(TimeUnit::Microsecond, None))),
                ("TIMESTAMP WITHOUT TIME ZONE", Some(DataType::Timestamp(TimeUnit::Microsecond, None))),
                ("TIMESTAMP WITH TIME ZONE", Some(DataType::Timestamp(TimeUnit::Microsecond, Some("+00:00".into())))),
                ("TIMESTAMPTZ", Some(DataType::Timestamp(TimeUnit::Microsecond, Some("+00:00".into())))),
                ("TIME", Some(DataType::Time64(TimeUnit::Nanosecond))),
                ("TIME WITHOUT TIME ZONE", Some(DataType::Time64(TimeUnit::Nanosecond))),
            ])
            .clone()
            .into_string(),
        5 => {
            let w = *s.pick(&["DECIMAL", "NUMERIC"]);
            let (p, sc) = decimal_params(s);
            let text = match (p, sc) {
                (None, _) => w.to_string(),
                (Some(p), None) => format!("{w}({p})"),
                (Some(p), Some(q)) => format!("{w}({p}, {q})"),
            };
            (text, decimal_ref(p, sc))
        }
        6 => (format!("{}({})", s.pick(&["TIMESTAMP", "TIME"]), 1 + s.below(9)), None),
        _ => (
            s.pick(&[
                "UUID", "JSON", "JSONB", "NVARCHAR(10)", "BINARY(3)", "VARBINARY(3)", "BLOB", "CLOB", "DATETIME", "REGCLASS", "MEDIUMINT", "CHARACTER(3)", "CHARACTER VARYING(3)", "CHAR VARYING(4)",
                "TIMETZ", "TIME WITH TIME ZONE", "DEC(10, 2)", "BIGNUMERIC(10)", "BIGDECIMAL(10)", "BYTES", "INT64", "FLOAT64", "INT[]", "ARRAY<INT>", "ENUM('a', 'b')", "my_type", "INT16", "INT32", "INT128",
                "UINT8", "UINT16", "UINT32", "UINT64", "TINYTEXT", "MEDIUMTEXT", "LONGTEXT", "TINYBLOB", "BIT(3)", "BIT VARYING(3)", "MEDIUMINT UNSIGNED", "SET('a')", "STRUCT<a INT>",
            ])
            .to_string(),
            None,
        ),
    };
    r
}

trait IntoStr {
    fn into_string(self) -> (String, Option<DataType>);
}
impl IntoStr for (&str, Option<DataType>) {
    fn into_string(self) -> (String, Option<DataType>) {
        (self.0.to_string(), self.1)
    }
}

fn edge(s: &mut Src) -> u64 {
    match s.usize(6) {
        0 => s.below(45),
        1 => 36 + s.below(5),
        2 => 250 + s.below(60),
        3 => 120 + s.below(16),
        4 => 256 * (1 + s.below(300)) + s.below(45),
        _ => s.edgy_u64(),
    }
}

fn decimal_params(s: &mut Src) -> (Option<u64>, Option<u64>) {
    match s.weighted(&[1, 3, 3, 6]) {
        0 => (None, None),
        1 => (Some(edge(s)), None),
        2 => {
            let p = 1 + s.below(38);
            (Some(p), Some(s.below(p + 3)))
        }
        _ => (Some(edge(s)), Some(edge(s))),
    }
}

/// legal: 1 <= p <= 38, 0 <= s <= p; the default is (38, 10)
fn decimal_ref(p: Option<u64>, sc: Option<u64>) -> Option<DataType> {
    let (p, sc) = match (p, sc) {
        (None, None) => (38, 10),
        (Some(p), None) => (p, 0),
        (Some(p), Some(x)) => (p, x),
        (None, Some(_)) => return None,
    };
    (p >= 1 && p <= 38 && sc <= p).then(|| DataType::Decimal128(p as u8, sc as i8))
}

fn schema(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(1, 8);
    let mut cols = Toks::new();
    let mut fields = vec![];
    let mut bad = false;
    cols.t("(");
    for i in 0..n {
        if i > 0 {
            cols.t(",");
        }
        let id = ident(s);
        let (ty, arrow) = loop {
            let t = sql_type(s);
            // keep schemas with an unrepresentable type a minority
            if t.1.is_some() || s.chance(1, 8) {
                break t;
            }
        };
        cols.t(id.render()).t(rand_case_type(s, &ty));
        // column options, NOT NULL anywhere among them
        let mut nullable = true;
        let k = s.urange(0, 3);
        let mut used = vec![];
        for _ in 0..k {
            let o = s.usize(4);
            if used.contains(&o) {
                continue;
            }
            used.push(o);
            if s.chance(1, 4) {
                cols.kw(s, "CONSTRAINT").t(ident(s).render());
            }
            match o {
                0 => {
                    nullable = false;
                    cols.kw(s, "NOT NULL");
                }
                1 => {
                    cols.kw(s, "DEFAULT").t("1");
                }
                2 => {
                    cols.kw(s, "COMMENT").t("'NOT NULL'");
                }
                _ => {
                    cols.kw(s, "CHECK").t("(").t("1 IS NOT NULL").t(")");
                }
            }
        }
        match arrow {
            Some(a) => fields.push(Field::new(id.normal(), a, nullable)),
            None => {
                bad = true;
                ctx.label(format!("rejected:{}", ty.split('(').next().unwrap()));
            }
        }
    }
    cols.t(")");
    let sql = format!("CREATE TABLE x {}", cols.plain());
    ctx.describe(sql.clone());
    let Ok(stmts) = Parser::parse_sql(&GenericDialect {}, &sql) else {
        ctx.label("skipped: not parseable");
        return Ok(());
    };
    let SQLStatement::CreateTable(c) = &stmts[0] else { return Ok(()) };
    // Seafowl's own parser must see the same column list
    let own = DFParser::parse_sql(&sql).map_err(|e| Fail::new("parse", e.to_string()))?;
    ensure!(own[0] == Statement::Statement(Box::new(stmts[0].clone())), "parse", "Seafowl's parser disagrees with the standard grammar on {sql}");
    if c.columns.len() != n {
        ctx.label("skipped: grammar read something else");
        return Ok(());
    }
    ctx.nontrivial(&sql);
    for f in &fields {
        ctx.label(format!("type:{}", type_class(f.data_type())));
    }
    match verif::build_schema(c.columns.clone()) {
        Ok(got) => {
            if bad {
                fail!("unrepresentable-accepted", "a type that cannot be represented is accepted in {sql}: {got:?}");
            }
            ensure_eq!(got, Schema::new(fields), "schema", "schema of {sql}");
        }
        Err(e) => {
            if !bad {
                fail!("legal-rejected", "{sql} is rejected: {e}");
            }
        }
    }
    Ok(())
}

fn type_class(t: &DataType) -> String {
    match t {
        DataType::Decimal128(..) => "decimal".into(),
        o => o.to_string(),
    }
}

fn rand_case_type(s: &mut Src, t: &str) -> String {
    // literals inside a type (enum members) keep their case
    if t.contains('\'') {
        t.to_string()
    } else {
        rand_case(s, t)
    }
}

/// decimal parameters straight from the AST (any u64)
fn decimal(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (p, sc) = if s.chance(1, 30) { (None, Some(edge(s))) } else { decimal_params(s) };
    let expected = decimal_ref(p, sc);
    ctx.describe(format!("precision {p:?} scale {sc:?} -> {expected:?}"));
    ctx.nontrivial(&(p, sc));
    ctx.label(if expected.is_some() { "legal" } else { "illegal" });
    let got = verif::make_decimal_type(p, sc);
    match (&got, &expected) {
        (Ok(g), Some(e)) => ensure_eq!(g, e, "decimal", "precision {p:?} scale {sc:?}"),
        (Ok(g), None) => fail!("decimal-accepted", "precision {p:?} scale {sc:?} is outside the legal range but becomes {g:?}"),
        (Err(e), Some(_)) => fail!("decimal-rejected", "legal precision {p:?} scale {sc:?} is rejected: {e}"),
        (Err(_), None) => {}
    }
    if let Some(p) = p {
        let info = match sc {
            None => ExactNumberInfo::Precision(p),
            Some(x) => ExactNumberInfo::PrecisionAndScale(p, x),
        };
        for t in [SQL::Decimal(info), SQL::Numeric(info)] {
            let g = verif::convert_simple_data_type(&t).ok();
            ensure_eq!(g, expected.clone(), "decimal-type", "Arrow type of {t}");
        }
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C03",
        rule: "CREATE TABLE column lists over every SQL type spelling, parameter, quoting and column option are parsed by Seafowl and the built Arrow schema is compared with a reference table written from the type documentation; decimal precision/scale pairs cover all of u64 with emphasis on values that alias after truncation. Non-trivial: every parsed case, distinct by text.",
        assumptions: &["FLOAT(n) is Float32 for every n, as DataFusion documents", "TIMESTAMP WITH TIME ZONE uses DataFusion's default zone +00:00"],
        legs: vec![leg("schema", 150_000, 5_000_000, schema), leg("decimal", 300_000, 10_000_000, decimal)],
    });
}
