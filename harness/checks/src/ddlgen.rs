//! Seafowl-specific statements: text together with the parsed statement it must give.
use crate::sqlgen::*;
use datafusion::sql::parser::{CopyToSource, CopyToStatement, CreateExternalTable, Statement};
use pbt::Src;
use sqlparser::ast::{
    ColumnDef, CreateFunction, CreateFunctionBody, Expr, ObjectName, OrderByExpr,
    Statement as SQLStatement, TruncateTableTarget, Value,
};
use sqlparser::dialect::GenericDialect;
use sqlparser::parser::Parser;

pub struct Ddl {
    pub kind: &'static str,
    pub toks: Toks,
    /// None: the statement has to be rejected (the reason is in `why`)
    pub expected: Option<Statement>,
    pub why: &'static str,
    /// features present, for the evidence
    pub feats: Vec<&'static str>,
    /// columns given as names in PARTITIONED BY, as identifiers
    pub part_ids: Vec<Id>,
}

fn std(st: SQLStatement) -> Statement {
    Statement::Statement(Box::new(st))
}

/// string literal token and its value; several spellings
pub fn string_token(s: &mut Src) -> (String, String) {
    match s.weighted(&[6, 1, 1]) {
        0 => {
            let v = text(s);
            (quote_str(&v), v)
        }
        1 => {
            let v = s.pick(&["plainword", "été_1", "x9"]).to_string();
            (v.clone(), v)
        }
        _ => {
            let v = s.pick(&["tab\there", "nl\nx", "plain;", "q'q"]).to_string();
            let e = v.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\'', "\\'");
            (format!("E'{e}'"), v)
        }
    }
}

fn value_token(s: &mut Src) -> (String, Value) {
    match s.usize(5) {
        0 => {
            let v = text(s);
            (quote_str(&v), Value::SingleQuotedString(v))
        }
        1 => {
            let w = s.pick(&["snappy", "true", "FALSE", "gzip", "Select", "null"]).to_string();
            (w.clone(), Value::SingleQuotedString(w))
        }
        2 => {
            let n = s.pick(&["0", "1", "42", "3.14", "1e5", "123456789012345678901234567890"]).to_string();
            (n.clone(), Value::Number(n, false))
        }
        3 => {
            let v = s.pick(QV).to_string();
            (Id { value: v.clone(), quote: Some('"') }.render(), Value::SingleQuotedString(v))
        }
        _ => ("E'a\\tb'".into(), Value::EscapedStringLiteral("a\tb".into())),
    }
}
const QV: &[&str] = &["a", "with space", "semi;colon", "q\"q", ",", "("];

fn option_key(s: &mut Src) -> (String, String) {
    match s.usize(4) {
        0 => {
            let k = s.pick(&["format.delimiter", "a", "a.a", "format.format.a", "a.b.a", "format.has_header", "select.from.where", "A.b.C", "location"]).to_string();
            (k.clone(), k)
        }
        1 => {
            let v = text(s);
            (quote_str(&v), v)
        }
        2 => {
            let v = s.pick(QV).to_string();
            (Id { value: v.clone(), quote: Some('"') }.render(), v)
        }
        _ => ("ACCESS_KEY_ID".into(), "ACCESS_KEY_ID".into()),
    }
}

fn options(s: &mut Src, t: &mut Toks) -> Vec<(String, Value)> {
    let n = s.urange(1, 4);
    let mut out = vec![];
    t.kw(s, "OPTIONS").t("(");
    for i in 0..n {
        if i > 0 {
            t.t(",");
        }
        let (kt, k) = option_key(s);
        let (vt, v) = value_token(s);
        t.t(kt).t(vt);
        out.push((k, v));
    }
    if s.chance(1, 8) {
        t.t(","); // trailing comma is allowed
    }
    t.t(")");
    out
}

fn format(s: &mut Src, t: &mut Toks) -> String {
    let f = s.pick(&["PARQUET", "csv", "Json", "DELTATABLE", "TABLE", "avro", "Arrow", "ICEBERG"]).to_string();
    t.kw(s, "STORED AS").t(f.clone());
    f.to_uppercase()
}

/// reference for column definitions: what the standard grammar makes of them
pub fn std_columns(cols: &str) -> Option<(Vec<ColumnDef>, Vec<sqlparser::ast::TableConstraint>)> {
    let st = Parser::parse_sql(&GenericDialect {}, &format!("CREATE TABLE x {cols}")).ok()?;
    match st.into_iter().next()? {
        SQLStatement::CreateTable(c) => Some((c.columns, c.constraints)),
        _ => None,
    }
}

/// reference for an expression
fn std_expr(e: &str) -> Option<Expr> {
    Parser::new(&GenericDialect {}).try_with_sql(e).ok()?.parse_expr().ok()
}

fn reject(kind: &'static str, toks: Toks, why: &'static str) -> Ddl {
    Ddl { kind, toks, expected: None, why, feats: vec!["rejected"], part_ids: vec![] }
}

fn table_constraint(s: &mut Src, t: &mut Toks) {
    if s.chance(1, 3) {
        t.kw(s, "CONSTRAINT").t(ident(s).render());
    }
    let ids = |s: &mut Src, t: &mut Toks| {
        t.t("(");
        for i in 0..s.urange(1, 2) {
            if i > 0 {
                t.t(",");
            }
            t.t(ident(s).render());
        }
        t.t(")");
    };
    match s.usize(4) {
        0 => {
            t.kw(s, "UNIQUE");
            ids(s, t);
        }
        1 => {
            t.kw(s, "PRIMARY KEY");
            ids(s, t);
        }
        2 => {
            t.kw(s, "FOREIGN KEY");
            ids(s, t);
            t.kw(s, "REFERENCES").t(name_render(&object_name(s, 2)));
            ids(s, t);
        }
        _ => {
            t.kw(s, "CHECK").t("(").extend(&expr(s, 0)).t(")");
        }
    }
}

pub fn create_external(s: &mut Src) -> Ddl {
    let kind = "create external table";
    let mut feats = vec![];
    let mut t = Toks::new();
    t.kw(s, "CREATE");
    let unbounded = s.chance(1, 5);
    if unbounded {
        t.kw(s, "UNBOUNDED");
        feats.push("unbounded");
    }
    t.kw(s, "EXTERNAL");
    let temporary = s.chance(1, 5);
    if temporary {
        let w = *s.pick(&["TEMP", "TEMPORARY"]);
        t.kw(s, w);
        feats.push("temporary");
    }
    t.kw(s, "TABLE");
    let if_not_exists = s.chance(1, 3);
    if if_not_exists {
        t.kw(s, "IF NOT EXISTS");
        feats.push("if not exists");
    }
    let name = object_name(s, 3);
    t.t(name_render(&name));
    let (mut cols, mut constraints) = (vec![], vec![]);
    if s.chance(2, 3) {
        let mut ct = columns(s);
        let mut std = ct.clone();
        if s.chance(1, 5) {
            // table constraint
            ct.0.pop();
            for _ in 0..s.urange(1, 2) {
                ct.t(",");
                table_constraint(s, &mut ct);
            }
            ct.t(")");
            std = ct.clone();
            feats.push("constraint");
        } else if s.chance(1, 6) {
            ct.0.pop();
            ct.t(",").t(")"); // a trailing comma is allowed
            feats.push("trailing comma");
        }
        let r = std_columns(&std.plain()).unwrap_or_else(|| panic!("generated columns are standard: {}", ct.plain()));
        cols = r.0;
        constraints = r.1;
        t.extend(&ct);
        feats.push("columns");
    }
    // clauses, in any order
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum C {
        Stored,
        Location,
        Order,
        Part,
        Opts,
    }
    let mut clauses = vec![C::Stored, C::Location];
    let n_order = s.weighted(&[4, 2, 1]);
    clauses.extend(std::iter::repeat(C::Order).take(n_order));
    if s.chance(2, 5) {
        clauses.push(C::Part);
    }
    if s.chance(2, 5) {
        clauses.push(C::Opts);
    }
    let mut bad = "";
    match s.weighted(&[12, 1, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => {
            clauses.push(C::Stored);
            bad = "STORED AS twice";
        }
        2 => {
            clauses.push(C::Location);
            bad = "LOCATION twice";
        }
        3 => {
            clauses.push(C::Opts);
            if clauses.iter().filter(|c| **c == C::Opts).count() > 1 {
                bad = "OPTIONS twice";
            }
        }
        4 => {
            clauses.push(C::Part);
            if clauses.iter().filter(|c| **c == C::Part).count() > 1 {
                bad = "PARTITIONED BY twice";
            }
        }
        5 => {
            clauses.retain(|c| *c != C::Stored);
            bad = "no STORED AS";
        }
        _ => {
            clauses.retain(|c| *c != C::Location);
            bad = "no LOCATION";
        }
    }
    s.shuffle(&mut clauses);
    let (mut file_type, mut location, mut parts, mut part_ids, mut orders, mut opts) =
        (String::new(), String::new(), vec![], vec![], vec![], vec![]);
    for c in &clauses {
        match c {
            C::Stored => file_type = format(s, &mut t),
            C::Location => {
                t.kw(s, "LOCATION");
                let (tok, v) = string_token(s);
                t.t(tok);
                location = v;
            }
            C::Order => {
                t.kw(s, "WITH ORDER").t("(");
                let n = s.urange(1, 3);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        t.t(",");
                    }
                    let e = expr(s, 1);
                    t.extend(&e);
                    let asc = match s.usize(3) {
                        0 => None,
                        1 => {
                            t.kw(s, "ASC");
                            Some(true)
                        }
                        _ => {
                            t.kw(s, "DESC");
                            Some(false)
                        }
                    };
                    let nulls_first = match s.usize(3) {
                        0 => None,
                        1 => {
                            t.kw(s, "NULLS FIRST");
                            Some(true)
                        }
                        _ => {
                            t.kw(s, "NULLS LAST");
                            Some(false)
                        }
                    };
                    v.push(OrderByExpr { expr: std_expr(&e.plain()).expect("expr"), asc, nulls_first, with_fill: None });
                }
                if bad.is_empty() && s.chance(1, 20) {
                    t.t(",");
                    bad = "trailing comma in WITH ORDER";
                }
                t.t(")");
                orders.push(v);
                feats.push("order");
            }
            C::Part => {
                t.kw(s, "PARTITIONED BY");
                if s.bool() {
                    t.t("(");
                    let n = s.urange(1, 3);
                    for i in 0..n {
                        if i > 0 {
                            t.t(",");
                        }
                        let id = ident(s);
                        t.t(id.render());
                        parts.push(id.ast().to_string());
                        part_ids.push(id);
                    }
                    t.t(")");
                    feats.push("partition names");
                } else {
                    let mut ct = columns(s);
                    if bad.is_empty() && s.chance(1, 10) {
                        ct.0.pop();
                        ct.t(",");
                        table_constraint(s, &mut ct);
                        ct.t(")");
                        t.extend(&ct);
                        bad = "constraint on partition columns";
                        continue;
                    }
                    let r = std_columns(&ct.plain()).unwrap_or_else(|| panic!("generated columns are standard: {}", ct.plain()));
                    parts.extend(r.0.iter().map(|c| c.name.to_string()));
                    part_ids.extend(r.0.iter().map(|c| Id { value: c.name.value.clone(), quote: c.name.quote_style }));
                    cols.extend(r.0);
                    t.extend(&ct);
                    feats.push("partition defs");
                }
            }
            C::Opts => {
                opts = options(s, &mut t);
                feats.push("options");
            }
        }
    }
    if bad.is_empty() && s.chance(1, 12) {
        match s.usize(4) {
            0 => {
                t.kw(s, "WITH HEADER ROW");
            }
            1 => {
                t.kw(s, "DELIMITER").t("','");
            }
            2 => {
                t.kw(s, "COMPRESSION TYPE GZIP");
            }
            _ => {
                t.t("bogus");
            }
        }
        bad = "withdrawn or unknown clause";
    }
    if !bad.is_empty() {
        return reject(kind, t, bad);
    }
    let expected = Statement::CreateExternalTable(CreateExternalTable {
        name: name_ast(&name),
        columns: cols,
        file_type,
        location,
        table_partition_cols: parts,
        order_exprs: orders,
        if_not_exists,
        temporary,
        unbounded,
        options: opts,
        constraints,
    });
    Ddl { kind, toks: t, expected: Some(expected), why: "", feats, part_ids }
}

pub fn copy(s: &mut Src) -> Ddl {
    let kind = "copy";
    let mut feats = vec![];
    let mut t = Toks::new();
    t.kw(s, "COPY");
    let source = if s.bool() {
        let q = query(s, 1);
        t.t("(").extend(&q).t(")");
        feats.push("query");
        let p = Parser::parse_sql(&GenericDialect {}, &q.plain()).unwrap_or_else(|e| panic!("generated query {}: {e}", q.plain()));
        match p.into_iter().next().unwrap() {
            SQLStatement::Query(q) => CopyToSource::Query(q),
            _ => unreachable!(),
        }
    } else {
        let n = object_name(s, 3);
        t.t(name_render(&n));
        CopyToSource::Relation(name_ast(&n))
    };
    let mut clauses = vec![0usize]; // TO
    for c in 1..4 {
        if s.chance(1, 3) {
            clauses.push(c);
        }
    }
    let mut bad = "";
    match s.weighted(&[9, 1, 1]) {
        0 => {}
        1 => {
            let d = *s.pick(&clauses.clone());
            clauses.push(d);
            bad = "clause twice";
        }
        _ => {
            clauses.retain(|c| *c != 0);
            bad = "no TO";
        }
    }
    s.shuffle(&mut clauses);
    let (mut target, mut stored_as, mut parts, mut part_ids, mut opts) = (String::new(), None, vec![], vec![], vec![]);
    for c in clauses {
        match c {
            0 => {
                t.kw(s, "TO");
                let (tok, v) = string_token(s);
                t.t(tok);
                target = v;
            }
            1 => {
                stored_as = Some(format(s, &mut t));
                feats.push("stored as");
            }
            2 => {
                t.kw(s, "PARTITIONED BY").t("(");
                let n = s.urange(1, 3);
                for i in 0..n {
                    if i > 0 {
                        t.t(",");
                    }
                    let id = ident(s);
                    t.t(id.render());
                    parts.push(id.ast().to_string());
                    part_ids.push(id);
                }
                t.t(")");
                feats.push("partitioned");
            }
            _ => {
                opts = options(s, &mut t);
                feats.push("options");
            }
        }
    }
    if bad.is_empty() && s.chance(1, 15) {
        if s.bool() {
            t.kw(s, "WITH HEADER ROW");
        } else {
            t.t("bogus");
        }
        bad = "withdrawn or unknown clause";
    }
    if !bad.is_empty() {
        return reject(kind, t, bad);
    }
    let expected = Statement::CopyTo(CopyToStatement { source, target, partitioned_by: parts, stored_as, options: opts });
    Ddl { kind, toks: t, expected: Some(expected), why: "", feats, part_ids }
}

fn truncate_stmt(name: ObjectName, partitions: Option<Vec<Expr>>, table: bool) -> Statement {
    std(SQLStatement::Truncate {
        table_names: vec![TruncateTableTarget { name }],
        partitions,
        table,
        only: false,
        identity: None,
        cascade: None,
        on_cluster: None,
    })
}

pub fn small(s: &mut Src) -> Ddl {
    let mut t = Toks::new();
    match s.usize(6) {
        0 => {
            t.kw(s, "CONVERT");
            let (tok, v) = string_token(s);
            t.t(tok).kw(s, "TO DELTA");
            let n = object_name(s, 3);
            t.t(name_render(&n));
            if s.chance(1, 10) {
                t.t("'extra'");
                return reject("convert", t, "trailing token");
            }
            let e = Statement::CopyTo(CopyToStatement {
                source: CopyToSource::Relation(name_ast(&n)),
                target: v,
                options: vec![("CONVERT_TO_DELTA".into(), Value::Boolean(true))],
                partitioned_by: vec![],
                stored_as: None,
            });
            Ddl { kind: "convert", toks: t, expected: Some(e), why: "", feats: vec![], part_ids: vec![] }
        }
        1 => {
            t.kw(s, "VACUUM TABLE");
            let n = if s.chance(1, 6) { vec![ident_or_keyword(s)] } else { object_name(s, 3) };
            t.t(name_render(&n));
            if s.chance(1, 10) {
                t.t("extra");
                return reject("vacuum table", t, "trailing token");
            }
            let e = truncate_stmt(name_ast(&n), None, false);
            Ddl { kind: "vacuum table", toks: t, expected: Some(e), why: "", feats: vec![], part_ids: vec![] }
        }
        2 => {
            t.kw(s, "VACUUM DATABASE");
            let n = ident_or_keyword(s);
            if s.chance(1, 6) {
                // a database name has one part
                let m = ident(s);
                t.t(name_render(&[n, m]));
                return reject("vacuum database", t, "two-part database name");
            }
            t.t(n.render());
            let e = truncate_stmt(ObjectName(vec![]), Some(vec![Expr::Identifier(n.ast())]), false);
            Ddl { kind: "vacuum database", toks: t, expected: Some(e), why: "", feats: vec![], part_ids: vec![] }
        }
        3 => {
            t.kw(s, "TRUNCATE TABLE");
            let n = if s.chance(1, 6) { vec![ident_or_keyword(s)] } else { object_name(s, 3) };
            t.t(name_render(&n));
            if s.chance(1, 10) {
                t.t("extra");
                return reject("truncate table", t, "trailing token");
            }
            let e = truncate_stmt(name_ast(&n), None, true);
            Ddl { kind: "truncate table", toks: t, expected: Some(e), why: "", feats: vec![], part_ids: vec![] }
        }
        4 => {
            // malformed ones
            let n = ident(s);
            match s.usize(4) {
                0 => t.kw(s, "VACUUM").t(n.render()),
                1 => t.kw(s, "TRUNCATE").t(n.render()),
                2 => t.kw(s, "CONVERT").t("'x'").kw(s, "TO").t(n.render()),
                _ => t.kw(s, "CREATE FUNCTION").t(n.render()).t("'x'"),
            };
            reject("malformed", t, "malformed")
        }
        _ => {
            t.kw(s, "CREATE");
            let or_replace = s.bool();
            if or_replace {
                t.kw(s, "OR REPLACE");
            }
            t.kw(s, "FUNCTION");
            let n = if s.chance(1, 6) { vec![ident_or_keyword(s)] } else { object_name(s, 3) };
            t.t(name_render(&n)).kw(s, "AS");
            let body = match s.usize(3) {
                0 => {
                    let v = text(s);
                    t.t(quote_str(&v));
                    Value::SingleQuotedString(v)
                }
                1 => {
                    let v = text(s).replace('$', "");
                    t.t(format!("$${v}$$"));
                    Value::DollarQuotedString(sqlparser::ast::DollarQuotedString { value: v, tag: None })
                }
                _ => {
                    let v = text(s).replace('$', "");
                    t.t(format!("$tag${v}$tag$"));
                    Value::DollarQuotedString(sqlparser::ast::DollarQuotedString { value: v, tag: Some("tag".into()) })
                }
            };
            let e = std(SQLStatement::CreateFunction(CreateFunction {
                or_replace,
                temporary: false,
                if_not_exists: false,
                name: name_ast(&n),
                args: None,
                return_type: None,
                function_body: Some(CreateFunctionBody::AsBeforeOptions(Expr::Value(body))),
                behavior: None,
                called_on_null: None,
                parallel: None,
                using: None,
                language: None,
                determinism_specifier: None,
                options: None,
                remote_connection: None,
            }));
            Ddl { kind: "create function", toks: t, expected: Some(e), why: "", feats: vec![if or_replace { "or replace" } else { "plain" }], part_ids: vec![] }
        }
    }
}

pub fn any(s: &mut Src) -> Ddl {
    match s.usize(3) {
        0 => small(s),
        1 => copy(s),
        _ => create_external(s),
    }
}

/// Partition column names may be carried with or without their quotes.
pub fn normalise_parts(st: &Statement) -> Statement {
    fn unq(v: &[String]) -> Vec<String> {
        v.iter()
            .map(|x| {
                let q = x.chars().next().filter(|c| *c == '"' || *c == '`');
                match q {
                    Some(q) if x.len() >= 2 && x.ends_with(q) => {
                        let inner = &x[1..x.len() - 1];
                        inner.replace(&format!("{q}{q}"), &q.to_string())
                    }
                    _ => x.clone(),
                }
            })
            .collect()
    }
    match st.clone() {
        Statement::CreateExternalTable(mut c) => {
            c.table_partition_cols = unq(&c.table_partition_cols);
            Statement::CreateExternalTable(c)
        }
        Statement::CopyTo(mut c) => {
            c.partitioned_by = unq(&c.partitioned_by);
            Statement::CopyTo(c)
        }
        o => o,
    }
}
