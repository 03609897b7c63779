//! SQL text generation: tokens with random case, whitespace and comments; identifiers; literals;
//! standard statements.
use pbt::Src;

/// A statement under construction: a list of tokens that are later joined with random separators.
#[derive(Default, Clone, Debug)]
pub struct Toks(pub Vec<String>);

impl Toks {
    pub fn new() -> Self {
        Self::default()
    }
    /// keyword(s), each in random case
    pub fn kw(&mut self, s: &mut Src, words: &str) -> &mut Self {
        for w in words.split(' ') {
            self.0.push(rand_case(s, w));
        }
        self
    }
    pub fn t(&mut self, tok: impl Into<String>) -> &mut Self {
        self.0.push(tok.into());
        self
    }
    pub fn extend(&mut self, o: &Toks) -> &mut Self {
        self.0.extend(o.0.iter().cloned());
        self
    }
    /// plain rendering
    pub fn plain(&self) -> String {
        self.0.join(" ")
    }
    /// rendering with random whitespace and comments between tokens
    pub fn render(&self, s: &mut Src) -> String {
        let mut out = String::new();
        for (i, t) in self.0.iter().enumerate() {
            if i > 0 {
                out.push_str(&gap(s));
            }
            out.push_str(t);
        }
        out
    }
}

pub fn rand_case(s: &mut Src, w: &str) -> String {
    match s.weighted(&[6, 2, 2]) {
        0 => w.to_string(),
        1 => w.to_lowercase(),
        _ => w
            .chars()
            .map(|c| if s.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
            .collect(),
    }
}

/// at least one blank between two tokens
pub fn gap(s: &mut Src) -> String {
    match s.weighted(&[20, 2, 2, 1, 1, 1]) {
        0 => " ",
        1 => "\n",
        2 => "\t ",
        3 => " /* c; 'x */ ",
        4 => " -- it's; a comment\n",
        _ => "\r\n  ",
    }
    .to_string()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Id {
    pub value: String,
    pub quote: Option<char>,
}

impl Id {
    pub fn plain(v: &str) -> Self {
        Id { value: v.into(), quote: None }
    }
    pub fn render(&self) -> String {
        match self.quote {
            None => self.value.clone(),
            Some(q) => {
                let mut o = String::from(q);
                for c in self.value.chars() {
                    o.push(c);
                    if c == q {
                        o.push(q);
                    }
                }
                o.push(q);
                o
            }
        }
    }
    pub fn ast(&self) -> sqlparser::ast::Ident {
        match self.quote {
            None => sqlparser::ast::Ident::new(self.value.clone()),
            Some(q) => sqlparser::ast::Ident::with_quote(q, self.value.clone()),
        }
    }
    /// the name Seafowl looks up: unquoted identifiers fold to lower case (ASCII)
    pub fn normal(&self) -> String {
        match self.quote {
            None => self.value.to_ascii_lowercase(),
            Some(_) => self.value.clone(),
        }
    }
}

const WORDS: &[&str] = &["t", "tbl", "some_table", "Orders", "MixedCase", "x1", "été", "ÉTÉ", "Ünit", "_u", "a_b_c", "zz9"];
const QUOTED: &[&str] = &[
    "t", "Some Table", "a.b", "MixedCase", "sel;ect", "it's", "we\"ird", "back`tick", "select", "--x", "名前", "a/*b", "UPPER", "with space;",
];

/// an unquoted word that is no SQL keyword, or a quoted identifier with anything in it
pub fn ident(s: &mut Src) -> Id {
    match s.weighted(&[6, 2, 1]) {
        0 => {
            let mut v = s.pick(WORDS).to_string();
            if s.bool() {
                v.push_str(&s.below(20).to_string());
            }
            Id { value: v, quote: None }
        }
        1 => Id { value: s.pick(QUOTED).to_string(), quote: Some('"') },
        _ => Id { value: s.pick(QUOTED).to_string(), quote: Some('`') },
    }
}

/// words that are keywords but legal wherever only a name is possible
pub fn ident_or_keyword(s: &mut Src) -> Id {
    if s.chance(1, 8) {
        let w = s.pick(&["location", "OPTIONS", "stored", "delta", "function", "vacuum", "database", "external", "partitioned", "To"]);
        Id { value: w.to_string(), quote: None }
    } else {
        ident(s)
    }
}

pub fn name_render(ids: &[Id]) -> String {
    ids.iter().map(|i| i.render()).collect::<Vec<_>>().join(".")
}

pub fn name_ast(ids: &[Id]) -> sqlparser::ast::ObjectName {
    sqlparser::ast::ObjectName(ids.iter().map(|i| i.ast()).collect())
}

pub fn object_name(s: &mut Src, max: usize) -> Vec<Id> {
    let n = 1 + s.weighted(&[6, 3, 2][..max.min(3)]);
    (0..n).map(|_| ident(s)).collect()
}

const TEXTS: &[&str] = &[
    "", "a", "x;y", "it's", "-- not a comment", "/* nor this */", "new\nline", "\\", "\\'", "s3://bucket/path/*.parquet", "ünïcödé ✓", "\"dq\"", "$$", ";", "''", "%20", "NULL",
];

/// raw content of a string literal
pub fn text(s: &mut Src) -> String {
    match s.weighted(&[5, 2]) {
        0 => s.pick(TEXTS).to_string(),
        _ => {
            let abc: Vec<char> = "ab;'\"- /*\\\n$`é0,()".chars().collect();
            s.string_of(&abc, 0, 12)
        }
    }
}

pub fn quote_str(v: &str) -> String {
    format!("'{}'", v.replace('\'', "''"))
}

fn num(s: &mut Src) -> String {
    s.pick(&["0", "1", "42", "3.14", "1e10", "007", "18446744073709551616"]).to_string()
}

fn literal(s: &mut Src) -> String {
    match s.usize(4) {
        0 => num(s),
        1 => {
            let t = text(s);
            quote_str(&t)
        }
        2 => s.pick(&["NULL", "true", "FALSE"]).to_string(),
        _ => "DATE '2020-01-01'".into(),
    }
}

/// a scalar expression as tokens
pub fn expr(s: &mut Src, depth: usize) -> Toks {
    let mut t = Toks::new();
    let k = if depth == 0 { s.usize(2) } else { s.usize(8) };
    match k {
        0 => {
            t.t(literal(s));
        }
        1 => {
            let n = object_name(s, 2);
            t.t(name_render(&n));
        }
        2 => {
            let op = *s.pick(&["+", "-", "*", "/", "=", "<", ">=", "<>", "AND", "OR", "||", "LIKE"]);
            t.extend(&expr(s, depth - 1)).t(op);
            t.extend(&expr(s, depth - 1));
        }
        3 => {
            t.t("(").extend(&expr(s, depth - 1)).t(")");
        }
        4 => {
            let f = s.pick(&["coalesce", "f", "upper"]).to_string();
            t.t(f).t("(").extend(&expr(s, depth - 1)).t(",").extend(&expr(s, depth - 1)).t(")");
        }
        5 => {
            t.kw(s, "CASE WHEN").extend(&expr(s, depth - 1)).kw(s, "THEN");
            t.extend(&expr(s, depth - 1));
            t.kw(s, "END");
        }
        6 => {
            t.t("(").extend(&select(s, depth - 1)).t(")");
        }
        _ => {
            t.extend(&expr(s, depth - 1)).kw(s, "IN").t("(").extend(&expr(s, 0)).t(",");
            t.extend(&expr(s, 0)).t(")");
        }
    }
    t
}

pub fn table_factor(s: &mut Src, depth: usize) -> Toks {
    let mut t = Toks::new();
    match if depth == 0 { s.usize(2) } else { s.usize(4) } {
        0 => {
            let n = object_name(s, 3);
            t.t(name_render(&n));
        }
        1 => {
            let n = object_name(s, 3);
            t.t(name_render(&n)).t("(").t("'2022-01-01 20:01:01Z'").t(")");
        }
        2 => {
            t.t("(").extend(&select(s, depth - 1)).t(")").kw(s, "AS");
            t.t("sub");
        }
        _ => {
            t.extend(&table_factor(s, depth - 1)).kw(s, "AS").t("l").kw(s, "JOIN");
            t.extend(&table_factor(s, 0)).kw(s, "AS").t("r").kw(s, "ON").extend(&expr(s, 0)).t("=");
            t.extend(&expr(s, 0));
        }
    }
    t
}

pub fn select(s: &mut Src, depth: usize) -> Toks {
    let mut t = Toks::new();
    if depth > 0 && s.chance(1, 6) {
        t.kw(s, "WITH");
        if s.chance(1, 5) {
            t.kw(s, "RECURSIVE");
        }
        let n = s.urange(1, 2);
        for i in 0..n {
            if i > 0 {
                t.t(",");
            }
            t.t(["cte", "c2"][i]).kw(s, "AS").t("(").extend(&select(s, depth - 1)).t(")");
        }
    }
    let plain_select = |s: &mut Src, t: &mut Toks| {
        t.kw(s, "SELECT");
        if s.chance(1, 8) {
            t.kw(s, "DISTINCT");
        }
        if s.chance(1, 3) {
            t.t("*");
        } else {
            let n = s.urange(1, 2);
            for i in 0..n {
                if i > 0 {
                    t.t(",");
                }
                t.extend(&expr(s, depth));
                if s.bool() {
                    t.kw(s, "AS").t(ident(s).render());
                }
            }
        }
        if s.chance(3, 4) {
            t.kw(s, "FROM").extend(&table_factor(s, depth));
            if s.bool() {
                t.kw(s, "WHERE").extend(&expr(s, depth));
            }
            if s.chance(1, 4) {
                t.kw(s, "GROUP BY").extend(&expr(s, 0));
                if s.chance(1, 3) {
                    t.kw(s, "HAVING").extend(&expr(s, 0));
                }
            }
        }
    };
    plain_select(s, &mut t);
    if depth > 0 && s.chance(1, 6) {
        let op: &str = *s.pick(&["UNION ALL", "UNION", "INTERSECT"]);
        t.kw(s, op);
        plain_select(s, &mut t);
    }
    tail(s, &mut t);
    t
}

/// any query: also VALUES and a query in parentheses
pub fn query(s: &mut Src, depth: usize) -> Toks {
    let mut t = Toks::new();
    match s.weighted(&[8, 1, 1]) {
        1 => {
            t.kw(s, "VALUES").t("(").extend(&expr(s, 0)).t(")");
            tail(s, &mut t);
        }
        2 if depth > 0 => {
            t.t("(").extend(&query(s, depth - 1)).t(")");
            tail(s, &mut t);
        }
        _ => t = select(s, depth),
    }
    t
}

fn tail(s: &mut Src, t: &mut Toks) {
    if s.chance(1, 5) {
        t.kw(s, "ORDER BY").extend(&expr(s, 0)).kw(s, "DESC");
        if s.chance(1, 3) {
            t.kw(s, "NULLS LAST");
        }
    }
    if s.chance(1, 5) {
        t.kw(s, "LIMIT").t("10");
    }
    if s.chance(1, 8) {
        t.kw(s, "OFFSET").t("3");
        if s.bool() {
            t.kw(s, "ROWS");
        }
    }
    if s.chance(1, 8) {
        t.kw(s, "FETCH").kw(s, "FIRST").t("5").kw(s, "ROWS ONLY");
    }
}

pub const TYPES: &[&str] = &[
    "INT", "BIGINT", "TEXT", "VARCHAR(10)", "DECIMAL(10, 2)", "TIMESTAMP", "DATE", "BOOLEAN", "DOUBLE PRECISION", "FLOAT", "REAL", "SMALLINT", "INT UNSIGNED", "BYTEA",
];

pub fn column_def(s: &mut Src) -> Toks {
    let mut t = Toks::new();
    t.t(ident(s).render()).t(*s.pick(TYPES));
    if s.chance(1, 12) {
        let c = *s.pick(&["\"de_DE\"", "nocase", "a.b"]);
        t.kw(s, "COLLATE").t(c);
    }
    let n = s.weighted(&[4, 6, 2, 1]);
    let mut kinds: Vec<usize> = (0..n).map(|_| s.usize(9)).collect();
    kinds.sort(); // an expression reads as far as it can, so it comes last
    kinds.dedup();
    let mut exprs = 0;
    for k in kinds {
        exprs += (k >= 8) as usize;
        if exprs > 1 {
            break;
        }
        if s.chance(1, 5) {
            t.kw(s, "CONSTRAINT").t(ident(s).render());
        }
        match k {
            0 | 1 => {
                t.kw(s, "NOT NULL");
            }
            2 => {
                t.kw(s, "PRIMARY KEY");
            }
            3 => {
                t.kw(s, "UNIQUE");
            }
            4 => {
                t.kw(s, "NULL");
            }
            5 => {
                t.kw(s, "CHECK").t("(").extend(&expr(s, 0)).t(")");
            }
            6 => {
                t.kw(s, "REFERENCES").t(name_render(&object_name(s, 2)));
                if s.bool() {
                    t.t("(").t(ident(s).render()).t(")");
                }
                if s.bool() {
                    t.kw(s, "ON DELETE CASCADE");
                }
            }
            7 => {
                t.kw(s, "COMMENT").t("'c;c'");
            }
            _ => {
                t.kw(s, "DEFAULT").t(num(s));
            }
        }
    }
    t
}

pub fn columns(s: &mut Src) -> Toks {
    let mut t = Toks::new();
    t.t("(");
    let n = s.urange(1, 4);
    for i in 0..n {
        if i > 0 {
            t.t(",");
        }
        t.extend(&column_def(s));
    }
    t.t(")");
    t
}

/// A statement that Seafowl leaves to the standard SQL grammar.
pub fn standard_statement(s: &mut Src) -> (&'static str, Toks) {
    let mut t = Toks::new();
    let kind = match s.usize(20) {
        0 | 1 | 2 | 3 => {
            t = query(s, 2);
            "select"
        }
        4 | 5 => {
            t.kw(s, "INSERT INTO").t(name_render(&object_name(s, 3)));
            if s.bool() {
                t.t("(").t(ident(s).render()).t(")");
            }
            if s.bool() {
                t.kw(s, "VALUES").t("(").extend(&expr(s, 1)).t(")");
            } else {
                t.extend(&select(s, 1));
            }
            "insert"
        }
        6 => {
            t.kw(s, "UPDATE").t(name_render(&object_name(s, 3))).kw(s, "SET").t(ident(s).render()).t("=");
            t.extend(&expr(s, 1)).kw(s, "WHERE").extend(&expr(s, 1));
            "update"
        }
        7 => {
            t.kw(s, "DELETE FROM").t(name_render(&object_name(s, 3))).kw(s, "WHERE").extend(&expr(s, 1));
            "delete"
        }
        8 | 9 => {
            t.kw(s, "CREATE TABLE");
            if s.bool() {
                t.kw(s, "IF NOT EXISTS");
            }
            t.t(name_render(&object_name(s, 3))).extend(&columns(s));
            "create table"
        }
        10 | 11 => {
            t.kw(s, "CREATE OR REPLACE");
            if s.bool() {
                t.kw(s, "TABLE").t(name_render(&object_name(s, 3))).kw(s, "AS").extend(&select(s, 1));
            } else {
                t.kw(s, "VIEW").t(name_render(&object_name(s, 3))).kw(s, "AS").extend(&select(s, 1));
            }
            "create or replace"
        }
        12 => {
            t.kw(s, "CREATE VIEW").t(name_render(&object_name(s, 3))).kw(s, "AS").extend(&select(s, 1));
            "create view"
        }
        13 => {
            t.kw(s, "CREATE SCHEMA");
            if s.bool() {
                t.kw(s, "IF NOT EXISTS");
            }
            t.t(name_render(&object_name(s, 2)));
            "create schema"
        }
        14 => {
            t.kw(s, "CREATE DATABASE").t(ident(s).render());
            "create database"
        }
        15 => {
            let k = *s.pick(&["TABLE", "SCHEMA", "VIEW", "FUNCTION"]);
            t.kw(s, "DROP").kw(s, k);
            if s.bool() {
                t.kw(s, "IF EXISTS");
            }
            t.t(name_render(&object_name(s, 3)));
            "drop"
        }
        16 => {
            t.kw(s, "ALTER TABLE").t(name_render(&object_name(s, 3))).kw(s, "RENAME TO").t(name_render(&object_name(s, 3)));
            "alter"
        }
        17 => {
            t.kw(s, "EXPLAIN").extend(&select(s, 1));
            "explain"
        }
        18 => {
            t.kw(s, "SHOW TABLES");
            "show"
        }
        _ => {
            t.kw(s, "CREATE TABLE").t(name_render(&object_name(s, 3))).kw(s, "AS").extend(&select(s, 1));
            "ctas"
        }
    };
    (kind, t)
}
