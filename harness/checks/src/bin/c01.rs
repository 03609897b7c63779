//! C01: scripts split into exactly their statements.
use checks::ddlgen;
use checks::sqlgen::*;
use pbt::*;
use seafowl::datafusion::parser::{DFParser, Statement};
use sqlparser::dialect::GenericDialect;
use sqlparser::parser::Parser;
use std::collections::VecDeque;

struct Stmt {
    kind: &'static str,
    toks: Toks,
    own: bool,
}

/// one statement together with what it means when submitted alone
fn statement(s: &mut Src) -> Stmt {
    if s.bool() {
        let (kind, toks) = standard_statement(s);
        Stmt { kind, toks, own: false }
    } else {
        loop {
            let d = ddlgen::any(s);
            if d.expected.is_some() {
                return Stmt { kind: d.kind, toks: d.toks, own: true };
            }
        }
    }
}

/// The meaning of a statement submitted alone; a standard statement has to mean what the standard
/// grammar says.
fn alone(st: &Stmt) -> Result<Statement, Fail> {
    let text = st.toks.plain();
    let parsed = DFParser::parse_sql(&text);
    if !st.own {
        let std = Parser::parse_sql(&GenericDialect {}, &text);
        match (&parsed, &std) {
            (Ok(p), Ok(x)) => {
                let x: VecDeque<Statement> = x.iter().map(|y| Statement::Statement(Box::new(y.clone()))).collect();
                ensure_eq_f(p, &x, &format!("standard:{}", st.kind), &text)?;
            }
            (Err(_), Err(_)) => return Err(Fail::new("skip", "")),
            (Err(e), Ok(_)) => return Err(Fail::new(format!("standard-rejected:{}", st.kind), format!("{text:?} is rejected: {e}"))),
            (Ok(_), Err(_)) => return Err(Fail::new("skip", "")),
        }
    }
    match parsed {
        Ok(mut p) if p.len() == 1 => Ok(p.pop_front().unwrap()),
        Ok(p) => Err(Fail::new("alone-count", format!("{text:?} parses to {} statements", p.len()))),
        Err(e) => Err(Fail::new(format!("alone-rejected:{}", st.kind), format!("{text:?}: {e}"))),
    }
}

fn ensure_eq_f<T: PartialEq + std::fmt::Debug>(a: &T, b: &T, sig: &str, text: &str) -> Res {
    if a != b {
        return Err(Fail::new(sig, format!("meaning of {text:?}\n   expected: {b:?}\n   observed: {a:?}")));
    }
    Ok(())
}

fn seps(s: &mut Src, min: usize) -> String {
    let mut o = String::new();
    let n = min + s.weighted(&[5, 2, 1]);
    for _ in 0..n {
        if s.bool() {
            o.push_str(&gap(s));
        }
        o.push(';');
    }
    if s.bool() {
        o.push_str(&gap(s));
    }
    o
}

fn split(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(1, 5);
    let mut script = seps(s, 0);
    let mut expected = vec![];
    let mut kinds = vec![];
    let mut own_before = false;
    for i in 0..n {
        let st = statement(s);
        let e = match alone(&st) {
            Ok(e) => e,
            Err(f) if f.sig == "skip" => {
                ctx.label("skipped:not standard");
                continue;
            }
            Err(f) => return Err(f),
        };
        if own_before {
            ctx.label("own statement followed by another");
        }
        own_before = st.own;
        expected.push(e);
        kinds.push(st.kind);
        script.push_str(&st.toks.render(s));
        script.push_str(&seps(s, if i + 1 == n { 0 } else { 1 }));
    }
    ctx.describe(script.clone());
    for k in &kinds {
        ctx.label(format!("kind:{k}"));
    }
    if kinds.len() > 1 {
        ctx.nontrivial(&script);
    }
    match DFParser::parse_sql(&script) {
        Ok(got) => {
            let got: Vec<Statement> = got.into_iter().collect();
            ensure_eq!(got, expected, "split", "statements of script {script:?}");
        }
        Err(e) => fail!("script-rejected", "script of legal statements {kinds:?} is rejected: {e}\n{script}"),
    }
    Ok(())
}

/// A missing separator, or a malformed statement anywhere, rejects the whole script.
fn broken(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(1, 3);
    let bad_at = s.usize(n + 1);
    let mut parts = vec![];
    for i in 0..=n {
        if i == bad_at {
            match s.usize(3) {
                0 => {
                    // a Seafowl statement directly followed by another statement
                    let mut t = loop {
                        let d = ddlgen::any(s);
                        if d.expected.is_some() {
                            break d.toks;
                        }
                    };
                    let next = loop {
                        let st = statement(s);
                        // a table name may be followed by its column list, "(" starts nothing else
                        if alone(&st).is_ok() {
                            break st;
                        }
                    };
                    t.extend(&next.toks);
                    ctx.label("missing separator");
                    parts.push(t);
                }
                1 => {
                    let d = loop {
                        let d = ddlgen::any(s);
                        if d.expected.is_none() {
                            break d;
                        }
                    };
                    ctx.label("malformed own");
                    parts.push(d.toks);
                }
                _ => {
                    let mut t = Toks::new();
                    t.t(*s.pick(&["SELECT FROM WHERE", ")", "CREATE TABLE", "INSERT INTO", "foo bar", "1", "VALUES (", "COPY", "VACUUM", "TRUNCATE TABLE", "CONVERT 'x'", "CREATE FUNCTION f", "CREATE EXTERNAL TABLE"]));
                    ctx.label("malformed standard");
                    parts.push(t);
                }
            }
        } else {
            let st = statement(s);
            parts.push(st.toks);
        }
    }
    let mut script = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            script.push_str(&seps(s, 1));
        }
        script.push_str(&p.render(s));
    }
    ctx.describe(script.clone());
    ctx.nontrivial(&script);
    if let Ok(got) = DFParser::parse_sql(&script) {
        fail!("broken-accepted", "a script with a malformed or unseparated statement is accepted: {script:?}\n   parsed: {got:?}");
    }
    Ok(())
}

const SOUP: &[&str] = &[
    "CREATE", "OR", "REPLACE", "EXTERNAL", "UNBOUNDED", "TABLE", "TEMP", "IF", "NOT", "EXISTS", "FUNCTION", "AS", "COPY", "TO", "STORED", "LOCATION", "WITH", "ORDER", "HEADER", "ROW",
    "PARTITIONED", "BY", "OPTIONS", "DELIMITER", "COMPRESSION", "TYPE", "CONVERT", "DELTA", "VACUUM", "DATABASE", "TRUNCATE", "SELECT", "FROM", "WHERE", "INT", "ASC", "DESC", "NULLS", "FIRST",
    "CONSTRAINT", "COLLATE", "(", ")", ",", ";", ".", "'x'", "''", "\"q\"", "$$b$$", "1", "a", "b.c", "*", "=", "--c\n", "/* c */", "'", "\"", "$", "/*", "E'x", "\u{0}", "é", "@", "#", "\\", "0x", "1e", "::", "PRIMARY KEY", "UNIQUE",
];

/// Arbitrary text: an answer, never a crash; blank statements around it change nothing.
fn soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let text = match s.usize(3) {
        0 => {
            let n = s.urange(1, 25);
            let mut o = String::new();
            for _ in 0..n {
                let w: &str = *s.pick(SOUP);
                o.push_str(w);
                if !s.chance(1, 6) {
                    o.push(' ');
                }
            }
            o
        }
        1 => {
            // a legal statement with a few characters changed
            let st = statement(s);
            let mut cs: Vec<char> = st.toks.render(s).chars().collect();
            let m = s.urange(1, 4);
            for _ in 0..m {
                if cs.is_empty() {
                    break;
                }
                let i = s.usize(cs.len());
                match s.usize(4) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, *s.pick(&[';', '\'', '"', '(', ')', ',', '.', '-', '$', '\\', '\u{0}', '`', 'é'])),
                    2 => cs.truncate(i),
                    _ => {
                        let j = s.usize(cs.len());
                        cs.swap(i, j);
                    }
                }
            }
            cs.into_iter().collect()
        }
        _ => {
            let n = s.urange(0, 40);
            (0..n).filter_map(|_| char::from_u32(s.below(0x500) as u32)).collect()
        }
    };
    ctx.describe(text.clone());
    let a = DFParser::parse_sql(&text);
    ctx.label(if a.is_ok() { "parses" } else { "rejected" });
    // a tokenizer error may come from an open literal or comment that would swallow the suffix
    if let Ok(got) = &a {
        if !got.is_empty() {
            ctx.nontrivial(&text);
        }
        let b = DFParser::parse_sql(&format!(";;{text}\n;"));
        match b {
            Ok(b) => ensure_eq!(&b, got, "blank-statements", "adding blank statements around {text:?}"),
            Err(e) => fail!("blank-statements", "adding blank statements around {text:?} makes it fail: {e}"),
        }
        // sqlparser 0.53 always takes three tokens after TABLE, so `TABLE x ; …` loses its separator
        // (the standard grammar alone does the same, and no such query can be run)
        if format!("{got:?}").contains("Table(Table { table_name") {
            ctx.label("table query");
            return Ok(());
        }
        let c = DFParser::parse_sql(&format!("{text}\n;\n{text}"));
        match c {
            Ok(c) => {
                let twice: VecDeque<Statement> = got.iter().chain(got.iter()).cloned().collect();
                // sqlparser reads SHOW <variable> up to the end of the whole input
                let show = got.iter().any(|g| matches!(g, Statement::Statement(st) if matches!(**st, sqlparser::ast::Statement::ShowVariable { .. })));
                ensure_eq!(c, twice, if show { "twice:show-variable" } else { "twice" }, "submitting {text:?} twice in one script");
            }
            Err(e) => fail!("twice", "submitting {text:?} twice in one script fails: {e}"),
        }
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C01",
        rule: "Scripts of 1-5 generated statements (standard and Seafowl-specific, random case, comments, blank statements) are compared with the list of what each statement means alone, standard ones with what sqlparser makes of them; scripts with a missing separator or malformed statement must be rejected; token soup, mutated statements and arbitrary characters must give an answer that blank statements do not change. Non-trivial: scripts of two or more statements, rejected scripts, and soup that parses; distinct by text.",
        assumptions: &["the generic dialect of sqlparser is the reference for standard statements"],
        legs: vec![
            leg("split", 120_000, 3_000_000, split),
            leg("broken", 60_000, 1_500_000, broken),
            leg("soup", 300_000, 8_000_000, soup),
        ],
    });
}
