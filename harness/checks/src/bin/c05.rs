//! C05: time travel rewriting redirects exactly the versioned table references.
use checks::sqlgen::*;
use datafusion::sql::TableReference;
use pbt::*;
use seafowl::datafusion::parser::{DFParser, Statement};
use seafowl::version::TableVersionProcessor;
use sqlparser::ast::{visit_relations_mut, Query, Statement as SQLStatement, VisitMut};
use std::collections::HashSet;

/// A query rendered twice: as written and as it has to be after the rewrite.
#[derive(Default)]
struct Q {
    orig: String,
    want: String,
    /// expected (catalog, schema, table, version)
    versions: HashSet<(String, String, String, String)>,
    n_versioned: usize,
    n_plain: usize,
}

impl Q {
    fn both(&mut self, t: &str) {
        for o in [&mut self.orig, &mut self.want] {
            if !o.is_empty() {
                o.push(' ');
            }
            o.push_str(t);
        }
    }
}

const CAT: &str = "def_cat";
const SCH: &str = "Def Schema";

fn version(s: &mut Src) -> String {
    match s.usize(4) {
        0 => s.pick(&["2022-01-01 20:01:01Z", "2022-01-01T20:01:01.5+02:00", "test_version", "Fri, 14 Jul 2017 02:40:00 +0000", "1"]).to_string(),
        1 => s.pick(&["", "a'b", "x\"y", "UPPER", "a.b", "a:b", "ü"]).to_string(),
        _ => format!("20{:02}-0{}-01 00:00:00", s.below(30), 1 + s.below(9)),
    }
}

fn table(s: &mut Src, q: &mut Q) {
    let ids = object_name(s, 3);
    if s.bool() {
        q.both(&name_render(&ids));
        q.n_plain += 1;
        return;
    }
    let v = version(s);
    q.n_versioned += 1;
    // as written
    let orig = format!("{}{}({})", name_render(&ids), if s.bool() { " " } else { "" }, quote_str(&v));
    // after the rewrite: the last part names table and version (lower-cased, as names are)
    let last = ids.last().unwrap().normal();
    let mut w = ids.clone();
    *w.last_mut().unwrap() = Id { value: format!("{last}:{}", v.to_ascii_lowercase()), quote: Some('"') };
    let want = name_render(&w);
    let n: Vec<String> = ids.iter().map(|i| i.normal()).collect();
    let (c, sch, t) = match n.len() {
        1 => (CAT.to_string(), SCH.to_string(), n[0].clone()),
        2 => (CAT.to_string(), n[0].clone(), n[1].clone()),
        _ => (n[0].clone(), n[1].clone(), n[2].clone()),
    };
    q.versions.insert((c, sch, t, v));
    q.orig.push(' ');
    q.orig.push_str(&orig);
    q.want.push(' ');
    q.want.push_str(&want);
}

fn ex(s: &mut Src, q: &mut Q, d: usize) {
    match if d == 0 { s.usize(3) } else { s.usize(9) } {
        0 => q.both(*s.pick(&["1", "'t(''v'')'", "NULL", "a.b", "\"t\"", "x"])),
        // scalar functions that look like versioned tables stay as they are
        1 => q.both(*s.pick(&["upper('2022-01-01')", "t('v')", "f(1, 'a')", "now()"])),
        2 => q.both("t.col"),
        3 => {
            q.both("(");
            sel(s, q, d - 1);
            q.both(")");
        }
        4 => {
            q.both(*s.pick(&["EXISTS (", "NOT EXISTS ("]));
            sel(s, q, d - 1);
            q.both(")");
        }
        5 => {
            q.both(*s.pick(&["k IN (", "k NOT IN ("]));
            sel(s, q, d - 1);
            q.both(")");
        }
        6 => {
            ex(s, q, d - 1);
            q.both(*s.pick(&["+", "=", "AND", "OR", "<"]));
            ex(s, q, d - 1);
        }
        7 => {
            q.both("CASE WHEN");
            ex(s, q, d - 1);
            q.both("THEN");
            ex(s, q, d - 1);
            q.both("ELSE 0 END");
        }
        _ => {
            q.both("coalesce(");
            ex(s, q, d - 1);
            q.both(",");
            ex(s, q, d - 1);
            q.both(")");
        }
    }
}

fn from(s: &mut Src, q: &mut Q, d: usize) {
    match if d == 0 { 0 } else { s.weighted(&[5, 2, 2, 1, 1]) } {
        0 => {
            table(s, q);
            if s.bool() {
                q.both(*s.pick(&["AS", ""]));
                q.both(*s.pick(&["al", "\"Al ias\""]));
            }
        }
        1 => {
            from(s, q, d - 1);
            q.both(*s.pick(&["JOIN", "LEFT JOIN", "FULL OUTER JOIN", "INNER JOIN"]));
            from(s, q, 0);
            q.both("ON");
            ex(s, q, d - 1);
        }
        2 => {
            q.both(*s.pick(&["(", "LATERAL ("]));
            sel(s, q, d - 1);
            q.both(") AS sub");
        }
        3 => {
            // table functions with other arguments are not versions
            q.both(*s.pick(&["generate_series(1, 5)", "f('a', 'b')", "f(x => 'v')", "f(a)", "f()", "f(1)"]));
            q.n_plain += 1;
        }
        _ => {
            from(s, q, d - 1);
            q.both(",");
            from(s, q, d - 1);
        }
    }
}

fn sel(s: &mut Src, q: &mut Q, d: usize) {
    if d > 0 && s.chance(1, 4) {
        q.both("WITH cte AS (");
        sel(s, q, d - 1);
        q.both(")");
    }
    q.both("SELECT");
    if s.bool() {
        q.both("*");
    } else {
        ex(s, q, d);
        q.both("AS c");
    }
    if s.chance(5, 6) {
        q.both("FROM");
        from(s, q, d);
    }
    if s.chance(1, 3) {
        q.both("WHERE");
        ex(s, q, d);
    }
    if s.chance(1, 6) {
        q.both("GROUP BY x HAVING");
        ex(s, q, d);
    }
    if d > 0 && s.chance(1, 5) {
        q.both(*s.pick(&["UNION ALL", "UNION", "EXCEPT", "INTERSECT"]));
        sel(s, q, d - 1);
    } else if s.chance(1, 6) {
        q.both("ORDER BY");
        ex(s, q, d);
    }
}

fn parse(sql: &str) -> Option<Box<Query>> {
    let mut st = DFParser::parse_sql(sql).ok()?;
    match st.pop_front()? {
        Statement::Statement(b) => match *b {
            SQLStatement::Query(q) => Some(q),
            _ => None,
        },
        _ => None,
    }
}

fn unquote(q: &Query) -> Query {
    let mut q = q.clone();
    let _ = visit_relations_mut(&mut q, |r| {
        if let Some(l) = r.0.last_mut() {
            // the name it resolves to: unquoted ones fold to lower case
            if l.quote_style.is_none() {
                l.value = l.value.to_ascii_lowercase();
            }
            l.quote_style = None;
        }
        std::ops::ControlFlow::<()>::Continue(())
    });
    q
}

fn rewrite(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut q = Q::default();
    let d = s.usize(4);
    sel(s, &mut q, d);
    ctx.describe(q.orig.clone());
    ctx.label(format!("versioned:{}", q.n_versioned.min(4)));
    let Some(mut got) = parse(&q.orig) else {
        ctx.label("skipped: not parseable");
        return Ok(());
    };
    let Some(want) = parse(&q.want) else {
        ctx.label("skipped: not parseable");
        return Ok(());
    };
    if q.n_versioned > 0 {
        ctx.nontrivial(&q.orig);
    }
    let before = got.clone();
    let mut p = TableVersionProcessor::new(CAT.to_string(), SCH.to_string());
    let _ = got.visit(&mut p);
    if q.n_versioned == 0 {
        ensure_eq!(got, before, "unversioned", "query without versions, {}", q.orig);
        ensure!(p.table_versions.is_empty(), "unversioned", "versions recorded for {}: {:?}", q.orig, p.table_versions);
        return Ok(());
    }
    let (g, w) = (unquote(&got), unquote(&want));
    if g != w {
        fail!("rewrite", "rewrite of {}\n   expected: {want}\n   observed: {got}", q.orig);
    }
    // quoting of the reference: the rewritten name must resolve to the same (catalog, schema, table:version)
    // that the consumer registers
    let recorded: HashSet<(String, String, String, String)> = p
        .table_versions
        .iter()
        .map(|(n, v)| {
            // resolved the way the planner resolves a name
            let r = TableReference::from(n.to_string().as_str()).resolve(CAT, SCH);
            (r.catalog.to_string(), r.schema.to_string(), r.table.to_string(), v.clone())
        })
        .collect();
    ensure_eq!(recorded, q.versions, "recorded", "table versions recorded for {}", q.orig);
    for (n, v) in &p.table_versions {
        // name of the versioned table, as registered
        let want: Vec<String> = q.versions.iter().filter(|x| x.3 == *v).map(|x| format!("{}:{}", x.2, v.to_ascii_lowercase())).collect();
        let reg = TableVersionProcessor::table_with_version(n, v);
        ensure!(want.contains(&reg), "registered-name", "{n} at {v:?} is registered as {reg:?}, the query refers to one of {want:?}");
    }
    // a second pass finds nothing
    let mut p2 = TableVersionProcessor::new(CAT.to_string(), SCH.to_string());
    let once = got.clone();
    let _ = got.visit(&mut p2);
    ensure!(p2.table_versions.is_empty() && got == once, "idempotent", "rewriting {} twice changes it again", q.orig);
    Ok(())
}

const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

/// civil date of a day number since 1970-01-01 (Hinnant), independent of the library under test
fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

fn timestamps(s: &mut Src, ctx: &mut Ctx) -> Res {
    // 1900-01-01 .. 2199-12-31, edges of days and months included
    let day = match s.usize(3) {
        0 => s.range(-25567, 84004),
        1 => s.range(0, 40) * 365 + s.range(0, 60),
        _ => s.range(17000, 21000),
    };
    let sod = match s.usize(3) {
        0 => 0,
        1 => 86399 - s.range(0, 3),
        _ => s.range(0, 86399),
    };
    let utc = day * 86400 + sod;
    let off_min = match s.usize(4) {
        0 => 0,
        1 => *s.pick(&[60, 120, -300, 330, 345, -570, 14 * 60, -12 * 60]),
        _ => s.range(-14 * 60, 14 * 60),
    };
    let fmt = s.usize(8);
    let off_min = if fmt == 4 { 0 } else { off_min };
    let local = utc + off_min * 60;
    let (y, mo, d) = civil(local.div_euclid(86400));
    let t = local.rem_euclid(86400);
    let (h, mi, se) = (t / 3600, t / 60 % 60, t % 60);
    let sign = if off_min < 0 { '-' } else { '+' };
    let (oh, om) = (off_min.abs() / 60, off_min.abs() % 60);
    let mut nanos = 0u32;
    let (name, text) = match fmt {
        0 | 1 => {
            let sep = if fmt == 0 { 'T' } else { ' ' };
            let frac = if s.bool() {
                let digits = s.urange(1, 9);
                let v = s.below(10u64.pow(digits as u32)) as u32;
                nanos = v * 10u32.pow(9 - digits as u32);
                format!(".{v:0digits$}")
            } else {
                String::new()
            };
            let zone = if off_min == 0 && s.bool() { "Z".to_string() } else { format!("{sign}{oh:02}:{om:02}") };
            ("rfc3339", format!("{y:04}-{mo:02}-{d:02}{sep}{h:02}:{mi:02}:{se:02}{frac}{zone}"))
        }
        2 => {
            let wd = (local.div_euclid(86400) + 3).rem_euclid(7) as usize;
            let pre = if s.bool() { format!("{}, ", DAYS[wd]) } else { String::new() };
            ("rfc2822", format!("{pre}{d} {} {y:04} {h:02}:{mi:02}:{se:02} {sign}{oh:02}{om:02}", MONTHS[mo as usize - 1]))
        }
        3 => ("custom with zone", format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{se:02} {sign}{oh:02}:{om:02}")),
        4 => ("naive", format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{se:02}")),
        5 => ("custom with compact zone", format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{se:02} {sign}{oh:02}{om:02}")),
        6 => {
            // close to an accepted format: either rejected, or taken for the instant it denotes
            let zone = format!("{sign}{oh:02}:{om:02}");
            let (near, frac) = match s.usize(6) {
                0 => (format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{se:02}.250 {zone}"), 250_000_000),
                1 => (format!(" {y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{se:02} {zone} "), 0),
                2 => (format!("{y:04}-{mo}-{d}T{h}:{mi}:{se}{zone}"), 0),
                3 => (format!("{y:04}-{mo:02}-{d:02}  {h:02}:{mi:02}:{se:02} {zone}"), 0),
                4 => (format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{se:02}{sign}{oh:02}{om:02}"), 0),
                _ => (format!("{y:04}-{mo:02}-{d:02}t{h:02}:{mi:02}:{se:02}.25 {zone}"), 250_000_000),
            };
            ctx.describe(near.clone());
            ctx.label("near an accepted format");
            ctx.nontrivial(&near);
            if let Ok(t) = TableVersionProcessor::version_to_datetime(&near) {
                ensure_eq!((t.timestamp(), t.timestamp_subsec_nanos()), (utc, frac), "instant:near", "instant denoted by {near:?}");
            }
            return Ok(());
        }
        _ => {
            // not a timestamp
            let bad = match s.usize(10) {
                0 => format!("{y:04}-{:02}-{d:02} {h:02}:{mi:02}:{se:02}", 13 + s.below(80)),
                1 => format!("{y:04}-{mo:02}-{:02} {h:02}:{mi:02}:{se:02}", 32 + s.below(60)),
                2 => format!("{y:04}-{mo:02}-{d:02} {:02}:{mi:02}:{se:02}", 24 + s.below(70)),
                3 => format!("{y:04}-{mo:02}-{d:02} {h:02}:{:02}:{se:02}", 60 + s.below(40)),
                4 => format!("{y:04}-{mo:02}-{d:02}"),
                5 => format!("{h:02}:{mi:02}:{se:02}"),
                6 => format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{se:02} x"),
                7 => format!("{y:04}-02-30T{h:02}:{mi:02}:{se:02}Z"),
                8 => s.pick(&["", " ", "latest", "yesterday", "0", "17", "T", "2022", "-1"]).to_string(),
                _ => format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{se:02}+25:00"),
            };
            ctx.describe(bad.clone());
            ctx.label("not a timestamp");
            ctx.nontrivial(&bad);
            if let Ok(t) = TableVersionProcessor::version_to_datetime(&bad) {
                fail!("accepted", "{bad:?} is taken for the instant {t}");
            }
            return Ok(());
        }
    };
    ctx.describe(text.clone());
    ctx.label(name);
    ctx.nontrivial(&text);
    match TableVersionProcessor::version_to_datetime(&text) {
        Ok(got) => ensure_eq!((got.timestamp(), got.timestamp_subsec_nanos()), (utc, nanos), format!("instant:{name}"), "instant denoted by {text:?}"),
        Err(e) => fail!(format!("rejected:{name}"), "{text:?} is rejected: {e}"),
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C05",
        rule: "Queries with versioned and plain table references at every position (joins, subqueries, CTEs, set operations, EXISTS/IN, lateral) are generated together with the query they must become and the set of (table, version) pairs; timestamps are rendered from a known instant in every accepted format, or made invalid. Non-trivial: queries with at least one versioned reference, and every timestamp; distinct by text.",
        assumptions: &["recorded tables are resolved from their printed name, as the query planner does", "a rewritten name is compared by the name it resolves to, not by its quoting"],
        legs: vec![leg("rewrite", 120_000, 3_000_000, rewrite), leg("timestamps", 200_000, 5_000_000, timestamps)],
    });
}
