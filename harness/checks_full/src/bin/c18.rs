//! C18: what a caller of the HTTP API can read and change.
use checks_full::env::*;
use checks_full::http::*;
use pbt::*;
use seafowl_full::config::schema::{load_config_from_string, str_to_hex_hash, HttpFrontend};
use seafowl_full::context::SeafowlContext;
use std::sync::Arc;

const SECRET: &str = "s3cr3t";

#[derive(Clone, Debug, PartialEq)]
enum Access {
    Any,
    Off,
    Password(String),
}

impl Access {
    fn toml(&self) -> String {
        match self {
            Access::Any => "any".into(),
            Access::Off => "off".into(),
            Access::Password(p) => str_to_hex_hash(p),
        }
    }
}

fn password(s: &mut Src) -> String {
    let odd = ["", " ", "Bearer ", "Bearer x", "any", "off", "p\"q", "a b", "0", "é"];
    if s.chance(1, 3) {
        s.pick(&odd).to_string()
    } else {
        format!("pw{}", s.below(3))
    }
}

fn access(s: &mut Src) -> Access {
    match s.weighted(&[3, 3, 4]) {
        0 => Access::Any,
        1 => Access::Off,
        _ => Access::Password(password(s)),
    }
}

fn frontend(read: &Access, write: &Access) -> HttpFrontend {
    let t = format!(
        "[frontend.http]\nread_access = \"{}\"\nwrite_access = \"{}\"\nupload_data_max_length = 1\n",
        read.toml(),
        write.toml()
    );
    load_config_from_string(&t, true, None).expect("a configuration").frontend.http.expect("an HTTP frontend")
}

/// What an Authorization header is worth.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Rights {
    read: bool,
    write: bool,
    /// the header is malformed, or names no password there is
    bad: bool,
}

fn rights(read: &Access, write: &Access, header: &Option<String>) -> Rights {
    match header {
        None => Rights { read: *read == Access::Any, write: *write == Access::Any, bad: false },
        Some(h) => match h.strip_prefix("Bearer ") {
            None => Rights { read: false, write: false, bad: true },
            Some(t) => {
                let p = Access::Password(t.to_string());
                if *write == p {
                    Rights { read: true, write: true, bad: false }
                } else if *read == p {
                    Rights { read: true, write: *write == Access::Any, bad: false }
                } else {
                    Rights { read: false, write: false, bad: true }
                }
            }
        },
    }
}

fn header(s: &mut Src, read: &Access, write: &Access) -> Option<String> {
    let known: Vec<String> = [read, write].iter().filter_map(|a| if let Access::Password(p) = a { Some(p.clone()) } else { None }).collect();
    let p = if !known.is_empty() && s.chance(9, 10) { s.pick(&known).clone() } else { password(s) };
    let h = match s.weighted(&[10, 6, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => return None,
        1 => format!("Bearer {p}"),
        2 => format!("bearer {p}"),
        3 => format!("Basic {p}"),
        4 => format!("Bearer Bearer {p}"),
        5 => format!("Bearer {}", str_to_hex_hash(&p)),
        6 => format!("Bearer {p}x"),
        7 => format!("Bearer{p}"),
        8 => p,
        _ => format!("Bearer  {p}"),
    };
    // only what can be sent as it is
    Some(h.trim_end().to_string()).filter(|h| h.is_ascii() && !h.is_empty() && h.trim() == h)
}

/// A statement, what it needs, and whether it works.
struct Stmt {
    sql: String,
    write: bool,
    works: bool,
    /// shows the secret
    shows: bool,
}

fn read_statement(s: &mut Src) -> Stmt {
    let shows = |q: &str| Stmt { sql: q.into(), write: false, works: true, shows: true };
    let plain = |q: &str| Stmt { sql: q.into(), write: false, works: true, shows: false };
    match s.below(13) {
        0 => shows("SELECT * FROM secret"),
        1 => shows("with x as (select v from secret) select * from x"),
        2 => shows("SELECT v FROM secret UNION ALL SELECT 'a'"),
        3 => shows("(SELECT max(v) FROM secret)"),
        4 => shows("SELECT (SELECT max(v) FROM secret)"),
        5 => shows("SELECT * FROM public.secret AS s WHERE s.v IN (SELECT v FROM secret)"),
        6 => shows("EXPLAIN SELECT * FROM secret WHERE v = 's3cr3t'"),
        7 => plain("EXPLAIN ANALYZE SELECT 1"),
        8 => plain("SELECT 1"),
        9 => plain("VALUES (1)"),
        10 => plain("EXPLAIN INSERT INTO mine VALUES (1)"),
        11 => shows("SELECT v || 'x' FROM secret -- a comment"),
        _ => plain("SHOW TABLES"),
    }
}

fn write_statement(s: &mut Src, dir: &std::path::Path) -> Stmt {
    let d = dir.display();
    let w = |q: String| Stmt { sql: q, write: true, works: true, shows: false };
    let odd = |q: String| Stmt { sql: q, write: true, works: false, shows: false };
    match s.below(36) {
        0 | 1 => w("INSERT INTO mine VALUES (7)".into()),
        2 => w("UPDATE mine SET n = n + 1".into()),
        3 => w("DELETE FROM mine WHERE n > 1".into()),
        4 => w("TRUNCATE TABLE mine".into()),
        5 => w("CREATE TABLE fresh (a INT)".into()),
        6 => w("CREATE TABLE fresh AS SELECT * FROM secret".into()),
        7 => w("DROP TABLE mine".into()),
        8 => w("ALTER TABLE mine RENAME TO yours".into()),
        9 => w("CREATE SCHEMA fresh".into()),
        10 => w("DROP SCHEMA spare".into()),
        11 => w("CREATE DATABASE fresh".into()),
        12 => w(format!("COPY secret TO '{d}/out.parquet'")),
        13 => w("VACUUM TABLE mine".into()),
        14 => w("insert into mine select 1".into()),
        15 => w("INSERT INTO mine WITH x AS (SELECT 1) SELECT * FROM x".into()),
        16 => w(format!("CREATE EXTERNAL TABLE fresh (n BIGINT) STORED AS PARQUET LOCATION '{d}/fresh/'")),
        17 => odd("EXPLAIN ANALYZE INSERT INTO staging.outside VALUES (1)".into()),
        18 => odd("explain analyze verbose insert into staging.outside values (1)".into()),
        19 => odd("EXPLAIN ANALYZE INSERT INTO mine VALUES (1)".into()),
        20 => odd("EXPLAIN ANALYZE DELETE FROM mine".into()),
        21 => odd("EXPLAIN ANALYZE CREATE TABLE fresh AS SELECT 1".into()),
        22 => odd("WITH x AS (SELECT 1) INSERT INTO mine SELECT * FROM x".into()),
        23 => w("SELECT 1 AS n INTO fresh".into()),
        29 => odd("(SELECT 1 AS n INTO fresh)".into()),
        30 => w("with x as (select v from secret) select * into fresh from x".into()),
        31 => odd("SELECT 1 AS n INTO fresh UNION SELECT 2".into()),
        32 => odd("SELECT 2 AS n UNION (SELECT 1 INTO fresh)".into()),
        33 => odd("EXPLAIN ANALYZE SELECT 1 AS n INTO fresh".into()),
        34 => odd("SELECT * FROM (SELECT 1 AS n INTO fresh) AS x".into()),
        24 => odd("CREATE VIEW fresh AS SELECT * FROM secret".into()),
        25 => odd("SET datafusion.execution.batch_size = 1".into()),
        26 => odd("EXPLAIN ANALYZE UPDATE mine SET n = 0".into()),
        27 => odd("EXPLAIN ANALYZE DROP TABLE mine".into()),
        28 => odd("PREPARE p AS INSERT INTO mine VALUES (1)".into()),
        _ => w("DROP FUNCTION IF EXISTS nothing".into()),
    }
}

async fn world(cx: &SeafowlContext, dir: &std::path::Path) -> Vec<String> {
    let mut out = vec![];
    for q in [
        "SELECT table_catalog, table_schema, table_name FROM information_schema.tables ORDER BY 1, 2, 3",
        "SELECT * FROM system.table_versions ORDER BY 1, 2, 3",
        "SELECT v FROM secret ORDER BY v",
        "SELECT n FROM mine ORDER BY n",
        "SELECT n FROM yours ORDER BY n",
        "SELECT value FROM information_schema.df_settings WHERE name = 'datafusion.execution.batch_size'",
    ] {
        out.push(match run(cx, q).await {
            Ok(b) => format!("{:?}", rows(&b)),
            Err(_) => "none".into(),
        });
    }
    let mut names = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                todo.push(e.path());
            } else {
                names.push(e.path().strip_prefix(dir).unwrap().display().to_string());
            }
        }
    }
    names.sort();
    out.push(format!("{names:?}"));
    out.push(format!("{:?}", cx.metastore.catalogs.get("fresh").await.is_ok()));
    let names = cx.metastore.schemas.list("default").await.map(|l| {
        let mut n: Vec<String> = l.schemas.iter().map(|s| s.name.clone()).collect();
        n.sort();
        n
    });
    out.push(format!("{:?}", names.ok()));
    out
}

async fn case(s: &mut Src, ctx: &mut Ctx, trail: &mut Vec<String>) -> Result<(), Fail> {
    let dir = scratch();
    std::fs::create_dir(dir.path().join("outside")).unwrap();
    let cx = Arc::new(memory(1000).await);
    for q in [
        "CREATE TABLE secret (v TEXT)".to_string(),
        format!("INSERT INTO secret VALUES ('{SECRET}')"),
        "CREATE TABLE mine (n BIGINT)".into(),
        "INSERT INTO mine VALUES (1), (2)".into(),
        "CREATE SCHEMA spare".into(),
        "CREATE DATABASE other".into(),
        format!("CREATE EXTERNAL TABLE outside (n BIGINT) STORED AS PARQUET LOCATION '{}/outside/'", dir.path().display()),
    ] {
        run(&cx, &q).await.map_err(|e| Fail::new("setup", format!("{q}: {e}")))?;
    }
    let (read, write) = (access(s), access(s));
    let conf = frontend(&read, &write);
    trail.push(format!("read access {read:?}, write access {write:?}"));
    let (mut granted, mut refused) = (0, 0);
    for _ in 0..s.urange(2, 7) {
        let h = header(s, &read, &write);
        let may = rights(&read, &write, &h);
        let (mut reads, mut writes, mut works, mut shows) = (false, false, true, false);
        let mut is_get = false;
        let mut req = match s.below(10) {
            0..=5 => {
                // statements to run; at most one reads, and it's the last
                let mut stmts = vec![];
                let n = if s.chance(1, 3) { s.urange(1, 3) } else { 0 };
                for _ in 0..n {
                    stmts.push(write_statement(s, dir.path()));
                }
                stmts.push(if s.bool() { read_statement(s) } else { write_statement(s, dir.path()) });
                for st in &stmts {
                    reads |= !st.write;
                    writes |= st.write;
                    works &= st.works;
                    shows |= st.shows;
                }
                works &= stmts.len() == 1;
                let sql = stmts.iter().map(|st| st.sql.clone()).collect::<Vec<_>>().join(";\n");
                trail.push(format!("{h:?} runs {sql}"));
                post(None, &sql)
            }
            6 | 7 => {
                is_get = true;
                let st = if s.chance(2, 3) { read_statement(s) } else { write_statement(s, dir.path()) };
                (reads, writes, works, shows) = (!st.write, st.write, st.works && !st.sql.starts_with("EXPLAIN ANALYZE"), st.shows);
                trail.push(format!("{h:?} gets {}", st.sql));
                get(None, &st.sql, s.below(3) as u8, *s.pick(&["", ".csv", ".a.b"]))
            }
            8 => {
                writes = true;
                works = false;
                let t = *s.pick(&["mine", "fresh"]);
                trail.push(format!("{h:?} uploads to {t}"));
                upload(None, "public", t, &[Part { name: "data", filename: Some("t.csv"), data: b"n\n1\n2\n".to_vec() }])
            }
            _ => {
                let p = *s.pick(&["/healthz", "/readyz"]);
                let r = send(&cx, &conf, &Req { method: "GET", path: p.into(), headers: h.iter().map(|h| ("Authorization".into(), h.clone())).collect(), body: None }).await;
                ensure_eq!(r.status, 200, "probe refused", "{p} with {h:?}");
                continue;
            }
        };
        if let Some(h) = &h {
            req.headers.push(("Authorization".into(), h.clone()));
        }
        let before = world(&cx, dir.path()).await;
        let r = send(&cx, &conf, &req).await;
        let after = world(&cx, dir.path()).await;
        let what = format!("{} {} with {h:?} (read {read:?}, write {write:?}): {} {}", req.method, trail.last().unwrap(), r.status, r.text());
        // nobody changes what they may not, or reads what they may not
        if before != after {
            ensure!(may.write && writes && !is_get, "changed without the right", "{what}\nbefore {before:?}\nafter {after:?}");
        }
        if r.text().contains(SECRET) && r.status < 300 {
            ensure!(may.read && reads, "read without the right", "{what}");
            ensure!(!is_get || read != Access::Off, "read through the endpoint that is off", "{what}");
        }
        // and who may isn't turned away
        let allowed = !may.bad && (!reads || may.read) && (!writes || (may.write && !is_get)) && !(is_get && read == Access::Off);
        if allowed && works {
            granted += 1;
            let denied = r.text().contains("ACCESS_TOKEN") || r.text().contains("FORBIDDEN") || r.text().contains("NOT_READ_ONLY") || [401, 403, 405].contains(&r.status);
            ensure!(!denied, "refused with the right", "{what}");
            if !writes {
                ensure_eq!(r.status, 200, "read fails", "{what}");
                ensure!(!shows || r.text().contains(SECRET), "read fails", "{what}");
            }
        }
        // (an odd statement may turn out to be a read when it is planned)
        if !allowed && !(is_get && writes && !works && may.read) {
            refused += 1;
            ensure!(r.status >= 400, "not refused", "{what}");
        }
        if may.bad {
            ensure!(r.status == 401 || r.status == 400 || (is_get && r.status == 405), "bad token isn't told", "{what}");
        }
        if before != after && writes {
            ctx.label("changes");
            break;
        }
    }
    ctx.label_n("granted", granted);
    ctx.label_n("refused", refused);
    if granted + refused >= 2 && refused >= 1 {
        ctx.nontrivial(&trail);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C18",
        rule: "at least two requests, one of them to be refused",
        assumptions: &["the frontends other than HTTP have no access control"],
        legs: vec![leg("requests", 600, 40_000, |s, c| {
            let mut trail = vec![];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(case(s, c, &mut trail))));
            for t in &trail {
                c.describe_more(format!("\n{t}"));
            }
            r.unwrap_or_else(|p| std::panic::resume_unwind(p))
        })],
    })
}
