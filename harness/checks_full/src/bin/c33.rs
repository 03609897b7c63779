//! C33: user-defined functions as the users of a server see them.
use base64::Engine;
use checks_full::env::*;
use checks_full::http;
use pbt::*;
use seafowl_full::config::schema::{AccessSettings, HttpFrontend};
use seafowl_full::context::SeafowlContext;
use std::collections::BTreeMap;
use std::sync::Arc;

/// spellings of names, with the name each stands for
const NAMES: [(&str, &str); 10] = [
    ("f", "f"),
    ("F", "f"),
    ("\"f\"", "f"),
    ("Mixed", "mixed"),
    ("mixed", "mixed"),
    ("\"Mixed\"", "Mixed"),
    ("\"two words\"", "two words"),
    ("\"it's\"", "it's"),
    ("abs", "abs"),
    ("ABS", "abs"),
];
const DBS: [Option<&str>; 2] = [None, Some("other")];

/// x + k
fn details(k: i64, entry: &str, export: &str, language: &str) -> String {
    let wasm = wat::parse_str(format!("(module (func (export \"{export}\") (param i64) (result i64) local.get 0 i64.const {k} i64.add))")).unwrap();
    serde_json::json!({
        "entrypoint": entry, "language": language, "input_types": ["bigint"], "return_type": "bigint",
        "data": base64::engine::general_purpose::STANDARD.encode(wasm)
    })
    .to_string()
}

async fn send(cx: &Arc<SeafowlContext>, conf: &HttpFrontend, db: Option<&str>, sql: &str, cached: bool) -> Result<Vec<serde_json::Value>, String> {
    let req = if cached { http::get(db, sql, 1, "") } else { http::post(db, sql) };
    let r = http::send(cx, conf, &req).await;
    if r.status != 200 {
        return Err(r.text());
    }
    String::from_utf8_lossy(&r.body).lines().map(|l| serde_json::from_str(l).map_err(|e| format!("{l}: {e}"))).collect()
}

fn history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = scratch();
    let mut trail: Vec<String> = vec![];
    let mut calls = 0;
    let r = {
        let (trail, ctx, calls, dir) = (&mut trail, &mut *ctx, &mut calls, dir.path());
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async move {
            let open = HttpFrontend { read_access: AccessSettings::Any, write_access: AccessSettings::Any, ..Default::default() };
            let mut cx = Arc::new(local(dir, 1000).await);
            send(&cx, &open, None, "CREATE DATABASE other", false).await.expect("a database");
            for db in DBS {
                send(&cx, &open, db, "CREATE TABLE t AS SELECT * FROM (VALUES (-3), (0), (5)) AS v(x)", false).await.expect("a table");
            }
            let mut model: [BTreeMap<&str, i64>; 2] = Default::default();
            for i in 0..s.urange(4, 20) {
                let d = s.usize(2);
                let (spelled, name) = *s.pick(&NAMES);
                let there = model[d].contains_key(name);
                let (mut sql, mut ok) = (String::new(), true);
                match s.below(10) {
                    0..=2 => {
                        let replace = s.bool();
                        let k = 1000 * (i as i64 + 1);
                        sql = format!("CREATE {}FUNCTION {spelled} AS '{}'", if replace { "OR REPLACE " } else { "" }, details(k, "e", "e", "wasm"));
                        ok = replace || !there;
                        if ok {
                            model[d].insert(name, k);
                        }
                    }
                    3 => {
                        // what can't be called isn't stored either
                        let (entry, language) = *s.pick(&[("none", "wasm"), ("e", "cobol")]);
                        sql = format!("CREATE OR REPLACE FUNCTION {spelled} AS '{}'", details(1, entry, "e", language));
                        if s.bool() {
                            sql = sql.replace("\"bigint\"]", "\"bigint\", \"bigint\"]");
                        }
                        ok = false;
                    }
                    4 => {
                        let (second, name2) = *s.pick(&NAMES);
                        let if_exists = s.bool();
                        if s.bool() && name2 != name {
                            sql = format!("DROP FUNCTION {}{spelled}, {second}", if if_exists { "IF EXISTS " } else { "" });
                            if there == model[d].contains_key(name2) || if_exists {
                                ok = there || if_exists;
                                model[d].remove(name);
                                model[d].remove(name2);
                            } else {
                                // what happens when some are missing is open
                                continue;
                            }
                        } else {
                            sql = format!("DROP FUNCTION {}{spelled}", if if_exists { "IF EXISTS " } else { "" });
                            ok = there || if_exists;
                            model[d].remove(name);
                        }
                    }
                    5 => {
                        cx = Arc::new(local(dir, 1000).await);
                        trail.push("restart".into());
                    }
                    _ => {}
                }
                if !sql.is_empty() {
                    trail.push(format!("{}: {}", DBS[d].unwrap_or("default"), sql.split("\"data\"").next().unwrap_or("")));
                    let r = send(&cx, &open, DBS[d], &sql, false).await;
                    match (ok, r) {
                        (true, Err(e)) => fail!("statement refused", "{}: {e}", trail.last().unwrap()),
                        (false, Ok(_)) => fail!("statement taken", "{}", trail.last().unwrap()),
                        _ => {}
                    }
                }
                for _ in 0..s.urange(1, 2) {
                    let d = s.usize(2);
                    let (spelled, name) = *s.pick(&NAMES);
                    let f = |x: i64| match model[d].get(name) {
                        Some(k) => Some(x + k),
                        None if name == "abs" => Some(x.abs()),
                        None => None,
                    };
                    let form = s.below(3);
                    let sql = match form {
                        0 => format!("SELECT {spelled}(x) AS y FROM t"),
                        1 => format!("SELECT x AS y FROM t WHERE {spelled}(x) > 500"),
                        _ => format!("SELECT {spelled}(7) AS y"),
                    };
                    let want: Option<Vec<i64>> = f(0).map(|_| match form {
                        0 => vec![-3, 0, 5].into_iter().filter_map(f).collect(),
                        1 => vec![-3, 0, 5].into_iter().filter(|x| f(*x) > Some(500)).collect(),
                        _ => vec![f(7).unwrap()],
                    });
                    let cached = s.bool();
                    trail.push(format!("{}: {}{sql}", DBS[d].unwrap_or("default"), if cached { "GET " } else { "" }));
                    match (want, send(&cx, &open, DBS[d], &sql, cached).await) {
                        (None, Err(_)) => {}
                        (None, Ok(v)) => fail!("call of no function", "{} gives {v:?}", trail.last().unwrap()),
                        (Some(_), Err(e)) => fail!("call refused", "{}: {e}", trail.last().unwrap()),
                        (Some(mut w), Ok(v)) => {
                            *calls += 1;
                            let mut got: Vec<i64> = v.iter().map(|v| v["y"].as_i64().unwrap_or(i64::MIN)).collect();
                            got.sort();
                            w.sort();
                            ensure_eq!(got, w, "result of a call", "{}", trail.last().unwrap());
                        }
                    }
                }
            }
            for (d, m) in model.iter().enumerate() {
                for (name, k) in m {
                    let sql = format!("SELECT {}(1) AS y", checks_full::sqlmodel::id(name));
                    let v = send(&cx, &open, DBS[d], &sql, false).await.map_err(|e| Fail::new("call refused", format!("{sql} in the end: {e}")))?;
                    ensure_eq!(v.first().and_then(|v| v["y"].as_i64()), Some(1 + k), "result of a call", "{sql} in the end");
                }
            }
            ctx.label(if model.iter().any(|m| !m.is_empty()) { "functions left" } else { "none left" });
            Ok(())
        })
    };
    if calls > 1 {
        ctx.nontrivial(&trail);
    }
    ctx.describe(trail.join("\n"));
    r
}

fn main() {
    pbt::main(Property {
        id: "C33",
        rule: "non-trivial: at least two calls give results. Distinct by history.",
        assumptions: &["what a function computes is subject of C06 and C07; here it adds a constant", "DROP FUNCTION of a list of which only some exist may drop those or fail"],
        legs: vec![leg("history", 250, 10_000, history)],
    })
}
