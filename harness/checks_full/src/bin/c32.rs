//! C32: statements of clients that work at the same time.
use arrow_flight::decode::FlightRecordBatchStream;
use arrow_flight::error::FlightError;
use arrow_flight::flight_service_client::FlightServiceClient;
use arrow_flight::sql::{CommandStatementQuery, ProstMessageExt};
use arrow_flight::FlightDescriptor;
use checks_full::env::*;
use checks_full::http;
use checks_full::sqlmodel::{bag, Row, V};
use futures::TryStreamExt;
use pbt::*;
use prost::Message;
use seafowl_full::config::schema::{AccessSettings, FlightFrontend, HttpFrontend};
use seafowl_full::context::SeafowlContext;
use seafowl_full::frontend::flight::run_flight_server;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Hash)]
enum Op {
    /// on a table that only this client uses; the rows it then has, or the rows a query must give
    Write(String),
    Read(String, Vec<i64>),
    /// may only be done once by all clients together
    Once(String),
    /// rows that are inserted together into the table of all
    Add(i64, usize),
    /// takes back rows this client has inserted
    Take(i64),
    All,
}

/// The statements of one client: own tables, with what they hold.
fn plan(s: &mut Src, me: usize, batches: &mut i64, takes: bool, mostly_ddl: bool) -> Vec<Op> {
    let mut own: BTreeMap<String, Vec<i64>> = BTreeMap::new();
    let (mut fresh, mut mine, mut out) = (0, vec![], vec![]);
    for _ in 0..s.urange(4, 14) {
        let name = (!own.is_empty()).then(|| s.pick(&own.keys().cloned().collect::<Vec<_>>()).clone());
        let kind = if mostly_ddl && s.chance(4, 5) { *s.pick(&[0, 1, 2, 7, 8]) } else { s.below(14) };
        match (kind, name) {
            (0, _) | (3..=8, None) => {
                fresh += 1;
                let t = format!("c{me}_{fresh}");
                if s.chance(1, 3) {
                    let n = s.urange(1, 4) as i64;
                    out.push(Op::Write(format!("CREATE TABLE {t} AS SELECT * FROM (VALUES {}) AS v(n)", (0..n).map(|x| format!("({x})")).collect::<Vec<_>>().join(", "))));
                    own.insert(t, (0..n).collect());
                } else {
                    out.push(Op::Write(format!("CREATE TABLE {t} (n BIGINT)")));
                    own.insert(t, vec![]);
                }
            }
            (1, _) => {
                let k = s.below(3);
                out.push(Op::Once(match s.below(2) {
                    0 => format!("CREATE TABLE once_{k} (n BIGINT)"),
                    _ => format!("CREATE SCHEMA once_{k}"),
                }));
            }
            (2, Some(t)) => {
                out.push(Op::Write(format!("DROP TABLE {t}")));
                own.remove(&t);
            }
            (3 | 4, Some(t)) => {
                let n = s.urange(1, 5) as i64;
                let rs = own.get_mut(&t).unwrap();
                let k = s.below(100) as i64;
                out.push(Op::Write(format!("INSERT INTO {t} VALUES {}", (0..n).map(|x| format!("({})", k + x)).collect::<Vec<_>>().join(", "))));
                rs.extend((0..n).map(|x| k + x));
            }
            (5, Some(t)) => {
                let k = s.below(100) as i64;
                out.push(Op::Write(format!("DELETE FROM {t} WHERE n < {k}")));
                own.get_mut(&t).unwrap().retain(|x| *x >= k);
            }
            (6, Some(t)) => {
                let k = s.below(100) as i64;
                out.push(Op::Write(format!("UPDATE {t} SET n = n + 1000 WHERE n < {k}")));
                own.get_mut(&t).unwrap().iter_mut().filter(|x| **x < k).for_each(|x| *x += 1000);
            }
            (7, Some(t)) => {
                fresh += 1;
                let u = format!("c{me}_{fresh}");
                out.push(Op::Write(format!("ALTER TABLE {t} RENAME TO {u}")));
                let rs = own.remove(&t).unwrap();
                own.insert(u, rs);
            }
            (8, Some(t)) => out.push(Op::Read(format!("SELECT n FROM {t}"), own[&t].clone())),
            (9 | 10, _) => {
                *batches += 1;
                mine.push(*batches);
                out.push(Op::Add(*batches, s.urange(1, 4)));
            }
            (11, _) if takes && !mine.is_empty() => {
                let k = s.usize(mine.len());
                out.push(Op::Take(mine.swap_remove(k)));
            }
            _ => out.push(Op::All),
        }
    }
    for (t, rs) in own {
        out.push(Op::Read(format!("SELECT n FROM {t}"), rs));
    }
    out
}

/// How a client's statements get to the server.
enum Front {
    Own(Arc<SeafowlContext>),
    Http(Arc<SeafowlContext>, HttpFrontend),
    Flight(FlightServiceClient<tonic::transport::Channel>),
}

impl Front {
    async fn run(&mut self, sql: &str) -> Result<Vec<Row>, String> {
        match self {
            Front::Own(cx) => select(cx, sql).await,
            Front::Http(cx, conf) => {
                let r = http::send(cx, conf, &http::post(None, sql)).await;
                if r.status != 200 {
                    return Err(r.text());
                }
                let names: Vec<&str> = if sql.starts_with("SELECT k, i") { vec!["k", "i"] } else { vec!["n"] };
                let mut out = vec![];
                for l in String::from_utf8_lossy(&r.body).lines() {
                    let v: serde_json::Value = serde_json::from_str(l).map_err(|e| format!("{l}: {e}"))?;
                    out.push(names.iter().map(|n| v[n].as_i64().map(V::I).ok_or(format!("{l} has no {n}"))).collect::<Result<Row, _>>()?);
                }
                Ok(out)
            }
            Front::Flight(c) => {
                let cmd = CommandStatementQuery { query: sql.into(), transaction_id: None };
                let d = FlightDescriptor::new_cmd(cmd.as_any().encode_to_vec());
                let i = c.get_flight_info(d).await.map_err(|e| short(&e.to_string()))?.into_inner();
                let t = i.endpoint[0].ticket.clone().ok_or("no ticket")?;
                let s = c.do_get(t).await.map_err(|e| short(&e.to_string()))?.into_inner();
                let b: Vec<_> = FlightRecordBatchStream::new_from_flight_data(s.map_err(FlightError::Tonic)).try_collect().await.map_err(|e| short(&e.to_string()))?;
                rows(&b)
            }
        }
    }
}

/// An address of the loopback network nobody else in this process uses.
fn address() -> FlightFrontend {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let pid = std::process::id();
    FlightFrontend { bind_host: format!("127.{}.{}.{}", 1 + pid % 250, (n >> 8) & 255, n & 255), bind_port: 30_000 + (pid / 250 % 10_000) as u16 }
}

#[derive(Default)]
struct Shared {
    /// inserted rows by batch, as far as the statement is over
    added: BTreeMap<i64, usize>,
    /// batches whose removal has begun, and those whose removal is over
    going: BTreeSet<i64>,
    gone: BTreeSet<i64>,
    once: BTreeMap<String, u32>,
}

/// The batches there, each with all of its rows.
fn whole(rs: &[Row], sizes: &BTreeMap<i64, usize>) -> Result<BTreeSet<i64>, Fail> {
    let mut n: BTreeMap<i64, Vec<i64>> = BTreeMap::new();
    for r in rs {
        match (&r[0], &r[1]) {
            (V::I(a), V::I(b)) => n.entry(*a).or_default().push(*b),
            _ => fail!("row of nobody", "{r:?}"),
        }
    }
    for (k, mut v) in n.clone() {
        v.sort();
        let want: Vec<i64> = (0..*sizes.get(&k).unwrap_or(&0) as i64).collect();
        ensure_eq!(v, want, "part of a statement", "rows of batch {k}");
    }
    Ok(n.into_keys().collect())
}

async fn client(mut f: Front, ops: Vec<Op>, sizes: Arc<BTreeMap<i64, usize>>, shared: Arc<Mutex<Shared>>) -> Result<u64, Fail> {
    let mut refused = 0;
    for op in ops {
        match op {
            Op::Write(sql) => {
                f.run(&sql).await.map_err(|e| Fail::new("statement on an own table refused", format!("{sql}: {e}")))?;
            }
            Op::Read(sql, want) => {
                let got = f.run(&sql).await.map_err(|e| Fail::new("statement on an own table refused", format!("{sql}: {e}")))?;
                let want: Vec<Row> = want.into_iter().map(|n| vec![V::I(n)]).collect();
                ensure_eq!(bag(&got), bag(&want), "rows of an own table", "{sql}");
            }
            Op::Once(sql) => {
                if f.run(&sql).await.is_ok() {
                    *shared.lock().unwrap().once.entry(sql).or_default() += 1;
                } else {
                    shared.lock().unwrap().once.entry(sql).or_default();
                }
            }
            Op::Add(k, n) => {
                let sql = format!("INSERT INTO everyone VALUES {}", (0..n).map(|i| format!("({k}, {i})")).collect::<Vec<_>>().join(", "));
                f.run(&sql).await.map_err(|e| Fail::new("insert refused", format!("{sql}: {e}")))?;
                shared.lock().unwrap().added.insert(k, n);
            }
            Op::Take(k) => {
                shared.lock().unwrap().going.insert(k);
                match f.run(&format!("DELETE FROM everyone WHERE k = {k}")).await {
                    Ok(_) => {
                        shared.lock().unwrap().gone.insert(k);
                    }
                    // of two that rewrite the same file one may have to give way
                    Err(_) => {
                        refused += 1;
                        shared.lock().unwrap().going.remove(&k);
                    }
                }
            }
            Op::All => {
                let (must, mustnt) = {
                    let s = shared.lock().unwrap();
                    (s.added.keys().filter(|k| !s.going.contains(k)).copied().collect::<BTreeSet<_>>(), s.gone.clone())
                };
                let rs = f.run("SELECT k, i FROM everyone").await.map_err(|e| Fail::new("query refused", e))?;
                let seen = whole(&rs, &sizes)?;
                let s = shared.lock().unwrap();
                if let Some(k) = must.iter().find(|k| !seen.contains(k) && !s.going.contains(k)) {
                    fail!("rows missed", "batch {k} was inserted before the query was sent; it finds {seen:?}");
                }
                if let Some(k) = mustnt.iter().find(|k| seen.contains(k)) {
                    fail!("rows that are gone", "batch {k} was deleted before the query was sent");
                }
            }
        }
    }
    Ok(refused)
}

fn crowd(s: &mut Src, ctx: &mut Ctx, takes: bool, mostly_ddl: bool) -> Res {
    let dir = scratch();
    let mut batches = 0;
    let plans: Vec<Vec<Op>> = (0..if mostly_ddl { s.urange(4, 8) } else { s.urange(2, 5) }).map(|i| plan(s, i, &mut batches, takes, mostly_ddl)).collect();
    let fronts: Vec<u64> = plans.iter().map(|_| s.below(3)).collect();
    let local_store = s.bool();
    let sizes: BTreeMap<i64, usize> = plans.iter().flatten().filter_map(|o| if let Op::Add(k, n) = o { Some((*k, *n)) } else { None }).collect();
    ctx.describe(plans.iter().map(|p| p.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("\n  ")).collect::<Vec<_>>().join("\n"));
    if plans.iter().filter(|p| p.iter().any(|o| matches!(o, Op::Write(_) | Op::Add(..)))).count() > 1 {
        ctx.nontrivial(&plans);
    }
    ctx.label(if local_store { "local" } else { "memory" });
    for (k, name) in ["own context", "http", "flight"].into_iter().enumerate() {
        if fronts.contains(&(k as u64)) {
            ctx.label(name);
        }
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let here = dir.path().to_path_buf();
    let r = rt.block_on(async move {
        let cx = Arc::new(if local_store { local(&here, 4).await } else { memory(4).await });
        let open = HttpFrontend { read_access: AccessSettings::Any, write_access: AccessSettings::Any, ..Default::default() };
        run(&cx, "CREATE TABLE everyone (k BIGINT, i BIGINT)").await.expect("a table");
        let (shared, sizes) = (Arc::new(Mutex::new(Shared::default())), Arc::new(sizes));
        let mut all = vec![];
        let a = address();
        if fronts.contains(&2) {
            let (here, at) = (cx.clone(), a.clone());
            tokio::spawn(async move { run_flight_server(here, at, std::future::pending()).await });
        }
        for (p, f) in plans.into_iter().zip(fronts) {
            let c = match f {
                0 => Front::Own(cx.scope_to_schema("public".into())),
                1 => Front::Http(cx.clone(), open.clone()),
                _ => {
                    let e = tonic::transport::Endpoint::from_shared(format!("http://{}:{}", a.bind_host, a.bind_port)).unwrap();
                    let mut tries = 0;
                    let c = loop {
                        match e.connect().await {
                            Ok(c) => break c,
                            Err(e) if tries > 5000 => fail!("no server", "{e}"),
                            Err(_) => tokio::time::sleep(std::time::Duration::from_millis(1)).await,
                        }
                        tries += 1;
                    };
                    Front::Flight(FlightServiceClient::new(c))
                }
            };
            all.push(tokio::spawn(client(c, p, sizes.clone(), shared.clone())));
        }
        let mut refused = 0;
        for t in all {
            refused += t.await.map_err(|e| Fail::new("client ended", e.to_string()))??;
        }
        let s = shared.lock().unwrap();
        for (sql, n) in &s.once {
            ensure_eq!(*n, 1, "done more or less than once", "{sql}");
        }
        let want: BTreeSet<i64> = s.added.keys().filter(|k| !s.gone.contains(k)).copied().collect();
        let versions = 1 + s.added.len() + s.gone.len();
        drop(s);
        let rs = select(&cx, "SELECT k, i FROM everyone").await.map_err(|e| Fail::new("query refused", e))?;
        ensure_eq!(whole(&rs, &sizes)?, want, "batches in the end", "");
        let vs = select(&cx, "SELECT version FROM system.table_versions WHERE table_name = 'everyone'").await.map_err(|e| Fail::new("query refused", e))?;
        ensure_eq!(vs.iter().map(|r| format!("{r:?}")).collect::<BTreeSet<_>>().len(), vs.len(), "a version twice", "{vs:?}");
        ensure_eq!(vs.len(), versions, "versions listed", "{vs:?}");
        Ok(refused)
    });
    rt.shutdown_background();
    if r? > 0 {
        ctx.label("a delete gave way");
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C32",
        rule: "non-trivial: at least two clients write. Distinct by the clients' statements.",
        assumptions: &[
            "the schedule of the threads is the operating system's, so a failure may not replay",
            "of deletes that rewrite the same files all but one may be refused, without effect",
            "deltalake is a stand-in with the conflict rules of the Delta protocol for appends and for removes of the same file",
        ],
        legs: vec![leg("inserts", 150, 6_000, |s, c| crowd(s, c, false, false)), leg("deletes", 100, 4_000, |s, c| crowd(s, c, true, false)), leg("tables", 200, 8_000, |s, c| crowd(s, c, false, true))],
    })
}
