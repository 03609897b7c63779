//! C30: the Flight SQL frontend: results, tickets, sync messages and whatever else is sent to it.
use arrow::array::*;
use arrow::datatypes::*;
use arrow::record_batch::RecordBatch;
use arrow_flight::decode::FlightRecordBatchStream;
use arrow_flight::encode::FlightDataEncoderBuilder;
use arrow_flight::error::FlightError;
use arrow_flight::flight_service_client::FlightServiceClient;
use arrow_flight::sql::{
    ActionBeginTransactionRequest, ActionClosePreparedStatementRequest, ActionCreatePreparedStatementRequest, Any, CommandGetCatalogs,
    CommandGetDbSchemas, CommandGetSqlInfo, CommandGetTableTypes, CommandGetTables, CommandGetXdbcTypeInfo, CommandPreparedStatementQuery,
    CommandStatementQuery, CommandStatementUpdate, ProstMessageExt, TicketStatementQuery,
};
use arrow_flight::{Action, Criteria, FlightDescriptor, FlightInfo, HandshakeRequest, Ticket};
use checks_full::env::*;
use checks_full::sqlmodel::{bag, fits, id, Col, Row, E, P, T, TYPES, V};
use clade::schema::{InlineMetastoreCommandStatementQuery, ListSchemaResponse, SchemaObject, TableObject};
use clade::sync::{ColumnDescriptor, ColumnRole, DataSyncCommand, DataSyncResponse};
use deltalake::DeltaTable;
use futures::{StreamExt, TryStreamExt};
use object_store_factory::ObjectStoreConfig;
use pbt::*;
use prost::Message;
use seafowl_full::config::context::build_context;
use seafowl_full::config::schema::{FlightFrontend, SeafowlConfig};
use seafowl_full::context::SeafowlContext;
use seafowl_full::frontend::flight::run_flight_server;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tonic::transport::{Channel, Endpoint};
use tonic::{Code, Request, Status};

type Client = FlightServiceClient<Channel>;

/// An address of the loopback network nobody else in this process uses.
fn address() -> FlightFrontend {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let pid = std::process::id();
    FlightFrontend {
        bind_host: format!("127.{}.{}.{}", 1 + pid % 250, (n >> 8) & 255, n & 255),
        bind_port: 20_000 + (pid / 250 % 10_000) as u16,
    }
}

async fn connect(a: &FlightFrontend) -> Result<Client, Fail> {
    let e = Endpoint::from_shared(format!("http://{}:{}", a.bind_host, a.bind_port)).unwrap().connect_timeout(Duration::from_secs(20));
    for _ in 0..2000 {
        if let Ok(c) = e.connect().await {
            return Ok(FlightServiceClient::new(c).max_decoding_message_size(64 << 20));
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    Err(Fail::new("no server", "the server takes no connections"))
}

/// Runs a case with its own runtime and server.
fn serve<F: Future<Output = Res>>(conf: SeafowlConfig, f: impl FnOnce(Arc<SeafowlContext>, FlightFrontend) -> F) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(async {
        let cx = Arc::new(build_context(conf).await.expect("a context"));
        let a = address();
        tokio::select! {
            _ = run_flight_server(cx.clone(), a.clone(), std::future::pending()) => Err(Fail::new("server ended", "the server stopped")),
            r = f(cx.clone(), a.clone()) => r,
        }
    });
    rt.shutdown_background();
    r
}

/// Did the server drop the connection instead of answering?
fn dropped(e: &Status) -> bool {
    let m = e.message();
    std::error::Error::source(e).is_some() || ["transport error", "h2 protocol error", "error reading a body", "broken pipe", "connection closed"].iter().any(|x| m.contains(x))
}

fn answered(e: &Status, what: &str) -> Result<(), Fail> {
    ensure!(!dropped(e), "connection dropped", "{what}: the server drops the connection: {}", short(&format!("{e:?}")));
    Ok(())
}

fn say(e: &Status) -> String {
    short(&format!("{:?}: {}", e.code(), e.message()))
}

fn descriptor(m: &Any) -> FlightDescriptor {
    FlightDescriptor::new_cmd(m.encode_to_vec())
}

fn ask_for(sql: &str, path: Option<&str>) -> Request<FlightDescriptor> {
    let cmd = CommandStatementQuery { query: sql.into(), transaction_id: None };
    let mut r = Request::new(descriptor(&cmd.as_any()));
    if let Some(p) = path {
        r.metadata_mut().insert("search-path", p.parse().unwrap());
    }
    r
}

fn one_ticket(i: &FlightInfo, what: &str) -> Result<Ticket, Fail> {
    ensure_eq!(i.endpoint.len(), 1, "endpoints", "{what}");
    i.endpoint[0].ticket.clone().ok_or_else(|| Fail::new("no ticket", what))
}

/// The schema and rows a ticket stands for.
async fn redeem(c: &mut Client, t: Ticket) -> Result<(Option<SchemaRef>, Vec<RecordBatch>), Status> {
    let back = |e: FlightError| match e {
        FlightError::Tonic(s) => s,
        e => Status::internal(e.to_string()),
    };
    let stream = c.do_get(t).await?.into_inner();
    let mut s = FlightRecordBatchStream::new_from_flight_data(stream.map_err(FlightError::Tonic));
    let mut out = vec![];
    while let Some(b) = s.next().await {
        out.push(b.map_err(back)?);
    }
    Ok((s.schema().cloned(), out))
}

fn shape(s: &Schema) -> Vec<(String, DataType)> {
    s.fields()
        .iter()
        .map(|f| {
            // the encoder sends the values themselves
            let t = match f.data_type() {
                DataType::Dictionary(_, v) => v.as_ref().clone(),
                t => t.clone(),
            };
            (f.name().clone(), t)
        })
        .collect()
}

struct Tbl {
    schema: &'static str,
    name: &'static str,
    cols: Vec<Col>,
    rows: Vec<Row>,
}

impl Tbl {
    fn id(&self, path: Option<&str>) -> String {
        match path {
            Some(p) if p == self.schema => id(self.name),
            None if self.schema == "public" => id(self.name),
            _ => format!("{}.{}", id(self.schema), id(self.name)),
        }
    }
}

#[derive(Debug)]
enum Want {
    Rows(Vec<String>),
    /// rows in this order
    Listed(Vec<Vec<String>>),
    /// whichever rows; this many
    Count(usize),
    Failure,
    Nothing,
}

struct Open {
    sql: String,
    ticket: Ticket,
    schema: Schema,
    want: Want,
    read: bool,
}

fn literal(r: &Row) -> String {
    format!("({})", r.iter().map(V::sql).collect::<Vec<_>>().join(", "))
}

/// A query of the table and what it has to give.
fn query(s: &mut Src, t: &Tbl, path: Option<&str>) -> (String, Want) {
    let name = t.id(path);
    let keep = |p: &P, r: &Row| p.eval(r) == Some(true);
    match s.below(12) {
        0..=3 => {
            let p = P::gen(s, &t.cols, 2);
            let rows: Vec<Row> = t.rows.iter().filter(|r| keep(&p, r)).cloned().collect();
            (format!("SELECT * FROM {name} WHERE {}", p.sql("")), Want::Rows(bag(&rows)))
        }
        4 | 5 => {
            let n = s.urange(1, 3);
            let es: Vec<E> = (0..n)
                .map(|_| {
                    let ty = *s.pick(&[T::Big, T::Text, T::Double, T::Date]);
                    E::gen(s, &t.cols, ty, 2)
                })
                .collect();
            let rows: Vec<Row> = t.rows.iter().map(|r| es.iter().map(|e| e.eval(r)).collect()).collect();
            let list: Vec<String> = es.iter().enumerate().map(|(i, e)| format!("{} AS e{i}", e.sql(""))).collect();
            (format!("SELECT {} FROM {name}", list.join(", ")), Want::Rows(bag(&rows)))
        }
        6 => {
            let p = P::gen(s, &t.cols, 1);
            let n = t.rows.iter().filter(|r| keep(&p, r)).count();
            (format!("SELECT count(*) AS n FROM {name} WHERE {}", p.sql("")), Want::Rows(vec![V::I(n as i64).key()]))
        }
        7 => {
            // fails at a row, perhaps
            let k = s.range(-3, 12);
            let i = t.cols.iter().position(|c| c.ty.num());
            match i {
                Some(i) => {
                    let bad = t.rows.iter().any(|r| r[i] == V::I(k));
                    let rows: Vec<Row> = t
                        .rows
                        .iter()
                        .filter_map(|r| match &r[i] {
                            V::I(v) if *v != k => Some(vec![V::I(100 / (v - k))]),
                            V::Null => Some(vec![V::Null]),
                            _ => None,
                        })
                        .collect();
                    (format!("SELECT 100 / ({} - ({k})) AS q FROM {name}", id(&t.cols[i].name)), if bad { Want::Failure } else { Want::Rows(bag(&rows)) })
                }
                None => (format!("SELECT 1 AS one FROM {name} WHERE false"), Want::Rows(vec![])),
            }
        }
        8 => {
            // large
            let n = s.urange(1, 6) * 700;
            let w = *s.pick(&[1usize, 50, 1200]);
            let rows: Vec<Vec<String>> = (0..n as i64).map(|i| vec![V::I(i).key(), V::S("x".repeat(w)).key()]).collect();
            (format!("SELECT i, repeat('x', {w}) AS x FROM (SELECT unnest(range(0, {n})) AS i) ORDER BY i"), Want::Listed(rows))
        }
        9 => {
            let n = s.urange(0, 3);
            (format!("SELECT * FROM {name} LIMIT {n}"), Want::Count(n.min(t.rows.len())))
        }
        10 => {
            let w = *s.pick(&["a", "", "é"]);
            (
                format!("SELECT arrow_cast('{w}', 'Dictionary(Int32, Utf8)') AS d, arrow_cast('{w}', 'LargeUtf8') AS l, arrow_cast('{w}', 'Utf8View') AS v"),
                Want::Rows(vec![vec![V::S(w.into()).key(); 3].join(", ")]),
            )
        }
        _ => (format!("SELECT 'ü' AS \"two words\", count(*) AS \"N\" FROM {name}"), Want::Rows(vec![format!("{}, {}", V::S("ü".into()).key(), V::I(t.rows.len() as i64).key())])),
    }
}

fn matches(o: &Open, got: Result<(Option<SchemaRef>, Vec<RecordBatch>), Status>) -> Res {
    let sql = &o.sql;
    match (&o.want, got) {
        (Want::Failure, Err(e)) => answered(&e, sql),
        (Want::Failure, Ok(_)) => Err(Fail::new("failure passed off as a result", format!("{sql} must fail, yet its stream ends as if it hadn't"))),
        (_, Err(e)) => {
            answered(&e, sql)?;
            Err(Fail::new("ticket not honoured", format!("{sql}: {}", say(&e))))
        }
        (want, Ok((schema, batches))) => {
            let sent = schema.map(|s| shape(&s)).unwrap_or_default();
            ensure_eq!(shape(&o.schema), sent, "schema", "of {sql}: announced and sent");
            for b in &batches {
                ensure_eq!(shape(&b.schema()), sent, "schema", "of {sql}: a batch's own");
            }
            let got = rows(&batches).map_err(|e| Fail::new("type of a column", format!("{sql}: {e}")))?;
            match want {
                Want::Rows(want) => ensure_eq!(&bag(&got), want, "rows", "{sql}"),
                Want::Listed(want) => {
                    let got: Vec<Vec<String>> = got.iter().map(|r| r.iter().map(V::key).collect()).collect();
                    ensure_eq!(got.len(), want.len(), "rows", "number of rows of {sql}");
                    for (i, (a, b)) in got.iter().zip(want).enumerate() {
                        ensure!(a == b, "rows", "{sql}: row {i} is {}", short(&format!("{a:?}")));
                    }
                }
                Want::Count(n) => ensure_eq!(got.len(), *n, "rows", "number of rows of {sql}"),
                _ => ensure_eq!(got.len(), 0, "rows", "{sql}"),
            }
            Ok(())
        }
    }
}

fn statements(s: &mut Src, ctx: &mut Ctx) -> Res {
    let part = *s.pick(&[1000, 2, 3]);
    let conf = config(ObjectStoreConfig::Memory, "sqlite://:memory:".into(), part);
    let mut trail: Vec<String> = vec![];
    let mut redeemed = 0;
    let r = serve(conf, |_cx, a| {
        let (trail, redeemed, ctx) = (&mut trail, &mut redeemed, &mut *ctx);
        async move {
            let mut c = connect(&a).await?;
            let mut other = connect(&a).await?;
            let schemas = ["public", "one", "Two"];
            let mut tables: Vec<Tbl> = vec![];
            for sc in &schemas[1..] {
                say_done(&mut c, &format!("CREATE SCHEMA {}", id(sc)), None).await?;
            }
            for sc in schemas {
                for name in ["t", "Mixed u"] {
                    if sc != "public" && s.chance(1, 3) {
                        continue;
                    }
                    let n = s.urange(1, 4);
                    let cols: Vec<Col> = (0..n).map(|i| Col { name: ["a", "B", "c d", "é"][i].into(), ty: *s.pick(&TYPES), nn: false }).collect();
                    let t = Tbl { schema: sc, name, cols, rows: vec![] };
                    let defs: Vec<String> = t.cols.iter().map(|c| format!("{} {}", id(&c.name), c.ty.sql())).collect();
                    let sql = format!("CREATE TABLE {} ({})", t.id(None), defs.join(", "));
                    trail.push(sql.clone());
                    say_done(&mut c, &sql, None).await?;
                    tables.push(t);
                }
            }
            let mut open: Vec<Open> = vec![];
            let mut spent: Vec<Ticket> = vec![];
            let steps = s.urange(5, 25);
            for _ in 0..steps {
                let i = s.usize(tables.len());
                let path = if s.chance(1, 3) { Some(*s.pick(&schemas)) } else { None };
                let cl = if s.chance(1, 3) { &mut other } else { &mut c };
                match s.below(12) {
                    0..=3 => {
                        let (sql, want) = query(s, &tables[i], path);
                        trail.push(format!("ask {path:?} {sql}"));
                        let f = ask(cl, &sql, path, want, true).await?;
                        open.extend(f);
                    }
                    4..=6 => {
                        // a write
                        let t = &mut tables[i];
                        let name = t.id(path);
                        let (sql, rows) = match s.below(6) {
                            0..=3 => {
                                let n = s.urange(1, 5);
                                let new: Vec<Row> = (0..n).map(|_| t.cols.iter().map(|c| c.ty.maybe(s)).collect::<Row>()).filter(|r| fits(r, &t.cols)).collect();
                                if new.is_empty() {
                                    continue;
                                }
                                let sql = format!("INSERT INTO {name} VALUES {}", new.iter().map(literal).collect::<Vec<_>>().join(", "));
                                let mut rows = t.rows.clone();
                                rows.extend(new);
                                (sql, rows)
                            }
                            4 => {
                                let p = P::gen(s, &t.cols, 1);
                                (format!("DELETE FROM {name} WHERE {}", p.sql("")), t.rows.iter().filter(|r| p.eval(r) != Some(true)).cloned().collect())
                            }
                            _ => {
                                let p = P::gen(s, &t.cols, 1);
                                let k = s.usize(t.cols.len());
                                let v = t.cols[k].ty.value(s);
                                let rows = t
                                    .rows
                                    .iter()
                                    .map(|r| {
                                        let mut r = r.clone();
                                        if p.eval(&r) == Some(true) {
                                            r[k] = v.clone();
                                        }
                                        r
                                    })
                                    .collect();
                                (format!("UPDATE {name} SET {} = {} WHERE {}", id(&t.cols[k].name), v.sql(), p.sql("")), rows)
                            }
                        };
                        trail.push(format!("write {path:?} {sql}"));
                        let o = ask(cl, &sql, path, Want::Nothing, false).await?;
                        t.rows = rows;
                        ctx.label("write");
                        // its ticket may never be redeemed
                        if s.bool() {
                            open.extend(o);
                        }
                    }
                    7 => {
                        // wrong
                        let t = &tables[i];
                        let name = t.id(path);
                        let sql = match s.below(7) {
                            0 => "SELECT * FROM nowhere".to_string(),
                            1 => format!("SELEC * FROM {name}"),
                            2 => format!("INSERT INTO {name} VALUES (1, 2, 3, 4, 5, 6)"),
                            3 => format!("CREATE TABLE {name} (x BIGINT)"),
                            4 => format!("UPDATE {name} SET nothing = 1"),
                            5 => String::new(),
                            _ => format!("SELECT * FROM {name}; SELECT 1"),
                        };
                        trail.push(format!("wrong {path:?} {sql}"));
                        match cl.get_flight_info(ask_for(&sql, path)).await {
                            Ok(_) => return Err(Fail::new("wrong statement taken", sql)),
                            Err(e) => answered(&e, &sql)?,
                        }
                        ctx.label("wrong statement");
                    }
                    8 | 9 if !open.is_empty() => {
                        let o = open.swap_remove(s.usize(open.len()));
                        trail.push(format!("fetch {}", o.sql));
                        let got = redeem(cl, o.ticket.clone()).await;
                        matches(&o, got)?;
                        *redeemed += o.read as usize;
                        spent.push(o.ticket);
                    }
                    10 if !open.is_empty() => {
                        // several at once
                        let k = s.urange(1, 4).min(open.len());
                        s.shuffle(&mut open);
                        let some = open.split_off(open.len() - k);
                        trail.push(format!("fetch at once {:?}", some.iter().map(|o| &o.sql).collect::<Vec<_>>()));
                        let got = futures::future::join_all(some.iter().enumerate().map(|(i, o)| {
                            let mut cl = if i % 2 == 0 { c.clone() } else { other.clone() };
                            let t = o.ticket.clone();
                            async move { redeem(&mut cl, t).await }
                        }))
                        .await;
                        for (o, g) in some.into_iter().zip(got) {
                            matches(&o, g)?;
                            *redeemed += o.read as usize;
                            spent.push(o.ticket);
                        }
                        ctx.label("fetched at once");
                    }
                    _ => {
                        let (t, what) = match spent.is_empty() || s.bool() {
                            true => {
                                let h: Vec<u8> = match s.below(3) {
                                    0 => vec![],
                                    // (tonic garbles messages with a percent sign)
                                    1 => (0..s.usize(40)).map(|_| s.below(256) as u8).filter(|b| *b != b'%').collect(),
                                    _ => b"6f0b6c0e-0b56-4b59-a6a5-2f4e8f4cf1f7".to_vec(),
                                };
                                (Ticket::new(TicketStatementQuery { statement_handle: h.into() }.as_any().encode_to_vec()), "a ticket nobody was given")
                            }
                            false => (s.pick(&spent).clone(), "a ticket already fetched"),
                        };
                        trail.push(what.into());
                        match redeem(cl, t).await {
                            Ok((_, b)) => return Err(Fail::new("ticket good twice", format!("{what} gives {} batches", b.len()))),
                            Err(e) => {
                                answered(&e, what)?;
                                ensure_eq!(e.code(), Code::NotFound, "code for a bad ticket", "{what}: {}", say(&e));
                            }
                        }
                        ctx.label(what);
                    }
                }
            }
            s.shuffle(&mut open);
            for o in open {
                let got = redeem(&mut c, o.ticket.clone()).await;
                trail.push(format!("fetch {}", o.sql));
                matches(&o, got)?;
                *redeemed += o.read as usize;
            }
            // and all of the writes, and nothing else, happened
            for t in &tables {
                let sql = format!("SELECT * FROM {}", t.id(None));
                for o in ask(&mut c, &sql, None, Want::Rows(bag(&t.rows)), true).await? {
                    let got = redeem(&mut c, o.ticket.clone()).await;
                    matches(&o, got)?;
                }
            }
            Ok(())
        }
    });
    if redeemed > 1 {
        ctx.nontrivial(&trail);
    }
    ctx.describe(trail.join("\n"));
    r
}

async fn ask(c: &mut Client, sql: &str, path: Option<&str>, want: Want, read: bool) -> Result<Option<Open>, Fail> {
    match c.get_flight_info(ask_for(sql, path)).await {
        Ok(i) => {
            let i = i.into_inner();
            let ticket = one_ticket(&i, sql)?;
            let schema = i.try_decode_schema().map_err(|e| Fail::new("schema", format!("of {sql}: {e}")))?;
            Ok(Some(Open { sql: sql.into(), ticket, schema, want, read }))
        }
        Err(e) => {
            answered(&e, sql)?;
            // it may as well fail at once
            ensure!(matches!(want, Want::Failure), "statement refused", "{sql}: {}", say(&e));
            Ok(None)
        }
    }
}

/// A statement to its end.
async fn say_done(c: &mut Client, sql: &str, path: Option<&str>) -> Res {
    for o in ask(c, sql, path, Want::Nothing, false).await? {
        let got = redeem(c, o.ticket.clone()).await;
        matches(&o, got)?;
    }
    Ok(())
}

/// The tables that statements sent along with their own catalog see.
fn inline(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = scratch();
    std::fs::create_dir_all(dir.path().join("data")).unwrap();
    let store = ObjectStoreConfig::Local(object_store_factory::local::LocalConfig {
        data_dir: dir.path().join("data").to_str().unwrap().to_string(),
        disable_hardlinks: false,
    });
    let conf = config(store, "sqlite://:memory:".into(), 1000);
    let mut trail: Vec<String> = vec![];
    let r = serve(conf, |cx, a| {
        let (trail, ctx, dir) = (&mut trail, &mut *ctx, dir.path());
        async move {
            let mut c = connect(&a).await?;
            // tables and where they are
            let mut tables: Vec<(String, Vec<Row>)> = vec![];
            for i in 0..s.urange(2, 4) {
                let n = s.usize(4);
                let rs: Vec<Row> = (0..n).map(|k| vec![V::I((i * 100 + k) as i64), T::Text.maybe(s)]).collect();
                run(&cx, &format!("CREATE TABLE t{i} (n BIGINT, s TEXT)")).await.expect("a table");
                if !rs.is_empty() {
                    run(&cx, &format!("INSERT INTO t{i} VALUES {}", rs.iter().map(literal).collect::<Vec<_>>().join(", "))).await.expect("rows");
                }
                let t = cx.try_get_delta_table(format!("t{i}")).await.expect("the table");
                let uri = t.log_store().root_uri();
                tables.push((uri.trim_end_matches('/').rsplit('/').next().unwrap().to_string(), rs));
            }
            let own = run(&cx, "SELECT * FROM t0").await.map(|b| bag(&rows(&b).unwrap())).expect("rows of t0");
            for _ in 0..s.urange(2, 8) {
                // what the statement's catalog says
                let mut seen: BTreeMap<(String, String), usize> = BTreeMap::new();
                let mut objects: BTreeMap<String, Vec<TableObject>> = BTreeMap::new();
                let mut stores: BTreeSet<String> = BTreeSet::new();
                for _ in 0..s.urange(1, 5) {
                    let (sc, name) = (s.pick(&["public", "one", "Two"]).to_string(), s.pick(&["t0", "t1", "Mixed u", "v"]).to_string());
                    if seen.contains_key(&(sc.clone(), name.clone())) {
                        continue;
                    }
                    let k = s.usize(tables.len());
                    let (path, store) = match s.below(4) {
                        0 | 1 => (tables[k].0.clone(), None),
                        2 => (tables[k].0.clone(), Some("data")),
                        _ => (format!("data/{}", tables[k].0), Some("above")),
                    };
                    stores.extend(store.map(String::from));
                    objects.entry(sc.clone()).or_default().push(TableObject { name: name.clone(), path, store: store.map(String::from), format: 0 });
                    seen.insert((sc, name), k);
                }
                if s.bool() {
                    stores.insert("above".into());
                }
                let location = |n: &str| match n {
                    "data" => format!("file://{}/data", dir.display()),
                    _ => format!("file://{}", dir.display()),
                };
                let list = ListSchemaResponse {
                    schemas: objects.into_iter().map(|(name, tables)| SchemaObject { name, tables }).collect(),
                    stores: stores
                        .iter()
                        .map(|n| clade::schema::StorageLocation { name: n.clone(), location: location(n), options: Default::default() })
                        .collect(),
                };
                let path = if s.chance(1, 3) { Some(*s.pick(&["public", "one", "Two"])) } else { None };
                let (sc, name) = if s.chance(4, 5) {
                    s.pick(&seen.keys().cloned().collect::<Vec<_>>()).clone()
                } else {
                    (s.pick(&["public", "one", "Two"]).to_string(), s.pick(&["t0", "t1", "Mixed u", "v", "t9"]).to_string())
                };
                let at = if path.unwrap_or("public") == sc && s.bool() { id(&name) } else { format!("{}.{}", id(&sc), id(&name)) };
                let broken = s.chance(1, 8);
                let sql = match s.below(6) {
                    5 => format!("SELECT table_schema, table_name FROM information_schema.tables WHERE table_schema IN ('public', 'one', 'Two')"),
                    4 => format!("CREATE TABLE {at}_new (x BIGINT)"),
                    _ => format!("SELECT * FROM {at}"),
                };
                let mut list = list;
                if broken {
                    if let Some(t) = list.schemas.first_mut().and_then(|s| s.tables.first_mut()) {
                        match s.below(3) {
                            0 => t.store = Some("no such store".into()),
                            1 => t.format = 77,
                            _ => t.store = Some("bad".into()),
                        }
                        list.stores.push(clade::schema::StorageLocation { name: "bad".into(), location: s.pick(&["", "nothing", "file://", "s3://", "://"]).to_string(), options: Default::default() });
                    }
                }
                trail.push(format!("{path:?} {sql} with {list:?}"));
                let cmd = InlineMetastoreCommandStatementQuery { query: sql.clone(), schemas: Some(list) };
                let mut req = Request::new(descriptor(&Any { type_url: "type.googleapis.com/clade.schema.InlineMetastoreCommandStatementQuery".into(), value: cmd.encode_to_vec().into() }));
                if let Some(p) = path {
                    req.metadata_mut().insert("search-path", p.parse().unwrap());
                }
                let want = match () {
                    _ if broken => None,
                    _ if sql.starts_with("CREATE") => None,
                    _ if sql.contains("information_schema") => {
                        Some(bag(&seen.keys().map(|(a, b)| vec![V::S(a.clone()), V::S(b.clone())]).collect::<Vec<Row>>()))
                    }
                    _ => seen.get(&(sc, name)).map(|k| bag(&tables[*k].1)),
                };
                let got = match c.get_flight_info(req).await {
                    Ok(i) => {
                        let t = one_ticket(&i.into_inner(), &sql)?;
                        redeem(&mut c, t).await
                    }
                    Err(e) => Err(e),
                };
                match (want, got) {
                    (None, Err(e)) => {
                        answered(&e, &sql)?;
                        ctx.label("refused");
                    }
                    (None, Ok(_)) if broken => ctx.label("broken catalog, yet an answer"),
                    (None, Ok(_)) => return Err(Fail::new("statement taken", format!("{sql} has no table to work on"))),
                    (Some(_), Err(e)) => {
                        answered(&e, &sql)?;
                        return Err(Fail::new("statement refused", format!("{sql}: {}", say(&e))));
                    }
                    (Some(w), Ok((_, b))) => {
                        ensure_eq!(bag(&rows(&b).map_err(|e| Fail::new("type of a column", e))?), w, "rows", "{sql}");
                        ctx.label("answered");
                        ctx.nontrivial(&trail);
                    }
                }
                // the server's own tables are still what they were
                let o = ask(&mut c, "SELECT * FROM t0", None, Want::Rows(own.clone()), true).await?;
                for o in o {
                    let got = redeem(&mut c, o.ticket.clone()).await;
                    matches(&o, got)?;
                }
            }
            Ok(())
        }
    });
    ctx.describe(trail.join("\n"));
    r
}

type Put = Result<DataSyncResponse, Status>;

/// statements with and without catalogs of their own, at the same time
fn crowd(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = scratch();
    std::fs::create_dir_all(dir.path().join("data")).unwrap();
    let store = ObjectStoreConfig::Local(object_store_factory::local::LocalConfig {
        data_dir: dir.path().join("data").to_str().unwrap().to_string(),
        disable_hardlinks: false,
    });
    let conf = config(store, "sqlite://:memory:".into(), 1000);
    let n = s.urange(2, 4);
    // each client's requests: its catalog's table t and the server's, or the server's own
    let clients: Vec<Vec<(Option<usize>, bool)>> = (0..s.urange(2, 5))
        .map(|_| (0..s.urange(3, 12)).map(|_| (if s.chance(3, 4) { Some(s.usize(n)) } else { None }, s.chance(1, 6))).collect())
        .collect();
    ctx.describe(format!("{n} tables; each client asks for t in {clients:?}"));
    if clients.iter().flatten().any(|x| x.0.is_some()) {
        ctx.nontrivial(&clients);
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let r = rt.block_on(async move {
        let cx = Arc::new(build_context(conf).await.expect("a context"));
        let a = address();
        let (here, at) = (cx.clone(), a.clone());
        tokio::spawn(async move { run_flight_server(here, at, std::future::pending()).await });
        let mut places = vec![];
        for i in 0..n {
            run(&cx, &format!("CREATE TABLE t{i} (n BIGINT)")).await.expect("a table");
            run(&cx, &format!("INSERT INTO t{i} VALUES ({i})")).await.expect("a row");
            let t = cx.try_get_delta_table(format!("t{i}")).await.expect("the table");
            places.push(t.log_store().root_uri().trim_end_matches('/').rsplit('/').next().unwrap().to_string());
        }
        run(&cx, "CREATE TABLE t (n BIGINT)").await.expect("a table");
        run(&cx, "INSERT INTO t VALUES (-1)").await.expect("a row");
        let mut all = vec![];
        for client in clients {
            let (a, places) = (a.clone(), places.clone());
            all.push(tokio::spawn(async move {
                let mut c = connect(&a).await?;
                for (k, only) in client {
                    let sql = if only { "SELECT * FROM public.only" } else { "SELECT * FROM t" };
                    let req = match k {
                        None => ask_for(sql, None),
                        Some(k) => {
                            let at = |name: &str| TableObject { name: name.into(), path: places[k].clone(), store: None, format: 0 };
                            let list = ListSchemaResponse { schemas: vec![SchemaObject { name: "public".into(), tables: vec![at("t"), at("only")] }], stores: vec![] };
                            let cmd = InlineMetastoreCommandStatementQuery { query: sql.into(), schemas: Some(list) };
                            Request::new(descriptor(&Any { type_url: "type.googleapis.com/clade.schema.InlineMetastoreCommandStatementQuery".into(), value: cmd.encode_to_vec().into() }))
                        }
                    };
                    let got = match c.get_flight_info(req).await {
                        Ok(i) => {
                            let t = one_ticket(&i.into_inner(), sql)?;
                            redeem(&mut c, t).await
                        }
                        Err(e) => Err(e),
                    };
                    let what = || match k {
                        Some(k) => format!("{sql} with a catalog where it is the table of row {k}"),
                        None => format!("{sql} in the server's own catalog"),
                    };
                    match (k, only, got) {
                        (None, true, Err(_)) => {}
                        (None, true, Ok(_)) => fail!("catalog of another statement", "{} is answered", what()),
                        (_, _, Err(e)) => fail!("statement refused in a crowd", "{}: {}", what(), say(&e)),
                        (_, _, Ok((_, b))) => {
                            let want = vec![vec![V::I(k.map_or(-1, |k| k as i64))]];
                            ensure_eq!(rows(&b).map_err(|e| Fail::new("type of a column", e))?, want, "rows in a crowd", "{}", what());
                        }
                    }
                }
                Ok::<_, Fail>(())
            }));
        }
        for t in all {
            t.await.map_err(|e| Fail::new("client ended", e.to_string()))??;
        }
        Ok(())
    });
    rt.shutdown_background();
    r
}

async fn put(c: &mut Client, cmd: &DataSyncCommand, batches: Vec<RecordBatch>) -> Put {
    let any = Any { type_url: "type.googleapis.com/clade.sync.DataSyncCommand".into(), value: cmd.encode_to_vec().into() };
    let d = descriptor(&any);
    let schema = batches.first().map(|b| b.schema()).unwrap_or_else(|| Arc::new(Schema::empty()));
    let stream = FlightDataEncoderBuilder::new()
        .with_schema(schema)
        .with_flight_descriptor(Some(d))
        .build(futures::stream::iter(batches.into_iter().map(Ok)))
        .map(|d| d.expect("data to send"));
    let r = c.do_put(stream).await?.into_inner().try_collect::<Vec<_>>().await?;
    match r.as_slice() {
        [one] => DataSyncResponse::decode(&*one.app_metadata).map_err(|e| Status::data_loss(e.to_string())),
        more => Err(Status::data_loss(format!("{} answers", more.len()))),
    }
}

struct Source {
    path: String,
    rows: BTreeMap<i64, V>,
    durable: Vec<String>,
}

fn desc(role: ColumnRole, name: &str) -> ColumnDescriptor {
    ColumnDescriptor { role: role as i32, name: name.into() }
}

fn columns() -> Vec<ColumnDescriptor> {
    vec![desc(ColumnRole::OldPk, "id"), desc(ColumnRole::NewPk, "id"), desc(ColumnRole::Value, "v")]
}

fn changes(rows: &[(Option<i64>, Option<i64>, V)]) -> RecordBatch {
    let schema = Arc::new(Schema::new(vec![
        Field::new("o", DataType::Int64, true),
        Field::new("n", DataType::Int64, true),
        Field::new("v", DataType::Utf8, true),
    ]));
    let text = rows.iter().map(|r| match &r.2 {
        V::S(x) => Some(x.clone()),
        _ => None,
    });
    RecordBatch::try_new(
        schema,
        vec![
            Arc::new(Int64Array::from_iter(rows.iter().map(|r| r.0))),
            Arc::new(Int64Array::from_iter(rows.iter().map(|r| r.1))),
            Arc::new(StringArray::from_iter(text)),
        ],
    )
    .unwrap()
}

async fn contents(cx: &SeafowlContext, path: &str) -> Result<Option<Vec<String>>, Fail> {
    let log = cx.internal_object_store.clone().unwrap().get_log_store(path);
    let mut t = DeltaTable::new(log, Default::default());
    if t.load().await.is_err() {
        return Ok(None);
    }
    let bad = |e: datafusion::error::DataFusionError| Fail::new("table can't be read", e.to_string());
    let b = cx.inner().read_table(Arc::new(t)).map_err(bad)?.select_columns(&["id", "v"]).map_err(bad)?.collect().await.map_err(bad)?;
    Ok(Some(bag(&rows(&b).map_err(|e| Fail::new("table can't be read", e))?)))
}

fn sync(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut conf = config(ObjectStoreConfig::Memory, "sqlite://:memory:".into(), 1000);
    let eager = s.chance(1, 3);
    let per_table = if eager { 0 } else { s.urange(2, 5) };
    let sc = &mut conf.misc.sync_conf;
    sc.max_replication_lag_s = 600;
    sc.max_in_memory_bytes = if eager { 1 } else { usize::MAX };
    sc.max_syncs_per_url = if eager { 100 } else { per_table };
    let mut trail: Vec<String> = vec![format!("flush {}", if eager { "always".into() } else { format!("after {per_table} messages of a table") })];
    let mut durable_seen = 0;
    let r = serve(conf, |cx, a| {
        let (trail, ctx, durable_seen) = (&mut trail, &mut *ctx, &mut durable_seen);
        async move {
            let mut c = connect(&a).await?;
            let origins = ["A", "42", "ö"];
            let mut sources: Vec<Source> = (0..3).map(|i| Source { path: format!("syncs/{i}"), rows: Default::default(), durable: vec![] }).collect();
            let mut memory: [Option<u64>; 3] = [None; 3];
            let mut durable: [Option<u64>; 3] = [None; 3];
            // what each table held when a transaction was complete
            let mut after: BTreeMap<(usize, u64), Vec<Vec<String>>> = BTreeMap::new();
            let mut next = [1u64; 3];
            let mut open: Option<usize> = None;
            let mut first = true;
            for _ in 0..s.urange(4, 25) {
                let o = open.unwrap_or_else(|| s.usize(3));
                let k = s.usize(3);
                let base = DataSyncCommand { path: sources[k].path.clone(), store: None, column_descriptors: columns(), origin: origins[o].into(), sequence_number: None, format: 0 };
                let good = |r: &DataSyncResponse, first: bool| -> Res {
                    ensure!(r.accepted, "message not accepted", "though nothing else is under way: {r:?}");
                    ensure_eq!(r.first, first, "first response", "{r:?}");
                    Ok(())
                };
                match s.below(12) {
                    0 | 1 => {
                        // a question
                        let p = s.usize(3);
                        let cmd = DataSyncCommand { origin: origins[p].into(), path: s.pick(&["", "x"]).to_string(), column_descriptors: vec![], ..base };
                        trail.push(format!("ask about {}", origins[p]));
                        let r = put(&mut c, &cmd, vec![]).await.map_err(|e| Fail::new("question refused", say(&e)))?;
                        good(&r, first)?;
                        first = false;
                        ensure_eq!(r.memory_sequence_number, memory[p], "memory sequence", "of {}", origins[p]);
                        ensure_eq!(r.durable_sequence_number, durable[p], "durable sequence", "of {}: it was reported before", origins[p]);
                        ctx.label("question");
                    }
                    2 | 3 => {
                        // not a message
                        let row = changes(&[(None, Some(77_777), V::S("bad".into()))]);
                        let (cmd, b, what) = match s.below(7) {
                            0 => (DataSyncCommand { column_descriptors: columns()[..2].to_vec(), ..base }, vec![row], "too few descriptors"),
                            1 => (DataSyncCommand { column_descriptors: vec![], ..base }, vec![row], "no descriptors"),
                            2 => {
                                let d = vec![desc(ColumnRole::OldPk, "id"), desc(ColumnRole::NewPk, "id"), desc(ColumnRole::Changed, "v")];
                                (DataSyncCommand { column_descriptors: d, ..base }, vec![row], "a flag that isn't one")
                            }
                            3 => {
                                let d = vec![desc(ColumnRole::OldPk, "id"), desc(ColumnRole::NewPk, "key"), desc(ColumnRole::Value, "v")];
                                (DataSyncCommand { column_descriptors: d, ..base }, vec![row], "keys of other names")
                            }
                            4 => (DataSyncCommand { format: 1, ..base }, vec![row], "an Iceberg table"),
                            5 if open.is_none() => (DataSyncCommand { sequence_number: Some(next[o]), column_descriptors: vec![], ..base }, vec![], "an empty transaction"),
                            5 => (DataSyncCommand { origin: origins[(o + 1) % 3].into(), ..base }, vec![row], "another origin's"),
                            _ => {
                                let store = clade::schema::StorageLocation { name: "x".into(), location: s.pick(&["", "nowhere", "://", "ftp://x/y"]).to_string(), options: Default::default() };
                                (DataSyncCommand { store: Some(store), ..base }, vec![row], "a table nowhere")
                            }
                        };
                        trail.push(format!("refused: {what}"));
                        match put(&mut c, &cmd, b).await {
                            Ok(r) => return Err(Fail::new("bad message accepted", format!("{what}: {r:?}"))),
                            Err(e) => {
                                answered(&e, what)?;
                                if what != "an Iceberg table" && what != "a table nowhere" {
                                    ensure_eq!(e.code(), Code::InvalidArgument, "code for a bad message", "{what}: {}", say(&e));
                                }
                            }
                        }
                        ctx.label(what);
                    }
                    _ => {
                        // some changes
                        let t = &mut sources[k];
                        let mut rs = vec![];
                        let mut used = BTreeSet::new();
                        for _ in 0..s.urange(1, 4) {
                            let key = s.range(0, 12);
                            if !used.insert(key) {
                                continue;
                            }
                            let v = V::S(format!("{}", s.below(1000)));
                            match t.rows.contains_key(&key) {
                                false => {
                                    rs.push((None, Some(key), v.clone()));
                                    t.rows.insert(key, v);
                                }
                                true if s.bool() => {
                                    rs.push((Some(key), Some(key), v.clone()));
                                    t.rows.insert(key, v);
                                }
                                true => {
                                    rs.push((Some(key), None, V::Null));
                                    t.rows.remove(&key);
                                }
                            }
                        }
                        let seq = s.bool().then_some(next[o]);
                        let cmd = DataSyncCommand { sequence_number: seq, ..base };
                        trail.push(format!("{} {seq:?} {}: {rs:?}", origins[o], t.path));
                        let b = changes(&rs);
                        let cut = s.usize(b.num_rows() + 1);
                        let bs: Vec<RecordBatch> = if s.chance(1, 3) { vec![b.slice(0, cut), b.slice(cut, b.num_rows() - cut)] } else { vec![b] };
                        let r = put(&mut c, &cmd, bs).await.map_err(|e| Fail::new("message refused", say(&e)))?;
                        good(&r, first)?;
                        first = false;
                        open = Some(o);
                        if let Some(q) = seq {
                            memory[o] = seq;
                            next[o] = q + 1 + s.below(3);
                            open = None;
                            let held = sources
                                .iter()
                                .map(|t| bag(&t.rows.iter().map(|(k, v)| vec![V::I(*k), v.clone()]).collect::<Vec<Row>>()))
                                .collect();
                            after.insert((o, q), held);
                        }
                        ensure_eq!(r.memory_sequence_number, memory[o], "memory sequence", "of {}", origins[o]);
                        let d = r.durable_sequence_number;
                        ensure!(d >= durable[o], "durable sequence", "of {} goes from {:?} to {d:?}", origins[o], durable[o]);
                        ensure!(d <= memory[o], "durable sequence", "of {}: {d:?} after {:?}", origins[o], memory[o]);
                        ensure!(d.is_none_or(|d| after.contains_key(&(o, d))), "durable sequence", "of {}: {d:?} was never sent", origins[o]);
                        if eager {
                            ensure_eq!(d, memory[o], "durable sequence", "of {} when all is flushed", origins[o]);
                        }
                        durable[o] = d;
                        if open.is_none() && d.is_some() && d == memory[o] {
                            // this, the latest transaction, is durable, and so all are
                            *durable_seen += 1;
                            for (p, q) in durable.iter_mut().zip(&memory) {
                                *p = *q;
                            }
                            let held = &after[&(o, d.unwrap())];
                            for (t, want) in sources.iter_mut().zip(held) {
                                let got = contents(&cx, &t.path).await?;
                                ensure_eq!(got.clone().unwrap_or_default(), want.clone(), "rows of a synced table", "{} with {} durable up to {d:?}", t.path, origins[o]);
                                t.durable = want.clone();
                            }
                        } else {
                            // whatever became durable for the others is not known until they ask
                            for p in 0..3 {
                                if p != o {
                                    let cmd = DataSyncCommand { origin: origins[p].into(), ..Default::default() };
                                    let r = put(&mut c, &cmd, vec![]).await.map_err(|e| Fail::new("question refused", say(&e)))?;
                                    ensure_eq!(r.memory_sequence_number, memory[p], "memory sequence", "of {}", origins[p]);
                                    let d = r.durable_sequence_number;
                                    ensure!(d >= durable[p] && d <= memory[p], "durable sequence", "of {} goes from {:?} to {d:?}", origins[p], durable[p]);
                                    durable[p] = d;
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        }
    });
    if durable_seen > 0 {
        ctx.nontrivial(&trail);
    }
    ctx.describe(trail.join("\n"));
    r
}

fn blob(s: &mut Src) -> Vec<u8> {
    let n = s.usize(30);
    (0..n).map(|_| s.below(256) as u8).collect()
}

/// Some message of the protocol, or of no protocol.
fn message(s: &mut Src) -> (Vec<u8>, String, Option<Vec<u32>>) {
    let mut infos = None;
    let text = |s: &mut Src| s.pick(&["", "SELECT 1", "x", "t", "'", "\u{0}"]).to_string();
    let any = match s.below(18) {
        0 => CommandStatementQuery { query: text(s), transaction_id: s.bool().then(|| blob(s).into()) }.as_any(),
        1 => CommandStatementUpdate { query: text(s), transaction_id: None }.as_any(),
        2 => CommandPreparedStatementQuery { prepared_statement_handle: blob(s).into() }.as_any(),
        3 => ActionBeginTransactionRequest {}.as_any(),
        4 => ActionCreatePreparedStatementRequest { query: text(s), transaction_id: None }.as_any(),
        5 => ActionClosePreparedStatementRequest { prepared_statement_handle: blob(s).into() }.as_any(),
        6 => TicketStatementQuery { statement_handle: blob(s).into() }.as_any(),
        7 => CommandGetCatalogs {}.as_any(),
        8 => CommandGetDbSchemas { catalog: None, db_schema_filter_pattern: Some(text(s)) }.as_any(),
        9 => CommandGetTables { catalog: None, db_schema_filter_pattern: None, table_name_filter_pattern: None, table_types: vec![], include_schema: s.bool() }.as_any(),
        10 => CommandGetTableTypes {}.as_any(),
        11 => CommandGetXdbcTypeInfo { data_type: Some(s.range(-3, 3) as i32) }.as_any(),
        12 => {
            let info = s.vec(0, 4, |s| s.below(5) as u32);
            infos = Some((0..3).filter(|i| info.is_empty() || info.contains(i)).collect());
            CommandGetSqlInfo { info }.as_any()
        }
        13 => {
            let q = InlineMetastoreCommandStatementQuery { query: text(s), schemas: s.bool().then(Default::default) };
            Any { type_url: "clade".into(), value: q.encode_to_vec().into() }
        }
        14 => {
            let q = DataSyncCommand { path: text(s), store: s.bool().then(Default::default), column_descriptors: s.bool().then(columns).unwrap_or_default(), origin: text(s), sequence_number: s.bool().then(|| s.edgy_u64()), format: s.range(-1, 2) as i32 };
            Any { type_url: "sync".into(), value: q.encode_to_vec().into() }
        }
        15 => {
            // a known type with other content
            let mut a = CommandStatementQuery { query: text(s), transaction_id: None }.as_any();
            a.value = blob(s).into();
            a
        }
        16 => Any { type_url: text(s), value: blob(s).into() },
        _ => {
            let b = blob(s);
            return (b.clone(), format!("bytes {b:?}"), None);
        }
    };
    let mut b = any.encode_to_vec();
    let mut what = any.type_url.rsplit('.').next().unwrap_or("").to_string();
    if s.chance(1, 8) && !b.is_empty() {
        let i = s.usize(b.len());
        b[i] ^= 1 << s.below(8);
        what += " damaged";
        infos = None;
    }
    (b, what, infos)
}

fn noise(s: &mut Src, ctx: &mut Ctx) -> Res {
    let conf = config(ObjectStoreConfig::Memory, "sqlite://:memory:".into(), 1000);
    let mut trail: Vec<String> = vec![];
    let r = serve(conf, |cx, a| {
        let (trail, ctx) = (&mut trail, &mut *ctx);
        async move {
            let mut c = connect(&a).await?;
            run(&cx, "CREATE TABLE t AS SELECT unnest(range(0, 9)) AS n").await.expect("a table");
            let want: Vec<String> = bag(&(0..9).map(|i| vec![V::I(i)]).collect::<Vec<_>>());
            let all = "SELECT n FROM t";
            let mut held = ask(&mut c, all, None, Want::Rows(want.clone()), true).await?;
            for _ in 0..s.urange(3, 15) {
                let (m, what, infos) = message(s);
                let mut kept = true;
                let r = match s.below(12) {
                    0..=3 => {
                        trail.push(format!("info: {what}"));
                        match c.get_flight_info(FlightDescriptor::new_cmd(m)).await {
                            Ok(i) => {
                                let i = i.into_inner();
                                i.clone().try_decode_schema().map_err(|e| Fail::new("schema", format!("{what}: {e}")))?;
                                // what is handed out is good for something
                                let t = one_ticket(&i, &what)?;
                                ctx.label(format!("info: {what}"));
                                match redeem(&mut c, t).await {
                                    Ok((sc, got)) => {
                                        if let (Some(w), Some(b)) = (&infos, got.first()) {
                                            let mut names: Vec<u32> = b.column(0).as_primitive::<UInt32Type>().values().to_vec();
                                            names.sort();
                                            ensure_eq!(&names, w, "server metadata", "{what}");
                                        }
                                        let sent = sc.map(|s| shape(&s)).unwrap_or_default();
                                        let said = shape(&i.try_decode_schema().unwrap());
                                        ensure_eq!(sent, said, "schema", "{what}: sent and announced");
                                        Ok(())
                                    }
                                    Err(e) => {
                                        answered(&e, &what)?;
                                        return Err(Fail::new("ticket not honoured", format!("the ticket for {what}: {}", say(&e))));
                                    }
                                }
                            }
                            Err(e) => Err(e),
                        }
                    }
                    4 => {
                        trail.push("info: path".into());
                        c.get_flight_info(FlightDescriptor::new_path(vec!["a".into(), what.clone()])).await.map(drop)
                    }
                    5 => {
                        trail.push("schema".into());
                        c.get_schema(FlightDescriptor::new_cmd(m)).await.map(drop)
                    }
                    6 | 7 => {
                        trail.push(format!("get: {what}"));
                        redeem(&mut c, Ticket::new(m)).await.map(drop)
                    }
                    8 => {
                        let kind = s.pick(&["BeginTransaction", "CreatePreparedStatement", "ClosePreparedStatement", "CancelQuery", "EndTransaction", "", "CreatePreparedSubstraitPlan"]).to_string();
                        trail.push(format!("action {kind:?}: {what}"));
                        match c.do_action(Action { r#type: kind, body: m.into() }).await {
                            Ok(r) => r.into_inner().try_collect::<Vec<_>>().await.map(drop),
                            Err(e) => Err(e),
                        }
                    }
                    9 => {
                        trail.push(format!("put: {what}"));
                        let mut data: Vec<arrow_flight::FlightData> = FlightDataEncoderBuilder::new()
                            .with_flight_descriptor(Some(FlightDescriptor::new_cmd(m)))
                            .build(futures::stream::iter([Ok(changes(&[(None, Some(1), V::Null)]))]))
                            .map(|d| d.unwrap())
                            .collect()
                            .await;
                        // (arrow-flight and arrow-ipc themselves panic when there is no message at all, or a body doesn't fit
                        // its header)
                        match s.below(4) {
                            0 => data.truncate(1),
                            1 => data.truncate(2),
                            2 => data[0].data_header = Default::default(),
                            _ => {}
                        }
                        match c.do_put(futures::stream::iter(data)).await {
                            Ok(r) => r.into_inner().try_collect::<Vec<_>>().await.map(drop),
                            Err(e) => Err(e),
                        }
                    }
                    10 => {
                        trail.push("handshake".into());
                        match c.handshake(futures::stream::iter([HandshakeRequest { protocol_version: s.below(3), payload: blob(s).into() }])).await {
                            Ok(r) => r.into_inner().try_collect::<Vec<_>>().await.map(drop),
                            Err(e) => Err(e),
                        }
                    }
                    _ => {
                        trail.push("list and search path".into());
                        kept = false;
                        let mut r = ask_for("SELECT 1", None);
                        r.metadata_mut().insert("search-path", tonic::metadata::MetadataValue::try_from(&b"caf\xe9"[..]).unwrap());
                        match c.get_flight_info(r).await {
                            Err(e) => answered(&e, "a search path that isn't text")?,
                            Ok(_) => return Err(Fail::new("bad search path taken", "though it isn't text")),
                        }
                        match c.list_flights(Criteria { expression: m.into() }).await {
                            Ok(r) => r.into_inner().try_collect::<Vec<_>>().await.map(drop),
                            Err(e) => Err(e),
                        }
                    }
                };
                if let Err(e) = r {
                    answered(&e, trail.last().unwrap())?;
                    if kept {
                        ctx.label(format!("refused as {:?}", e.code()));
                    }
                }
                ctx.nontrivial(&trail);
                if s.chance(1, 3) {
                    // all is as before
                    for o in held.take() {
                        let got = redeem(&mut c, o.ticket.clone()).await;
                        matches(&o, got)?;
                    }
                    held = ask(&mut c, all, None, Want::Rows(want.clone()), true).await?;
                }
            }
            for o in held {
                let got = redeem(&mut c, o.ticket.clone()).await;
                matches(&o, got)?;
            }
            Ok(())
        }
    });
    ctx.describe(trail.join("\n"));
    r
}

fn main() {
    pbt::main(Property {
        id: "C30",
        rule: "a history is non-trivial if at least two results are fetched and compared (statements), a statement is answered from the tables of its own catalog (inline), a transaction is reported durable and its tables are read (sync), or a message other than a statement is sent (noise)",
        assumptions: &[
            "the client side is arrow-flight's own; a TCP connection over the loopback network joins the two",
            "delta tables are written and read through the stand-in for the deltalake crate",
        ],
        legs: vec![
            leg("statements", 400, 12_000, statements),
            leg("inline", 220, 6_000, inline),
            leg("crowd", 60, 2_000, crowd),
            leg("sync", 350, 10_000, sync),
            leg("noise", 350, 10_000, noise),
        ],
    })
}
