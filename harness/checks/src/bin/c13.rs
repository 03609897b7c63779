//! C13: a failed catalog operation leaves no trace; a reported one survives.
use checks::catmodel::*;
use pbt::*;
use seafowl::repository::interface::{DroppedTableDeletionStatus as Status, Repository};
use seafowl::repository::sqlite::SqliteRepository;
use sqlx::sqlite::SqliteJournalMode;
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::task::Poll;

const TABLES: &[&str] = &["database", "collection", "table", "table_version", "table_column", "function", "dropped_table"];

async fn sql(r: &SqliteRepository, q: &str) {
    sqlx::query(q).execute(&r.executor).await.unwrap_or_else(|e| panic!("{q}: {e}"));
}

async fn queue(s: &mut Src, r: &SqliteRepository, m: &mut Model, names: &[String]) {
    let d = Dropped {
        db: s.pick(names).clone(),
        coll: s.pick(names).clone(),
        table: s.pick(names).clone(),
        uuid: uuid(s),
        status: Status::Pending,
        time: s.range(0, 4_000_000_000),
    };
    if m.dropped.iter().any(|x| x.uuid == d.uuid) {
        return;
    }
    sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid, drop_time) VALUES ($1, $2, $3, $4, $5)")
        .bind(&d.db)
        .bind(&d.coll)
        .bind(&d.table)
        .bind(d.uuid)
        .bind(d.time)
        .execute(&r.executor)
        .await
        .expect("queue a table");
    m.dropped.push(d);
}

const BUILD: [u64; 13] = [2, 4, 8, 6, 1, 2, 6, 1, 1, 1, 0, 1, 0];
const TARGET: [u64; 13] = [2, 2, 8, 8, 4, 5, 4, 4, 3, 3, 3, 2, 2];

struct Start {
    dir: tempfile::TempDir,
    names: Vec<String>,
    model: Model,
    log: Vec<String>,
}

impl Start {
    fn base(&self) -> String {
        self.dir.path().join("base").to_string_lossy().into()
    }
    /// a copy of the state at the start
    fn copy(&self, name: &str) -> String {
        let p = self.dir.path().join(name);
        std::fs::copy(self.base(), &p).expect("copy the catalog");
        p.to_string_lossy().into()
    }
}

/// a catalog after a generated history, closed
async fn start(s: &mut Src, max: usize) -> Result<Start, Fail> {
    let dir = tempfile::tempdir().unwrap();
    let n = s.urange(1, 3);
    let names = names(s, n);
    let mut st = Start { dir, names, model: Model::default(), log: vec![] };
    let r = open(&st.base()).await?;
    for _ in 0..s.urange(2, max) {
        let op = st.model.gen(s, &st.names, &BUILD);
        let out = st.model.step(&r, &op).await?;
        st.log.push(format!("{op:?} -> {out:?}"));
        if s.chance(1, 12) {
            queue(s, &r, &mut st.model, &st.names).await;
        }
    }
    r.executor.close().await;
    Ok(st)
}

/// an operation that should succeed, and the model after it (as found by running it on a copy)
async fn target(s: &mut Src, st: &mut Start) -> Result<Option<(Op, Model)>, Fail> {
    for _ in 0..6 {
        let op = st.model.gen(s, &st.names, &TARGET);
        if st.model.expect(&op) != Expect::Ok {
            continue;
        }
        let mut m = st.model.clone();
        let r = open(&st.copy("good")).await?;
        let _ = m.step(&r, &op).await?;
        r.executor.close().await;
        return Ok(Some((op, m)));
    }
    Ok(None)
}

async fn is(r: &dyn Repository, m: &Model, names: &[String]) -> Result<Option<String>, Fail> {
    Ok(diff(&observe(r, names, ALL).await?, &m.lines(ALL)))
}

/// every statement of the operation fails in turn
fn fault(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let rt = block_on(async {
        let mut st = start(s, 14).await?;
        let Some((op, after)) = target(s, &mut st).await? else { return Ok(None) };
        let raise = *s.pick(&["ABORT", "ROLLBACK"]);
        let arm = st.copy("armed");
        let r = open(&arm).await?;
        sql(&r, "CREATE TABLE verif_fault (n INTEGER)").await;
        sql(&r, "INSERT INTO verif_fault VALUES (1000000)").await;
        for t in TABLES {
            for ev in ["INSERT", "UPDATE", "DELETE"] {
                for when in ["BEFORE", "AFTER"] {
                    sql(
                        &r,
                        &format!(
                            "CREATE TRIGGER verif_{when}_{ev}_{t} {when} {ev} ON \"{t}\" BEGIN \
                             UPDATE verif_fault SET n = n - 1; \
                             SELECT CASE WHEN (SELECT n FROM verif_fault) = 0 THEN RAISE({raise}, 'storage failure') END; END"
                        ),
                    )
                    .await;
                }
            }
        }
        r.executor.close().await;
        // how many points are there
        let p = st.dir.path().join("count").to_string_lossy().to_string();
        std::fs::copy(&arm, &p).unwrap();
        let r = open(&p).await?;
        let _ = st.model.clone().step(&r, &op).await?;
        let (left,): (i64,) = sqlx::query_as("SELECT n FROM verif_fault").fetch_one(&r.executor).await.unwrap();
        r.executor.close().await;
        let total = (1_000_000 - left) as usize;
        let mut points: Vec<usize> = (1..=total).collect();
        if total > 10 {
            s.shuffle(&mut points);
            points.truncate(8);
            points.extend([1, total]);
        }
        for k in &points {
            let p = st.dir.path().join("fault").to_string_lossy().to_string();
            std::fs::copy(&arm, &p).unwrap();
            let r = open(&p).await?;
            sql(&r, &format!("UPDATE verif_fault SET n = {k}")).await;
            let got = exec(&r, &op).await;
            let want = if got.is_ok() { &after } else { &st.model };
            if let Some(d) = is(&r, want, &st.names).await? {
                fail!(
                    format!("trace:{}", op.name()),
                    "storage fails ({raise}) at step {k} of {total} of {}: the operation reports {}, but the catalog is not as {} it:{d}",
                    dbg_short(&op),
                    dbg_short(&got),
                    if got.is_ok() { "after" } else { "before" }
                );
            }
            if got.is_err() {
                // once the storage works again, so does the operation
                sql(&r, "UPDATE verif_fault SET n = 1000000").await;
                let mut m = st.model.clone();
                let _ = m.step(&r, &op).await.map_err(|mut f| {
                    f.sig = format!("retry:{}", op.name());
                    f.msg = format!("after a storage failure at step {k} of {total}: {}", f.msg);
                    f
                })?;
                r.executor.close().await;
                let r = open(&p).await?;
                if let Some(d) = is(&r, &m, &st.names).await? {
                    fail!(format!("retry:{}", op.name()), "{} succeeds after a storage failure, but reopened the catalog differs:{d}", dbg_short(&op));
                }
                r.executor.close().await;
            } else {
                r.executor.close().await;
            }
        }
        st.log.push(format!("{op:?} fails at {points:?} of {total} points ({raise})"));
        ctx.evals = (points.len() as u64) as u64;
        ctx.label(op.name());
        ctx.label_n("failure points", points.len() as u64);
        Ok(Some((st.log, total)))
    })?;
    if let Some((log, total)) = rt {
        ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
        if total > 0 {
            ctx.nontrivial(&log);
        }
    }
    Ok(())
}

/// all statements succeed, but what they did can't be committed
fn commit(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let rt = block_on(async {
        let mut st = start(s, 14).await?;
        let Some((op, after)) = target(s, &mut st).await? else { return Ok(None) };
        let p = st.copy("armed");
        let r = open(&p).await?;
        sql(&r, "CREATE TABLE verif_parent (id INTEGER PRIMARY KEY)").await;
        sql(&r, "CREATE TABLE verif_armed (n INTEGER)").await;
        sql(&r, "CREATE TABLE verif_orphan (x INTEGER REFERENCES verif_parent(id) DEFERRABLE INITIALLY DEFERRED)").await;
        sql(&r, "INSERT INTO verif_armed VALUES (1)").await;
        for t in TABLES {
            for ev in ["INSERT", "UPDATE", "DELETE"] {
                sql(
                    &r,
                    &format!("CREATE TRIGGER verif_{ev}_{t} AFTER {ev} ON \"{t}\" BEGIN INSERT INTO verif_orphan SELECT 7 FROM verif_armed; END"),
                )
                .await;
            }
        }
        let got = exec(&r, &op).await;
        let want = if got.is_ok() { &after } else { &st.model };
        if let Some(d) = is(&r, want, &st.names).await? {
            fail!(
                format!("trace:{}", op.name()),
                "{} can't be committed and reports {}, but the catalog is not as {} it:{d}",
                dbg_short(&op),
                dbg_short(&got),
                if got.is_ok() { "after" } else { "before" }
            );
        }
        let failed = got.is_err();
        if failed {
            sql(&r, "DELETE FROM verif_armed").await;
            let mut m = st.model.clone();
            let _ = m.step(&r, &op).await.map_err(|mut f| {
                f.sig = format!("retry:{}", op.name());
                f.msg = format!("after a failed commit: {}", f.msg);
                f
            })?;
            r.executor.close().await;
            let r = open(&p).await?;
            if let Some(d) = is(&r, &m, &st.names).await? {
                fail!(format!("retry:{}", op.name()), "{} succeeds after a failed commit, but reopened the catalog differs:{d}", dbg_short(&op));
            }
            r.executor.close().await;
        } else {
            r.executor.close().await;
        }
        st.log.push(format!("{op:?} {} be committed", if failed { "can't" } else { "has nothing to" }));
        ctx.label(op.name());
        Ok(Some((st.log, failed)))
    })?;
    if let Some((log, failed)) = rt {
        ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
        if failed {
            ctx.nontrivial(&log);
        }
    }
    Ok(())
}

/// the storage has no room left at some point of the operation
fn full(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let rt = block_on(async {
        let mut st = start(s, 8).await?;
        let mut found = None;
        for _ in 0..10 {
            let mut op = st.model.gen(s, &st.names, &[1, 1, 10, 10, 0, 2, 10, 0, 0, 0, 0, 0, 0]);
            match &mut op {
                Op::CreateTable(_, _, sch, _) => {
                    use arrow_schema::{DataType, Field, Schema};
                    *sch = Schema::new((0..s.urange(20, 400)).map(|i| Field::new(format!("column number {i}"), DataType::Int64, true)).collect::<Vec<_>>());
                }
                Op::CreateFunc(_, _, _, d) => d.data = "data".repeat(s.urange(500, 20_000)),
                _ => {}
            }
            if st.model.expect(&op) == Expect::Ok {
                found = Some(op);
                break;
            }
        }
        let Some(op) = found else { return Ok(None) };
        let p = st.copy("full");
        let r = open(&p).await?;
        let (pages,): (i64,) = sqlx::query_as("PRAGMA page_count").fetch_one(&r.executor).await.unwrap();
        let mut m = st.model.clone();
        let mut failures = 0;
        let mut room = pages;
        let mut steps = 0;
        loop {
            let (_,): (i64,) = sqlx::query_as(&format!("PRAGMA max_page_count = {room}")).fetch_one(&r.executor).await.unwrap();
            let got = exec(&r, &op).await;
            steps += 1;
            match got {
                Ok(out) => {
                    m.apply(&op, &out)?;
                    if let Some(d) = is(&r, &m, &st.names).await? {
                        fail!(format!("trace:{}", op.name()), "{} succeeds with room for {} pages, but its effect is not complete:{d}", dbg_short(&op), room - pages);
                    }
                    break;
                }
                Err(e) => {
                    failures += 1;
                    ensure!(kind(&e) == Kind::Other, "outcome", "{} on a full disk gives {e:?}", dbg_short(&op));
                    if let Some(d) = is(&r, &m, &st.names).await? {
                        fail!(format!("trace:{}", op.name()), "{} on a full disk (room for {} pages) reports {e:?} but leaves a trace:{d}", dbg_short(&op), room - pages);
                    }
                }
            }
            room += s.range(1, 6);
            ensure!(steps < 400, "outcome", "{} never succeeds", dbg_short(&op));
        }
        r.executor.close().await;
        let r = open(&p).await?;
        if let Some(d) = is(&r, &m, &st.names).await? {
            fail!("durable", "{} succeeded, but the reopened catalog differs:{d}", dbg_short(&op));
        }
        r.executor.close().await;
        ctx.evals = (failures + 1) as u64;
        ctx.label(format!("{}: {} failures", op.name(), failures.min(10)));
        st.log.push(format!("{op:?} with {failures} failures").chars().take(300).collect());
        Ok(Some((st.log, failures)))
    })?;
    if let Some((log, failures)) = rt {
        ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
        if failures > 0 {
            ctx.nontrivial(&log);
        }
    }
    Ok(())
}

fn files(p: &str, to: &str) {
    for suf in ["", "-wal", "-journal"] {
        let _ = std::fs::remove_file(format!("{to}{suf}"));
    }
    let _ = std::fs::remove_file(format!("{to}-shm"));
    // the log first: the main file only changes once the log is complete
    for suf in ["-wal", "-journal", ""] {
        if Path::new(&format!("{p}{suf}")).exists() {
            std::fs::copy(format!("{p}{suf}"), format!("{to}{suf}")).expect("copy");
        }
    }
}

fn signature(p: &str) -> Vec<(u64, std::time::SystemTime)> {
    ["", "-wal", "-journal"].iter().filter_map(|s| std::fs::metadata(format!("{p}{s}")).ok()).map(|m| (m.len(), m.modified().unwrap())).collect()
}

/// waits until the storage thread has nothing left to do
async fn settle(p: &str) {
    let mut last = signature(p);
    let mut calm = 0;
    while calm < 2 {
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        let now = signature(p);
        if now == last {
            calm += 1;
        } else {
            calm = 0;
            last = now;
        }
    }
}

/// the process dies, or the caller gives up, at any point of the operation
fn stop(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let rt = block_on(async {
        let mut st = start(s, 10).await?;
        let Some((op, after)) = target(s, &mut st).await? else { return Ok(None) };
        let mut points = 0;
        for k in 1..200u64 {
            let p = st.copy(&format!("stop{k}"));
            let r = open(&p).await?;
            let mut fut: Pin<Box<dyn Future<Output = _>>> = Box::pin(exec(&r, &op));
            // polls it k times
            let mut n = 0;
            let done = futures::future::poll_fn(|cx| {
                n += 1;
                match fut.as_mut().poll(cx) {
                    Poll::Ready(x) => Poll::Ready(Some(x)),
                    Poll::Pending if n >= k => Poll::Ready(None),
                    Poll::Pending => Poll::Pending,
                }
            })
            .await;
            if let Some(got) = done {
                ensure!(got.is_ok(), format!("outcome:{}", op.name()), "{} gives {}", dbg_short(&op), dbg_short(&got));
                // success was just reported: the files alone must have it
                let c = st.dir.path().join("crash").to_string_lossy().to_string();
                files(&p, &c);
                let r2 = open(&c).await?;
                if let Some(d) = is(&r2, &after, &st.names).await? {
                    fail!(format!("durable:{}", op.name()), "{} reported success, but after a crash right then the catalog differs:{d}", dbg_short(&op));
                }
                r2.executor.close().await;
                drop(fut);
                r.executor.close().await;
                break;
            }
            points += 1;
            settle(&p).await;
            let c = st.dir.path().join("crash").to_string_lossy().to_string();
            files(&p, &c);
            let r2 = open(&c).await?;
            let v = observe(&r2, &st.names, ALL).await?;
            r2.executor.close().await;
            let (b, a) = (diff(&v, &st.model.lines(ALL)), diff(&v, &after.lines(ALL)));
            if let (Some(b), Some(a)) = (b, a) {
                fail!(format!("crash:{}", op.name()), "a crash at point {k} of {} leaves neither the catalog before it:{b}\nnor the one after it:{a}", dbg_short(&op));
            }
            // the caller gives up
            drop(fut);
            let v = observe(&r, &st.names, ALL).await?;
            let (b, a) = (diff(&v, &st.model.lines(ALL)), diff(&v, &after.lines(ALL)));
            let done = match (b, a) {
                (_, None) => true,
                (None, _) => false,
                (Some(b), Some(a)) => fail!(
                    format!("cancel:{}", op.name()),
                    "cancelling {} at point {k} leaves neither the catalog before it:{b}\nnor the one after it:{a}",
                    dbg_short(&op)
                ),
            };
            if !done {
                let mut m = st.model.clone();
                let _ = m.step(&r, &op).await.map_err(|mut f| {
                    f.sig = format!("retry:{}", op.name());
                    f.msg = format!("after being cancelled at point {k}: {}", f.msg);
                    f
                })?;
            }
            r.executor.close().await;
        }
        ctx.evals = (points + 1) as u64;
        ctx.label(op.name());
        ctx.label_n("stop points", points);
        st.log.push(format!("{op:?} stopped at each of {points} points"));
        Ok(Some(st.log))
    })?;
    if let Some(log) = rt {
        ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
        ctx.nontrivial(&log);
    }
    Ok(())
}

/// histories with reopening, in every journal mode
fn reopen(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut log = vec![];
    let mut times = 0;
    let res = block_on(async {
        let dir = tempfile::tempdir().unwrap();
        let mut path = dir.path().join("db0").to_string_lossy().to_string();
        let n = s.urange(1, 4);
        let names = names(s, n);
        let mode = *s.pick(&[SqliteJournalMode::Wal, SqliteJournalMode::Delete, SqliteJournalMode::Truncate, SqliteJournalMode::Persist]);
        let open = |p: String| async move { SqliteRepository::try_new(p, mode).await.map_err(|e| Fail::new("open", format!("{e:?}"))) };
        let mut r = open(path.clone()).await?;
        let mut m = Model::default();
        for k in 0..s.urange(2, 25) {
            let op = m.gen(s, &names, &[2, 4, 8, 6, 2, 4, 5, 2, 2, 1, 1, 3, 2]);
            let out = m.step(&r, &op).await?;
            log.push(format!("{op:?} -> {out:?}"));
            if s.chance(1, 10) {
                queue(s, &r, &mut m, &names).await;
            }
            let how = s.usize(8);
            match how {
                0 => {
                    r.executor.close().await;
                    r = open(path.clone()).await?;
                }
                1 => {
                    // dropped without closing
                    drop(r);
                    r = open(path.clone()).await?;
                }
                2 => {
                    // the machine stops: only the files remain
                    let to = dir.path().join(format!("db{}", k + 1)).to_string_lossy().to_string();
                    files(&path, &to);
                    r.executor.close().await;
                    path = to;
                    r = open(path.clone()).await?;
                }
                3 => {
                    // another connection looks at it
                    let r2 = open(path.clone()).await?;
                    compare(&r2, &m, &names, ALL, &format!("{} (other connection, {mode:?})", log[log.len() - 1])).await?;
                    r2.executor.close().await;
                    continue;
                }
                _ => continue,
            }
            times += 1;
            log.push(["closed and reopened", "dropped and reopened", "crashed and reopened"][how].into());
            compare(&r, &m, &names, ALL, &format!("{} then {} ({mode:?})", log[log.len() - 2], log[log.len() - 1])).await?;
        }
        compare(&r, &m, &names, ALL, &format!("{} ({mode:?})", log[log.len() - 1])).await?;
        r.executor.close().await;
        ctx.label(format!("{mode:?}"));
        Ok(())
    });
    ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
    res?;
    ctx.label_n("reopened", times);
    if times > 0 {
        ctx.nontrivial(&log);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C13",
        rule: "non-trivial: the operation writes at least one row and each such write fails once (fault), can't be committed (commit), fails at least once for lack of room (full), is stopped at every await point (stop), or the history is reopened at least once (reopen). Distinct by history and operation. Evaluations count the failure points.",
        assumptions: &[
            "SQLite keeps its promises about its own journal; faults are injected above it (failing writes, no room, process stop between writes)",
            "failure points beyond ten per operation are sampled",
        ],
        legs: vec![
            leg("fault", 250, 10_000, fault),
            leg("commit", 300, 10_000, commit),
            leg("full", 100, 4_000, full),
            leg("stop", 150, 6_000, stop),
            leg("reopen", 400, 15_000, reopen),
        ],
    })
}
