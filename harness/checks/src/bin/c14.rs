//! C14: concurrent catalog users see consistent, isolated effects.
use checks::catmodel::*;
use pbt::*;
use seafowl::repository::interface::{Error, Repository};
use seafowl::repository::sqlite::SqliteRepository;
use sqlx::sqlite::SqliteJournalMode;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap())
}

#[derive(Clone, Debug)]
enum Act {
    Write(Op),
    /// what list_collections shows of one database
    List(String),
    Versions(String),
    Functions(i64),
    Table(String, String, String),
}

#[derive(Debug)]
enum Got {
    Write(Result<Out, Error>),
    Lines(Result<Vec<String>, Error>),
}

#[derive(Debug)]
struct Event {
    client: usize,
    act: Act,
    got: Got,
    begin: u64,
    end: u64,
}

fn table_lines(m: &Model, db: &str) -> Vec<String> {
    let mut v = vec![];
    for d in m.dbs.iter().filter(|d| d.name == db) {
        for c in &d.colls {
            if c.tables.is_empty() {
                v.push(format!("{:?} empty", c.name));
            }
            for t in &c.tables {
                let cur = t.versions.last().unwrap();
                let head = format!("{:?}.{:?} id={} uuid={} version={}", c.name, t.name, t.id, t.uuid, cur.id);
                if cur.fields.is_empty() {
                    v.push(format!("{head} no columns"));
                }
                for f in &cur.fields {
                    v.push(format!("{head} {f:?}"));
                }
            }
        }
    }
    v.sort();
    v
}

fn read_model(m: &Model, a: &Act) -> Option<Vec<String>> {
    let mut v = match a {
        Act::List(d) => table_lines(m, d),
        Act::Versions(d) => m
            .tables()
            .filter(|x| x.0.name == *d)
            .flat_map(|(_, c, t)| t.versions.iter().map(move |v| format!("{:?}.{:?} {} {}", c.name, t.name, v.id, v.number)))
            .collect(),
        Act::Functions(d) => m.db(*d).map(|d| d.funcs.iter().map(|f| format!("{} {:?} {:?}", f.id, f.name, f.details)).collect()).unwrap_or_default(),
        Act::Table(d, c, t) => {
            let x = m.tables().find(|x| x.0.name == *d && x.1.name == *c && x.2.name == *t)?;
            vec![format!("{} {} {:?}", x.2.id, x.1.id, x.2.name)]
        }
        Act::Write(_) => unreachable!(),
    };
    v.sort();
    Some(v)
}

async fn read(r: &dyn Repository, a: &Act) -> Result<Vec<String>, Error> {
    let mut v: Vec<String> = match a {
        Act::List(d) => r
            .list_collections(d)
            .await?
            .into_iter()
            .map(|x| match (x.table_name, x.column_name) {
                (None, _) => format!("{:?} empty", x.collection_name),
                (Some(t), c) => {
                    let head = format!(
                        "{:?}.{t:?} id={} uuid={} version={}",
                        x.collection_name,
                        x.table_id.unwrap_or(-1),
                        x.table_uuid.unwrap_or_default(),
                        x.table_version_id.unwrap_or(-1)
                    );
                    match c {
                        None => format!("{head} no columns"),
                        Some(c) => format!("{head} {:?}", (c, x.column_type.unwrap_or_default())),
                    }
                }
            })
            .collect(),
        Act::Versions(d) => r
            .get_all_versions(d, None)
            .await?
            .into_iter()
            .map(|x| format!("{:?}.{:?} {} {}", x.collection_name, x.table_name, x.table_version_id, x.version))
            .collect(),
        Act::Functions(d) => r
            .get_all_functions_in_database(*d)
            .await?
            .into_iter()
            .map(|f| format!("{} {:?} {}", f.id, f.name, parse_function(&f).map(|d| format!("{d:?}")).unwrap_or_else(|e| e)))
            .collect(),
        Act::Table(d, c, t) => {
            let t = r.get_table(d, c, t).await?;
            vec![format!("{} {} {:?}", t.id, t.collection_id, t.name)]
        }
        Act::Write(_) => unreachable!(),
    };
    v.sort();
    Ok(v)
}

/// is the event what the model does here? gives the model after it
fn explain(m: &Model, e: &Event) -> Option<Vec<Model>> {
    match (&e.act, &e.got) {
        (Act::Write(op), Got::Write(got)) => {
            let want = m.expect(op);
            match (want, got) {
                (Expect::Ok | Expect::Either, Ok(out)) => {
                    let mut n = m.clone();
                    n.apply(op, out).ok()?;
                    Some(vec![n])
                }
                (Expect::Either, Err(x)) if kind(x) == Kind::NotFound => Some(vec![m.clone()]),
                (Expect::Err(k), Err(x)) if kind(x) == k => Some(vec![m.clone()]),
                _ => None,
            }
        }
        (a, Got::Lines(got)) => match (read_model(m, a), got) {
            (Some(w), Ok(g)) if w == *g => Some(vec![m.clone()]),
            (None, Err(x)) if kind(x) == Kind::NotFound => Some(vec![m.clone()]),
            _ => None,
        },
        _ => None,
    }
}

/// some order of the events, respecting what happened before what, that explains all of them and ends in `last`
fn linearise(m: &Model, ev: &[Event], done: &mut Vec<usize>, last: &[String], best: &mut usize, budget: &mut u64) -> bool {
    *best = (*best).max(done.len());
    if *budget == 0 {
        return true;
    }
    *budget -= 1;
    if done.len() == ev.len() {
        return m.lines(ALL) == last;
    }
    // those left that nothing left precedes
    let left: Vec<usize> = (0..ev.len()).filter(|i| !done.contains(i)).collect();
    let first_end = left.iter().map(|i| ev[*i].end).min().unwrap();
    for i in left {
        if ev[i].begin > first_end {
            continue;
        }
        if let Some(next) = explain(m, &ev[i]) {
            done.push(i);
            for n in next {
                if linearise(&n, ev, done, last, best, budget) {
                    return true;
                }
            }
            done.pop();
        }
    }
    false
}

fn concurrent(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let dir = tempfile::tempdir().unwrap();
    let path = dir.path().join("db").to_string_lossy().to_string();
    let n = s.urange(1, 2);
    let names = names(s, n);
    let clients = s.urange(2, 4);
    let shared = s.chance(1, 3);
    let mut m = Model::default();
    let mut log = vec![];
    let repo = runtime().block_on(async {
        let r = open(&path).await?;
        for _ in 0..s.urange(3, 12) {
            let op = m.gen(s, &names, &[1, 2, 6, 4, 0, 1, 4, 0, 0, 0, 0, 0, 0]);
            let out = m.step(&r, &op).await?;
            log.push(format!("before: {op:?} -> {out:?}"));
        }
        Ok::<_, Fail>(r)
    })?;
    // what each client does, from what is there now
    let w = match s.usize(3) {
        0 => [1, 1, 3, 8, 6, 3, 2, 2, 3, 1, 1, 0, 0],
        1 => [2, 3, 5, 3, 1, 5, 5, 4, 3, 3, 2, 0, 0],
        _ => [0, 1, 8, 3, 0, 8, 1, 0, 6, 1, 0, 0, 0],
    };
    let per = if clients > 2 { 3 } else { 4 };
    let plans: Vec<Vec<(Act, usize)>> = (0..clients)
        .map(|_| {
            s.vec(1, per, |s| {
                let spin = if s.bool() { 0 } else { s.usize(400) };
                let db = s.pick(&names).clone();
                let a = match s.usize(14) {
                    0 => Act::List(db),
                    1 => Act::Versions(db),
                    2 => Act::Functions(m.dbs.first().map(|d| d.id).unwrap_or(1)),
                    3 => Act::Table(db, s.pick(&names).clone(), s.pick(&names).clone()),
                    _ => Act::Write(m.gen(s, &names, &w)),
                };
                (a, spin)
            })
        })
        .collect();
    let (events, last) = runtime().block_on(async {
        let mut repos: Vec<Arc<SqliteRepository>> = vec![Arc::new(repo)];
        for _ in 1..clients {
            repos.push(if shared { repos[0].clone() } else { Arc::new(open(&path).await?) });
        }
        let clock = Arc::new(AtomicU64::new(0));
        let barrier = Arc::new(tokio::sync::Barrier::new(clients));
        let mut tasks = vec![];
        for (client, plan) in plans.iter().cloned().enumerate() {
            let (r, clock, barrier) = (repos[client].clone(), clock.clone(), barrier.clone());
            tasks.push(tokio::spawn(async move {
                let mut v = vec![];
                barrier.wait().await;
                for (act, spin) in plan {
                    for _ in 0..spin {
                        tokio::task::yield_now().await;
                    }
                    let begin = clock.fetch_add(1, Ordering::SeqCst);
                    let got = match &act {
                        Act::Write(op) => Got::Write(exec(&*r, op).await),
                        a => Got::Lines(read(&*r, a).await),
                    };
                    let end = clock.fetch_add(1, Ordering::SeqCst);
                    v.push(Event { client, act, got, begin, end });
                }
                v
            }));
        }
        let mut events = vec![];
        for t in tasks {
            match t.await {
                Ok(v) => events.extend(v),
                Err(e) => fail!("panic", "a catalog operation panics: {e}"),
            }
        }
        let last = observe(&*repos[0], &names, ALL).await?;
        for r in &repos {
            r.executor.close().await;
        }
        Ok::<_, Fail>((events, last))
    })?;
    let mut text = log.clone();
    let mut sorted: Vec<&Event> = events.iter().collect();
    sorted.sort_by_key(|e| e.begin);
    for e in &sorted {
        text.push(format!("client {} [{}..{}] {} -> {}", e.client, e.begin, e.end, dbg_short(&e.act), dbg_short(&e.got)));
    }
    ctx.describe(text.join("\n"));
    let overlap = events.iter().any(|a| events.iter().any(|b| a.client != b.client && a.begin < b.end && b.begin < a.end));
    ctx.label(if shared { "one shared connection" } else { "own connections" });
    ctx.label(if overlap { "overlapping" } else { "not overlapping" });
    let (mut best, mut budget) = (0, 400_000u64);
    let ok = linearise(&m, &events, &mut vec![], &last, &mut best, &mut budget);
    if budget == 0 {
        ctx.label("search given up");
    }
    if !ok {
        let odd = events.iter().find(|e| matches!(&e.got, Got::Write(Err(x)) | Got::Lines(Err(x)) if kind(x) == Kind::Other));
        let sig = if odd.is_some() { "unexplained-error" } else { "no-order" };
        fail!(sig, "no order of the operations explains what they returned and what is there at the end (at most {best} of {} explained):\n{}\nat the end:\n{}", events.len(), text.join("\n"), last.join("\n"));
    }
    if overlap {
        ctx.nontrivial(&text);
    }
    Ok(())
}

/// a catalog opened read-only
fn read_only(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut log = vec![];
    let res = block_on(async {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("db").to_string_lossy().to_string();
        let n = s.urange(1, 3);
        let names = names(s, n);
        let mode = *s.pick(&[SqliteJournalMode::Wal, SqliteJournalMode::Delete]);
        let mut rw = Some(SqliteRepository::try_new(path.clone(), mode).await.map_err(|e| Fail::new("open", format!("{e:?}")))?);
        let mut m = Model::default();
        let w = [2, 3, 8, 5, 1, 3, 5, 1, 1, 1, 0, 0, 0];
        for _ in 0..s.urange(2, 12) {
            let op = m.gen(s, &names, &w);
            let out = m.step(rw.as_ref().unwrap(), &op).await?;
            log.push(format!("{op:?} -> {out:?}"));
        }
        let alone = s.bool();
        if alone {
            rw.take().unwrap().executor.close().await;
        }
        ctx.label(format!("{mode:?}, writer {}", if alone { "closed" } else { "open" }));
        let ro = match SqliteRepository::try_new_read_only(path.clone(), mode).await {
            Ok(r) => r,
            Err(e) => fail!("open", "the catalog does not open read-only ({mode:?}): {e:?}"),
        };
        let writes = s.urange(1, 8);
        for _ in 0..writes {
            compare(&ro, &m, &names, ALL, "opening read-only").await?;
            probe(s, &ro, &m, &names).await?;
            let op = m.gen(s, &names, &[2, 2, 4, 3, 2, 3, 3, 2, 2, 2, 2, 0, 0]);
            let got = exec(&ro, &op).await;
            let harmless = matches!(&got, Ok(Out::Count(0)));
            if got.is_ok() && !harmless {
                fail!("written", "{} succeeds on a read-only catalog: {}", dbg_short(&op), dbg_short(&got));
            }
            log.push(format!("read-only: {op:?} -> refused"));
            if let Some(r) = &rw {
                let op = m.gen(s, &names, &w);
                let out = m.step(r, &op).await?;
                log.push(format!("{op:?} -> {out:?}"));
            }
        }
        compare(&ro, &m, &names, ALL, "writing to a read-only catalog").await?;
        ro.executor.close().await;
        if let Some(r) = rw {
            r.executor.close().await;
        }
        let r = open(&path).await?;
        compare(&r, &m, &names, ALL, "reopening it for writing").await?;
        r.executor.close().await;
        Ok(m)
    });
    ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
    let m = res?;
    if m.tables().count() > 0 {
        ctx.nontrivial(&log);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C14",
        rule: "non-trivial: operations of different clients overlap in time (concurrent); the read-only catalog has at least one table (read-only). Distinct by history with timing.",
        assumptions: &[
            "schedules are those the operating system and the random pauses give, so a violation may take several runs to reproduce",
            "deleting nothing from a read-only catalog may succeed",
        ],
        legs: vec![leg("concurrent", 1500, 60_000, concurrent), leg("read-only", 250, 8_000, read_only)],
    })
}
