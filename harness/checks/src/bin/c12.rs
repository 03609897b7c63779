//! C12: the cleanup queue of dropped tables keeps every entry until it is removed.
use checks::catmodel::*;
use pbt::*;
use seafowl::repository::interface::{DroppedTableDeletionStatus as Status, Repository};

const SEE: What = What { objects: true, columns: false, versions: false, dropped: true };

fn history(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 4);
    let names = names(s, n);
    let steps = s.urange(2, 30);
    let w = [1, 1, 2, 0, 0, 1, 0, 0, 2, 1, 1, 12, 6];
    let mut log = vec![];
    let mut touched = 0;
    let r = block_on(async {
        let r = memory().await?;
        let mut m = Model::default();
        for k in 0..steps {
            if s.chance(1, 3) || m.dropped.is_empty() {
                let d = Dropped {
                    db: s.pick(&names).clone(),
                    coll: s.pick(&names).clone(),
                    table: s.pick(&names).clone(),
                    uuid: uuid(s),
                    status: Status::Pending,
                    time: s.range(0, 4_000_000_000),
                };
                if m.dropped.iter().all(|x| x.uuid != d.uuid) {
                    sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid, drop_time) VALUES ($1, $2, $3, $4, $5)")
                        .bind(&d.db)
                        .bind(&d.coll)
                        .bind(&d.table)
                        .bind(d.uuid)
                        .bind(d.time)
                        .execute(&r.executor)
                        .await
                        .expect("queue a table");
                    log.push(format!("queued {d:?}"));
                    m.dropped.push(d);
                }
            }
            let op = m.gen(s, &names, &w);
            let out = m.step(&r, &op).await?;
            ctx.label(format!("{}: {}", op.name(), out.err().map(|k| format!("{k:?}")).unwrap_or("ok".into())));
            log.push(format!("{op:?} -> {out:?}"));
            if matches!(op, Op::SetDropped(..) | Op::DelDropped(..)) && out.is_ok() && m.dropped.len() > 0 {
                touched += 1;
            }
            if s.chance(1, 2) || k + 1 == steps {
                compare(&r, &m, &names, SEE, &log[log.len() - 1]).await?;
                for n in &names {
                    let mut got = r.get_dropped_tables(Some(n.clone())).await.map_err(|e| Fail::new("read", format!("get_dropped_tables({n:?}): {e:?}")))?;
                    got.sort_by_key(|d| d.uuid);
                    let mut want: Vec<&Dropped> = m.dropped.iter().filter(|d| d.db == *n).collect();
                    want.sort_by_key(|d| d.uuid);
                    let got: Vec<_> = got.into_iter().map(|d| (d.database_name, d.collection_name, d.table_name, d.uuid, d.deletion_status, d.drop_time)).collect();
                    let want: Vec<_> = want.iter().map(|d| (d.db.clone(), d.coll.clone(), d.table.clone(), d.uuid, d.status, d.time)).collect();
                    ensure_eq!(got, want, "listing", "entries listed for database {n:?}");
                }
            }
        }
        r.executor.close().await;
        Ok(())
    });
    ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
    r?;
    if touched > 0 {
        ctx.nontrivial(&log);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C12",
        rule: "non-trivial: an entry's status was set, or an entry removed, while others stay queued. Distinct by history.",
        assumptions: &["entries are queued by SQL: at this commit no catalog operation queues any (tables that are dropped leave their files at once)"],
        legs: vec![leg("history", 3000, 100_000, history)],
    })
}
