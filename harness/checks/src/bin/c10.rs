//! C10: the catalog behaves like a map from names to objects.
use arrow_schema::{DataType, Field, Schema};
use checks::catmodel::*;
use pbt::*;
use seafowl::repository::interface::Repository;

const SEE: What = What { objects: true, columns: true, versions: false, dropped: false };

fn history(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(2, 5);
    let names = names(s, n);
    let steps = s.urange(3, 40);
    let w = match s.usize(3) {
        0 => [3, 5, 8, 1, 0, 6, 5, 3, 3, 2, 1, 0, 0],
        1 => [2, 4, 10, 1, 0, 10, 1, 1, 3, 1, 0, 0, 0],
        _ => [4, 4, 5, 1, 1, 4, 8, 6, 2, 2, 2, 0, 0],
    };
    let mut log = vec![];
    let r = block_on(async {
        let r = memory().await?;
        let mut m = Model::default();
        for k in 0..steps {
            let op = m.gen(s, &names, &w);
            let out = m.step(&r, &op).await?;
            ctx.label(format!("{}: {}", op.name(), out.err().map(|k| format!("{k:?}")).unwrap_or("ok".into())));
            log.push(format!("{op:?} -> {out:?}"));
            if out.is_err() || s.chance(1, 3) || k + 1 == steps {
                compare(&r, &m, &names, SEE, &log[log.len() - 1]).await?;
            }
            if s.chance(1, 6) {
                probe(s, &r, &m, &names).await?;
            }
            if s.chance(1, 60) {
                r.setup().await;
                compare(&r, &m, &names, SEE, "setting up again").await?;
            }
        }
        r.executor.close().await;
        Ok(m)
    });
    ctx.describe(log.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
    let m = r?;
    if m.tables().count() + m.dbs.iter().map(|d| d.funcs.len()).sum::<usize>() > 0 {
        ctx.nontrivial(&log);
    }
    Ok(())
}

/// many objects at once, names of every kind in the same parent
fn crowd(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let names: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
    let r = block_on(async {
        let r = memory().await?;
        let mut m = Model::default();
        let mut ops = vec![];
        for n in s.subset(&names).into_iter().take(4) {
            ops.push(Op::CreateDb(n));
        }
        for op in &ops {
            let _ = m.step(&r, op).await?;
        }
        for d in m.dbs.iter().map(|d| d.id).collect::<Vec<_>>() {
            for n in s.subset(&names).into_iter().take(8) {
                let _ = m.step(&r, &Op::CreateColl(d, n)).await?;
            }
            for n in s.subset(&names) {
                let _ = m.step(&r, &Op::CreateFunc(d, n, s.bool(), details(s))).await?;
            }
        }
        for c in m.colls().map(|c| c.1.id).collect::<Vec<_>>() {
            for n in s.subset(&names).into_iter().take(6) {
                let _ = m.step(&r, &Op::CreateTable(c, n, schema(s, 3), uuid(s))).await?;
            }
        }
        compare(&r, &m, &names, SEE, "creating them").await?;
        probe(s, &r, &m, &names).await?;
        // then take some away
        for _ in 0..4 {
            let op = m.gen(s, &names, &[0, 0, 0, 0, 0, 6, 0, 2, 4, 2, 1, 0, 0]);
            let out = m.step(&r, &op).await?;
            compare(&r, &m, &names, SEE, &format!("{} ({out:?})", op.name())).await?;
        }
        r.executor.close().await;
        Ok(m)
    });
    let m = r?;
    let key: Vec<String> = m.lines(SEE);
    ctx.describe(format!("{} objects, e.g. {:?}", key.len(), key.iter().take(5).collect::<Vec<_>>()));
    ctx.label_n("objects", key.len() as u64);
    if key.len() > 10 {
        ctx.nontrivial(&key);
    }
    Ok(())
}

/// tables with very many columns
fn wide(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = *s.pick(&[4000, 11_000, 14_000, 22_000, 10_922, 10_923, 5_000, 10_000]);
    let n = if s.bool() { n } else { s.urange(300, 12_000) };
    let dup = s.chance(1, 3);
    let mut fields: Vec<Field> = (0..n).map(|i| Field::new(format!("c{i}"), DataType::Int64, i % 2 == 0)).collect();
    if dup {
        let (i, j) = (s.usize(n), s.usize(n));
        if i != j {
            fields[i] = fields[j].clone();
        }
    }
    let names = vec!["d".to_string(), "c".into(), "t".into()];
    ctx.describe(format!("a table with {n} columns, one of them twice: {dup}"));
    ctx.nontrivial(&(n, dup));
    block_on(async {
        let r = memory().await?;
        let mut m = Model::default();
        let _ = m.step(&r, &Op::CreateDb("d".into())).await?;
        let _ = m.step(&r, &Op::CreateColl(m.dbs[0].id, "c".into())).await?;
        let coll = m.dbs[0].colls[0].id;
        for _ in 0..2 {
            let out = m.step(&r, &Op::CreateTable(coll, "t".into(), Schema::new(fields.clone()), uuid(s))).await?;
            compare(&r, &m, &names, SEE, &format!("creating a table with {n} columns ({out:?})")).await?;
        }
        r.executor.close().await;
        Ok(())
    })
}

fn main() {
    pbt::main(Property {
        id: "C10",
        rule: "non-trivial: the history leaves tables or functions (history), or more than ten objects (crowd); every wide table. Distinct by history, contents or size.",
        assumptions: &[
            "DROP FUNCTION of a list of which only some exist may drop those or fail",
            "identifiers may be reused once the object is gone",
            "SQLite catalog; the queries are shared with the Postgres one, which cannot run here",
        ],
        legs: vec![leg("history", 1500, 60_000, history), leg("crowd", 150, 5_000, crowd), leg("wide", 16, 200, wide)],
    })
}
