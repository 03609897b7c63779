//! C24: what is synced into tables ends up in them, and is called durable only once it has.
use arrow::array::*;
use arrow::datatypes::*;
use arrow::record_batch::RecordBatch;
use checks_full::env::*;
use checks_full::sqlmodel::V;
use clade::sync::{ColumnDescriptor, ColumnRole};
use deltalake::DeltaTable;
use object_store_factory::local::LocalConfig;
use object_store_factory::ObjectStoreConfig;
use pbt::*;
use seafowl_full::config::context::build_context;
use seafowl_full::context::SeafowlContext;
use seafowl_full::sync::schema::SyncSchema;
use seafowl_full::sync::{LakehouseSyncTarget, VerifSyncWriter};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const ORIGINS: [&str; 2] = ["origin-A", "origin-B"];
const NAMES: [&str; 10] = ["c1", "c2", "id", "value", "a_b", "Mixed", "two words", "x.y", "UPSERT", "c3"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    I32,
    I64,
    Text,
    Date,
    Bool,
    F64,
    Ts,
}

impl Ty {
    fn arrow(&self) -> DataType {
        match self {
            Ty::I32 => DataType::Int32,
            Ty::I64 => DataType::Int64,
            Ty::Text => DataType::Utf8,
            Ty::Date => DataType::Date32,
            Ty::Bool => DataType::Boolean,
            Ty::F64 => DataType::Float64,
            Ty::Ts => DataType::Timestamp(TimeUnit::Microsecond, Some("UTC".into())),
        }
    }
    fn value(&self, s: &mut Src, wide: bool) -> V {
        match self {
            Ty::I32 | Ty::I64 if wide => V::I(s.range(-40, 60)),
            Ty::I32 | Ty::I64 => V::I(s.range(-1, 5)),
            Ty::Text if wide => V::S(format!("{}{}", s.pick(&["", "k", "Z", "é"]), s.below(30))),
            Ty::Text => V::S(s.pick(&["", "a", "b", "A", "é", "a b"]).to_string()),
            Ty::Date => V::D(s.range(-2, if wide { 60 } else { 4 })),
            Ty::Bool => V::B(s.bool()),
            Ty::F64 => V::F(s.range(-8, 8) as f64 / 4.0),
            Ty::Ts => V::T(s.range(-3, 9) * 1_234_567),
        }
    }
    fn array(&self, vs: &[V]) -> ArrayRef {
        let ints = |vs: &[V]| -> Vec<Option<i64>> {
            vs.iter()
                .map(|v| match v {
                    V::I(i) | V::D(i) | V::T(i) => Some(*i),
                    _ => None,
                })
                .collect()
        };
        match self {
            Ty::I32 => Arc::new(Int32Array::from_iter(ints(vs).into_iter().map(|v| v.map(|v| v as i32)))),
            Ty::I64 => Arc::new(Int64Array::from_iter(ints(vs))),
            Ty::Date => Arc::new(Date32Array::from_iter(ints(vs).into_iter().map(|v| v.map(|v| v as i32)))),
            Ty::Ts => Arc::new(TimestampMicrosecondArray::from_iter(ints(vs)).with_timezone("UTC")),
            Ty::Text => Arc::new(StringArray::from_iter(vs.iter().map(|v| match v {
                V::S(x) => Some(x.as_str()),
                _ => None,
            }))),
            Ty::Bool => Arc::new(BooleanArray::from_iter(vs.iter().map(|v| match v {
                V::B(b) => Some(*b),
                _ => None,
            }))),
            Ty::F64 => Arc::new(Float64Array::from_iter(vs.iter().map(|v| match v {
                V::F(f) => Some(*f),
                _ => None,
            }))),
        }
    }
}

type Key = Vec<String>;

fn key(pk: &[V]) -> Key {
    pk.iter().map(V::key).collect()
}

#[derive(Clone, Debug)]
struct Row {
    pk: Vec<V>,
    vals: Vec<V>,
    /// the transaction in which the row got its key
    born: usize,
}

/// What the pending messages carry for a row: the columns by the item that has them.
type Carried = BTreeMap<usize, BTreeSet<usize>>;

struct Tbl {
    path: String,
    url: String,
    pk: Vec<(String, Ty)>,
    vals: Vec<(String, Ty)>,
    wide: bool,
    started: bool,
    rows: BTreeMap<Key, Row>,
    used: BTreeSet<Key>,
    /// what the last flush left
    flushed: Vec<String>,
    items: usize,
    last: Option<Shape>,
    /// rows before the pending messages
    base: BTreeSet<Key>,
    carried: BTreeMap<Key, Carried>,
    touched_base: bool,
    /// cells, and keys of rows, that known defects spoil
    spoiled: BTreeSet<(Key, usize)>,
    stale: BTreeSet<Key>,
}

/// The columns of a message: their roles and names in order.
type Shape = Vec<(ColumnRole, String)>;

impl Tbl {
    fn bag(&self) -> Vec<String> {
        let mut out: Vec<String> = self
            .rows
            .values()
            .map(|r| r.pk.iter().chain(&r.vals).map(V::key).collect::<Vec<_>>().join(", "))
            .collect();
        out.sort();
        out
    }
    fn flush(&mut self) {
        self.flushed = self.bag();
        self.items = 0;
        self.last = None;
        self.base = self.rows.keys().cloned().collect();
        self.carried.clear();
        self.touched_base = false;
    }
    fn store(&self, ctx: &SeafowlContext) -> LakehouseSyncTarget {
        LakehouseSyncTarget::Delta(ctx.internal_object_store.clone().unwrap().get_log_store(&self.path))
    }
    async fn check(&self, ctx: &SeafowlContext) -> Result<(), Fail> {
        let LakehouseSyncTarget::Delta(log) = self.store(ctx) else { unreachable!() };
        let mut table = DeltaTable::new(log, Default::default());
        if let Err(e) = table.load().await {
            ensure!(self.flushed.is_empty(), "table can't be read", "{}: {}", self.path, short(&e.to_string()));
            return Ok(());
        }
        let bad = |e: datafusion::error::DataFusionError| Fail::new("table can't be read", format!("{}: {}", self.path, short(&e.to_string())));
        let batches = ctx.inner().read_table(Arc::new(table)).map_err(bad)?.collect().await.map_err(bad)?;
        let mut got = vec![];
        for b in &batches {
            let want: Vec<&String> = self.pk.iter().chain(&self.vals).map(|(n, _)| n).collect();
            let mut names: Vec<&String> = b.schema_ref().fields().iter().map(|f| f.name()).collect();
            names.sort();
            let mut sorted = want.clone();
            sorted.sort();
            ensure_eq!(names, sorted, "table columns", "of {}", self.path);
            let cols: Vec<usize> = want.iter().map(|n| b.schema().index_of(n).unwrap()).collect();
            got.extend(rows(&[b.project(&cols).unwrap()]).map_err(|e| Fail::new("table columns", e))?);
        }
        let mut got: Vec<String> = got.iter().map(|r| r.iter().map(V::key).collect::<Vec<_>>().join(", ")).collect();
        got.sort();
        if got == self.flushed {
            return Ok(());
        }
        // is it just what a known defect does?
        let n = self.pk.len();
        let split = |bag: &[String]| -> BTreeMap<Key, Vec<String>> {
            bag.iter()
                .map(|r| {
                    let cells: Vec<String> = r.split(", ").map(String::from).collect();
                    (cells[..n].to_vec(), cells[n..].to_vec())
                })
                .collect()
        };
        let (mut have, want) = (split(&got), split(&self.flushed));
        if have.len() == got.len() && want.len() == self.flushed.len() {
            have.retain(|k, _| want.contains_key(k) || !self.stale.contains(k));
            let same = have.len() == want.len()
                && have.iter().zip(&want).all(|((k, a), (l, b))| {
                    k == l && a.iter().zip(b).enumerate().all(|(c, (x, y))| x == y || self.spoiled.contains(&(k.clone(), c)))
                });
            let what = match (self.stale.is_empty(), self.spoiled.is_empty()) {
                (false, true) => "stale row after messages are sent again",
                _ => "column not sent again is lost",
            };
            ensure!(!same, what, "{}\n  expected: {:?}\n  observed: {got:?}", self.path, self.flushed);
        }
        ensure_eq!(got, self.flushed, "table contents", "of {} after a flush", self.path);
        Ok(())
    }
}

struct Tx {
    origin: usize,
    seq: Option<u64>,
    pending: BTreeSet<String>,
    durable: bool,
}

#[derive(Clone)]
struct Message {
    tx: usize,
    origin: usize,
    seq: Option<u64>,
    table: usize,
    schema: SyncSchema,
    batches: Vec<RecordBatch>,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    Faults,
    Crash,
    /// (these do what the others avoid: they show known defects)
    Merge,
    Rekey,
    Young,
}

struct World {
    ctx: Arc<SeafowlContext>,
    writer: VerifSyncWriter,
    tables: Vec<Tbl>,
    txs: Vec<Tx>,
    open: Option<usize>,
    memory: [Option<u64>; 2],
    durable: [Option<u64>; 2],
    next_seq: [u64; 2],
    log: Vec<Message>,
    max_syncs: usize,
    lag: u64,
    small: bool,
}

impl World {
    fn advance(&mut self) {
        for tx in self.txs.iter_mut().filter(|t| !t.durable) {
            match tx.seq {
                Some(seq) if tx.pending.is_empty() => {
                    self.durable[tx.origin] = Some(seq);
                    tx.durable = true;
                }
                _ => break,
            }
        }
    }
    fn flushed(&mut self, url: &str) {
        for tx in &mut self.txs {
            tx.pending.remove(url);
        }
        if let Some(t) = self.tables.iter_mut().find(|t| t.url == url) {
            t.flush();
        }
        self.advance();
    }
    fn check_sequences(&self) -> Result<(), Fail> {
        for (i, o) in ORIGINS.iter().enumerate() {
            let (mem, dur) = self.writer.stored_sequences(&o.to_string());
            ensure_eq!(mem, self.memory[i], "memory sequence", "of {o}");
            ensure!(
                dur <= self.durable[i],
                "durable sequence ahead",
                "{o} is called durable up to {dur:?}, but it is in its tables only up to {:?}",
                self.durable[i]
            );
            ensure_eq!(dur, self.durable[i], "durable sequence", "of {o}");
        }
        let mut pending = self.writer.pending_tables();
        pending.sort();
        let mut want: Vec<String> = self.tables.iter().filter(|t| t.items > 0).map(|t| t.url.clone()).collect();
        want.sort();
        ensure_eq!(pending, want, "pending tables", "");
        Ok(())
    }
}

fn field_name(style: u64, role: ColumnRole, name: &str, i: usize) -> String {
    match style {
        0 => format!("{}_{name}", role.as_str_name().to_lowercase()),
        1 => format!("f{i}"),
        _ => format!("{}:{name}", role.as_str_name()),
    }
}

/// One valid message for a table, with its effect on the model.
fn message(s: &mut Src, t: &mut Tbl, tx: usize, durable: &dyn Fn(usize) -> bool, mode: Mode, trail: &mut String) -> Option<(SyncSchema, Vec<RecordBatch>)> {
    let crash = matches!(mode, Mode::Crash | Mode::Young);
    // columns
    let full = crash || !t.started || s.chance(1, 2);
    let mut shape: Shape = vec![];
    let reuse = t.last.is_some() && s.chance(1, 2);
    if reuse {
        shape = t.last.clone().unwrap();
    } else {
        for (n, _) in &t.pk {
            shape.push((ColumnRole::OldPk, n.clone()));
        }
        for (n, _) in &t.pk {
            shape.push((ColumnRole::NewPk, n.clone()));
        }
        for (n, _) in &t.vals {
            if full || s.chance(2, 3) {
                if !crash && s.chance(1, 3) {
                    shape.push((ColumnRole::Changed, n.clone()));
                }
                shape.push((ColumnRole::Value, n.clone()));
            }
        }
        if s.chance(1, 3) {
            s.shuffle(&mut shape);
        }
    }
    let item = match &t.last {
        Some(l) if *l == shape => t.items,
        _ => t.items + 1,
    };
    let has = |role: ColumnRole, n: &str| shape.iter().any(|(r, m)| *r == role && m == n);
    let present: Vec<usize> = (0..t.vals.len()).filter(|i| has(ColumnRole::Value, &t.vals[*i].0)).collect();
    let flagged: Vec<usize> = (0..t.vals.len()).filter(|i| has(ColumnRole::Changed, &t.vals[*i].0)).collect();
    let whole = present.len() == t.vals.len();
    // rows: (old key, new key, values and whether they are said to be changed)
    let mut out: Vec<(Option<Vec<V>>, Option<Vec<V>>, Vec<V>, Vec<bool>)> = vec![];
    let n = s.urange(1, 5);
    for _ in 0..n {
        // columns which this row has to carry because an earlier pending item does
        let must = |t: &Tbl, k: &Key| -> BTreeSet<usize> {
            if mode == Mode::Merge {
                return Default::default();
            }
            t.carried.get(k).map(|c| c.iter().filter(|(i, _)| **i < item).flat_map(|(_, c)| c.clone()).collect()).unwrap_or_default()
        };
        let fits = |t: &Tbl, k: &Key| must(t, k).iter().all(|c| present.contains(c));
        let touchable: Vec<Key> = t.rows.keys().filter(|k| fits(t, k)).cloned().collect();
        let old_enough: Vec<Key> = touchable.iter().filter(|k| mode != Mode::Crash || durable(t.rows[*k].born)).cloned().collect();
        let fresh: Vec<V> = t.pk.iter().map(|(_, ty)| ty.value(s, t.wide)).collect();
        let k = key(&fresh);
        let free = !t.rows.contains_key(&k);
        let vals: Vec<V> = t.vals.iter().map(|(_, ty)| if s.chance(1, 5) { V::Null } else { ty.value(s, true) }).collect();
        let mut changed = vec![true; t.vals.len()];
        let mut carry: BTreeSet<usize> = present.iter().copied().collect();
        match s.below(8) {
            0..=2 if free && (whole || !t.used.contains(&k)) => {
                // a new row
                let lax = !t.used.contains(&k);
                let mut row = vals.clone();
                for c in 0..t.vals.len() {
                    if !present.contains(&c) {
                        row[c] = V::Null;
                    } else if flagged.contains(&c) && lax && s.chance(1, 4) {
                        changed[c] = false;
                        carry.remove(&c);
                        row[c] = V::Null;
                    }
                }
                t.used.insert(k.clone());
                t.rows.insert(k.clone(), Row { pk: fresh.clone(), vals: row, born: tx });
                t.carried.insert(k, BTreeMap::from([(item, carry)]));
                out.push((None, Some(fresh), vals, changed));
            }
            3 | 4 if !touchable.is_empty() => {
                // new values
                let k = s.pick(&touchable).clone();
                let need = must(t, &k);
                let earlier: BTreeSet<usize> =
                    t.carried.get(&k).map(|c| c.iter().filter(|(i, _)| **i < item).flat_map(|(_, c)| c.clone()).collect()).unwrap_or_default();
                let row = t.rows.get_mut(&k).unwrap();
                let pk = row.pk.clone();
                for c in &present {
                    if flagged.contains(c) && !need.contains(c) && s.bool() {
                        changed[*c] = false;
                        carry.remove(c);
                    } else {
                        row.vals[*c] = vals[*c].clone();
                    }
                }
                t.touched_base |= t.base.contains(&k);
                for c in earlier.iter().filter(|c| !carry.contains(c)) {
                    t.spoiled.insert((k.clone(), *c));
                }
                t.carried.entry(k).or_default().entry(item).or_default().extend(carry);
                out.push((Some(pk.clone()), Some(pk), vals, changed));
            }
            5 if (whole || mode == Mode::Rekey) && free && !old_enough.is_empty() => {
                // a new key
                let old = s.pick(&old_enough).clone();
                let row = t.rows.remove(&old).unwrap();
                if !durable(row.born) {
                    t.stale.insert(old.clone());
                }
                let mut vals = vals;
                let mut new = row.vals.clone();
                for c in 0..t.vals.len() {
                    if mode == Mode::Rekey && present.contains(&c) && flagged.contains(&c) && s.bool() {
                        changed[c] = false;
                        vals[c] = V::Null;
                        carry.remove(&c);
                    }
                    if carry.contains(&c) {
                        new[c] = vals[c].clone();
                    } else {
                        t.spoiled.insert((k.clone(), c));
                    }
                }
                let spoiled: Vec<usize> = t.spoiled.iter().filter(|(k, _)| *k == old).map(|(_, c)| *c).collect();
                t.spoiled.extend(spoiled.into_iter().map(|c| (k.clone(), c)));
                let mut carried = t.carried.remove(&old).unwrap_or_default();
                carried.entry(item).or_default().extend(carry);
                t.used.insert(k.clone());
                t.touched_base |= t.base.contains(&old);
                t.rows.insert(k.clone(), Row { pk: fresh.clone(), vals: new, born: tx });
                t.carried.insert(k, carried);
                out.push((Some(row.pk), Some(fresh), vals, changed));
            }
            6 | 7 if !old_enough.is_empty() => {
                let k = s.pick(&old_enough).clone();
                let row = t.rows.remove(&k).unwrap();
                if !durable(row.born) {
                    t.stale.insert(k.clone());
                }
                t.carried.remove(&k);
                t.touched_base |= t.base.contains(&k);
                let vals = if s.bool() { vals } else { vec![V::Null; t.vals.len()] };
                out.push((Some(row.pk), None, vals, vec![s.bool(); t.vals.len()]));
            }
            _ => {}
        }
    }
    if out.is_empty() {
        return None;
    }
    t.started = true;
    t.items = item;
    t.last = Some(shape.clone());
    // arrow
    let style = s.below(3);
    let mut fields = vec![];
    let mut arrays: Vec<ArrayRef> = vec![];
    let mut desc = vec![];
    for (i, (role, name)) in shape.iter().enumerate() {
        let pos = |cols: &[(String, Ty)]| cols.iter().position(|(n, _)| n == name).unwrap();
        let (ty, array) = match role {
            ColumnRole::OldPk | ColumnRole::NewPk => {
                let c = pos(&t.pk);
                let vs: Vec<V> = out
                    .iter()
                    .map(|(o, n, _, _)| if *role == ColumnRole::OldPk { o } else { n }.as_ref().map_or(V::Null, |p| p[c].clone()))
                    .collect();
                (t.pk[c].1, t.pk[c].1.array(&vs))
            }
            ColumnRole::Value => {
                let c = pos(&t.vals);
                let vs: Vec<V> = out.iter().map(|(_, _, v, _)| v[c].clone()).collect();
                (t.vals[c].1, t.vals[c].1.array(&vs))
            }
            ColumnRole::Changed => {
                let c = pos(&t.vals);
                let vs: Vec<V> = out.iter().map(|(_, _, _, ch)| V::B(ch[c])).collect();
                (Ty::Bool, Ty::Bool.array(&vs))
            }
        };
        let nullable = array.null_count() > 0 || s.chance(3, 4);
        fields.push(Field::new(field_name(style, *role, name, i), ty.arrow(), nullable));
        arrays.push(array);
        desc.push(ColumnDescriptor { role: *role as i32, name: name.clone() });
    }
    let schema = Arc::new(Schema::new(fields));
    let batch = RecordBatch::try_new(schema.clone(), arrays).expect("a batch");
    let mut batches = vec![];
    let mut at = 0;
    while at < batch.num_rows() {
        let n = s.urange(1, batch.num_rows() - at);
        batches.push(batch.slice(at, n));
        at += n;
    }
    if s.chance(1, 10) {
        batches.insert(s.usize(batches.len() + 1), RecordBatch::new_empty(schema.clone()));
    }
    let show = |p: &Option<Vec<V>>| p.as_ref().map_or("-".to_string(), |p| p.iter().map(V::key).collect::<Vec<_>>().join("/"));
    let cols: Vec<String> = shape.iter().filter(|(r, _)| *r != ColumnRole::OldPk && *r != ColumnRole::NewPk).map(|(r, n)| format!("{}{n}", if *r == ColumnRole::Changed { "?" } else { "" })).collect();
    *trail += &format!("{} item {item} [{}]", t.path, cols.join(" "));
    for (o, n, v, ch) in &out {
        let vs: Vec<String> = present.iter().map(|c| if flagged.contains(c) && !ch[*c] { "(same)".into() } else { v[*c].key() }).collect();
        *trail += &format!("\n     {} -> {}  {}", show(o), show(n), vs.join(", "));
    }
    Some((SyncSchema::try_new(desc, schema, true).expect("a valid sync schema"), batches))
}

async fn go(s: &mut Src, ctx: &mut Ctx, mode: Mode, dir: Option<&std::path::Path>, trail: &mut Vec<String>) -> Result<(), Fail> {
    let part = *s.pick(&[1000, 2, 3, 7]);
    let mut conf = match dir {
        Some(d) => {
            std::fs::create_dir_all(d.join("data")).unwrap();
            let store = ObjectStoreConfig::Local(LocalConfig { data_dir: d.join("data").to_str().unwrap().to_string(), disable_hardlinks: false });
            config(store, "sqlite://:memory:".into(), part)
        }
        None => config(ObjectStoreConfig::Memory, "sqlite://:memory:".into(), part),
    };
    let sc = &mut conf.misc.sync_conf;
    sc.max_replication_lag_s = if s.chance(1, 6) { 0 } else { 600 };
    let small = s.chance(1, 5);
    sc.max_in_memory_bytes = if small { *s.pick(&[1, 2000, 20000]) } else { usize::MAX };
    sc.max_syncs_per_url = *s.pick(&[100, 2, 3, 5]);
    let (lag, max_syncs) = (sc.max_replication_lag_s, sc.max_syncs_per_url);
    // the number of rows of which files are said to be made decides how files are looked for
    let scale = if s.chance(1, 3) { 10_000_000 } else { 0 };
    deltalake::kernel::add_to_num_records(scale);
    trail.push(format!("{} rows per file, lag {lag}, memory {}, messages {max_syncs}, records +{scale}", part, sc.max_in_memory_bytes));
    let cx = Arc::new(build_context(conf).await.expect("a context"));
    let mut tables = vec![];
    for i in 0..s.urange(1, 3) {
        let mut names: Vec<&str> = NAMES.to_vec();
        s.shuffle(&mut names);
        let mut cols = |s: &mut Src, n: usize, tys: &[Ty]| -> Vec<(String, Ty)> {
            (0..n).map(|_| (names.pop().unwrap().to_string(), *s.pick(tys))).collect()
        };
        let n = s.urange(1, 3).min(2);
        let pk = cols(s, n, &[Ty::I32, Ty::I64, Ty::Text, Ty::Date]);
        let n = s.urange(1, 4);
        let vals = cols(s, n, &[Ty::I32, Ty::Text, Ty::F64, Ty::Bool, Ty::I64, Ty::Date, Ty::Ts]);
        let path = format!("table_{i}");
        let url = cx.internal_object_store.clone().unwrap().get_log_store(&path).root_uri();
        trail.push(format!("{path}: {pk:?} {vals:?}"));
        tables.push(Tbl {
            path,
            url,
            pk,
            vals,
            wide: s.bool(),
            started: false,
            rows: Default::default(),
            used: Default::default(),
            flushed: vec![],
            items: 0,
            last: None,
            base: Default::default(),
            carried: Default::default(),
            touched_base: false,
            spoiled: Default::default(),
            stale: Default::default(),
        });
    }
    let mut w = World {
        writer: VerifSyncWriter::new(cx.clone()),
        ctx: cx,
        tables,
        txs: vec![],
        open: None,
        memory: [None; 2],
        durable: [None; 2],
        next_seq: [1; 2],
        log: vec![],
        max_syncs,
        lag,
        small,
    };
    let steps = s.urange(6, 40);
    let (mut messages, mut flushes, mut multi) = (0, 0, 0);
    for _ in 0..steps {
        match s.below(16) {
            0..=10 => {
                let origin = match w.open {
                    Some(tx) => w.txs[tx].origin,
                    None => s.usize(2),
                };
                if w.open.is_some() && s.chance(1, 20) {
                    // another origin in the middle of a transaction
                    let t = &w.tables[s.usize(w.tables.len())];
                    let mut spare = Tbl { rows: Default::default(), used: Default::default(), base: Default::default(), carried: Default::default(), last: None, flushed: vec![], spoiled: Default::default(), stale: Default::default(), path: t.path.clone(), url: t.url.clone(), pk: t.pk.clone(), vals: t.vals.clone(), ..*t };
                    let (store, mut text) = (t.store(&w.ctx), String::new());
                    if let Some((schema, batches)) = message(s, &mut spare, 0, &|_| true, mode, &mut text) {
                        let seq = s.bool().then_some(w.next_seq[1 - origin]);
                        let r = w.writer.enqueue_sync(store, seq, ORIGINS[1 - origin].into(), schema, batches);
                        ctx.label("two origins in one transaction");
                        trail.push(format!("refused: {text}"));
                        ensure!(r.is_err(), "mixed transaction accepted", "a message of {} was taken in a transaction of {}", ORIGINS[1 - origin], ORIGINS[origin]);
                    }
                    w.check_sequences()?;
                    continue;
                }
                let closing = s.chance(1, 2);
                let seq = closing.then(|| w.next_seq[origin] + s.below(3));
                if closing && s.chance(1, 6) {
                    // no rows
                    let t = &w.tables[s.usize(w.tables.len())];
                    let r = w.writer.enqueue_sync(t.store(&w.ctx), seq, ORIGINS[origin].into(), SyncSchema::empty(), vec![]);
                    match w.open.take() {
                        Some(tx) => {
                            trail.push(format!("tx {tx} of {} ends with {seq:?}", ORIGINS[origin]));
                            ctx.label("empty end");
                            r.map_err(|e| Fail::new("message refused", e.to_string()))?;
                            w.txs[tx].seq = seq;
                            w.memory[origin] = seq;
                            w.next_seq[origin] = seq.unwrap() + 1;
                            let (table, schema) = (0, SyncSchema::empty());
                            w.log.push(Message { tx, origin, seq, table, schema, batches: vec![] });
                        }
                        None => ensure!(r.is_err(), "empty transaction accepted", "an empty transaction of {} was taken", ORIGINS[origin]),
                    }
                } else {
                    let (tx, new) = match w.open {
                        Some(tx) => (tx, false),
                        None => (w.txs.len(), true),
                    };
                    let i = s.usize(w.tables.len());
                    let mut text = format!("tx {tx} of {} {}: ", ORIGINS[origin], seq.map_or("...".into(), |q| format!("ends with {q}")));
                    let txs = &w.txs;
                    let durable = |n: usize| txs.get(n).is_some_and(|t| t.durable);
                    let Some((schema, batches)) = message(s, &mut w.tables[i], tx, &durable, mode, &mut text) else { continue };
                    trail.push(text);
                    if new {
                        w.txs.push(Tx { origin, seq: None, pending: Default::default(), durable: false });
                        w.open = Some(tx);
                    }
                    let t = &w.tables[i];
                    w.txs[tx].pending.insert(t.url.clone());
                    w.log.push(Message { tx, origin, seq, table: i, schema: schema.clone(), batches: batches.clone() });
                    w.writer
                        .enqueue_sync(t.store(&w.ctx), seq, ORIGINS[origin].into(), schema, batches)
                        .map_err(|e| Fail::new("message refused", e.to_string()))?;
                    messages += 1;
                    if w.tables[i].items > 1 {
                        multi += 1;
                    }
                    if seq.is_some() {
                        w.txs[tx].seq = seq;
                        w.open = None;
                        w.memory[origin] = seq;
                        w.next_seq[origin] = seq.unwrap() + 1;
                    }
                }
                w.check_sequences()?;
                if s.chance(1, 3) {
                    flush_all(s, ctx, &mut w, mode, trail).await?;
                    flushes += 1;
                }
            }
            11 | 12 => {
                flush_all(s, ctx, &mut w, mode, trail).await?;
                flushes += 1;
            }
            13 | 14 => {
                let pending = w.writer.pending_tables();
                if !pending.is_empty() {
                    let url = s.pick(&pending).clone();
                    flush_one(s, ctx, &mut w, mode, &url, trail).await?;
                    flushes += 1;
                }
            }
            _ if matches!(mode, Mode::Crash | Mode::Young) => {
                // all that isn't durable is lost and sent again
                trail.push("-- restart".into());
                ctx.label("restart");
                w.writer = VerifSyncWriter::new(w.ctx.clone());
                let again: Vec<Message> = w.log.iter().filter(|m| !w.txs[m.tx].durable).cloned().collect();
                for m in again {
                    let t = &w.tables[m.table];
                    w.writer
                        .enqueue_sync(t.store(&w.ctx), m.seq, ORIGINS[m.origin].into(), m.schema.clone(), m.batches.clone())
                        .map_err(|e| Fail::new("message refused", format!("after a restart: {e}")))?;
                    if s.chance(1, 3) {
                        if let Some(url) = w.writer.pending_tables().first() {
                            trail.push(format!("   flush {url} while it is sent again"));
                            w.writer.flush_table(url.clone()).await.map_err(|e| Fail::new("flush fails", short(&e.to_string())))?;
                        }
                    }
                }
                for url in w.writer.pending_tables() {
                    w.writer.flush_table(url).await.map_err(|e| Fail::new("flush fails", short(&e.to_string())))?;
                }
                w.writer.flush().await.map_err(|e| Fail::new("flush fails", short(&e.to_string())))?;
                let urls: Vec<String> = w.tables.iter().map(|t| t.url.clone()).collect();
                // (what a writer hasn't flushed itself it doesn't know to be durable)
                let known = |w: &World, o: usize| w.txs.iter().any(|t| t.origin == o && !t.durable && t.seq.is_some());
                let told = [known(&w, 0), known(&w, 1)];
                for o in 0..2 {
                    if !told[o] {
                        w.memory[o] = None;
                        w.durable[o] = None;
                    }
                }
                for u in urls {
                    w.flushed(&u);
                }
                w.check_sequences()?;
                for t in &w.tables {
                    t.check(&w.ctx).await?;
                }
                flushes += 1;
            }
            _ => {}
        }
    }
    for url in w.writer.pending_tables() {
        flush_one(s, ctx, &mut w, Mode::Plain, &url, trail).await?;
    }
    w.writer.flush().await.map_err(|e| Fail::new("flush fails", short(&e.to_string())))?;
    w.advance();
    w.check_sequences()?;
    for t in &w.tables {
        t.check(&w.ctx).await?;
    }
    ctx.label_n("messages", messages);
    ctx.label_n("flushes", flushes);
    ctx.label_n("messages that open another item", multi);
    if scale > 0 {
        ctx.label("many records");
    }
    if w.tables.iter().any(|t| t.pk.len() > 1) {
        ctx.label("composite key");
    }
    if messages >= 4 && flushes >= 2 {
        ctx.nontrivial(&trail);
    }
    Ok(())
}

fn arm(s: &mut Src, mode: Mode) -> Option<Arc<std::sync::atomic::AtomicBool>> {
    if mode != Mode::Faults || s.chance(1, 2) {
        return None;
    }
    let n = s.below(14);
    let hit = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (flag, mut k) = (hit.clone(), 0);
    deltalake::logstore::set_hook(Some(Box::new(move |_, _| {
        k += 1;
        if k == n + 1 {
            flag.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        k == n + 1
    })));
    Some(hit)
}

async fn flush_one(s: &mut Src, ctx: &mut Ctx, w: &mut World, mode: Mode, url: &str, trail: &mut Vec<String>) -> Result<(), Fail> {
    let hit = arm(s, mode);
    let r = w.writer.flush_table(url.to_string()).await;
    deltalake::logstore::set_hook(None);
    let hit = hit.is_some_and(|h| h.load(std::sync::atomic::Ordering::Relaxed));
    trail.push(format!("flush {url}{}", if hit { " with a fault" } else { "" }));
    let gone = !w.writer.pending_tables().contains(&url.to_string());
    match r {
        Ok(()) => ensure!(gone, "still pending", "{url} is still pending after a flush of it"),
        Err(e) => {
            ensure!(hit, "flush fails", "{url}: {}", short(&e.to_string()));
            ctx.label("failed flush");
        }
    }
    if gone {
        w.flushed(url);
    }
    w.check_sequences()?;
    for t in w.tables.iter().filter(|t| t.url == url) {
        t.check(&w.ctx).await?;
    }
    Ok(())
}

async fn flush_all(s: &mut Src, ctx: &mut Ctx, w: &mut World, mode: Mode, trail: &mut Vec<String>) -> Result<(), Fail> {
    let before = w.writer.pending_tables();
    let hit = arm(s, mode);
    let r = w.writer.flush().await;
    deltalake::logstore::set_hook(None);
    let hit = hit.is_some_and(|h| h.load(std::sync::atomic::Ordering::Relaxed));
    let after = w.writer.pending_tables();
    let gone: Vec<String> = before.iter().filter(|u| !after.contains(u)).cloned().collect();
    trail.push(format!("flush what is due: {gone:?}{}", if hit { " (with a fault)" } else { "" }));
    let failed = r.is_err();
    if let Err(e) = r {
        ensure!(hit, "flush fails", "{}", short(&e.to_string()));
        ctx.label("failed flush");
    }
    for t in &w.tables {
        let due = t.items >= w.max_syncs || w.lag == 0;
        if gone.contains(&t.url) {
            ensure!(due || w.small, "flushed early", "{} with {} items was flushed", t.path, t.items);
        } else if t.items > 0 && !failed {
            ensure!(!due, "not flushed in time", "{} with {} items wasn't flushed", t.path, t.items);
        }
    }
    for u in &gone {
        w.flushed(u);
    }
    if !failed {
        w.advance();
    }
    w.check_sequences()?;
    for t in w.tables.iter().filter(|t| gone.contains(&t.url)) {
        t.check(&w.ctx).await?;
    }
    Ok(())
}

fn case(s: &mut Src, ctx: &mut Ctx, mode: Mode) -> Result<(), Fail> {
    let dir = s.chance(1, 5).then(scratch);
    let mut trail = vec![];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(go(s, ctx, mode, dir.as_ref().map(|d| d.path()), &mut trail))));
    deltalake::logstore::set_hook(None);
    deltalake::kernel::add_to_num_records(0);
    for t in &trail {
        ctx.describe_more(format!("\n{t}"));
    }
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}

fn main() {
    pbt::main(Property {
        id: "C24",
        rule: "at least four messages and two flushes",
        assumptions: &[
            "the Delta Lake library is a stand-in (harness/stubs/deltalake) that keeps the same log and Parquet files",
            "messages describe a valid history: rows that are inserted don't exist, rows that are changed or deleted do; a change of a key, and a row whose key was in use before, come with all columns",
        ],
        legs: vec![
            leg("history", 250, 20_000, |s, c| case(s, c, Mode::Plain)),
            leg("faults", 100, 8_000, |s, c| case(s, c, Mode::Faults)),
            leg("restart", 100, 8_000, |s, c| case(s, c, Mode::Crash)),
            leg("merge", 40, 2_000, |s, c| case(s, c, Mode::Merge)),
            leg("rekey", 40, 2_000, |s, c| case(s, c, Mode::Rekey)),
            leg("sent again", 60, 2_000, |s, c| case(s, c, Mode::Young)),
        ],
    });
}
