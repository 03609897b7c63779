//! C19: the metrics wrapper around a memory pool changes no decision, and its figures add up.
//! Oracle: the same pool without the wrapper, driven in lockstep; and a tally of the calls made.
use datafusion::execution::memory_pool::*;
use metrics_exporter_prometheus::{PrometheusBuilder, PrometheusRecorder};
use pbt::*;
use seafowl_untested::memory_pool::MemoryPoolMetrics;
use std::collections::BTreeMap;
use std::num::NonZeroUsize;
use std::sync::Arc;

const RESERVED: &str = "seafowl_datafusion_memory_pool_reserved_bytes_current";
const ALLOCATED: &str = "seafowl_datafusion_memory_pool_allocated_bytes_total";
const FREED: &str = "seafowl_datafusion_memory_pool_freed_bytes_total";

#[derive(Clone, Copy, Debug, Hash)]
enum Kind {
    Unbounded,
    Greedy(usize),
    Fair(usize),
    TrackedGreedy(usize),
    TrackedFair(usize),
}
impl Kind {
    fn gen(s: &mut Src) -> Kind {
        let lim = match s.below(4) {
            0 => s.urange(0, 20),
            1 => 1 << s.below(40),
            _ => s.urange(20, 5000),
        };
        match s.below(5) {
            0 => Kind::Unbounded,
            1 => Kind::Greedy(lim),
            2 => Kind::Fair(lim),
            3 => Kind::TrackedGreedy(lim),
            _ => Kind::TrackedFair(lim),
        }
    }
    fn build(self) -> Arc<dyn MemoryPool> {
        let top = NonZeroUsize::new(3).unwrap();
        match self {
            Kind::Unbounded => Arc::new(UnboundedMemoryPool::default()),
            Kind::Greedy(n) => Arc::new(GreedyMemoryPool::new(n)),
            Kind::Fair(n) => Arc::new(FairSpillPool::new(n)),
            Kind::TrackedGreedy(n) => Arc::new(TrackConsumersPool::new(GreedyMemoryPool::new(n), top)),
            Kind::TrackedFair(n) => Arc::new(TrackConsumersPool::new(FairSpillPool::new(n), top)),
        }
    }
}

/// The figures in a rendered page: `name{labels}` -> value.
fn figures(r: &PrometheusRecorder) -> BTreeMap<String, f64> {
    let text = r.handle().render();
    text.lines().filter(|l| !l.starts_with('#') && !l.is_empty()).filter_map(|l| l.rsplit_once(' ')).filter_map(|(k, v)| Some((k.to_string(), v.parse().ok()?))).collect()
}

const NAMES: &[&str] = &["Sort", "Sort[0]", "Sort[1]", "Sort[12]", "HashJoinInput[3]", "HashJoin", "A b", "[7]", "x[1][2]", "Grouped_Hash-Agg (stage) []", "é[1]"];

fn family(name: &str) -> String {
    name.split('[').next().unwrap().to_string()
}

/// An error as text, without the addresses of consumers some pools number globally.
fn text(e: &datafusion_common::DataFusionError) -> String {
    let t = e.to_string();
    let t = t.split("backtrace").next().unwrap().to_string();
    // "name#17(can spill...)" carries a process-wide counter
    let mut out = String::new();
    let mut cs = t.chars().peekable();
    while let Some(c) = cs.next() {
        out.push(c);
        if c == '#' {
            while cs.peek().map_or(false, |d| d.is_ascii_digit()) {
                cs.next();
            }
        }
    }
    out
}

fn lockstep(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let kind = Kind::gen(s);
    ctx.label(format!("{kind:?}").split('(').next().unwrap().to_string());
    let recorder = PrometheusBuilder::new().build_recorder();
    let steps = s.urange(1, 40);
    let mut log = vec![format!("{kind:?}")];
    let (mut fails, mut oks) = (0, 0);
    let r = metrics::with_local_recorder(&recorder, || -> Result<(), Fail> {
        let plain = kind.build();
        let wrapped: Arc<dyn MemoryPool> = Arc::new(MemoryPoolMetrics::new(kind.build()));
        let mut rs: Vec<(MemoryReservation, MemoryReservation, String)> = vec![];
        let mut want: BTreeMap<String, f64> = BTreeMap::new();
        let mut count = |n: &str, name: &str, res: &str, by: usize| {
            let c = family(name);
            let k = if res.is_empty() { format!("{n}{{consumer=\"{c}\"}}") } else { format!("{n}{{consumer=\"{c}\",result=\"{res}\"}}") };
            *want.entry(k).or_default() += by as f64;
        };
        for _ in 0..steps {
            let op = if rs.is_empty() { 0 } else { s.below(13) };
            let amount = |s: &mut Src| match s.below(6) {
                0 => 0,
                1 => 1 << s.below(38),
                _ => s.urange(0, 400),
            };
            let i = if rs.is_empty() { 0 } else { s.below(rs.len() as u64) as usize };
            match op {
                0 => {
                    let name = s.pick(NAMES).to_string();
                    let spill = s.bool();
                    log.push(format!("register {name:?} spill {spill}"));
                    let a = MemoryConsumer::new(name.clone()).with_can_spill(spill).register(&plain);
                    let b = MemoryConsumer::new(name.clone()).with_can_spill(spill).register(&wrapped);
                    rs.push((a, b, name));
                }
                1..=2 => {
                    let n = amount(s);
                    log.push(format!("grow #{i} by {n}"));
                    let (a, b, name) = &mut rs[i];
                    a.grow(n);
                    b.grow(n);
                    count(ALLOCATED, name, "success", n);
                }
                3..=6 => {
                    let n = amount(s);
                    let (a, b, name) = &mut rs[i];
                    let (x, y) = (a.try_grow(n), b.try_grow(n));
                    log.push(format!("try_grow #{i} by {n}: {}", x.is_ok()));
                    ensure_eq!(y.as_ref().map_err(text).err(), x.as_ref().map_err(text).err(), "try_grow", "outcome of {}", log.last().unwrap());
                    count(ALLOCATED, name, if x.is_ok() { "success" } else { "error" }, n);
                    if x.is_ok() { oks += 1 } else { fails += 1 }
                }
                7..=8 => {
                    let (a, b, name) = &mut rs[i];
                    let n = if a.size() == 0 { 0 } else { s.urange(0, a.size()) };
                    log.push(format!("shrink #{i} by {n}"));
                    a.shrink(n);
                    b.shrink(n);
                    count(FREED, name, "", n);
                }
                9 => {
                    let (a, b, name) = &mut rs[i];
                    let n = amount(s);
                    let was = a.size();
                    let (x, y) = (a.try_resize(n), b.try_resize(n));
                    log.push(format!("try_resize #{i} to {n}: {}", x.is_ok()));
                    ensure_eq!(y.as_ref().map_err(text).err(), x.as_ref().map_err(text).err(), "try_resize", "outcome of {}", log.last().unwrap());
                    if n > was {
                        count(ALLOCATED, name, if x.is_ok() { "success" } else { "error" }, n - was);
                    } else if n < was {
                        count(FREED, name, "", was - n);
                    }
                }
                10 => {
                    let (a, b, name) = &mut rs[i];
                    let n = if a.size() == 0 { 0 } else { s.urange(0, a.size()) };
                    log.push(format!("split {n} off #{i}"));
                    let new = (a.split(n), b.split(n), name.clone());
                    rs.push(new);
                }
                11 => {
                    let (a, b, name) = &mut rs[i];
                    log.push(format!("free #{i}"));
                    let was = a.size();
                    ensure_eq!(b.free(), a.free(), "free", "bytes freed");
                    if was > 0 {
                        count(FREED, name, "", was);
                    }
                }
                _ => {
                    let (a, b, name) = rs.swap_remove(i);
                    log.push(format!("drop #{i}"));
                    if a.size() > 0 {
                        count(FREED, &name, "", a.size());
                    }
                    drop((a, b));
                }
            }
            for (a, b, name) in &rs {
                ensure_eq!(b.size(), a.size(), "size", "size of {name:?} after {}", log.last().unwrap());
            }
            ensure_eq!(wrapped.reserved(), plain.reserved(), "reserved", "reserved bytes after {}", log.last().unwrap());
        }
        let f = figures(&recorder);
        ensure_eq!(f.get(RESERVED).copied(), Some(plain.reserved() as f64), "gauge", "the exported reserved bytes");
        for (a, b, name) in rs {
            if a.size() > 0 {
                count(FREED, &name, "", a.size());
            }
            drop((a, b));
        }
        ensure_eq!(wrapped.reserved(), 0, "leak", "reserved bytes after everything was dropped");
        want.insert(RESERVED.into(), 0.0);
        let f = figures(&recorder);
        // a counter that only ever moved by zero may be there or not
        let strip = |m: &BTreeMap<String, f64>| m.iter().filter(|(k, v)| **v != 0.0 || *k == RESERVED).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>();
        ensure_eq!(strip(&f), strip(&want), "figures", "the exported figures");
        Ok(())
    });
    ctx.describe(log.join("\n"));
    r?;
    if oks > 0 && fails > 0 {
        ctx.nontrivial(&log);
    }
    Ok(())
}

fn round(kind: Kind, plans: &[Vec<(u64, usize)>]) -> Result<u64, Fail> {
    let n = plans.len();
    let recorder = PrometheusBuilder::new().build_recorder();
    let wrapped: Arc<dyn MemoryPool> = metrics::with_local_recorder(&recorder, || Arc::new(MemoryPoolMetrics::new(kind.build())) as Arc<dyn MemoryPool>);
    let gate = std::sync::Barrier::new(n);
    let tallies: Vec<(u64, u64)> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans.iter().enumerate().map(|(t, plan)| {
            let (wrapped, recorder, gate) = (&wrapped, &recorder, &gate);
            sc.spawn(move || metrics::with_local_recorder(recorder, || {
                let mut r = MemoryConsumer::new(format!("C[{t}]")).with_can_spill(t % 2 == 0).register(wrapped);
                let (mut ok, mut bad) = (0, 0);
                gate.wait();
                for (op, n) in plan {
                    match op {
                        0 => { r.grow(*n); ok += *n as u64 }
                        1 | 2 => if r.try_grow(*n).is_ok() { ok += *n as u64 } else { bad += *n as u64 },
                        _ => { let n = (*n).min(r.size()); r.shrink(n) }
                    }
                }
                // everybody lets go at once
                gate.wait();
                drop(r);
                (ok, bad)
            }))
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    ensure_eq!(wrapped.reserved(), 0, "leak", "reserved bytes once every consumer is gone");
    let f = figures(&recorder);
    let ok: u64 = tallies.iter().map(|t| t.0).sum();
    let bad: u64 = tallies.iter().map(|t| t.1).sum();
    let get = |k: String| f.get(&k).copied().unwrap_or(0.0);
    ensure_eq!(get(format!("{ALLOCATED}{{consumer=\"C\",result=\"success\"}}")), ok as f64, "allocated", "bytes granted");
    ensure_eq!(get(format!("{ALLOCATED}{{consumer=\"C\",result=\"error\"}}")), bad as f64, "refused", "bytes refused");
    ensure_eq!(get(format!("{FREED}{{consumer=\"C\"}}")), ok as f64, "freed", "bytes freed");
    ensure_eq!(f.get(RESERVED).copied(), Some(0.0), "gauge", "exported reserved bytes once every consumer is gone");
    Ok(ok)
}

/// Consumers on several threads; once all is released, everything reads zero and the figures balance.
fn threads(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let kind = Kind::gen(s);
    let n = s.urange(2, 4);
    let plans: Vec<Vec<(u64, usize)>> = (0..n).map(|_| { let k = s.urange(1, 12); (0..k).map(|_| (s.below(4), s.urange(0, 300))).collect() }).collect();
    ctx.describe(format!("{kind:?} {plans:?}"));
    ctx.label(format!("{kind:?}").split('(').next().unwrap().to_string());
    // several rounds: the schedule is not ours
    let mut some = 0;
    for _ in 0..8 {
        some = round(kind, &plans)?;
    }
    if some > 0 {
        ctx.nontrivial(&format!("{kind:?} {plans:?}"));
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C19",
        rule: "non-trivial: some try_grow succeeded and some was refused (lockstep); something was granted on several threads (threads). Distinct by history.",
        assumptions: &["the pools of DataFusion themselves are the reference", "the schedule of the threads is the operating system's: not replayed exactly"],
        legs: vec![leg("lockstep", 60_000, 3_000_000, lockstep), leg("threads", 10_000, 400_000, threads)],
    })
}
