//! Small property-based testing runner.
//!
//! * Every random choice goes through [`Src`], which draws from a PRNG seeded by
//!   (VERIF_SEED, property, leg, case index) and records the choice on a tape.
//! * A failing case is shrunk by editing its tape (delete / zero / lower choices) and replaying the
//!   generator, and the smallest failing tape becomes the replay file.
//! * A run is a pure function of the code under test and the seed: case counts are fixed, the
//!   failure that is reported is the one with the lowest (leg, index).
use serde_json::{json, Value};
mod supervise;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------
// choice source

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub tape: Vec<u64>,
    /// every choice is also written here, so that the tape outlives a crash
    sink: Option<std::fs::File>,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    // FNV-1a over the std Hash stream: stable across runs and processes
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            mix(self.0)
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { state: mix(seed ^ 0x9e3779b97f4a7c15), replay: None, pos: 0, tape: vec![], sink: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(tape), pos: 0, tape: vec![], sink: None }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.state)
    }
    /// A choice in [0, n); 0 is the simplest one. Every other method is built on this.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "empty choice");
        let v = match &self.replay {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
            None => {
                let r = self.raw();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.note(v);
        v
    }
    fn note(&mut self, v: u64) {
        self.pos += 1;
        self.tape.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    pub fn u64(&mut self) -> u64 {
        match &self.replay {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                self.note(v);
                v
            }
            None => {
                let v = self.raw();
                self.note(v);
                v
            }
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi, simplest is lo
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// true with probability num/den; simplest is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// index chosen with the given weights, simplest is 0
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut r = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        unreachable!()
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        // drawn as "continue?" flags so that deleting a tape span deletes an element
        let mut out = vec![];
        if hi == 0 {
            return out;
        }
        let mean = ((lo + hi) as u64 / 2).max(1) + 1;
        while out.len() < hi {
            if out.len() >= lo {
                // geometric-ish, with the whole range reachable
                if self.below(mean) == 0 {
                    break;
                }
            }
            out.push(f(self));
        }
        out
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // simplest choice keeps the element in place
            let j = i - self.usize(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn subset<T: Clone>(&mut self, xs: &[T]) -> Vec<T> {
        xs.iter().filter(|_| self.bool()).cloned().collect()
    }
    /// A u64 biased towards the edges of each bit width.
    pub fn edgy_u64(&mut self) -> u64 {
        match self.usize(5) {
            0 => self.below(4),
            1 => self.below(256),
            2 => {
                let k = self.below(64);
                let base = 1u64.checked_shl(k as u32).unwrap_or(0);
                base.wrapping_add(self.below(5)).wrapping_sub(2)
            }
            3 => u64::MAX - self.below(4),
            _ => self.u64(),
        }
    }
    pub fn edgy_i64(&mut self) -> i64 {
        let v = self.edgy_u64();
        if self.chance(1, 3) {
            (v as i64).wrapping_neg()
        } else {
            v as i64
        }
    }
    pub fn string_of(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        self.vec(lo, hi, |s| *s.pick(alphabet)).into_iter().collect()
    }
}

// ------------------------------------------------------------------------------------------------
// results

#[derive(Clone, Debug)]
pub struct Fail {
    /// identifies the root cause precisely enough to key a known finding on it
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::Fail::new($sig, format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::Fail::new($sig, format!($($arg)*))); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::new($sig, format!("{}\n   expected: {:?}\n   observed: {:?}", format!($($arg)*), b, a)));
        }
    }};
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: Option<u64>,
    pub desc: String,
    pub evals: u64,
}

impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn label_n(&mut self, l: impl Into<String>, n: u64) {
        *self.labels.entry(l.into()).or_default() += n;
    }
    /// marks the case non-trivial; the key decides distinctness
    pub fn nontrivial<T: Hash>(&mut self, key: &T) {
        self.nontrivial = Some(hash_of(key));
    }
    pub fn describe(&mut self, d: impl Into<String>) {
        self.desc = d.into();
    }
    pub fn describe_more(&mut self, d: impl AsRef<str>) {
        self.desc.push_str(d.as_ref());
    }
}

type CaseFn = Box<dyn Fn(&mut Src, &mut Ctx) -> Res + Send + Sync>;

pub struct Leg {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    f: CaseFn,
}

pub fn leg(
    name: &'static str,
    quick: usize,
    thorough: usize,
    f: impl Fn(&mut Src, &mut Ctx) -> Res + Send + Sync + 'static,
) -> Leg {
    Leg { name, quick, thorough, f: Box::new(f) }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub legs: Vec<Leg>,
}

// ------------------------------------------------------------------------------------------------
// panics

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            *p.borrow_mut() = Some((loc.0.clone(), format!("{msg} (at {}:{})", loc.0, loc.1)))
        });
        if std::env::var_os("PBT_BACKTRACE").is_some() {
            eprintln!("panic: {msg} at {}:{}\n{}", loc.0, loc.1, std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// Runs `f`; a panic becomes Err((file of the panic, message)).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

fn short_file(f: &str) -> String {
    f.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/")
}

/// Current-thread runtime of this worker.
pub fn block_on<F: Future>(f: F) -> F::Output {
    RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        let rt = rt.get_or_insert_with(|| {
            tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
        });
        rt.block_on(f)
    })
}

/// Polls a future that should never really wait.
pub fn now<F: Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

// ------------------------------------------------------------------------------------------------
// runner

fn run_case(leg: &Leg, src: &mut Src) -> (Ctx, Res) {
    let mut ctx = Ctx::default();
    let r = match no_panic(|| (leg.f)(src, &mut ctx)) {
        Ok(r) => r,
        Err((file, msg)) => {
            // a panic inside block_on poisons nothing, but drop the runtime to be safe
            let _ = RT.try_with(|rt| rt.try_borrow_mut().map(|mut r| *r = None));
            Err(Fail::new(format!("panic:{}", short_file(&file)), format!("panicked: {msg}")))
        }
    };
    (ctx, r)
}

fn shrink(leg: &Leg, tape: Vec<u64>, first: Fail, known: &[Known]) -> (Vec<u64>, Fail, Ctx) {
    let start = Instant::now();
    let limit = Duration::from_secs(25);
    let mut budget = 4000usize;
    let mut best = tape;
    let mut fail = first;
    let mut ctx = Ctx::default();
    let mut tried: HashSet<u64> = HashSet::new();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, fail: &mut Fail, ctx: &mut Ctx| -> bool {
        if budget == 0 || start.elapsed() > limit || !tried.insert(hash_of(&cand)) {
            return false;
        }
        budget -= 1;
        let mut s = Src::replay(cand);
        let (c, r) = run_case(leg, &mut s);
        if let Err(f) = r {
            // never slip from an unlisted failure to a listed one
            if known.iter().any(|k| k.leg == leg.name && k.sig == f.sig) {
                return false;
            }
            let t = s.tape;
            // the tape as consumed is canonical: accept if it is really simpler
            if (t.len(), &t) < (best.len(), &*best) {
                *best = t;
                *fail = f;
                *ctx = c;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete spans
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    attempt(c, &mut best, &mut fail, &mut ctx);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 });
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero spans
        for size in [16usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    attempt(c, &mut best, &mut fail, &mut ctx);
                }
                i += 1;
            }
        }
        // lower choices; also lower-and-delete (choice counts)
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    if i >= best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt(c, &mut best, &mut fail, &mut ctx) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    // final run for the description (and so that the context matches the tape)
    let mut s = Src::replay(best.clone());
    let (c, r) = run_case(leg, &mut s);
    match r {
        Err(f) => (best, f, c),
        Ok(()) => (best, fail, ctx), // not deterministic: reported as such by the caller
    }
}

struct Known {
    leg: String,
    sig: String,
    what: String,
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn load_known(id: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.jsonl");
    let Ok(text) = std::fs::read_to_string(p) else { return vec![] };
    text.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["property"] == id && v["status"] == "known")
        .map(|v| Known {
            leg: v["leg"].as_str().unwrap_or("").into(),
            sig: v["signature"].as_str().unwrap_or("").into(),
            what: v["what"].as_str().unwrap_or("").into(),
        })
        .collect()
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, BTreeMap<String, u64>>,
    per_leg: BTreeMap<String, u64>,
    samples: BTreeMap<(usize, usize), Value>,
    known_hits: BTreeMap<(String, String), (u64, (usize, usize), Vec<u64>)>,
    failures: BTreeMap<(usize, usize), (Vec<u64>, Fail)>,
}

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

pub fn case_seed(seed: u64, id: &str, leg: &str, idx: u64) -> u64 {
    hash_of(&(seed, id, leg, idx))
}

fn write_replay(id: &str, leg: &str, seed: u64, k: usize, tape: &[u64], fail: &Fail, desc: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:016x}.json", id, leg, hash_of(&tape)));
    let doc = json!({
        "property": id, "leg": leg, "seed": seed, "index": k, "tape": tape,
        "signature": fail.sig, "message": fail.msg, "case": desc,
        "replay_cmd": format!("./check.sh {} --replay {}", id, path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
    path
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn main(p: Property) {
    if std::env::var_os("PBT_CHILD").is_none() {
        supervise::run(p.id, &p.legs.iter().map(|l| l.name).collect::<Vec<_>>());
    }
    let progress = supervise::Progress::open();
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut replay = None;
    let mut only_leg: Option<String> = None;
    let mut scale = 1.0f64;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--thorough" => thorough = true,
            "--quick" => thorough = false,
            "--replay" => {
                replay = args.get(i + 1).cloned();
                i += 1;
            }
            "--leg" => {
                only_leg = args.get(i + 1).cloned();
                i += 1;
            }
            "--scale" => {
                scale = args[i + 1].parse().unwrap();
                i += 1;
            }
            a => {
                eprintln!("unknown argument {a}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let seed = seed();
    let start = Instant::now();

    if let (Some(case), Ok(tape)) = (std::env::var_os("PBT_CASE"), std::env::var("PBT_TAPE")) {
        // one case on behalf of the supervisor: "leg index seed" or "leg tape"
        let case = case.into_string().unwrap();
        let mut w = case.split(' ');
        let leg = &p.legs[w.next().unwrap().parse::<usize>().unwrap()];
        let code = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let mut src = match w.next() {
                        Some(k) => {
                            let mut src = Src::random(case_seed(seed, p.id, leg.name, k.parse().unwrap()));
                            src.sink = std::fs::File::create(&tape).ok();
                            src
                        }
                        None => Src::replay(supervise::read_tape(&tape)),
                    };
                    let (_, r) = run_case(leg, &mut src);
                    r.is_err() as i32
                })
                .unwrap()
                .join()
                .unwrap()
        });
        std::process::exit(code);
    }

    if let Some(file) = replay {
        // Plain re-execution of one saved case.
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&file).expect("replay file"))
            .expect("replay file is JSON");
        let tape: Vec<u64> =
            v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let leg = p
            .legs
            .iter()
            .find(|l| l.name == v["leg"].as_str().unwrap())
            .expect("leg of the replay file");
        let h = std::thread::Builder::new().stack_size(512 << 20);
        let code = std::thread::scope(|s| {
            h.spawn_scoped(s, || {
                let (ctx, r) = run_case(leg, &mut Src::replay(tape));
                println!("case:\n{}", ctx.desc);
                match r {
                    Ok(()) => {
                        println!("replay passes: property={}", p.id);
                        0
                    }
                    Err(f) => {
                        println!("[{}] {}", f.sig, f.msg);
                        println!("VIOLATION property={} replay={}", p.id, file);
                        1
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap()
        });
        std::process::exit(code);
    }

    // watchdog: inconclusive, never a violation
    let wd = if thorough { 4 * 3600 } else { 640 };
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(wd));
        eprintln!("ERROR: no answer within {wd} s (inconclusive)");
        std::process::exit(3);
    });

    let known = load_known(p.id);
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (li, l) in p.legs.iter().enumerate() {
        if only_leg.as_deref().map_or(false, |o| o != l.name) {
            continue;
        }
        let n = if thorough { l.thorough } else { l.quick };
        let n = (n as f64 * scale).ceil() as usize;
        for k in 0..n {
            jobs.push((li, k));
        }
    }
    // interleave nothing: the order is leg-major, the lowest failure is deterministic
    let next = AtomicUsize::new(0);
    let stop_at = AtomicUsize::new(usize::MAX);
    let stats = Mutex::new(Stats::default());
    let workers = std::env::var("PBT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    const SAMPLES_PER_LEG: usize = 3;
    std::thread::scope(|s| {
        for w in 0..workers {
            let (p, jobs, next, stop_at, stats, known, progress) = (&p, &jobs, &next, &stop_at, &stats, &known, &progress);
            std::thread::Builder::new()
                .name(format!("w{w}"))
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Stats::default();
                    loop {
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= jobs.len() || j > stop_at.load(Ordering::SeqCst) {
                            break;
                        }
                        let (li, k) = jobs[j];
                        let leg = &p.legs[li];
                        let mut src = Src::random(case_seed(seed, p.id, leg.name, k as u64));
                        progress.begin(w, li, k);
                        let (ctx, r) = run_case(leg, &mut src);
                        progress.end(w);
                        local.evaluations += 1 + ctx.evals;
                        *local.per_leg.entry(leg.name.into()).or_default() += 1;
                        if let Some(h) = ctx.nontrivial {
                            local.nontrivial += 1;
                            local.distinct.insert(hash_of(&(li, h)));
                            let mine = local.samples.keys().filter(|(l, _)| *l == li).count();
                            if mine < SAMPLES_PER_LEG && !ctx.desc.is_empty() {
                                local.samples.insert((li, k), json!({"leg": leg.name, "index": k, "case": truncate(&ctx.desc, 1200)}));
                            }
                        }
                        let m = local.labels.entry(leg.name.into()).or_default();
                        for (l, n) in ctx.labels {
                            *m.entry(l).or_default() += n;
                        }
                        if let Err(f) = r {
                            if known.iter().any(|n| n.leg == leg.name && n.sig == f.sig) {
                                let e = local
                                    .known_hits
                                    .entry((leg.name.to_string(), f.sig.clone()))
                                    .or_insert((0, (li, k), src.tape.clone()));
                                e.0 += 1;
                            } else {
                                stop_at.fetch_min(j, Ordering::SeqCst);
                                local.failures.insert((li, k), (src.tape, f));
                            }
                        }
                    }
                    let mut st = stats.lock().unwrap();
                    st.evaluations += local.evaluations;
                    st.nontrivial += local.nontrivial;
                    st.distinct.extend(local.distinct);
                    for (l, m) in local.labels {
                        let e = st.labels.entry(l).or_default();
                        for (k, v) in m {
                            *e.entry(k).or_default() += v;
                        }
                    }
                    for (l, n) in local.per_leg {
                        *st.per_leg.entry(l).or_default() += n;
                    }
                    st.samples.extend(local.samples);
                    for (k, v) in local.known_hits {
                        let e = st.known_hits.entry(k).or_insert((0, v.1, v.2.clone()));
                        e.0 += v.0;
                        if v.1 < e.1 {
                            e.1 = v.1;
                            e.2 = v.2;
                        }
                    }
                    st.failures.extend(local.failures);
                })
                .unwrap();
        }
    });
    let mut st = stats.into_inner().unwrap();

    // keep the lowest samples of each leg so that evidence does not depend on thread timing
    let mut kept: BTreeMap<usize, usize> = BTreeMap::new();
    st.samples.retain(|(l, _), _| {
        let e = kept.entry(*l).or_default();
        *e += 1;
        *e <= SAMPLES_PER_LEG
    });

    let mut exit = 0;
    let mut violation = None;
    if let Some(((li, k), (tape, f))) = st.failures.iter().next() {
        let leg = &p.legs[*li];
        progress.found(*li, *k, f, tape);
        let (best, fail, ctx) = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, || shrink(leg, tape.clone(), f.clone(), &known))
                .unwrap()
                .join()
                .unwrap()
        });
        let path = write_replay(p.id, leg.name, seed, *k, &best, &fail, &ctx.desc);
        println!("leg {} case {} fails: [{}] {}", leg.name, k, fail.sig, truncate(&fail.msg, 3000));
        println!("minimal case:\n{}", truncate(&ctx.desc, 3000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        violation = Some(json!({"signature": fail.sig, "message": truncate(&fail.msg, 2000), "replay": path.display().to_string()}));
        exit = 1;
    }
    for kf in &known {
        let hits = st.known_hits.get(&(kf.leg.clone(), kf.sig.clone())).map(|e| e.0).unwrap_or(0);
        println!(
            "KNOWN-FINDING: property={} {} [leg {} signature {}; {} cases of this run]",
            p.id, kf.what, kf.leg, kf.sig, hits
        );
    }
    let legs: Vec<Value> = p
        .legs
        .iter()
        .map(|l| json!({"leg": l.name, "cases": st.per_leg.get(l.name), "classes": st.labels.get(l.name)}))
        .collect();
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct.len(),
            "rule": p.rule,
            "legs": legs,
            "samples": st.samples.values().collect::<Vec<_>>(),
            "known_findings": st.known_hits.iter().map(|((l, s), e)| json!({"leg": l, "signature": s, "cases": e.0})).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if exit == 1 { 1 } else { 0 },
        "violation": violation,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap())
        .expect("write evidence");
    println!(
        "{}: {} cases ({} evaluations), {} distinct non-trivial, {:.1} s, {}",
        p.id,
        st.per_leg.values().sum::<u64>(),
        st.evaluations,
        st.distinct.len(),
        start.elapsed().as_secs_f64(),
        if exit == 0 { "held" } else { "VIOLATED" }
    );
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(exit);
}

/// Debug-format with a cap, for messages.
pub fn dbg_short<T: Debug>(t: &T) -> String {
    truncate(&format!("{t:?}"), 2000)
}
