//! C25: reads through the object store cache give the bytes of the store.
use bytes::Bytes;
use futures::stream::BoxStream;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::*;
use pbt::*;
use seafowl_full::object_store::cache::CachingObjectStore;
use std::ops::Range;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Counts what is fetched, fails on demand, and takes its time.
#[derive(Debug)]
struct Upstream {
    inner: InMemory,
    fetched: Mutex<Vec<(String, Range<usize>)>>,
    fail_in: Mutex<Option<usize>>,
    slow: Mutex<usize>,
}

impl std::fmt::Display for Upstream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Upstream")
    }
}

#[async_trait::async_trait]
impl ObjectStore for Upstream {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> Result<PutResult> {
        self.inner.put_opts(l, p, o).await
    }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        self.inner.put_multipart_opts(l, o).await
    }
    async fn get_opts(&self, l: &Path, o: GetOptions) -> Result<GetResult> {
        self.inner.get_opts(l, o).await
    }
    async fn get_range(&self, l: &Path, r: Range<usize>) -> Result<Bytes> {
        self.fetched.lock().unwrap().push((l.to_string(), r.clone()));
        let n = *self.slow.lock().unwrap();
        for _ in 0..n {
            tokio::task::yield_now().await;
        }
        let fail = {
            let mut f = self.fail_in.lock().unwrap();
            match f.as_mut() {
                Some(0) => {
                    *f = None;
                    true
                }
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            }
        };
        if fail {
            return Err(Error::Generic { store: "injected", source: "injected fault".into() });
        }
        self.inner.get_range(l, r).await
    }
    async fn delete(&self, l: &Path) -> Result<()> {
        self.inner.delete(l).await
    }
    fn list(&self, p: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        self.inner.list(p)
    }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> Result<ListResult> {
        self.inner.list_with_delimiter(p).await
    }
    async fn copy(&self, a: &Path, b: &Path) -> Result<()> {
        self.inner.copy(a, b).await
    }
    async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> Result<()> {
        self.inner.copy_if_not_exists(a, b).await
    }
}

fn content(seed: usize, len: usize) -> Vec<u8> {
    (0..len).map(|i| (hash_of(&(seed, i)) & 0xff) as u8).collect()
}

#[derive(Debug, Clone)]
enum What {
    /// the bytes
    Exactly(Vec<u8>),
    /// the bytes, or an error: whether chunks exist at all past the end isn't known to the cache
    AtMost(Vec<u8>),
    /// nothing, or an error
    Nothing,
    Fails,
}

fn want(data: &[u8], r: &Range<usize>, chunk: usize) -> What {
    if r.start > r.end {
        What::Fails
    } else if r.start == r.end {
        What::Nothing
    } else if r.start >= data.len() {
        What::Nothing
    } else if (r.end - 1) / chunk * chunk >= data.len() {
        What::AtMost(data[r.start..].to_vec())
    } else {
        What::Exactly(data[r.start..r.end.min(data.len())].to_vec())
    }
}

fn range(s: &mut Src, len: usize, chunk: usize, past: bool) -> Range<usize> {
    let point = |s: &mut Src| -> usize {
        let top = if past { len + 2 * chunk + 2 } else { len };
        match s.below(4) {
            0 => s.usize(top + 1),
            1 => (s.usize(top / chunk + 1) * chunk).min(top),
            2 => ((s.usize(top / chunk + 1) * chunk + s.usize(3)).saturating_sub(1)).min(top),
            _ => [0, 1, len, len.saturating_sub(1)][s.usize(4)],
        }
    };
    let (a, b) = (point(s), point(s));
    if a > b && !(past && s.chance(1, 10)) {
        b..a
    } else {
        a..b
    }
}

fn compare(got: &Result<Bytes>, want: &What, fault: bool, what: &str) -> std::result::Result<(), Fail> {
    match (want, got) {
        (_, Err(_)) if fault => Ok(()),
        (What::AtMost(_), Err(_)) => Ok(()),
        (What::Exactly(w) | What::AtMost(w), Ok(g)) => {
            ensure!(g.as_ref() == &w[..], "bytes differ", "{what}: {} bytes expected, {} read{}", w.len(), g.len(), if w.len() == g.len() { ", and they differ" } else { "" });
            Ok(())
        }
        (What::Exactly(_), Err(e)) => Err(Fail::new("read fails", format!("{what}: {e}"))),
        (What::Nothing, Ok(g)) => {
            ensure!(g.is_empty(), "bytes from nowhere", "{what}: {} bytes read", g.len());
            Ok(())
        }
        (What::Nothing, Err(_)) | (What::Fails, Err(_)) => Ok(()),
        (What::Fails, Ok(g)) => Err(Fail::new("bytes from nowhere", format!("{what}: {} bytes read", g.len()))),
    }
}

async fn reads(s: &mut Src, ctx: &mut Ctx, trail: &mut Vec<String>, past: bool) -> std::result::Result<(), Fail> {
    let up = Arc::new(Upstream { inner: InMemory::new(), fetched: Default::default(), fail_in: Default::default(), slow: Default::default() });
    let chunk = *s.pick(&[16, 1, 3, 8, 64, 7]);
    let mut objects: Vec<(Path, Vec<u8>)> = vec![];
    for i in 0..s.urange(1, 3) {
        let n = s.urange(1, 6) * chunk;
        let len = match s.below(3) {
            0 => n,
            1 => n - s.usize(chunk),
            _ => s.urange(1, 200),
        };
        let path = Path::from(*s.pick(&["a", "dir/a", "a b", "ü"])).child(format!("o{i}"));
        let data = content(i, len);
        up.put(&path, data.clone().into()).await.unwrap();
        trail.push(format!("{path}: {len} bytes"));
        objects.push((path, data));
    }
    let roomy = s.chance(2, 3);
    let capacity = if roomy { 1 << 20 } else { *s.pick(&[1, 0, 20, 100]) };
    let lasting = s.chance(3, 4);
    let ttl = if lasting { Duration::from_secs(600) } else { Duration::from_millis(s.range(0, 3) as u64) };
    trail.push(format!("chunks of {chunk}, capacity {capacity}, ttl {ttl:?}"));
    let dir = checks_full::env::scratch();
    let base = dir.path().join("cache");
    std::fs::create_dir(&base).unwrap();
    let cache = CachingObjectStore::new(up.clone(), &base, chunk as u64, capacity, ttl);
    let sibling = CachingObjectStore::new_from_sibling(&cache, up.clone());
    let mut pristine = roomy && lasting;
    let mut have: Vec<Vec<bool>> = objects.iter().map(|(_, d)| vec![false; d.len() / chunk + 1]).collect();
    let (mut good, mut again) = (0, 0);
    for _ in 0..s.urange(4, 40) {
        match s.below(12) {
            0..=5 => {
                let i = s.usize(objects.len());
                let (path, data) = &objects[i];
                let r = range(s, data.len(), chunk, past);
                let fault = s.chance(1, 12);
                if fault {
                    *up.fail_in.lock().unwrap() = Some(0);
                }
                up.fetched.lock().unwrap().clear();
                let store = if s.chance(1, 4) { &sibling } else { &cache };
                let got = store.get_range(path, r.clone()).await;
                *up.fail_in.lock().unwrap() = None;
                let w = want(data, &r, chunk);
                trail.push(format!("{path} {r:?}{}", if fault { " with a fault" } else { "" }));
                compare(&got, &w, fault, &format!("{path} {r:?}"))?;
                // only what is missing is fetched
                if let (What::Exactly(w), true) = (&w, got.is_ok()) {
                    good += 1;
                    let last = r.start + w.len() - 1;
                    let fetched = std::mem::take(&mut *up.fetched.lock().unwrap());
                    for (_, f) in &fetched {
                        if pristine && !past {
                            let in_range = f.start / chunk >= r.start / chunk && f.end <= (last / chunk + 1) * chunk;
                            ensure!(in_range, "fetches too much", "{path} {r:?} fetched {f:?}");
                            for c in f.start / chunk..(f.end - 1) / chunk + 1 {
                                ensure!(
                                    !have[i].get(c).copied().unwrap_or(false) || c >= data.len() / chunk,
                                    "fetched again",
                                    "{path} {r:?} fetched {f:?} though chunk {c} was cached"
                                );
                            }
                        }
                    }
                    if fetched.is_empty() {
                        again += 1;
                    }
                    for c in r.start / chunk..=last / chunk {
                        have[i][c] = true;
                    }
                }
            }
            6 | 7 => {
                // at once
                *up.slow.lock().unwrap() = s.usize(4);
                let jobs: Vec<(usize, Range<usize>)> = (0..s.urange(2, 6))
                    .map(|_| {
                        let i = s.usize(objects.len());
                        (i, range(s, objects[i].1.len(), chunk, past))
                    })
                    .collect();
                trail.push(format!("at once: {jobs:?}"));
                let got = futures::future::join_all(jobs.iter().map(|(i, r)| cache.get_range(&objects[*i].0, r.clone()))).await;
                *up.slow.lock().unwrap() = 0;
                for ((i, r), g) in jobs.iter().zip(&got) {
                    let (path, data) = &objects[*i];
                    compare(g, &want(data, r, chunk), false, &format!("{path} {r:?} among others"))?;
                }
                ctx.label("concurrent");
            }
            8 => {
                let i = s.usize(objects.len());
                let (path, data) = &objects[i];
                let rs: Vec<Range<usize>> = (0..s.urange(1, 5)).map(|_| range(s, data.len(), chunk, false)).filter(|r| !r.is_empty()).collect();
                trail.push(format!("{path} ranges {rs:?}"));
                let got = cache.get_ranges(path, &rs).await.map_err(|e| Fail::new("read fails", format!("{path} {rs:?}: {e}")))?;
                for (r, g) in rs.iter().zip(got) {
                    compare(&Ok(g), &want(data, r, chunk), false, &format!("{path} {r:?}"))?;
                }
            }
            9 => {
                for _ in 0..s.usize(6) {
                    tokio::task::yield_now().await;
                }
                if s.bool() {
                    tokio::time::sleep(Duration::from_millis(1 + s.below(3))).await;
                }
            }
            10 => {
                // cache files vanish
                tokio::time::sleep(Duration::from_millis(2)).await;
                let mut n = 0;
                for e in std::fs::read_dir(&base).into_iter().flatten().flatten() {
                    if s.bool() {
                        let _ = std::fs::remove_file(e.path());
                        n += 1;
                    }
                }
                if n > 0 {
                    trail.push(format!("{n} cache files vanish"));
                    pristine = false;
                    ctx.label("lost files");
                }
            }
            _ => {
                if s.chance(1, 3) {
                    // nothing can be written
                    trail.push("the cache directory vanishes".into());
                    let _ = std::fs::remove_dir_all(&base);
                    pristine = false;
                    ctx.label("no directory");
                } else {
                    let (path, data) = &objects[s.usize(objects.len())];
                    let got = cache.get(path).await.map_err(|e| Fail::new("read fails", e.to_string()))?.bytes().await;
                    compare(&got, &What::Exactly(data.clone()), false, &format!("all of {path}"))?;
                    let meta = cache.head(path).await.map_err(|e| Fail::new("read fails", e.to_string()))?;
                    ensure_eq!(meta.size, data.len(), "size differs", "of {path}");
                }
            }
        }
    }
    ctx.label_n("reads from the cache alone", again);
    if good >= 3 && again >= 1 {
        ctx.nontrivial(&trail);
    }
    drop(cache);
    drop(sibling);
    Ok(())
}

/// Many readers on several threads, with a cache that is always too small.
fn crowd(s: &mut Src, ctx: &mut Ctx) -> std::result::Result<(), Fail> {
    let chunk = *s.pick(&[4096usize, 65536, 400_000]);
    let chunks = s.urange(2, 6);
    let len = chunk * chunks - s.usize(chunk);
    let capacity = chunk * s.urange(0, 2) + s.usize(2);
    let (seed, readers, each) = (s.u64(), s.urange(4, 12), s.urange(5, 30));
    let ttl = Duration::from_millis(*s.pick(&[600_000, 0, 1]));
    ctx.describe(format!("{len} bytes in chunks of {chunk}, capacity {capacity}, ttl {ttl:?}, {readers} readers of {each} ranges"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let dir = checks_full::env::scratch();
    let base = dir.path().join("cache");
    std::fs::create_dir(&base).unwrap();
    let r = rt.block_on(async {
        let up = Arc::new(InMemory::new());
        let path = Path::from("o");
        let mut x = seed;
        let data: Arc<Vec<u8>> = Arc::new(
            (0..len)
                .map(|_| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (x >> 56) as u8
                })
                .collect(),
        );
        up.put(&path, data.to_vec().into()).await.unwrap();
        let cache = CachingObjectStore::new(up, &base, chunk as u64, capacity as u64, ttl);
        let jobs: Vec<_> = (0..readers)
            .map(|n| {
                let (cache, data, path) = (cache.clone(), data.clone(), path.clone());
                tokio::spawn(async move {
                    for k in 0..each {
                        let h = hash_of(&(seed, n, k));
                        let c = (h % chunks as u64) as usize;
                        let a = (c * chunk).min(data.len() - 1);
                        let b = (a + chunk * (1 + (h >> 32) as usize % 2)).min(data.len());
                        match cache.get_range(&path, a..b).await {
                            Ok(g) if g.as_ref() == &data[a..b] => {}
                            Ok(g) => return Err(format!("{a}..{b}: {} of {} bytes, or others", g.len(), b - a)),
                            Err(e) => return Err(format!("{a}..{b}: {e}")),
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        for j in jobs {
            j.await.unwrap().map_err(|e| Fail::new("bytes differ in a crowd", e))?;
        }
        Ok(())
    });
    rt.shutdown_timeout(Duration::from_secs(5));
    ctx.nontrivial(&(len, chunk, capacity, readers, each));
    r
}

fn main() {
    checks_full::env::logging();
    let sequential = |s: &mut Src, c: &mut Ctx, past: bool| {
        let mut trail = vec![];
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(reads(s, c, &mut trail, past))));
        for t in &trail {
            c.describe_more(format!("\n{t}"));
        }
        r.unwrap_or_else(|p| std::panic::resume_unwind(p))
    };
    pbt::main(Property {
        id: "C25",
        rule: "at least three reads, one of them answered from the cache alone",
        assumptions: &["objects don't change while they are cached"],
        legs: vec![
            leg("reads", 2500, 120_000, move |s, c| sequential(s, c, false)),
            leg("past the end", 1500, 60_000, move |s, c| sequential(s, c, true)),
            leg("crowd", 400, 20_000, crowd),
        ],
    })
}
