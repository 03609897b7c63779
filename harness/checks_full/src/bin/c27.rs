//! C27: external tables over HTTP read exactly the bytes of the URL they name.
use bytes::Bytes;
use checks_full::env;
use datafusion::datasource::listing::ListingTableUrl;
use object_store::path::Path;
use object_store::{GetOptions, GetRange, ObjectStore};
use pbt::*;
use seafowl_full::object_store::cache::CachingObjectStore;
use seafowl_full::object_store::http::{try_prepare_http_url, HttpObjectStore};
use std::collections::HashMap;
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use url::Url;

/// What the server does with a request for a range
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Mode {
    Honest,
    /// answers 200 with the whole file
    NoRanges,
    /// closes the connection before all of the announced body was sent
    CutShort(usize),
    /// another part of the file, honestly labelled
    OtherPart(usize),
    /// the start of the part asked for, honestly labelled
    Shorter(usize),
    /// the right bytes, labelled with this
    Label(String),
    /// 206 with the whole file, honestly labelled
    WholeAs206,
    Status(u16),
}

#[derive(Clone, Debug)]
struct Site {
    body: Bytes,
    /// exact request target the file is served under
    target: String,
    mode: Mode,
    head: Head,
    etag: bool,
    modified: bool,
    /// requests for `target` are sent on to here first
    redirect: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Head {
    Ok,
    Forbidden,
    /// no or other Accept-Ranges
    Accepts(Option<&'static str>),
    Missing,
}

#[derive(Default)]
struct Server {
    sites: Mutex<HashMap<u64, Site>>,
    log: Mutex<HashMap<u64, Vec<String>>>,
    port: u16,
}

fn rt() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap())
}

fn server() -> &'static Arc<Server> {
    static S: OnceLock<Arc<Server>> = OnceLock::new();
    S.get_or_init(|| {
        rt().block_on(async {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            let srv = Arc::new(Server { port: l.local_addr().unwrap().port(), ..Default::default() });
            let s2 = srv.clone();
            tokio::spawn(async move {
                loop {
                    if let Ok((sock, _)) = l.accept().await {
                        let s3 = s2.clone();
                        tokio::spawn(async move {
                            let _ = serve(sock, s3).await;
                        });
                    }
                }
            });
            srv
        })
    })
}

async fn serve(mut sock: tokio::net::TcpStream, srv: Arc<Server>) -> std::io::Result<()> {
    let mut buf: Vec<u8> = vec![];
    loop {
        let end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            let mut chunk = [0u8; 4096];
            let n = sock.read(&mut chunk).await?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&chunk[..n]);
        };
        let text = String::from_utf8_lossy(&buf[..end]).to_string();
        buf.drain(..end + 4);
        let mut lines = text.split("\r\n");
        let first: Vec<&str> = lines.next().unwrap_or("").split(' ').collect();
        if first.len() < 2 {
            return Ok(());
        }
        let (method, target) = (first[0], first[1].to_string());
        let range = lines
            .filter_map(|l| l.split_once(':'))
            .find(|(k, _)| k.eq_ignore_ascii_case("range"))
            .map(|(_, v)| v.trim().to_string());
        let id: u64 = target.split('/').nth(1).and_then(|x| x.strip_prefix('c')).and_then(|x| x.parse().ok()).unwrap_or(0);
        srv.log.lock().unwrap().entry(id).or_default().push(format!("{method} {target}"));
        let site = srv.sites.lock().unwrap().get(&id).cloned();
        let (status, headers, body, announced) = respond(method, &target, range.as_deref(), site.as_ref());
        let mut out = format!("HTTP/1.1 {status} X\r\nContent-Length: {announced}\r\n");
        for (k, v) in headers {
            out.push_str(&format!("{k}: {v}\r\n"));
        }
        out.push_str("\r\n");
        let mut out = out.into_bytes();
        let cut = method != "HEAD" && body.len() < announced;
        if method != "HEAD" {
            out.extend_from_slice(&body);
        }
        sock.write_all(&out).await?;
        if cut {
            return Ok(());
        }
    }
}

/// bytes of `bytes=a-b`, `bytes=a-` or `bytes=-n` within a file
fn asked(r: &str, len: usize) -> Option<Range<usize>> {
    let (a, b) = r.strip_prefix("bytes=")?.split_once('-')?;
    let (s, e) = match (a, b) {
        ("", n) => (len.saturating_sub(n.parse::<usize>().ok()?), len),
        (a, "") => (a.parse().ok()?, len),
        (a, b) => {
            let (a, b): (usize, usize) = (a.parse().ok()?, b.parse().ok()?);
            if b < a {
                return None;
            }
            (a, b.saturating_add(1).min(len))
        }
    };
    Some(s..e)
}

type Answer = (u16, Vec<(&'static str, String)>, Bytes, usize);

fn respond(method: &str, target: &str, range: Option<&str>, site: Option<&Site>) -> Answer {
    let none = (404, vec![], Bytes::new(), 0);
    let Some(site) = site else { return none };
    if let Some(r) = &site.redirect {
        if target == r {
            // where the file has been all along
        } else if target == site.target {
            return (302, vec![("Location", r.clone())], Bytes::new(), 0);
        } else {
            return none;
        }
    } else if target != site.target {
        return none;
    }
    let len = site.body.len();
    let mut h = vec![];
    if site.etag {
        h.push(("ETag", "\"abc\"".to_string()));
    }
    if site.modified {
        h.push(("Last-Modified", "Fri, 14 Jul 2017 02:40:00 GMT".to_string()));
    }
    if method == "HEAD" {
        return match &site.head {
            Head::Forbidden => (403, vec![], Bytes::new(), 0),
            Head::Missing => (405, vec![], Bytes::new(), 0),
            Head::Accepts(a) => {
                h.extend(a.map(|a| ("Accept-Ranges", a.to_string())));
                (200, h, Bytes::new(), len)
            }
            Head::Ok => {
                h.push(("Accept-Ranges", "bytes".to_string()));
                (200, h, Bytes::new(), len)
            }
        };
    }
    if let Mode::Status(c) = site.mode {
        return (c, h, Bytes::new(), 0);
    }
    let r = range.and_then(|r| asked(r, len));
    match (r, &site.mode) {
        (Some(r), Mode::Honest | Mode::CutShort(_) | Mode::OtherPart(_) | Mode::Shorter(_) | Mode::Label(_) | Mode::WholeAs206) => {
            if r.start >= r.end {
                h.push(("Content-Range", format!("bytes */{len}")));
                return (416, h, Bytes::new(), 0);
            }
            let honest = |r: &Range<usize>| format!("bytes {}-{}/{len}", r.start, r.end - 1);
            let (sent, label) = match &site.mode {
                Mode::OtherPart(n) => {
                    let s = (r.start + 1 + n) % len;
                    let s = s..(s + r.len()).min(len);
                    (s.clone(), honest(&s))
                }
                Mode::Shorter(n) => {
                    let s = r.start..(r.start + 1 + n % r.len());
                    (s.clone(), honest(&s))
                }
                Mode::WholeAs206 => (0..len, honest(&(0..len))),
                Mode::Label(l) => {
                    let l = l.replace('A', &r.start.to_string()).replace('B', &(r.end - 1).to_string()).replace('T', &len.to_string());
                    (r.clone(), l)
                }
                _ => (r.clone(), honest(&r)),
            };
            if !label.is_empty() {
                h.push(("Content-Range", label));
            }
            let b = site.body.slice(sent);
            let n = b.len();
            match site.mode {
                Mode::CutShort(k) => (206, h, b.slice(..k % n), n),
                _ => (206, h, b, n),
            }
        }
        (_, Mode::CutShort(k)) if len > 0 => (200, h, site.body.slice(..k % len), len),
        _ => (200, h, site.body.clone(), len),
    }
}

fn install(mut site: Site, path: &str) -> (u64, String) {
    static N: AtomicU64 = AtomicU64::new(1);
    let id = N.fetch_add(1, Ordering::Relaxed);
    let url = format!("127.0.0.1:{}/c{id}/{path}", server().port);
    // the request a browser would make for it
    let u = Url::parse(&format!("http://{url}")).unwrap();
    site.target = u.path().to_string();
    if let Some(q) = u.query() {
        site.target = format!("{}?{q}", site.target);
    }
    site.redirect = site.redirect.map(|r| format!("/c{id}/{r}"));
    server().sites.lock().unwrap().insert(id, site);
    (id, url)
}

fn retire(id: u64) -> Vec<String> {
    server().sites.lock().unwrap().remove(&id);
    server().log.lock().unwrap().remove(&id).unwrap_or_default()
}

fn store() -> &'static Arc<HttpObjectStore> {
    static S: OnceLock<Arc<HttpObjectStore>> = OnceLock::new();
    S.get_or_init(|| Arc::new(HttpObjectStore::new("http".to_string(), &None)))
}

fn content(s: &mut Src) -> Bytes {
    let len = match s.below(4) {
        0 => s.usize(4),
        1 => s.usize(64),
        _ => s.usize(2000),
    };
    let seed = s.below(4);
    (0..len).map(|i| (hash_of(&(seed, i)) & 0xff) as u8).collect::<Vec<_>>().into()
}

const PARTS: &[&str] = &[
    "a", "file.parquet", "data", "%20", "%2F", "%252F", "%25", "+", "=", "&", "~", "-", "_", ".", "@", ":", ",", ";", "!", "(", ")", "'", "*", "é", "名", "%C3%A9", "%FF", "%", "%zz", " ", "|", "\\", "[x]", "{y}", "\"", "<", ">", "^", "`", "$",
];

/// the part of a URL after its host
fn url_rest(s: &mut Src) -> String {
    let word = |s: &mut Src, extra: &[&'static str]| -> String {
        let n = s.urange(1, 4);
        (0..n)
            .map(|_| {
                if !extra.is_empty() && s.chance(1, 4) {
                    *s.pick(extra)
                } else if s.bool() {
                    *s.pick(&["a", "file.parquet", "data", "x1"])
                } else {
                    *s.pick(PARTS)
                }
            })
            .collect()
    };
    let n = s.urange(1, 3);
    let mut o = (0..n).map(|_| word(s, &[])).collect::<Vec<_>>().join("/");
    if s.chance(1, 8) {
        o.push('/');
    }
    if s.bool() {
        o.push('?');
        let n = s.urange(0, 3);
        for i in 0..n {
            if i > 0 {
                o.push('&');
            }
            o.push_str(&format!("{}={}", word(s, &[]), word(s, &["/", "?", "AKIA%2F20200101%2Fus", "%2B", "%3D%3D", "%26"])));
        }
    }
    if s.chance(1, 12) {
        o.push('#');
        o.push_str(&word(s, &[]));
    }
    o
}

/// can this be an object path at all? (an object path has no empty or relative parts)
fn is_path(rest: &str) -> bool {
    !rest.split('/').any(|p| p.is_empty() || p == "." || p == "..") && !rest.chars().any(|c| c.is_control())
}

/// LOCATION -> object path -> request
fn url(s: &mut Src, ctx: &mut Ctx) -> Res {
    let body = content(s);
    let rest = url_rest(s);
    let site = Site {
        body: body.clone(),
        target: String::new(),
        mode: Mode::Honest,
        head: if s.chance(1, 4) { Head::Forbidden } else { Head::Ok },
        etag: s.bool(),
        modified: s.bool(),
        redirect: None,
    };
    let head_via_get = site.head == Head::Forbidden;
    let (id, u) = install(site.clone(), &rest);
    let target = server().sites.lock().unwrap()[&id].target.clone();
    ctx.describe(format!("LOCATION 'http://…/{rest}' (request {target}), {} bytes, {:?}", body.len(), site.head));
    ctx.nontrivial(&rest);
    ctx.label(if rest.contains('?') { "query string" } else { "no query string" });
    if rest.contains('%') {
        ctx.label("percent sign");
    }
    for scheme in ["http", "https"] {
        let p = try_prepare_http_url(&format!("{scheme}://{u}"));
        ensure!(p.as_ref().is_some_and(|p| p.starts_with(&format!("{scheme}://"))), "prepare", "{scheme}://{u} becomes {p:?}");
    }
    let prepared = try_prepare_http_url(&format!("http://{u}")).unwrap();
    let legal = is_path(&rest);
    let r = (|| {
        let lt = match ListingTableUrl::parse(&prepared) {
            Ok(l) => l,
            Err(e) if legal => fail!("location-rejected", "http://{u} cannot be used as a location: {e}"),
            Err(_) => {
                ctx.label("rejected");
                return Ok(());
            }
        };
        let os = lt.object_store();
        ensure_eq!(os.as_str(), "http://anyhost/", "routing", "object store that http://{u} is routed to");
        let path = lt.prefix().clone();
        rt().block_on(async {
            let st = store();
            let meta = match st.head(&path).await {
                Ok(m) => m,
                // a file without bytes has no first byte to ask for
                Err(_) if head_via_get && body.is_empty() => return Ok(()),
                Err(e) => fail!("head", "http://{u}: {e}\n   requests made: {:?}", server().log.lock().unwrap().get(&id)),
            };
            ensure_eq!(meta.size, body.len(), "size", "size of http://{u}");
            let got = match st.get(&meta.location).await {
                Ok(g) => g.bytes().await.map_err(|e| e.to_string()),
                Err(e) => Err(e.to_string()),
            };
            ensure_eq!(got, Ok(body.clone()), "content", "content of http://{u}");
            if body.len() > 1 {
                let got = st.get_range(&meta.location, 1..body.len()).await.map_err(|e| e.to_string());
                ensure_eq!(got, Ok(body.slice(1..)), "content", "content of http://{u} from its second byte");
            }
            Ok(())
        })
    })();
    let log = retire(id);
    r?;
    for l in log {
        let t = l.split_once(' ').unwrap().1;
        ensure_eq!(t, target, "request", "request made for http://{u}");
    }
    Ok(())
}

fn faulty_mode(s: &mut Src) -> Mode {
    match s.usize(9) {
        0 | 1 => Mode::Honest,
        2 => Mode::NoRanges,
        3 => Mode::CutShort(s.usize(3000)),
        4 => Mode::OtherPart(s.usize(50)),
        5 => Mode::Shorter(s.usize(50)),
        6 => Mode::Label(s.pick(&["", "bytes A-B", "bytes A-B/*", "bytes A-B/", "bytes A-/T", "bytes", "items A-B/T", "bytes B-A/T", "bytes A-B/99999999999999999999999", "bytes A-B/T junk", "bytes A-B/*", "BYTES A-B/T", "bytes  A-B/T", "bytes A - B / T", "bytes -B/T", "bytes */T", "bytes A-18446744073709551615/T"]).to_string()),
        7 => Mode::WholeAs206,
        _ => Mode::Status(*s.pick(&[403, 404, 416, 500, 503, 304])),
    }
}

#[derive(Debug, Clone)]
enum Op {
    Head,
    Get,
    Range(Range<usize>),
    Ranges(Vec<Range<usize>>),
    Opts(GetRange),
}

fn some_range(s: &mut Src, len: usize) -> Range<usize> {
    let point = |s: &mut Src| match s.usize(4) {
        0 => 0,
        1 => len,
        2 => s.usize(len + 1),
        _ => s.usize(len + 20),
    };
    let (a, b) = (point(s), point(s));
    a.min(b)..a.max(b)
}

/// the object store itself and the cache in front of it, against servers that misbehave
fn faults(s: &mut Src, ctx: &mut Ctx) -> Res {
    let body = content(s);
    let len = body.len();
    let mode = faulty_mode(s);
    let head = match s.usize(6) {
        0..=2 => Head::Ok,
        3 => Head::Forbidden,
        4 => Head::Accepts(*s.pick(&[None, Some("none"), Some("Bytes")])),
        _ => Head::Missing,
    };
    let redirect = s.chance(1, 6).then(|| "moved/file?x=1".to_string());
    let site = Site { body: body.clone(), target: String::new(), mode: mode.clone(), head: head.clone(), etag: s.bool(), modified: s.bool(), redirect };
    let n = s.urange(1, 6);
    let ops: Vec<Op> = (0..n)
        .map(|_| match s.usize(8) {
            0 => Op::Head,
            1 => Op::Get,
            2..=4 => Op::Range(some_range(s, len)),
            // (what reading past the end gives is up to the caller's slicing)
            5 => Op::Ranges(s.vec(0, 4, |s| some_range(s, len)).into_iter().map(|r| r.start.min(len)..r.end.min(len)).collect()),
            _ => Op::Opts(match s.usize(3) {
                0 => GetRange::Bounded(some_range(s, len)),
                1 => GetRange::Offset(s.usize(len + 3)),
                _ => GetRange::Suffix(s.usize(len + 3)),
            }),
        })
        .collect();
    let cached = s.chance(1, 3);
    let fetch = *s.pick(&[1u64, 16, 100, 4096]);
    ctx.describe(format!("{len} bytes, server: {mode:?}, HEAD {head:?}, redirect {:?}, cached {cached} ({fetch}); {ops:?}", site.redirect));
    ctx.label(format!("{:?}", mode).split('(').next().unwrap().to_string());
    ctx.label(if cached { "with cache" } else { "without cache" });
    ctx.nontrivial(&(len, format!("{mode:?}{head:?}{ops:?}{cached}")));
    let dir = cached.then(env::scratch);
    let st: Arc<dyn ObjectStore> = match &dir {
        Some(d) => Arc::new(CachingObjectStore::new(store().clone(), d.path(), fetch, 1 << 20, Duration::from_secs(600))),
        None => store().clone(),
    };
    let (id, u) = install(site, "file.bin");
    let path = Path::parse(&u).unwrap();
    let good = mode == Mode::Honest;
    let r = rt().block_on(async {
        for op in &ops {
            let bytes = |r: Result<object_store::GetResult, object_store::Error>| async move {
                match r {
                    Ok(g) => {
                        let (rg, m) = (g.range.clone(), g.meta.size);
                        g.bytes().await.map(|b| (b, Some((rg, m)))).map_err(|e| e.to_string())
                    }
                    Err(e) => Err(e.to_string()),
                }
            };
            // (answers, the ranges they should be, must they be there)
            type One = Result<(Bytes, Option<(Range<usize>, usize)>), String>;
            let (got, wanted, must): (One, Range<usize>, bool) = match op {
                Op::Head => {
                    match st.head(&path).await {
                        Ok(m) => ensure_eq!(m.size, len, "size", "size reported for the file"),
                        Err(e) => {
                            if head == Head::Ok || (head == Head::Forbidden && good && len > 0) {
                                fail!("head-fails", "HEAD fails: {e}");
                            }
                        }
                    }
                    continue;
                }
                Op::Get => (bytes(st.get(&path).await).await, 0..len, good || matches!(mode, Mode::NoRanges)),
                Op::Range(r) => {
                    let must = good && r.end <= len && r.start < r.end;
                    (st.get_range(&path, r.clone()).await.map(|b| (b, None)).map_err(|e| e.to_string()), r.clone(), must)
                }
                Op::Ranges(rs) => {
                    match st.get_ranges(&path, rs).await {
                        Ok(v) => {
                            ensure_eq!(v.len(), rs.len(), "ranges", "number of answers for {rs:?}");
                            for (b, r) in v.iter().zip(rs) {
                                let want = body.slice(r.start.min(len)..r.end.min(len));
                                ensure_eq!(*b, want, "bytes", "bytes {r:?} of a file of {len}");
                            }
                        }
                        Err(e) => {
                            if good && rs.iter().all(|r| r.end <= len && r.start < r.end) {
                                fail!("range-fails", "reading {rs:?} of a file of {len} fails: {e}");
                            }
                        }
                    }
                    continue;
                }
                Op::Opts(g) => {
                    let r = match g {
                        GetRange::Bounded(r) => r.clone(),
                        GetRange::Offset(o) => *o..len.max(*o),
                        GetRange::Suffix(n) => len.saturating_sub(*n)..len,
                    };
                    let must = good && r.end <= len && r.start < r.end;
                    let o = GetOptions { range: Some(g.clone()), ..Default::default() };
                    (bytes(st.get_opts(&path, o).await).await, r, must)
                }
            };
            let clipped = wanted.start.min(len)..wanted.end.min(len);
            match got {
                Ok((b, info)) => {
                    ensure_eq!(b, body.slice(clipped.clone()), "bytes", "bytes {wanted:?} of a file of {len} ({op:?})");
                    if let Some((r, size)) = info {
                        ensure_eq!(r, clipped, "range", "range reported for {op:?} of a file of {len}");
                        ensure_eq!(size, len, "size", "size reported with {op:?}");
                    }
                }
                Err(e) => {
                    if must {
                        fail!("range-fails", "reading {op:?} of a file of {len} fails: {e}");
                    }
                }
            }
        }
        // nothing can be changed through it
        for (n, e) in [
            ("put", st.put(&path, "x".into()).await.is_err()),
            ("delete", st.delete(&path).await.is_err()),
            ("copy", st.copy(&path, &Path::from("y")).await.is_err()),
        ] {
            ensure!(e, "write", "{n} is reported as done on a store that cannot write");
        }
        Ok(())
    });
    let _ = (format!("{st}"), format!("{st:?}"));
    retire(id);
    r
}

/// through SQL
fn sql(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(200);
    let vals: Vec<(i64, String)> = (0..n).map(|i| (s.range(-1000, 1000), format!("v{i}{}", "x".repeat(s.usize(30))))).collect();
    let (fmt, body): (&str, Vec<u8>) = match s.usize(3) {
        0 => ("CSV", {
            let mut o = String::from("a,b\n");
            vals.iter().for_each(|(a, b)| o.push_str(&format!("{a},{b}\n")));
            o.into_bytes()
        }),
        1 => ("JSON", {
            let mut o = String::new();
            vals.iter().for_each(|(a, b)| o.push_str(&format!("{{\"a\":{a},\"b\":\"{b}\"}}\n")));
            o.into_bytes()
        }),
        _ => ("PARQUET", parquet(&vals)),
    };
    let ext = fmt.to_lowercase();
    let rest = match s.usize(3) {
        0 => format!("dir/file.{ext}"),
        1 => format!("file%20name.{ext}"),
        _ => format!("f.{ext}?X-Amz-Credential=AKIA%2F2020%2Fs3&X-Amz-Signature=ab%2Bcd%3D"),
    };
    let site = Site {
        body: body.clone().into(),
        target: String::new(),
        mode: match s.weighted(&[6, 1, 1, 1]) {
            0 => Mode::Honest,
            1 => Mode::CutShort(s.usize(body.len() + 1)),
            2 => Mode::OtherPart(s.usize(20)),
            _ => Mode::NoRanges,
        },
        head: if s.chance(1, 4) { Head::Forbidden } else { Head::Ok },
        etag: s.bool(),
        modified: s.bool(),
        redirect: None,
    };
    let good = site.mode == Mode::Honest && !vals.is_empty();
    ctx.describe(format!("{fmt} of {n} rows at {rest}, {:?}, HEAD {:?}", site.mode, site.head));
    ctx.label(fmt.to_string());
    ctx.nontrivial(&(n, &rest, format!("{:?}", site.mode)));
    let (id, u) = install(site, &rest);
    let r = rt().block_on(async {
        let c = context().await;
        let opts = if fmt == "CSV" { " OPTIONS ('format.has_header' 'true')" } else { "" };
        let name = format!("ext{id}");
        let made = env::run(c, &format!("CREATE EXTERNAL TABLE {name} (a BIGINT, b TEXT) STORED AS {fmt} LOCATION 'http://{u}'{opts}").replace(if fmt == "PARQUET" { " (a BIGINT, b TEXT)" } else { "\u{0}" }, "")).await;
        let out = match made {
            Err(e) => Err(e),
            Ok(_) => env::select(c, &format!("SELECT a, b FROM staging.{name}")).await.map(|rows| rows.into_iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()),
        };
        let local = {
            let d = env::scratch();
            let f = d.path().join(format!("f.{ext}"));
            std::fs::write(&f, &body).unwrap();
            let lname = format!("loc{id}");
            match env::run(c, &format!("CREATE EXTERNAL TABLE {lname} (a BIGINT, b TEXT) STORED AS {fmt} LOCATION '{}'{opts}", f.display()).replace(if fmt == "PARQUET" { " (a BIGINT, b TEXT)" } else { "\u{0}" }, "")).await {
                Err(e) => Err(e),
                Ok(_) => env::select(c, &format!("SELECT a, b FROM staging.{lname}")).await.map(|rows| rows.into_iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()),
            }
        };
        for t in [format!("ext{id}"), format!("loc{id}")] {
            let _ = env::run(c, &format!("DROP TABLE staging.{t}")).await;
        }
        match (out, local) {
            (Ok(mut a), Ok(mut b)) => {
                if a != b {
                    // order of the rows may differ
                    a.sort();
                    b.sort();
                }
                ensure_eq!(a, b, "rows", "rows read over HTTP");
                ensure_eq!(a.len(), n, "rows", "number of rows read over HTTP");
            }
            (Err(e), Ok(_)) if good => fail!("sql-fails", "reading the file over HTTP fails: {e}"),
            (Ok(a), Err(e)) if good => fail!("sql-differs", "the file reads over HTTP ({} rows), not from disk: {e}", a.len()),
            _ => ctx.label("fails"),
        }
        Ok(())
    });
    retire(id);
    r
}

fn parquet(vals: &[(i64, String)]) -> Vec<u8> {
    use arrow::array::*;
    use datafusion::parquet::arrow::ArrowWriter;
    let b = RecordBatch::try_from_iter([
        ("a", Arc::new(Int64Array::from(vals.iter().map(|v| v.0).collect::<Vec<_>>())) as ArrayRef),
        ("b", Arc::new(StringArray::from(vals.iter().map(|v| v.1.clone()).collect::<Vec<_>>())) as ArrayRef),
    ])
    .unwrap();
    let mut out = vec![];
    let mut w = ArrowWriter::try_new(&mut out, b.schema(), None).unwrap();
    w.write(&b).unwrap();
    w.close().unwrap();
    out
}

async fn context() -> &'static seafowl_full::context::SeafowlContext {
    static C: tokio::sync::OnceCell<seafowl_full::context::SeafowlContext> = tokio::sync::OnceCell::const_new();
    C.get_or_init(|| async { env::memory(1000).await }).await
}

fn main() {
    env::logging();
    pbt::main(Property {
        id: "C27",
        rule: "A server on the loopback interface serves generated files. Leg url: locations with every kind of character, percent-encoding and query string are prepared, turned into an object path as DataFusion does, and read; the request has to be the one the URL denotes. Leg faults: sequences of reads through the store, alone or behind the cache, from servers that ignore ranges, cut answers short, send another part, label it wrongly, redirect or fail: an answer has to be the file's exact bytes. Leg sql: CSV, JSON and Parquet tables over HTTP against the same file on disk. Non-trivial: every case, distinct by location, server and reads.",
        assumptions: &["the request a URL denotes is what the url crate makes of it", "a server that labels a wrong part as the one asked for cannot be told from an honest one"],
        legs: vec![leg("url", 40_000, 600_000, url), leg("faults", 40_000, 600_000, faults), leg("sql", 1_200, 20_000, sql)],
    });
}
