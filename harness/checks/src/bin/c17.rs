//! C17: storage settings select exactly what they name.
//! Reference: hand-written tables of the option spellings, and the requests a store built from the settings really sends
//! (to a server of our own on the loopback interface) or the files it really writes (into a scratch directory).
use futures::StreamExt;
use object_store::{path::Path, ObjectStore};
use object_store_factory::{aws::*, google::*, local::*, *};
use pbt::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex, OnceLock};
use url::Url;

type Map = HashMap<String, String>;

static ENV: Mutex<()> = Mutex::new(());

/// The spellings of an S3 option, canonical first.
const S3_KEYS: &[&[&str]] = &[
    &["aws_access_key_id", "access_key_id"],
    &["aws_secret_access_key", "secret_access_key"],
    &["aws_region", "region"],
    &["aws_default_region", "default_region"],
    &["aws_endpoint", "endpoint", "aws_endpoint_url", "endpoint_url"],
    &["aws_bucket", "bucket", "aws_bucket_name", "bucket_name"],
    &["aws_session_token", "session_token", "aws_token", "token"],
    &["aws_skip_signature", "skip_signature"],
    &["allow_http", "aws_allow_http"],
    &["aws_unsigned_payload", "unsigned_payload"],
    &["aws_conditional_put", "conditional_put"],
    &["aws_request_payer", "request_payer"],
    &["aws_virtual_hosted_style_request", "virtual_hosted_style_request"],
    &["timeout", "aws_timeout"],
];
const GCS_KEYS: &[&[&str]] = &[
    &["google_service_account", "service_account", "google_service_account_path", "service_account_path"],
    &["google_service_account_key", "service_account_key"],
    &["google_bucket", "bucket", "google_bucket_name", "bucket_name"],
    &["google_application_credentials"],
    &["allow_http", "google_allow_http"],
    &["timeout", "google_timeout"],
    &["user_agent", "google_user_agent"],
];
const BAD_KEYS: &[&str] = &["", "Region", "aws_", "prefix_", "acess_key_id", "format.region", "AWS_REGION", "google_", "key", "é", "region ", "aws-region"];

fn canonical(table: &[&[&'static str]], key: &str) -> Option<&'static str> {
    table.iter().find(|r| r.contains(&key)).map(|r| r[0])
}

const CHARS: &[char] = &['a', 'B', '7', '-', '_', '.', '/', ' ', '+', '=', '"', '\\', '%', '\n', 'é', '雪', ':', '{', '\''];

fn text(s: &mut Src) -> String {
    match s.below(6) {
        0 => String::new(),
        1 => s.pick(&["true", "false", "TRUE", "1", "none", "null", "False"]).to_string(),
        _ => s.string_of(CHARS, 0, 12),
    }
}
fn opt(s: &mut Src) -> Option<String> {
    if s.chance(2, 3) { Some(text(s)) } else { None }
}
fn word(s: &mut Src) -> String {
    let n = s.urange(1, 8);
    (0..n).map(|_| *s.pick(&['a', 'b', 'k', 'z', '0', '9'])).collect()
}

fn round(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let noise = |s: &mut Src, m: &mut Map| {
        for _ in 0..s.below(3) {
            m.insert(format!("x-{}", word(s)), text(s));
        }
    };
    match s.below(3) {
        0 => {
            let c = LocalConfig { data_dir: text(s), disable_hardlinks: s.bool() };
            ctx.describe(format!("{c:?}"));
            ctx.label("local");
            let mut m = c.to_hashmap();
            noise(s, &mut m);
            let back = LocalConfig::from_hashmap(&m).map_err(|e| Fail::new("refused", format!("{e:?}")))?;
            ensure_eq!(back, c, "local", "through the option map");
            ensure_eq!(ObjectStoreConfig::Local(c.clone()).to_hashmap(), c.to_hashmap(), "enum-map", "the map of the wrapping configuration");
            m.remove("disable_hardlinks");
            ensure_eq!(LocalConfig::from_hashmap(&m).map_err(|e| Fail::new("refused", format!("{e:?}")))?.disable_hardlinks, false, "default", "hard links by default");
            m.remove("data_dir");
            ensure!(LocalConfig::from_hashmap(&m).is_err(), "missing", "accepted options without data_dir: {m:?}");
            let j = serde_json::json!({"type": "local", "data_dir": c.data_dir, "disable_hardlinks": c.disable_hardlinks});
            let t = format!("type = \"local\"\ndata_dir = {}\ndisable_hardlinks = {}\n", toml::Value::String(c.data_dir.clone()), c.disable_hardlinks);
            same_config(ObjectStoreConfig::Local(c.clone()), "file:///tmp", &j, &t)?;
            if c.data_dir.len() > 0 && c.disable_hardlinks {
                ctx.nontrivial(&format!("{c:?}"));
            }
        }
        1 => {
            let c = GCSConfig { bucket: text(s), prefix: opt(s), google_application_credentials: opt(s) };
            ctx.describe(format!("{c:?}"));
            ctx.label("gcs");
            let mut m = c.to_hashmap();
            noise(s, &mut m);
            let back = quiet(|| GCSConfig::from_hashmap(&m))?.map_err(|e| Fail::new("refused", format!("{e:?}")))?;
            ensure_eq!(back, c, "gcs", "through the option map");
            ensure_eq!(ObjectStoreConfig::GoogleCloudStorage(c.clone()).to_hashmap(), c.to_hashmap(), "enum-map", "the map of the wrapping configuration");
            ensure_eq!(c.bucket_to_url(), format!("gs://{}", c.bucket), "url", "the bucket's URL");
            ensure_eq!(c.get_base_url(), c.prefix.as_ref().map(|p| Path::from(p.as_str())), "base", "the base path");
            ensure_eq!(ObjectStoreConfig::GoogleCloudStorage(c.clone()).get_base_url(), c.get_base_url(), "base", "the base path of the wrapping configuration");
            // DDL options
            let mut o: Map = HashMap::new();
            noise(s, &mut o);
            let rest = o.clone();
            if let Some(x) = &c.google_application_credentials {
                o.insert("format.google_application_credentials".into(), x.clone());
            }
            let d = GCSConfig::from_bucket_and_options(c.bucket.clone(), &mut o).map_err(|e| Fail::new("refused", format!("{e:?}")))?;
            ensure_eq!(d, GCSConfig { prefix: None, ..c.clone() }, "ddl", "from the statement's options");
            ensure_eq!(o, rest, "ddl-rest", "options left over");
            let mut j = serde_json::json!({"type": "gcs", "bucket": c.bucket});
            let mut t = format!("type = \"gcs\"\nbucket = {}\n", toml::Value::String(c.bucket.clone()));
            for (k, v) in [("prefix", &c.prefix), ("google_application_credentials", &c.google_application_credentials)] {
                if let Some(v) = v {
                    j[k] = v.clone().into();
                    t += &format!("{k} = {}\n", toml::Value::String(v.clone()));
                }
            }
            same_config(ObjectStoreConfig::GoogleCloudStorage(c.clone()), "gs://b", &j, &t)?;
            if c.prefix.is_some() || c.google_application_credentials.is_some() {
                ctx.nontrivial(&format!("{c:?}"));
            }
        }
        _ => {
            let c = S3Config {
                region: opt(s),
                access_key_id: opt(s),
                secret_access_key: opt(s),
                session_token: opt(s),
                endpoint: opt(s),
                bucket: text(s),
                prefix: opt(s),
                allow_http: s.bool(),
                skip_signature: s.bool(),
            };
            ctx.describe(format!("{c:?}"));
            ctx.label("s3");
            let fields = [
                ("region", "aws_region", &c.region),
                ("access_key_id", "aws_access_key_id", &c.access_key_id),
                ("secret_access_key", "aws_secret_access_key", &c.secret_access_key),
                ("session_token", "aws_session_token", &c.session_token),
                ("endpoint", "aws_endpoint", &c.endpoint),
            ];
            // the option map names every setting the store needs, under names the other direction understands
            let mut want: BTreeMap<String, String> = BTreeMap::new();
            for (_, k, v) in &fields {
                if let Some(v) = v {
                    want.insert(k.to_string(), v.to_string());
                }
            }
            want.insert("allow_http".into(), c.allow_http.to_string());
            want.insert("aws_skip_signature".into(), c.skip_signature.to_string());
            let m = c.to_hashmap();
            ensure_eq!(spellings(&m, S3_KEYS), want, "s3-map", "the option map");
            ensure_eq!(ObjectStoreConfig::AmazonS3(c.clone()).to_hashmap(), m, "enum-map", "the map of the wrapping configuration");
            let back = map_options_into_amazon_s3_config_keys(m).map_err(|e| Fail::new("refused", format!("own option map refused: {e:?}")))?;
            let back: BTreeMap<String, String> = back.into_iter().map(|(k, v)| (k.as_ref().to_string(), v)).collect();
            ensure_eq!(back, want, "s3-map-back", "the option map read back");
            // from plain names
            let mut m: Map = HashMap::new();
            noise(s, &mut m);
            for (k, _, v) in &fields {
                if let Some(v) = v {
                    m.insert(k.to_string(), v.to_string());
                }
            }
            if let Some(v) = &c.prefix {
                m.insert("prefix".into(), v.clone());
            }
            m.insert("bucket".into(), c.bucket.clone());
            let dflt = s.bool();
            if !dflt {
                m.insert("allow_http".into(), c.allow_http.to_string());
                m.insert("skip_signature".into(), c.skip_signature.to_string());
            }
            let c2 = S3Config { allow_http: dflt || c.allow_http, skip_signature: dflt || c.skip_signature, ..c.clone() };
            ensure_eq!(S3Config::from_hashmap(&m).map_err(|e| Fail::new("refused", format!("{e:?}")))?, c2, "s3-from", "from the option map");
            // DDL options
            let mut o: Map = HashMap::new();
            noise(s, &mut o);
            let rest = o.clone();
            for (k, v) in &m {
                if !k.starts_with("x-") && k != "bucket" && k != "prefix" {
                    o.insert(format!("format.{k}"), v.clone());
                }
            }
            let d = S3Config::from_bucket_and_options(c.bucket.clone(), &mut o).map_err(|e| Fail::new("refused", format!("{e:?}")))?;
            ensure_eq!(d, S3Config { prefix: None, ..c2.clone() }, "ddl", "from the statement's options");
            ensure_eq!(o, rest, "ddl-rest", "options left over");
            ensure_eq!(c.bucket_to_url(), format!("s3://{}", c.bucket), "url", "the bucket's URL");
            ensure_eq!(c.get_base_url(), c.prefix.as_ref().map(|p| Path::from(p.as_str())), "base", "the base path");
            ensure_eq!(ObjectStoreConfig::AmazonS3(c.clone()).get_base_url(), c.get_base_url(), "base", "the base path of the wrapping configuration");
            ensure_eq!(ObjectStoreConfig::AmazonS3(c.clone()).get_allow_http().unwrap(), c.allow_http, "http", "plain HTTP allowed");
            let mut j = serde_json::json!({"type": "s3"});
            let mut t = "type = \"s3\"\n".to_string();
            for (k, v) in &m {
                if k.starts_with("x-") {
                    continue;
                }
                if (k == "allow_http" || k == "skip_signature") && (v == "true" || v == "false") {
                    j[k] = (v == "true").into();
                    t += &format!("{k} = {v}\n");
                } else {
                    j[k] = v.clone().into();
                    t += &format!("{k} = {}\n", toml::Value::String(v.clone()));
                }
            }
            same_config(ObjectStoreConfig::AmazonS3(c2), "s3://b", &j, &t)?;
            if fields.iter().filter(|f| f.2.is_some()).count() > 1 {
                ctx.nontrivial(&format!("{c:?}"));
            }
        }
    }
    Ok(())
}

/// The option map with every key in its canonical spelling (keys that are none kept).
fn spellings(m: &Map, table: &[&[&'static str]]) -> BTreeMap<String, String> {
    m.iter().map(|(k, v)| (canonical(table, k).unwrap_or(k).to_string(), v.clone())).collect()
}

fn same_config(want: ObjectStoreConfig, url: &str, j: &serde_json::Value, t: &str) -> Result<(), Fail> {
    let u = Url::parse(url).unwrap();
    let got = quiet(|| ObjectStoreConfig::build_from_json(&u, &j.to_string()))?.map_err(|e| Fail::new("json", format!("{j} refused: {e:?}")))?;
    ensure_eq!(got, want, "json", "read from {j}");
    let got: ObjectStoreConfig = toml::from_str(t).map_err(|e| Fail::new("toml", format!("{t:?} refused: {e}")))?;
    ensure_eq!(got, want, "toml", "read from {t:?}");
    Ok(())
}

/// Anything at all given as JSON for a location is read or refused; never a crash.
fn json(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let url = *s.pick(&["file:///tmp/x", "memory:///", "memory:///a", "s3://b", "s3://b/p", "gs://b/p", "az://c/x", "http://h/p", "https://s3.amazonaws.com/b/k", "https://h/x", "ftp://x/y", "abfs://c@a/x"]);
    let clean = s.chance(2, 3);
    let mut j = serde_json::json!({});
    for k in ["type", "data_dir", "bucket", "prefix", "region", "access_key_id", "secret_access_key", "allow_http", "skip_signature", "disable_hardlinks", "google_application_credentials"] {
        let flag = ["allow_http", "skip_signature", "disable_hardlinks"].contains(&k);
        if s.chance(2, 3) || (clean && !flag) {
            j[k] = match s.below(if clean { 60 } else { 8 }) {
                0 => serde_json::Value::Null,
                1 => s.bool().into(),
                2 => s.below(10).into(),
                _ if flag => s.bool().into(),
                _ => text(s).into(),
            };
        }
    }
    let mut t = j.to_string();
    if s.chance(1, 8) {
        t = t.chars().take(s.below(t.len() as u64 + 1) as usize).collect();
    }
    ctx.describe(format!("{url} {t}"));
    ctx.label(url);
    let u = Url::parse(url).unwrap();
    let r = quiet(|| ObjectStoreConfig::build_from_json(&u, &t))?;
    let str_at = |k: &str| j[k].as_str().is_some();
    let opt_str = |k: &str| j[k].is_null() || str_at(k);
    let opt_bool = |k: &str| j.get(k).is_none() || j[k].is_boolean();
    let full = t == j.to_string();
    let want = full
        && if url.starts_with("file") {
            str_at("data_dir") && opt_bool("disable_hardlinks")
        } else if url.starts_with("s3:") || url.contains("amazonaws") {
            str_at("bucket") && ["prefix", "region", "access_key_id", "secret_access_key"].iter().all(|k| opt_str(k)) && opt_bool("allow_http") && opt_bool("skip_signature")
        } else if url.starts_with("gs") {
            str_at("bucket") && opt_str("prefix") && opt_str("google_application_credentials")
        } else {
            false
        };
    if url.starts_with("memory") {
        ensure!(matches!(r, Ok(ObjectStoreConfig::Memory)), "memory", "{r:?}");
    } else {
        ensure_eq!(r.is_ok(), want, "accept", "accepting {t} for {url} ({r:?})");
    }
    if full && want {
        ctx.nontrivial(&t);
    }
    Ok(())
}

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    no_panic(f).map_err(|(m, _)| Fail::new("panic", format!("panicked: {m}")))
}

/// Option spellings and environment variables.
fn keys(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let s3 = s.bool();
    let table = if s3 { S3_KEYS } else { GCS_KEYS };
    ctx.label(if s3 { "s3" } else { "gcs" });
    let mut opts: Map = HashMap::new();
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for row in table {
        if s.chance(1, 3) {
            let v = text(s);
            opts.insert(s.pick(row).to_string(), v.clone());
            want.insert(row[0].to_string(), v);
        }
    }
    let bad = s.chance(1, 4);
    if bad {
        opts.insert(s.pick(BAD_KEYS).to_string(), text(s));
    }
    // the environment
    let mut env: BTreeMap<String, String> = BTreeMap::new();
    for row in table {
        if s.chance(1, 3) {
            let names: Vec<&&str> = row.iter().filter(|n| n.starts_with(if s3 { "aws_" } else { "google_" }) && **n != "google_service_account_path").collect();
            if !names.is_empty() {
                let n = s.pick(&names).to_uppercase();
                let v: String = text(s).replace('\0', "");
                env.insert(n, v);
            }
        }
    }
    for _ in 0..s.below(3) {
        let n = *s.pick(&["aws_region", "google_bucket", "Aws_Access_Key_Id", "GOOGLE_CLOUD_PROJECT", "AWS_PROFILE", "AWSREGION", "XAWS_REGION", "Google_Bucket", "ACCESS_KEY_ID", "REGION"]);
        env.insert(n.to_string(), text(s));
    }
    let allow = if s3 && s.chance(1, 3) { Some(s.pick(&["true", "false", "TRUE", ""]).to_string()) } else { None };
    ctx.describe(format!("options {opts:?} environment {env:?} ALLOW_HTTP {allow:?}"));
    let mut expect = want.clone();
    if s3 {
        for (k, v) in &env {
            if k.starts_with("AWS_") {
                if let Some(c) = canonical(S3_KEYS, &k.to_ascii_lowercase()) {
                    expect.entry(c.to_string()).or_insert(v.clone());
                }
            }
        }
        if allow.as_deref() == Some("true") {
            expect.entry("allow_http".into()).or_insert("true".into());
        }
    } else {
        let given = want.contains_key("google_service_account") || want.contains_key("google_service_account_key");
        if !given {
            if let Some(v) = env.get("GOOGLE_SERVICE_ACCOUNT") {
                expect.insert("google_service_account".into(), v.clone());
            } else if let Some(v) = env.get("GOOGLE_SERVICE_ACCOUNT_KEY") {
                expect.insert("google_service_account_key".into(), v.clone());
            }
        }
        for (k, v) in &env {
            if k.starts_with("GOOGLE_") && !k.starts_with("GOOGLE_SERVICE_ACCOUNT") {
                if let Some(c) = canonical(GCS_KEYS, &k.to_ascii_lowercase()) {
                    expect.entry(c.to_string()).or_insert(v.clone());
                }
            }
        }
    }
    let _g = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let mut set: Vec<(String, String)> = env.clone().into_iter().collect();
    set.extend(allow.map(|v| ("ALLOW_HTTP".to_string(), v)));
    for (k, v) in &set {
        std::env::set_var(k, v);
    }
    let got: Result<(BTreeMap<String, String>, BTreeMap<String, String>), String> = (|| {
        if s3 {
            let mut m = map_options_into_amazon_s3_config_keys(opts.clone()).map_err(|e| e.to_string())?;
            let a = m.iter().map(|(k, v)| (k.as_ref().to_string(), v.clone())).collect();
            add_amazon_s3_environment_variables(&mut m);
            Ok((a, m.iter().map(|(k, v)| (k.as_ref().to_string(), v.clone())).collect()))
        } else {
            let mut m = map_options_into_google_config_keys(opts.clone()).map_err(|e| e.to_string())?;
            let a = m.iter().map(|(k, v)| (k.as_ref().to_string(), v.clone())).collect();
            add_google_cloud_storage_environment_variables(&mut m);
            Ok((a, m.iter().map(|(k, v)| (k.as_ref().to_string(), v.clone())).collect()))
        }
    })();
    for (k, _) in &set {
        std::env::remove_var(k);
    }
    drop(_g);
    match got {
        Err(e) => {
            ensure!(bad, "refused", "known options refused: {e}");
            ctx.label("unknown key refused");
        }
        Ok((a, b)) => {
            ensure!(!bad, "unknown", "an unknown option was accepted: {a:?}");
            ensure_eq!(a, want, "options", "the options given");
            ensure_eq!(b, expect, "environment", "the options completed from the environment");
            if b.len() > a.len() && !a.is_empty() {
                ctx.nontrivial(&format!("{opts:?}{env:?}"));
            }
        }
    }
    Ok(())
}

/// The properties handed to the Iceberg reader.
fn file_io(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut opts: Map = HashMap::new();
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    let mut any = false;
    for row in S3_KEYS {
        if s.chance(1, 3) {
            let v = if row[0] == "aws_skip_signature" && s.chance(2, 3) { s.pick(&["true", "True", "t", "T", "1", "false", "0", "f", "yes"]).to_string() } else { text(s) };
            opts.insert(s.pick(row).to_string(), v.clone());
            any = true;
            match row[0] {
                "aws_access_key_id" => want.insert("s3.access-key-id".into(), v),
                "aws_secret_access_key" => want.insert("s3.secret-access-key".into(), v),
                "aws_region" => want.insert("s3.region".into(), v),
                "aws_endpoint" => want.insert("s3.endpoint".into(), v),
                "aws_skip_signature" if ["true", "t", "1"].contains(&v.to_lowercase().as_str()) => {
                    want.insert("s3.allow-anonymous".into(), v.clone());
                    want.insert("s3.disable-ec2-metadata".into(), v)
                }
                k => want.insert(k.into(), v),
            };
        }
    }
    if any {
        want.insert("s3.disable-config-load".into(), "true".into());
        want.entry("s3.region".into()).or_insert("dummy-region".into());
    }
    for _ in 0..s.below(3) {
        let (k, v) = (format!("x-{}", word(s)), text(s));
        opts.insert(k.clone(), v.clone());
        want.insert(k, v);
    }
    ctx.describe(format!("{opts:?}"));
    let got: BTreeMap<String, String> = object_store_opts_to_file_io_props(&opts).into_iter().collect();
    ensure_eq!(got, want, "props", "the reader's properties");
    if any && opts.len() > 2 {
        ctx.nontrivial(&format!("{opts:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- what a built store really does

type Log = Arc<Mutex<Vec<(String, Vec<(String, String)>)>>>;

/// A server that answers every request with one small object and notes what was asked.
fn server() -> &'static (u16, Log) {
    static S: OnceLock<(u16, Log)> = OnceLock::new();
    S.get_or_init(|| {
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        let log: Log = Default::default();
        let log2 = log.clone();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let log = log2.clone();
                std::thread::spawn(move || {
                    let mut c = c;
                    let mut buf = vec![];
                    let mut b = [0u8; 4096];
                    while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                        match c.read(&mut b) {
                            Ok(n) if n > 0 => buf.extend(&b[..n]),
                            _ => return,
                        }
                    }
                    let t = String::from_utf8_lossy(&buf).to_string();
                    let mut lines = t.split("\r\n");
                    let first = lines.next().unwrap_or("").to_string();
                    let headers = lines.take_while(|l| !l.is_empty()).filter_map(|l| l.split_once(": ")).map(|(a, b)| (a.to_lowercase(), b.to_string())).collect();
                    log.lock().unwrap().push((first, headers));
                    let _ = c.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\nETag: \"e\"\r\nLast-Modified: Wed, 21 Oct 2015 07:28:00 GMT\r\nConnection: close\r\n\r\nbody");
                });
            }
        });
        (port, log)
    })
}

/// A path of one to three segments, with characters that need encoding in a URL, and the URL spelling of it.
fn segments(s: &mut Src, extra: &[char]) -> Vec<String> {
    let n = s.urange(0, 3);
    let mut cs = vec!['a', 'b', '7', '_', '-', ' ', 'é', '=', '+', '&', '@'];
    cs.extend(extra);
    (0..n).map(|_| loop {
        let x = s.string_of(&cs, 1, 6);
        let x = x.trim().to_string();
        if !x.is_empty() && x != "." && x != ".." {
            break x;
        }
    }).collect()
}
fn encoded(segs: &[String]) -> String {
    segs.iter().map(|x| format!("/{}", x.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect::<String>())).collect()
}
fn decode(p: &str) -> String {
    percent_encoding::percent_decode_str(p).decode_utf8_lossy().to_string()
}

fn wire_s3(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (port, log) = server();
    let endpoint = format!("http://127.0.0.1:{port}");
    let bucket = format!("b{}", word(s));
    let segs = segments(s, &[]);
    let (key, secret, token, region) = (format!("K{}", word(s)), word(s), if s.bool() { Some(word(s)) } else { None }, format!("r-{}", word(s)));
    let signed = s.chance(3, 4);
    let via_config = s.chance(1, 3);
    let lax = s.bool();
    let _g = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let mut env = vec![];
    let prefix: Vec<String>;
    let store: Arc<dyn ObjectStore> = if via_config {
        ctx.label("from configuration");
        prefix = vec![];
        let c = S3Config {
            region: Some(region.clone()),
            access_key_id: if signed { Some(key.clone()) } else { None },
            secret_access_key: if signed { Some(secret.clone()) } else { None },
            session_token: token.clone(),
            endpoint: Some(endpoint.clone()),
            bucket: bucket.clone(),
            prefix: if s.bool() { Some("p".into()) } else { None },
            allow_http: true,
            skip_signature: !signed || lax,
        };
        ctx.describe(format!("{c:?}"));
        ObjectStoreConfig::AmazonS3(c).build_object_store().map_err(|e| Fail::new("refused", format!("{e:?}")))?
    } else {
        ctx.label("from options");
        prefix = segs.clone();
        let mut o: Map = HashMap::new();
        let mut give = |s: &mut Src, row: &str, v: &str| {
            let row = S3_KEYS.iter().find(|r| r[0] == row).unwrap();
            match s.below(3) {
                // in the environment only (the region always in the options: without one it is looked up over the network)
                0 if row[0] != "aws_region" => {
                    let up: Vec<&&str> = row.iter().filter(|n| n.starts_with("aws_")).collect();
                    env.push((s.pick(&up).to_uppercase(), v.to_string()));
                }
                1 => {
                    let up: Vec<&&str> = row.iter().filter(|n| n.starts_with("aws_")).collect();
                    env.push((s.pick(&up).to_uppercase(), format!("other{}", word(s))));
                    o.insert(s.pick(row).to_string(), v.to_string());
                }
                _ => {
                    o.insert(s.pick(row).to_string(), v.to_string());
                }
            }
        };
        give(s, "aws_region", &region);
        give(s, "aws_endpoint", &endpoint);
        if signed {
            give(s, "aws_access_key_id", &key);
            give(s, "aws_secret_access_key", &secret);
            if let Some(t) = &token {
                give(s, "aws_session_token", t);
            }
        } else {
            o.insert("skip_signature".into(), "true".into());
        }
        match s.below(3) {
            0 => env.push(("ALLOW_HTTP".into(), "true".into())),
            1 => env.push(("AWS_ALLOW_HTTP".into(), "true".into())),
            _ => {
                o.insert("allow_http".into(), "true".into());
            }
        }
        let url = Url::parse(&format!("s3://{bucket}{}{}", encoded(&segs), if s.bool() { "/" } else { "" })).unwrap();
        ctx.describe(format!("{url} options {o:?} environment {env:?}"));
        for (k, v) in &env {
            std::env::set_var(k, v);
        }
        let info = block_on(build_storage_location_info_from_opts(&url, &o));
        for (k, _) in &env {
            std::env::remove_var(k);
        }
        let info = info.map_err(|e| Fail::new("refused", format!("{e:?}")))?;
        ensure_eq!(info.url, url.to_string(), "info", "the location's URL");
        ensure_eq!(info.options, o, "info", "the location's options");
        info.object_store
    };
    log.lock().unwrap().clear();
    let body = block_on(async { store.get(&Path::from("dir/file.parquet")).await?.bytes().await }).map_err(|e: object_store::Error| Fail::new("get", format!("{e:?}")))?;
    ensure_eq!(body.as_ref(), b"body", "body", "the object");
    let reqs = log.lock().unwrap().clone();
    ensure_eq!(reqs.len(), 1, "requests", "requests sent: {reqs:?}");
    let (line, h) = &reqs[0];
    let path = decode(line.split(' ').nth(1).unwrap_or(""));
    let mut want = format!("/{bucket}");
    for x in &prefix {
        want += "/";
        want += x;
    }
    want += "/dir/file.parquet";
    ensure_eq!(path, want, "object", "the object asked for");
    let get = |k: &str| h.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone());
    if signed {
        let a = get("authorization").unwrap_or_default();
        ensure!(a.contains(&format!("Credential={key}/")) && a.contains(&format!("/{region}/s3/aws4_request")), "credentials", "signed as {a}, wanted key {key} region {region}");
        ensure_eq!(get("x-amz-security-token"), token, "token", "the session token");
    } else {
        ensure_eq!(get("authorization"), None, "anonymous", "signature of an unsigned store");
    }
    if prefix.len() > 0 || env.len() > 0 {
        ctx.nontrivial(&format!("{reqs:?}"));
    }
    Ok(())
}

fn wire_gcs(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (port, log) = server();
    let dir = tempfile::tempdir().expect("scratch");
    let bucket = format!("b{}", word(s));
    let segs = segments(s, &[]);
    let account = |base: &str| format!("{{\"gcs_base_url\": \"{base}\", \"disable_oauth\": true, \"client_email\": \"\", \"private_key\": \"\", \"private_key_id\": \"\"}}");
    let good = account(&format!("http://127.0.0.1:{port}"));
    // a base URL no answer comes from
    let wrong = account("http://127.0.0.1:1");
    let (gp, wp) = (dir.path().join("good.json"), dir.path().join("wrong.json"));
    std::fs::write(&gp, &good).unwrap();
    std::fs::write(&wp, &wrong).unwrap();
    let (gp, wp) = (gp.to_str().unwrap().to_string(), wp.to_str().unwrap().to_string());
    let _g = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let mut env: Vec<(String, String)> = vec![];
    let mut prefix = vec![];
    let store: Arc<dyn ObjectStore> = if s.chance(1, 4) {
        let c = GCSConfig { bucket: bucket.clone(), prefix: if s.bool() { Some("p".into()) } else { None }, google_application_credentials: Some(gp.clone()) };
        ctx.label("from configuration");
        ctx.describe(format!("{c:?}"));
        // plain HTTP is not allowed by the configuration: only judged on building and on what it claims to be
        let st = ObjectStoreConfig::GoogleCloudStorage(c.clone()).build_object_store().map_err(|e| Fail::new("refused", format!("{e:?}")))?;
        let d = format!("{st:?}");
        ensure!(d.contains(&format!("bucket_name: {bucket:?}")) && d.contains(&format!("127.0.0.1:{port}")), "config", "built {d}");
        let info = ObjectStoreConfig::GoogleCloudStorage(c.clone()).build_storage_location_info().map_err(|e| Fail::new("refused", format!("{e:?}")))?;
        ensure_eq!((info.url, info.options), (c.bucket_to_url(), c.to_hashmap()), "info", "the location");
        return Ok(());
    } else {
        ctx.label("from options");
        prefix.extend(segs.clone());
        let mut o: Map = HashMap::new();
        match s.below(4) {
            0 => {
                o.insert(s.pick(GCS_KEYS[0]).to_string(), gp.clone());
                env.push(("GOOGLE_SERVICE_ACCOUNT".into(), wp.clone()));
                env.push(("GOOGLE_SERVICE_ACCOUNT_KEY".into(), wrong.clone()));
            }
            1 => {
                o.insert(s.pick(GCS_KEYS[1]).to_string(), good.clone());
                env.push(("GOOGLE_SERVICE_ACCOUNT".into(), wp.clone()));
            }
            2 => {
                env.push(("GOOGLE_SERVICE_ACCOUNT".into(), gp.clone()));
                env.push(("GOOGLE_SERVICE_ACCOUNT_KEY".into(), wrong.clone()));
            }
            _ => env.push(("GOOGLE_SERVICE_ACCOUNT_KEY".into(), good.clone())),
        }
        if s.bool() {
            env.push(("GOOGLE_ALLOW_HTTP".into(), "true".into()));
        } else {
            o.insert("allow_http".into(), "true".into());
        }
        let url = Url::parse(&format!("gs://{bucket}{}{}", encoded(&segs), if s.bool() { "/" } else { "" })).unwrap();
        ctx.describe(format!("{url} options {o:?} environment {env:?}"));
        for (k, v) in &env {
            std::env::set_var(k, v);
        }
        let st = block_on(build_object_store_from_opts(&url, o));
        for (k, _) in &env {
            std::env::remove_var(k);
        }
        st.map_err(|e| Fail::new("refused", format!("{e:?}")))?.into()
    };
    log.lock().unwrap().clear();
    let body = block_on(async { tokio::time::timeout(std::time::Duration::from_secs(20), async { store.get(&Path::from("dir/file.parquet")).await?.bytes().await }).await });
    let body = body.map_err(|_| Fail::new("get", "no answer: the request went elsewhere"))?.map_err(|e: object_store::Error| Fail::new("get", format!("{e:?}")))?;
    ensure_eq!(body.as_ref(), b"body", "body", "the object");
    let reqs = log.lock().unwrap().clone();
    ensure_eq!(reqs.len(), 1, "requests", "requests sent: {reqs:?}");
    let path = decode(reqs[0].0.split(' ').nth(1).unwrap_or(""));
    let mut want = format!("/{bucket}");
    for x in &prefix {
        want += "/";
        want += x;
    }
    want += "/dir/file.parquet";
    ensure_eq!(path, want, "object", "the object asked for");
    ctx.nontrivial(&format!("{reqs:?}{env:?}"));
    Ok(())
}

/// Local and in-memory locations: what is written is where the URL says.
fn places(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let dir = tempfile::tempdir().expect("scratch");
    let segs = segments(s, &['%', '#', '?', '[', '~']);
    let mut root = dir.path().to_path_buf();
    for x in &segs {
        root.push(x);
    }
    let rel = format!("t{}/x.bin", s.below(3));
    let n = s.urange(0, 40);
    let data: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
    match s.below(3) {
        0 => {
            ctx.label("local configuration");
            let make = s.bool();
            if make {
                std::fs::create_dir_all(&root).unwrap();
            }
            let c = LocalConfig { data_dir: root.to_str().unwrap().to_string(), disable_hardlinks: s.bool() };
            ctx.describe(format!("{c:?} existing {make}"));
            let st = ObjectStoreConfig::Local(c).build_object_store();
            let make = make || segs.is_empty();
            ensure_eq!(st.is_ok(), make, "missing-dir", "opening a directory ({st:?})");
            if let Ok(st) = st {
                block_on(st.put(&Path::from(rel.as_str()), data.clone().into())).map_err(|e| Fail::new("put", format!("{e:?}")))?;
                ensure_eq!(std::fs::read(root.join(&rel)).ok(), Some(data.clone()), "place", "the file written");
            }
        }
        1 => {
            ctx.label("local URL");
            std::fs::create_dir_all(&root).unwrap();
            let base: String = encoded(&dir.path().iter().skip(1).map(|x| x.to_str().unwrap().to_string()).collect::<Vec<_>>());
            let url = Url::parse(&format!("file://{base}{}", encoded(&segs))).unwrap();
            ctx.describe(format!("{url} for {root:?}"));
            let st = block_on(build_object_store_from_opts(&url, HashMap::new())).map_err(|e| Fail::new("refused", format!("{url}: {e:?}")))?;
            block_on(st.put(&Path::from(rel.as_str()), data.clone().into())).map_err(|e| Fail::new("put", format!("{e:?}")))?;
            ensure_eq!(std::fs::read(root.join(&rel)).ok(), Some(data.clone()), "place", "the file written through {url}");
        }
        _ => {
            ctx.label("memory URL");
            let url = Url::parse(&format!("memory://{}{}", encoded(&segs), if s.bool() { "/" } else { "" })).unwrap();
            ctx.describe(format!("{url}"));
            let st = block_on(build_object_store_from_opts(&url, HashMap::new())).map_err(|e| Fail::new("refused", format!("{url}: {e:?}")))?;
            let p = Path::from(rel.as_str());
            block_on(st.put(&p, data.clone().into())).map_err(|e| Fail::new("put", format!("{e:?}")))?;
            let back = block_on(async { st.get(&p).await?.bytes().await }).map_err(|e: object_store::Error| Fail::new("get", format!("{e:?}")))?;
            ensure_eq!(back.to_vec(), data, "memory", "the object read back");
            let l: Vec<_> = block_on(st.list(None).collect::<Vec<_>>()).into_iter().flatten().map(|m| m.location).collect();
            ensure_eq!(l, vec![p], "memory-list", "the objects listed");
        }
    }
    if segs.iter().any(|x| encoded(&[x.clone()]) != format!("/{x}")) {
        ctx.nontrivial(&segs);
    }
    Ok(())
}

/// URLs and options that cannot be served are refused, not crashed on.
fn refused(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    if s.chance(1, 3) {
        let c = S3Config {
            region: Some("r".into()),
            access_key_id: if s.bool() { Some(text(s)) } else { None },
            secret_access_key: if s.bool() { Some(text(s)) } else { None },
            session_token: opt(s),
            endpoint: Some(if s.bool() { "http://127.0.0.1:1".into() } else { text(s) }),
            bucket: if s.bool() { word(s) } else { text(s) },
            prefix: opt(s),
            allow_http: s.bool(),
            skip_signature: s.bool(),
        };
        ctx.describe(format!("{c:?}"));
        ctx.label("s3 configuration");
        let r = quiet(|| ObjectStoreConfig::AmazonS3(c.clone()).build_object_store())?;
        if c.access_key_id.is_none() || c.secret_access_key.is_none() {
            if !c.skip_signature {
                ensure!(r.is_err(), "unsigned", "a store that must sign was built without keys: {r:?}");
                ctx.nontrivial(&format!("{c:?}"));
            }
        }
        return Ok(());
    }
    let url = *s.pick(&["ftp://h/x", "http://h/x", "az://c/x", "https://h/x", "file://host/x", "s3:///x", "gs:///x", "unix:/x", "data:text/plain,x", "memory://h/x", "s3a://b/x%", "gs://b//x", "s3://b/%ff"]);
    let mut o: Map = HashMap::new();
    o.insert("region".into(), "r".into());
    if s.bool() {
        o.insert(text(s), text(s));
    }
    ctx.describe(format!("{url} {o:?}"));
    ctx.label(url);
    let u = Url::parse(url).unwrap();
    let r = quiet(|| block_on(build_object_store_from_opts(&u, o.clone())))?;
    if !url.starts_with("s3") {
        ensure!(r.is_err(), "accepted", "{url} gave {r:?}");
    }
    ctx.nontrivial(&format!("{url}{o:?}"));
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C17",
        rule: "non-trivial: a setting beyond the mandatory ones is given (round), the environment adds to the options (keys), a location with a path or environment settings was used over the wire, a path that needs encoding (places). Distinct by settings.",
        assumptions: &[
            "the names of the Iceberg reader's properties are those of the iceberg crate (a stand-in supplies them)",
            "a request's signature covers its credential line: key and region are read from it; the secret is only checked through the option map",
            "region auto-detection is not exercised: it needs the network",
        ],
        legs: vec![
            leg("round", 60_000, 3_000_000, round),
            leg("json", 30_000, 1_000_000, json),
            leg("keys", 30_000, 1_000_000, keys),
            leg("file_io", 30_000, 1_000_000, file_io),
            leg("wire_s3", 700, 40_000, wire_s3),
            leg("wire_gcs", 400, 20_000, wire_gcs),
            leg("places", 4000, 200_000, places),
            leg("refused", 1500, 100_000, refused),
        ],
    })
}
