//! C28: the server runs with the settings its file and environment give.
use bytes::Bytes;
use checks_full::env;
use datafusion::execution::memory_pool::MemoryConsumer;
use object_store::path::Path;
use object_store::ObjectStore;
use object_store_factory::aws::S3Config;
use object_store_factory::google::GCSConfig;
use object_store_factory::local::LocalConfig;
use object_store_factory::ObjectStoreConfig;
use pbt::*;
use seafowl_full::config::context::build_context;
use seafowl_full::config::schema::*;
use seafowl_full::object_store::cache::CachingObjectStore;
use sqlx::sqlite::SqliteJournalMode;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Str,
    Bool,
    U16,
    U32,
    U64,
    Access,
    Dsn,
    Journal,
    StoreType,
    CatalogType,
}
use Kind::*;

/// Every setting there is: its place and what it holds
const SETTINGS: &[(&str, Kind)] = &[
    ("object_store.type", StoreType),
    ("object_store.data_dir", Str),
    ("object_store.disable_hardlinks", Bool),
    ("object_store.region", Str),
    ("object_store.access_key_id", Str),
    ("object_store.secret_access_key", Str),
    ("object_store.session_token", Str),
    ("object_store.endpoint", Str),
    ("object_store.bucket", Str),
    ("object_store.prefix", Str),
    ("object_store.allow_http", Bool),
    ("object_store.skip_signature", Bool),
    ("object_store.google_application_credentials", Str),
    ("catalog.type", CatalogType),
    ("catalog.dsn", Dsn),
    ("catalog.schema", Str),
    ("catalog.journal_mode", Journal),
    ("catalog.read_only", Bool),
    ("frontend.flight.bind_host", Str),
    ("frontend.flight.bind_port", U16),
    ("frontend.http.bind_host", Str),
    ("frontend.http.bind_port", U16),
    ("frontend.http.read_access", Access),
    ("frontend.http.write_access", Access),
    ("frontend.http.upload_data_max_length", U64),
    ("frontend.http.cache_control", Str),
    ("runtime.max_memory", U64),
    ("runtime.temp_dir", Str),
    ("misc.max_partition_size", U32),
    ("misc.gc_interval", U16),
    ("misc.ssl_cert_file", Str),
    ("misc.metrics.host", Str),
    ("misc.metrics.port", U16),
    ("misc.object_store_cache.capacity", U64),
    ("misc.object_store_cache.min_fetch_size", U64),
    ("misc.object_store_cache.ttl", U64),
    ("misc.sync_conf.max_in_memory_bytes", U64),
    ("misc.sync_conf.max_replication_lag_s", U64),
    ("misc.sync_conf.max_syncs_per_url", U64),
    ("misc.sync_conf.write_lock_timeout_s", U64),
    ("misc.sync_conf.flush_task_interval_s", U64),
];

/// Sections whose mere presence means something
const SECTIONS: &[&str] = &["object_store", "catalog", "frontend.flight", "frontend.http", "misc.metrics", "misc.object_store_cache"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Val {
    S(String),
    B(bool),
    N(u64),
    /// nothing the setting could be read as
    Bad(String),
}

fn text(s: &mut Src) -> String {
    match s.below(8) {
        0 => s.pick(&["any", "true", "false", "0", "007", "1e5", "null", "on", "off", "", " ", " x ", "a=b", "#c", "SEAFOWL__X", "a__b", "1979-05-27", "[x]", "$HOME", "~", "%20"]).to_string(),
        1 => s.string_of(&['a', 'Z', '0', '"', '\'', '\\', '\n', '\t', '=', '#', '.', '_', 'é', '人', '🦀', '\u{7f}', '\u{1}', '\r', ' ', '{', '['], 0, 8),
        2 => format!("/var/lib/{}", s.string_of(&['a', 'b', '/', '.', ' '], 0, 6)),
        3 => format!("http://{}:9000", s.string_of(&['a', 'b', '.'], 1, 5)),
        _ => s.string_of(&['a', 'b', 'C', '1', '-', '_', '.'], 1, 8),
    }
}

fn value(s: &mut Src, kind: Kind, bad: bool) -> Val {
    if bad {
        let t = match kind {
            Bool => s.pick(&["maybe", "2", "", "tru e", "True!", "y es"]).to_string(),
            U16 => s.pick(&["65536", "-1", "abc", "", "1.5.2", "0x10", "99999999999"]).to_string(),
            U32 => s.pick(&["4294967296", "-1", "abc", "", "1 000", "1_000"]).to_string(),
            U64 => s.pick(&["18446744073709551616", "-1", "abc", "", "1GB", "1 "]).to_string(),
            Journal => s.pick(&["WAL2", "", "w al", "none"]).to_string(),
            StoreType => s.pick(&["", "s33", "amazon", "Local", "LOCAL", "file", "amazon_s3", "google_cloud_storage"]).to_string(),
            CatalogType => s.pick(&["", "mysql", "SQLite", "Postgres", "memory"]).to_string(),
            Str | Access | Dsn => return value(s, kind, false),
        };
        return Val::Bad(t);
    }
    match kind {
        Str => Val::S(text(s)),
        Bool => Val::B(s.bool()),
        U16 => Val::N(*s.pick(&[0, 1, 80, 8080, 65535, 65534, 256, 47470])),
        U32 => Val::N(match s.below(4) {
            0 => *s.pick(&[0, 1, u32::MAX as u64, u32::MAX as u64 - 1, 65536]),
            _ => s.below(1 << 32),
        }),
        U64 => Val::N(match s.below(4) {
            0 => *s.pick(&[0, 1, 63, 64, 65, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 32, 1 << 44]),
            1 => s.below(130),
            _ => s.edgy_u64(),
        }),
        Access => Val::S(match s.below(4) {
            0 => "any".into(),
            1 => "off".into(),
            2 => str_to_hex_hash(&text(s)),
            _ => s.pick(&["Any", "OFF", " any", "", "off ", "anyone", "o"]).to_string(),
        }),
        Dsn => Val::S(
            s.pick(&[
                ":memory:",
                "sqlite://:memory:",
                "sqlite::memory:",
                "cat.sqlite",
                "sqlite://seafowl-data/seafowl.sqlite",
                "memory",
                "postgresql://u:p@localhost:5432/db",
                "postgres://h/:memory:",
                "http://clade:9090",
                "",
                ":mem:ory:",
                ":Memory:",
            ])
            .to_string(),
        ),
        Journal => Val::S(s.pick(&["delete", "truncate", "persist", "memory", "wal", "off"]).to_string()),
        StoreType => Val::S(s.pick(&["local", "memory", "s3", "gcs", "s3", "local"]).to_string()),
        CatalogType => Val::S(s.pick(&["sqlite", "sqlite", "postgres", "clade"]).to_string()),
    }
}

#[derive(Clone, Debug, Default)]
struct Input {
    file: BTreeMap<&'static str, Val>,
    env: BTreeMap<&'static str, Val>,
    /// sections opened in the file with nothing (known) in them
    empty: BTreeSet<&'static str>,
}

fn kind_of(k: &str) -> Kind {
    SETTINGS.iter().find(|(n, _)| *n == k).unwrap().1
}

fn input(s: &mut Src) -> Input {
    let mut i = Input::default();
    let bad_key = s.chance(1, 5).then(|| s.pick(SETTINGS).0);
    let put = |s: &mut Src, i: &mut Input, k: &'static str, kind: Kind, fixed: Option<&str>| {
        let one = |s: &mut Src| match fixed {
            Some(f) if s.chance(9, 10) => Val::S(f.to_string()),
            _ => value(s, kind, bad_key == Some(k)),
        };
        match s.weighted(&[4, 4, 2]) {
            0 => {
                i.file.insert(k, one(s));
            }
            1 => {
                i.env.insert(k, one(s));
            }
            _ => {
                // what the environment overrides may be anything
                let bad = s.chance(1, 3);
                let f = if s.bool() { one(s) } else { value(s, kind, bad) };
                i.file.insert(k, f);
                i.env.insert(k, one(s));
            }
        }
    };
    // what the kind of storage and catalog needs is usually there
    let store = match s.below(6) {
        0 => None,
        1 | 2 => Some("local"),
        3 => Some("memory"),
        4 => Some("s3"),
        _ => Some("gcs"),
    };
    if let Some(t) = store {
        put(s, &mut i, "object_store.type", StoreType, Some(t));
        let needed: &[&'static str] = match t {
            "local" => &["object_store.data_dir"],
            "s3" => &["object_store.bucket", "object_store.endpoint"],
            "gcs" => &["object_store.bucket"],
            _ => &[],
        };
        for k in needed {
            if s.chance(11, 12) {
                put(s, &mut i, k, Str, None);
            }
        }
    }
    let catalog = match s.below(6) {
        0 => None,
        1..=3 => Some("sqlite"),
        4 => Some("postgres"),
        _ => Some("clade"),
    };
    if let Some(t) = catalog {
        put(s, &mut i, "catalog.type", CatalogType, Some(t));
        if s.chance(11, 12) {
            let dsn = if store == Some("memory") && t == "sqlite" { Some(":memory:") } else { None };
            put(s, &mut i, "catalog.dsn", Dsn, dsn);
        }
    }
    let den = *s.pick(&[2, 4, 10, 30]);
    for (k, kind) in SETTINGS {
        let section = k.split('.').next().unwrap();
        if i.file.contains_key(k) || i.env.contains_key(k) {
            continue;
        }
        let wanted = match section {
            "object_store" => store.is_some() && !k.ends_with(".type"),
            "catalog" => catalog.is_some() && !k.ends_with(".type"),
            _ => true,
        };
        if bad_key == Some(*k) || (wanted || s.chance(1, 40)) && s.chance(1, den) {
            put(s, &mut i, k, *kind, None);
        }
    }
    for sec in SECTIONS {
        if s.chance(1, 25) {
            i.empty.insert(sec);
        }
    }
    i
}

// ---- writing it down ----

fn toml_string(s: &mut Src, v: &str) -> String {
    let plain = !v.contains(['\'', '\n', '\r']) && v.chars().all(|c| c == '\t' || (c >= ' ' && c != '\u{7f}'));
    if plain && s.chance(1, 3) {
        return format!("'{v}'");
    }
    let mut o = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if c < ' ' || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if !c.is_ascii() && s.chance(1, 3) => o.push_str(&format!("\\U{:08x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn toml_value(s: &mut Src, v: &Val) -> String {
    match v {
        Val::S(t) | Val::Bad(t) => toml_string(s, t),
        Val::B(b) => b.to_string(),
        // numbers in TOML files only go so far
        Val::N(n) if *n > i64::MAX as u64 => format!("\"{n}\""),
        Val::N(n) => match s.below(6) {
            0 => format!("0x{n:x}"),
            1 => format!("+{n}"),
            2 if *n >= 1000 => format!("{}_{:03}", n / 1000, n % 1000),
            _ => n.to_string(),
        },
    }
}

fn env_value(s: &mut Src, v: &Val) -> String {
    match v {
        Val::S(t) | Val::Bad(t) => t.clone(),
        Val::B(true) => s.pick(&["true", "true", "TRUE", "True", "1", "on", "yes"]).to_string(),
        Val::B(false) => s.pick(&["false", "false", "FALSE", "False", "0", "off", "no"]).to_string(),
        Val::N(n) => n.to_string(),
    }
}

/// Keys of each section go under its header, or dotted under that of one above it, or into an inline table.
fn toml(s: &mut Src, i: &Input) -> String {
    let mut groups: BTreeMap<&str, Vec<(&str, String)>> = BTreeMap::new();
    for (k, v) in &i.file {
        let (sec, key) = k.rsplit_once('.').unwrap();
        groups.entry(sec).or_default().push((key, toml_value(s, v)));
    }
    for sec in &i.empty {
        groups.entry(sec).or_default();
    }
    for (sec, keys) in groups.iter_mut() {
        s.shuffle(keys);
        if s.chance(1, 10) {
            let unknown = ["unknown", "types", "bind", "max_memori", "dsns", "sync_confs"];
            let k = *s.pick(&unknown);
            if *sec != "misc.metrics" || !k.is_empty() {
                keys.push((k, "\"x\"".into()));
            }
        }
    }
    let mut head = String::new();
    let mut rest: Vec<String> = vec![];
    for (sec, keys) in &groups {
        let style = s.weighted(&[6, 1, 1]);
        let nested = groups.keys().any(|o| o != sec && (o.starts_with(&format!("{sec}.")) || sec.starts_with(&format!("{o}."))));
        match style {
            1 if !keys.is_empty() && !nested && !sec.contains('.') => {
                for (k, v) in keys {
                    head.push_str(&format!("{sec}.{k} = {v}\n"));
                }
            }
            2 if !nested && !sec.contains('.') => {
                let inner: Vec<String> = keys.iter().map(|(k, v)| format!("{k} = {v}")).collect();
                head.push_str(&format!("{sec} = {{ {} }}\n", inner.join(", ")));
            }
            _ => {
                let mut t = format!("[{sec}]\n");
                for (k, v) in keys {
                    if s.chance(1, 12) {
                        t.push_str("# a comment = 1\n");
                    }
                    let k = if s.chance(1, 8) { format!("\"{k}\"") } else { k.to_string() };
                    t.push_str(&format!("{k}{}={}{v}{}\n", s.pick(&[" ", "", "  "]), s.pick(&[" ", ""]), s.pick(&["", " # note", ""])));
                }
                rest.push(t);
            }
        }
    }
    s.shuffle(&mut rest);
    format!("{head}{}", rest.join(if s.bool() { "\n" } else { "" }))
}

fn environment(s: &mut Src, i: &Input) -> HashMap<String, String> {
    let mut m = HashMap::new();
    for (k, v) in &i.env {
        let mut name = format!("SEAFOWL__{}", k.replace('.', "__").to_uppercase());
        if s.chance(1, 10) {
            name = name.to_lowercase();
        }
        m.insert(name, env_value(s, v));
    }
    // and what else there is in an environment
    for name in [
        "SEAFOWL_OBJECT_STORE__TYPE",
        "SEAFOWL",
        "SEAFOWL_",
        "OBJECT_STORE__TYPE",
        "SEAFOWL_MISC_GC_INTERVAL",
        "XSEAFOWL__CATALOG__TYPE",
        "SEAFOWLX__CATALOG__TYPE",
        "PATH",
        "RUNTIME__MAX_MEMORY",
        "SEAFOWL__SOMETHING__ELSE",
        "SEAFOWL__ELSE",
    ] {
        if s.chance(1, 12) {
            m.insert(name.to_string(), s.pick(&["1", "x", "s3", ""]).to_string());
        }
    }
    m
}

// ---- what they say ----

struct Said(BTreeMap<&'static str, Val>, BTreeSet<String>);

impl Said {
    fn of(i: &Input) -> Said {
        let mut m = i.file.clone();
        m.extend(i.env.clone());
        let mut present: BTreeSet<String> = i.empty.iter().map(|s| s.to_string()).collect();
        present.extend(m.keys().map(|k| k.rsplit_once('.').unwrap().0.to_string()));
        Said(m, present)
    }
    fn has(&self, sec: &str) -> bool {
        self.1.contains(sec)
    }
    fn s(&self, k: &str) -> Result<Option<String>, String> {
        match self.0.get(k) {
            None => Ok(None),
            Some(Val::S(t)) => Ok(Some(t.clone())),
            Some(v) => Err(format!("{k} = {v:?}")),
        }
    }
    fn need(&self, k: &str) -> Result<String, String> {
        self.s(k)?.ok_or(format!("{k} is missing"))
    }
    fn str_or(&self, k: &str, d: &str) -> Result<String, String> {
        Ok(self.s(k)?.unwrap_or(d.to_string()))
    }
    fn b(&self, k: &str, d: bool) -> Result<bool, String> {
        match self.0.get(k) {
            None => Ok(d),
            Some(Val::B(b)) => Ok(*b),
            Some(v) => Err(format!("{k} = {v:?}")),
        }
    }
    fn n(&self, k: &str, d: u64) -> Result<u64, String> {
        match self.0.get(k) {
            None => Ok(d),
            Some(Val::N(n)) => Ok(*n),
            Some(v) => Err(format!("{k} = {v:?}")),
        }
    }
    fn access(&self, k: &str, d: &str) -> Result<AccessSettings, String> {
        Ok(match self.str_or(k, d)?.as_str() {
            "any" => AccessSettings::Any,
            "off" => AccessSettings::Off,
            h => AccessSettings::Password { sha256_hash: h.into() },
        })
    }

    fn config(&self) -> Result<SeafowlConfig, String> {
        let object_store = if !self.has("object_store") {
            None
        } else {
            let p = |k: &str| format!("object_store.{k}");
            Some(match self.need(&p("type"))?.as_str() {
                "local" => ObjectStoreConfig::Local(LocalConfig {
                    data_dir: self.need(&p("data_dir"))?,
                    disable_hardlinks: self.b(&p("disable_hardlinks"), false)?,
                }),
                "memory" => ObjectStoreConfig::Memory,
                "s3" => ObjectStoreConfig::AmazonS3(S3Config {
                    region: self.s(&p("region"))?,
                    access_key_id: self.s(&p("access_key_id"))?,
                    secret_access_key: self.s(&p("secret_access_key"))?,
                    session_token: self.s(&p("session_token"))?,
                    endpoint: self.s(&p("endpoint"))?,
                    bucket: self.need(&p("bucket"))?,
                    prefix: self.s(&p("prefix"))?,
                    allow_http: self.b(&p("allow_http"), true)?,
                    skip_signature: self.b(&p("skip_signature"), true)?,
                }),
                "gcs" => ObjectStoreConfig::GoogleCloudStorage(GCSConfig {
                    bucket: self.need(&p("bucket"))?,
                    prefix: self.s(&p("prefix"))?,
                    google_application_credentials: self.s(&p("google_application_credentials"))?,
                }),
                t => return Err(format!("object_store.type = {t}")),
            })
        };
        let catalog = if !self.has("catalog") {
            None
        } else {
            Some(match self.need("catalog.type")?.as_str() {
                "sqlite" => Catalog::Sqlite(Sqlite {
                    dsn: self.need("catalog.dsn")?,
                    journal_mode: match self.str_or("catalog.journal_mode", "wal")?.as_str() {
                        "delete" => SqliteJournalMode::Delete,
                        "truncate" => SqliteJournalMode::Truncate,
                        "persist" => SqliteJournalMode::Persist,
                        "memory" => SqliteJournalMode::Memory,
                        "wal" => SqliteJournalMode::Wal,
                        "off" => SqliteJournalMode::Off,
                        m => return Err(format!("catalog.journal_mode = {m}")),
                    },
                    read_only: self.b("catalog.read_only", false)?,
                }),
                "postgres" => Catalog::Postgres(Postgres {
                    dsn: self.need("catalog.dsn")?,
                    schema: self.str_or("catalog.schema", "public")?,
                }),
                "clade" => Catalog::Clade(Clade { dsn: self.need("catalog.dsn")? }),
                t => return Err(format!("catalog.type = {t}")),
            })
        };
        let flight = if !self.has("frontend.flight") {
            None
        } else {
            Some(FlightFrontend {
                bind_host: self.str_or("frontend.flight.bind_host", "127.0.0.1")?,
                bind_port: self.n("frontend.flight.bind_port", 47470)? as u16,
            })
        };
        let http = if !self.has("frontend.http") {
            None
        } else {
            Some(HttpFrontend {
                bind_host: self.str_or("frontend.http.bind_host", "127.0.0.1")?,
                bind_port: self.n("frontend.http.bind_port", 8080)? as u16,
                read_access: self.access("frontend.http.read_access", "any")?,
                write_access: self.access("frontend.http.write_access", "off")?,
                upload_data_max_length: self.n("frontend.http.upload_data_max_length", 256)?,
                cache_control: self.str_or("frontend.http.cache_control", "max-age=43200, public")?,
            })
        };
        let runtime = Runtime {
            max_memory: if self.0.contains_key("runtime.max_memory") { Some(self.n("runtime.max_memory", 0)?) } else { None },
            temp_dir: self.s("runtime.temp_dir")?.map(Into::into),
        };
        let metrics = if !self.has("misc.metrics") {
            None
        } else {
            Some(Metrics { host: self.str_or("misc.metrics.host", "127.0.0.1")?, port: self.n("misc.metrics.port", 9090)? as u16 })
        };
        let object_store_cache = if !self.has("misc.object_store_cache") {
            None
        } else {
            Some(ObjectCacheProperties {
                capacity: self.n("misc.object_store_cache.capacity", 1 << 30)?,
                min_fetch_size: self.n("misc.object_store_cache.min_fetch_size", 1 << 20)?,
                ttl: self.n("misc.object_store_cache.ttl", 180)?,
            })
        };
        let sy = |k: &str, d: u64| self.n(&format!("misc.sync_conf.{k}"), d);
        let sync_conf = DataSyncConfig {
            max_in_memory_bytes: sy("max_in_memory_bytes", 3 << 30)? as usize,
            max_replication_lag_s: sy("max_replication_lag_s", 600)?,
            max_syncs_per_url: sy("max_syncs_per_url", 100)? as usize,
            write_lock_timeout_s: sy("write_lock_timeout_s", 3)?,
            flush_task_interval_s: sy("flush_task_interval_s", 900)?,
        };
        Ok(SeafowlConfig {
            object_store,
            catalog,
            frontend: Frontend { flight, http },
            runtime,
            misc: Misc {
                max_partition_size: self.n("misc.max_partition_size", 1 << 20)? as u32,
                gc_interval: self.n("misc.gc_interval", 0)? as u16,
                ssl_cert_file: self.s("misc.ssl_cert_file")?,
                metrics,
                object_store_cache,
                sync_conf,
            },
        })
    }
}

/// What a server could not run with
fn unusable(c: &SeafowlConfig) -> Option<&'static str> {
    let fleeting_catalog = matches!(&c.catalog, Some(Catalog::Sqlite(s)) if s.dsn.contains(":memory:"));
    let fleeting_store = matches!(c.object_store, Some(ObjectStoreConfig::Memory));
    if fleeting_catalog != fleeting_store {
        return Some("one of catalog and store is lost on restart");
    }
    if let Some(ObjectStoreConfig::AmazonS3(s)) = &c.object_store {
        if s.region.is_none() && s.endpoint.is_none() {
            return Some("S3 without region and endpoint");
        }
    }
    if c.runtime.max_memory.is_some_and(|m| m < 64) {
        return Some("too little memory");
    }
    if c.misc.max_partition_size == 0 {
        return Some("partitions of no rows");
    }
    if c.misc.object_store_cache.as_ref().is_some_and(|c| c.min_fetch_size == 0) {
        return Some("cached chunks of no bytes");
    }
    None
}

fn check_load(cx: &mut Ctx, what: &str, got: Result<Result<SeafowlConfig, String>, (String, String)>, want: &Result<SeafowlConfig, String>) -> R {
    let got = match got {
        Ok(g) => g,
        Err((at, m)) => fail!("panic", "{what} panics at {at}: {m}"),
    };
    cx.evals += 1;
    match (&got, want) {
        (Err(_), Err(_)) => {}
        (Ok(g), Ok(w)) => ensure!(g == w, "settings", "{what} gives\n{g:#?}\nbut the settings say\n{w:#?}"),
        (Ok(g), Err(why)) => fail!("accepted", "{what} accepts settings with {why}:\n{g:?}"),
        (Err(e), Ok(w)) => fail!("refused", "{what} refuses settings with \"{e}\", which say\n{w:?}"),
    }
    Ok(())
}

type R = Result<(), Fail>;

fn load(s: &mut Src, cx: &mut Ctx) -> R {
    let i = input(s);
    let file = toml(s, &i);
    let vars = environment(s, &i);
    let mut sorted: Vec<_> = vars.iter().collect();
    sorted.sort();
    cx.describe(format!("file:\n{file}\nenvironment: {sorted:?}"));
    let said = Said::of(&i);
    let want = said.config();
    let valid = want.clone().and_then(|c| match unusable(&c) {
        Some(why) => Err(why.to_string()),
        None => Ok(c),
    });
    match &valid {
        Ok(_) => cx.label("accepted"),
        Err(w) if want.is_ok() => cx.label(format!("refused: {w}")),
        Err(_) => cx.label("refused: cannot be read"),
    }
    let both = i.file.keys().filter(|k| i.env.contains_key(*k)).count();
    if both > 0 {
        cx.label("set in both places");
    }
    if i.file.len() + i.env.len() >= 4 {
        cx.nontrivial(&(&file, &sorted));
    }
    let go = |skip: bool| no_panic(|| load_config_from_string(&file, skip, Some(vars.clone())).map_err(|e| e.to_string()));
    check_load(cx, "loading without validation", go(true), &want)?;
    check_load(cx, "loading", go(false), &valid)?;
    if let Ok(c) = &want {
        let v = no_panic(|| validate_config(c.clone()).map_err(|e| e.to_string()));
        check_load(cx, "validating", v, &valid)?;
    }
    Ok(())
}

/// The same from a file on disk, where the (here empty) environment is that of the process.
fn files(s: &mut Src, cx: &mut Ctx) -> R {
    let mut i = input(s);
    let moved = std::mem::take(&mut i.env);
    for (k, v) in moved {
        i.file.insert(k, v);
    }
    let file = toml(s, &i);
    cx.describe(format!("file:\n{file}"));
    if i.file.len() >= 4 {
        cx.nontrivial(&file);
    }
    if s.chance(1, 20) {
        let (text, config) = build_default_config();
        let text = text.as_str();
        let again = no_panic(|| load_config_from_string(text, false, Some(Default::default())).map_err(|e| e.to_string()));
        check_load(cx, "loading what the server writes down by default", again, &Ok(config.clone()))?;
        let http = config.frontend.http.clone();
        ensure!(
            http.as_ref().map(|h| (&h.read_access, &h.write_access, h.bind_host.as_str(), h.bind_port))
                == Some((&AccessSettings::Any, &AccessSettings::Off, "127.0.0.1", 8080)),
            "default",
            "by default, everyone on this machine can read and nobody can write; but {http:?}"
        );
        ensure!(config.frontend.flight.is_none(), "default", "by default the flight frontend is off, but it is {:?}", config.frontend.flight);
        ensure!(unusable(&config).is_none(), "default", "the default settings cannot be used: {config:?}");
    }
    let dir = env::scratch();
    let path = dir.path().join(s.pick(&["seafowl.toml", "a b.toml", "config.v2.toml"]));
    let missing = s.chance(1, 30);
    let want = if missing {
        Said::of(&Input::default()).config()
    } else {
        std::fs::write(&path, &file).unwrap();
        Said::of(&i).config().and_then(|c| match unusable(&c) {
            Some(why) => Err(why.to_string()),
            None => Ok(c),
        })
    };
    if std::env::vars().any(|(k, _)| k.to_uppercase().starts_with("SEAFOWL__")) {
        cx.label("skipped: the environment has settings of its own");
        return Ok(());
    }
    let got = no_panic(|| load_config(&path).map_err(|e| e.to_string()));
    check_load(cx, &format!("loading {}{}", path.file_name().unwrap().to_string_lossy(), if missing { " (not there)" } else { "" }), got, &want)
}

/// A server with the settings has the memory, partitions and caches they name.
fn contexts(s: &mut Src, cx: &mut Ctx) -> R {
    let max_memory = match s.below(6) {
        0 => None,
        1 => Some(*s.pick(&[64, 65, u64::MAX, 1 << 44, (1 << 44) - 1, 1 << 40])),
        2 => Some(64 + s.below(100_000)),
        _ => Some(64 + s.below(4000)),
    };
    let partition = match s.below(4) {
        0 => *s.pick(&[u32::MAX, u32::MAX - 1, 1]),
        _ => 1 + s.below(40) as u32,
    };
    let local = s.bool();
    let rows = s.urange(1, 60);
    let dir = env::scratch();
    let data = dir.path().join("data");
    std::fs::create_dir_all(&data).unwrap();
    let mut c = if local {
        env::config(
            ObjectStoreConfig::Local(LocalConfig { data_dir: data.to_str().unwrap().into(), disable_hardlinks: s.bool() }),
            format!("sqlite://{}", dir.path().join("c.sqlite").display()),
            partition,
        )
    } else {
        env::config(ObjectStoreConfig::Memory, "sqlite://:memory:".into(), partition)
    };
    c.runtime.max_memory = max_memory;
    let temp = dir.path().join("tmp");
    if s.bool() {
        std::fs::create_dir_all(&temp).unwrap();
        c.runtime.temp_dir = Some(temp.clone());
    }
    cx.describe(format!("memory {max_memory:?} MiB, partitions of {partition} rows, {rows} rows, local {local}"));
    cx.nontrivial(&(max_memory, partition, rows, local));
    let c = match validate_config(c) {
        Ok(c) => c,
        Err(e) => fail!("refused", "usable settings are refused: {e}"),
    };
    block_on(async {
        let ctx = match build_context(c).await {
            Ok(c) => c,
            Err(e) => fail!("context", "no context with valid settings: {e}"),
        };
        cx.evals += 1;
        let pool = ctx.inner.runtime_env().memory_pool.clone();
        let mut r = MemoryConsumer::new("check").register(&pool);
        match max_memory {
            Some(mib) => {
                let total = mib as u128 * (1 << 20);
                // the fraction of it that queries get, give or take rounding
                let low = ((total * 699 / 1000).min(usize::MAX as u128 / 2)) as usize;
                ensure!(r.try_grow(low).is_ok(), "memory", "with {mib} MiB configured, queries cannot have {low} bytes");
                if total < 1 << 62 {
                    let high = (total * 701 / 1000) as usize;
                    ensure!(r.try_grow(high - low).is_err(), "memory", "with {mib} MiB configured, queries can have {high} bytes");
                }
                r.free();
            }
            None => {
                ensure!(r.try_grow(1 << 50).is_ok(), "memory", "with no limit configured, queries cannot have all they want");
                r.free();
            }
        }
        let run = |q: String| {
            let ctx = &ctx;
            async move { env::run(ctx, &q).await.map_err(|e| Fail::new("statement", format!("{q}: {e}"))) }
        };
        run("CREATE TABLE t (a BIGINT)".into()).await?;
        let values: Vec<String> = (0..rows).map(|n| format!("({n})")).collect();
        run(format!("INSERT INTO t VALUES {}", values.join(", "))).await?;
        let got = env::select(&ctx, "SELECT count(*), sum(a) FROM t").await.map_err(|e| Fail::new("statement", e))?;
        let want = format!("{:?}", vec![vec![checks_full::sqlmodel::V::I(rows as i64), checks_full::sqlmodel::V::I((rows * (rows - 1) / 2) as i64)]]);
        ensure!(format!("{got:?}") == want, "rows", "{rows} rows in partitions of {partition}: {got:?}");
        if local {
            let files = walk(&data).into_iter().filter(|f| f.ends_with(".parquet")).count();
            let want = rows.div_ceil(partition as usize);
            ensure!(files == want, "partitions", "{rows} rows in partitions of {partition} are in {files} files");
        }
        Ok(())
    })
}

fn walk(d: &std::path::Path) -> Vec<String> {
    let mut out = vec![];
    for e in std::fs::read_dir(d).unwrap().flatten() {
        if e.path().is_dir() {
            out.extend(walk(&e.path()));
        } else {
            out.push(e.path().to_string_lossy().into_owned());
        }
    }
    out
}

/// A cache with any accepted properties serves the bytes of the store below it.
fn caches(s: &mut Src, cx: &mut Ctx) -> R {
    let props = ObjectCacheProperties {
        capacity: match s.below(3) {
            0 => *s.pick(&[0, 1, u64::MAX, 1 << 32, u32::MAX as u64]),
            _ => s.below(10_000),
        },
        min_fetch_size: match s.below(3) {
            0 => *s.pick(&[1, 2, 1 << 20, 1 << 32]),
            _ => 1 + s.below(200),
        },
        ttl: *s.pick(&[0, 1, 180, 86_400, 1 << 30]),
    };
    let size = s.urange(1, 600);
    let reads = s.vec(1, 6, |s| {
        let a = s.usize(size);
        (a, s.urange(a + 1, size))
    });
    cx.describe(format!("{props:?} over {size} bytes: {reads:?}"));
    cx.nontrivial(&(format!("{props:?}"), size, &reads));
    let body: Vec<u8> = (0..size).map(|n| (n * 31 % 251) as u8).collect();
    let r = no_panic(|| {
        block_on(async {
            let mem: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
            let p = Path::from("x");
            mem.put(&p, Bytes::from(body.clone()).into()).await.unwrap();
            let cache = CachingObjectStore::new_from_config(&props, mem);
            for (a, b) in &reads {
                let got = cache.get_range(&p, *a..*b).await;
                cx.evals += 1;
                match got {
                    Ok(g) => ensure!(g[..] == body[*a..*b], "bytes", "bytes {a}..{b} are read as {} bytes: {:?}", g.len(), &g[..g.len().min(16)]),
                    Err(e) => fail!("read", "bytes {a}..{b}: {e}"),
                }
            }
            Ok(())
        })
    });
    match r {
        Ok(r) => r,
        Err((at, m)) => fail!("panic", "reading panics at {at}: {m}"),
    }
}

fn main() {
    pbt::main(Property {
        id: "C28",
        rule: "Each setting is given in the TOML file, the environment, both or neither, with values of every type and near-values that cannot be read. Legs load and files compare what is loaded with a model of the documented settings, defaults and refusals; leg contexts starts contexts with accepted settings and measures their memory limit and partitions; leg caches reads through caches with accepted properties. Non-trivial: four or more settings given (load, files), distinct by text; every case of contexts and caches.",
        assumptions: &[
            "numbers and booleans in the file are written as such; in the environment everything is text",
            "names of settings in the environment differ in more than upper and lower case",
        ],
        legs: vec![
            leg("load", 40_000, 1_000_000, load),
            leg("files", 6_000, 100_000, files),
            leg("contexts", 150, 4_000, contexts),
            leg("caches", 1_500, 40_000, caches),
        ],
    });
}
