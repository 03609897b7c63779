//! C09: function definitions survive storage and reload unchanged.
use checks::catmodel::*;
use checks::sqlgen::rand_case;
use pbt::*;
use seafowl::repository::interface::Repository;
use seafowl::wasm_udf::data_types::*;
use serde_json::{json, Value};

const LANGS: &[(&str, CreateFunctionLanguage)] = &[("wasm", CreateFunctionLanguage::Wasm), ("wasmMessagePack", CreateFunctionLanguage::WasmMessagePack)];
const VOLS: &[(&str, CreateFunctionVolatility)] = &[
    ("immutable", CreateFunctionVolatility::Immutable),
    ("stable", CreateFunctionVolatility::Stable),
    ("volatile", CreateFunctionVolatility::Volatile),
];

fn text(s: &mut Src) -> String {
    if s.chance(1, 3) {
        s.string_of(&['a', 'Z', '"', '\\', '\'', '\n', '\t', ' ', 'é', '🦭', '\u{0}', '\u{7f}', '/', '$', '1', '=', '\u{feff}', '\u{2028}'], 0, 12)
    } else {
        s.pick(&["f", "add_i64", "AGFzbQEAAAABGAVgA35", "", "null"]).to_string()
    }
}

/// JSON text of a string, plain or with any character escaped
fn jstr(s: &mut Src, v: &str) -> String {
    if s.chance(2, 3) {
        return serde_json::to_string(v).unwrap();
    }
    let mut o = String::from("\"");
    for c in v.chars() {
        if s.chance(1, 2) {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                o += &if s.bool() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
            }
        } else {
            let q = serde_json::to_string(&c.to_string()).unwrap();
            o += &q[1..q.len() - 1];
        }
    }
    o.push('"');
    o
}

fn ws(s: &mut Src) -> &'static str {
    *s.pick(&["", "", "", " ", "\n", "\t ", "\r\n"])
}

struct Doc {
    /// (key, JSON text of the value)
    parts: Vec<(String, String)>,
    details: CreateFunctionDetails,
}

fn doc(s: &mut Src) -> Doc {
    let mut parts = vec![];
    let (entry, data) = (text(s), text(s));
    parts.push(("entrypoint".to_string(), jstr(s, &entry)));
    parts.push(("data".to_string(), jstr(s, &data)));
    let types: Vec<usize> = s.vec(0, 6, |s| s.usize(TYPES.len()));
    let ty = |s: &mut Src, i: usize| {
        let t = match s.usize(3) {
            0 => TYPE_NAMES[i].to_string(),
            1 => TYPE_NAMES[i].to_uppercase(),
            _ => rand_case(s, TYPE_NAMES[i]),
        };
        jstr(s, &t)
    };
    let mut arr = format!("[{}", ws(s));
    for (k, i) in types.iter().enumerate() {
        if k > 0 {
            arr += &format!("{},{}", ws(s), ws(s));
        }
        arr += &ty(s, *i);
    }
    arr += &format!("{}]", ws(s));
    parts.push(("input_types".into(), arr));
    let ret = s.usize(TYPES.len());
    parts.push(("return_type".into(), ty(s, ret)));
    let mut language = CreateFunctionLanguage::WasmMessagePack;
    if s.chance(2, 3) {
        let l = s.pick(LANGS);
        language = l.1.clone();
        parts.push(("language".into(), jstr(s, l.0)));
    }
    let mut volatility = CreateFunctionVolatility::Volatile;
    if s.chance(2, 3) {
        let l = s.pick(VOLS);
        volatility = l.1.clone();
        parts.push(("volatility".into(), jstr(s, l.0)));
    }
    s.shuffle(&mut parts);
    Doc {
        parts,
        details: CreateFunctionDetails {
            entrypoint: entry,
            language,
            input_types: types.iter().map(|i| TYPES[*i].clone()).collect(),
            return_type: TYPES[ret].clone(),
            data,
            volatility,
        },
    }
}

fn render(s: &mut Src, parts: &[(String, String)]) -> String {
    let mut o = format!("{}{{{}", ws(s), ws(s));
    for (i, (k, v)) in parts.iter().enumerate() {
        if i > 0 {
            o += ",";
        }
        let key = jstr(s, k);
        o += &format!("{}{key}{}:{}{v}{}", ws(s), ws(s), ws(s), ws(s));
    }
    o + &format!("}}{}", ws(s))
}

fn parse(t: &str) -> Result<CreateFunctionDetails, String> {
    serde_json::from_str(t).map_err(|e| e.to_string())
}

fn document(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let d = doc(s);
    let t = render(s, &d.parts);
    ctx.describe(&t);
    ctx.nontrivial(&t);
    ctx.label(if t.contains("\\u") { "escaped" } else { "plain" });
    match parse(&t) {
        Ok(g) => ensure_eq!(g, d.details.clone(), "document", "the definition read from {t}"),
        Err(e) => fail!("document-rejected", "the valid definition {t} is rejected: {e}"),
    }
    // what the planner is told about it
    let v = match d.details.volatility {
        CreateFunctionVolatility::Immutable => "Immutable",
        CreateFunctionVolatility::Stable => "Stable",
        CreateFunctionVolatility::Volatile => "Volatile",
    };
    ensure_eq!(format!("{:?}", get_volatility(&d.details.volatility)), v, "volatility", "volatility in effect for {t}");
    // the same document as a parsed value and as bytes
    let v: Value = serde_json::from_str(&t).expect("valid JSON");
    match serde_json::from_value::<CreateFunctionDetails>(v) {
        Ok(g) => ensure_eq!(g, d.details.clone(), "document", "the definition read from the value of {t}"),
        Err(e) => fail!("document-rejected", "the valid definition {t}, as a JSON value, is rejected: {e}"),
    }
    match serde_json::from_reader::<_, CreateFunctionDetails>(t.as_bytes()) {
        Ok(g) => ensure_eq!(g, d.details, "document", "the definition read from the bytes of {t}"),
        Err(e) => fail!("document-rejected", "the valid definition {t}, as a stream, is rejected: {e}"),
    }
    Ok(())
}

const BAD_TYPES: &[&str] = &[
    "", "big int", "bigint ", " bigint", "int4", "int8", "integer", "string", "i16", "u32", "decimal(10,2)", "decimal(10, 2)", "blob", "bytea", "array",
    "DOUBLE PRECISION", "timestamptz", "null", "any", "bıgint", "ınt", "i32[]", "varchar(10)", "i_32", "unknown", "text\u{0}",
];
const BAD_LANGS: &[&str] = &["", "python", "wasm2", "wasmMessagePack ", " wasm", "js", "wasm-messagepack", "msgpack"];
const BAD_VOLS: &[&str] = &["", "never", "immutable ", "stable?", "const", "deterministic"];

fn malformed(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let d = doc(s);
    let mut parts = d.parts;
    let at = |parts: &[(String, String)], k: &str| parts.iter().position(|p| p.0 == k);
    let (what, t) = match s.usize(7) {
        0 => {
            let k = *s.pick(&["entrypoint", "data", "input_types", "return_type"]);
            parts.remove(at(&parts, k).unwrap());
            ("missing", render(s, &parts))
        }
        1 => {
            let k = *s.pick(&["entrypoint", "data", "input_types", "return_type"]);
            let i = at(&parts, k).unwrap();
            let arr = ["\"a\"", "1", "true", "null", "{}", "[]", "[1]", "[null]", "[[]]", "{\"a\": \"bigint\"}", "[\"bigint\", 1]"];
            let v = loop {
                let v = *s.pick(&arr);
                let fits = match k {
                    "input_types" => v == "[]",
                    "return_type" => false,
                    _ => v == "\"a\"",
                };
                if !fits {
                    break v;
                }
            };
            parts[i].1 = v.to_string();
            ("wrong kind", render(s, &parts))
        }
        2 => {
            let i = at(&parts, "return_type").unwrap();
            let t = *s.pick(BAD_TYPES);
            parts[i].1 = jstr(s, t);
            ("unknown return type", render(s, &parts))
        }
        3 => {
            let i = at(&parts, "input_types").unwrap();
            let mut v: Vec<String> = s.vec(0, 3, |s| TYPE_NAMES[s.usize(TYPE_NAMES.len())].to_string());
            let p = s.usize(v.len() + 1);
            v.insert(p, s.pick(BAD_TYPES).to_string());
            parts[i].1 = json!(v).to_string();
            ("unknown input type", render(s, &parts))
        }
        4 => {
            parts.retain(|p| p.0 != "language");
            let t = *s.pick(BAD_LANGS);
            parts.push(("language".into(), jstr(s, t)));
            ("unknown language", render(s, &parts))
        }
        5 => {
            parts.retain(|p| p.0 != "volatility");
            let t = *s.pick(BAD_VOLS);
            parts.push(("volatility".into(), jstr(s, t)));
            ("unknown volatility", render(s, &parts))
        }
        _ => {
            let t = render(s, &parts).trim().to_string();
            let mut cut = s.usize(t.len());
            while !t.is_char_boundary(cut) {
                cut -= 1;
            }
            let t = match s.usize(3) {
                0 => t[..cut].to_string(),
                1 => format!("{t}}}"),
                _ => format!("[{t}]"),
            };
            ("not a document", t)
        }
    };
    ctx.describe(format!("{what}: {t}"));
    ctx.label(what);
    ctx.nontrivial(&t);
    match no_panic(|| parse(&t)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(d)) => fail!(format!("accepted:{what}"), "{what}, but {t} is accepted as {d:?}"),
        Err((_, p)) => fail!("panic", "{t} panics: {p}"),
    }
}

fn storage(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let dir = tempfile::tempdir().unwrap();
    let path = dir.path().join("db").to_string_lossy().to_string();
    let mut want: std::collections::BTreeMap<(usize, String), CreateFunctionDetails> = Default::default();
    let steps = s.urange(1, 8);
    let ops: Vec<(usize, String, bool, Doc, bool)> = (0..steps)
        .map(|_| (s.usize(2), s.pick(&["f", "F", "g", "f ", "", "ñ", "a.b"]).to_string(), s.bool(), doc(s), s.chance(1, 4)))
        .collect();
    let mut text = vec![];
    block_on(async {
        let mut r = open(&path).await?;
        let e = |e: seafowl::repository::interface::Error| Fail::new("storage", format!("{e:?}"));
        let dbs = [r.create_database("one").await.map_err(e)?, r.create_database("two").await.map_err(e)?];
        for (db, name, or_replace, d, reopen) in &ops {
            let d = &d.details;
            text.push(format!("{} {db} {name:?} {d:?}", if *or_replace { "create or replace" } else { "create" }));
            ctx.label(if want.contains_key(&(*db, name.clone())) { "again" } else { "new" });
            let exists = want.contains_key(&(*db, name.clone()));
            let got = r.create_function(dbs[*db], name, *or_replace, d).await;
            match got {
                Ok(_) if !exists || *or_replace => {
                    want.insert((*db, name.clone()), d.clone());
                }
                Err(ref e) if exists && !*or_replace && kind(e) == Kind::Unique => {}
                got => fail!("create", "creating function {name:?} (or replace: {or_replace}, exists: {exists}) gives {got:?}"),
            }
            if *reopen {
                r.executor.close().await;
                r = open(&path).await?;
            }
            for (i, id) in dbs.iter().enumerate() {
                let mut rows = vec![];
                for f in r.get_all_functions_in_database(*id).await.map_err(e)? {
                    match parse_function(&f) {
                        Ok(d) => rows.push(((i, f.name), d)),
                        Err(e) => fail!("unreadable", "function {:?} was stored as {want:?} and cannot be read back: {e}", f.name),
                    }
                }
                rows.sort_by(|a, b| a.0.cmp(&b.0));
                let w: Vec<_> = want.iter().filter(|x| x.0 .0 == i).map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure_eq!(rows, w, "stored", "functions of database {i} read back (reopened: {reopen})");
            }
        }
        r.executor.close().await;
        Ok(())
    })?;
    ctx.describe(text.join("\n"));
    ctx.nontrivial(&text);
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C09",
        rule: "non-trivial: every case. Documents: generated definitions rendered as JSON in any key order, spacing, escapes and type letter case; damaged documents; stored histories of create/create or replace with reopening. Distinct by text.",
        assumptions: &[
            "stored functions are parsed back as src/catalog/metastore.rs does",
            "only definitions a document can express are stored (a DECIMAL has no precision there)",
            "unknown keys and duplicate keys of a document are unspecified",
        ],
        legs: vec![leg("document", 100_000, 3_000_000, document), leg("malformed", 100_000, 3_000_000, malformed), leg("storage", 500, 10_000, storage)],
    })
}
