//! Requests to the HTTP frontend, without a socket.
use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
use seafowl_full::config::schema::HttpFrontend;
use seafowl_full::context::SeafowlContext;
use seafowl_full::frontend::http::filters;
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct Req {
    pub method: &'static str,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
}

#[derive(Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: warp::http::HeaderMap,
    pub body: Vec<u8>,
}

impl Resp {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).chars().take(300).collect()
    }
    pub fn header(&self, name: &str) -> Option<String> {
        self.headers.get(name).map(|v| v.to_str().unwrap_or("?").to_string())
    }
}

pub async fn send(ctx: &Arc<SeafowlContext>, conf: &HttpFrontend, req: &Req) -> Resp {
    let f = filters(ctx.clone(), conf.clone());
    let mut r = warp::test::request().method(req.method).path(&req.path);
    for (k, v) in &req.headers {
        r = r.header(k.as_str(), v.as_str());
    }
    if let Some(b) = &req.body {
        r = r.header("Content-Length", b.len().to_string()).body(b);
    }
    let r = r.reply(&f).await;
    Resp { status: r.status().as_u16(), headers: r.headers().clone(), body: r.body().to_vec() }
}

pub fn escape(s: &str) -> String {
    utf8_percent_encode(s, NON_ALPHANUMERIC).to_string()
}

pub fn json_body(query: &str) -> Vec<u8> {
    serde_json::to_vec(&serde_json::json!({ "query": query })).unwrap()
}

pub fn prefix(db: Option<&str>) -> String {
    db.map_or(String::new(), |d| format!("/{d}"))
}

pub fn post(db: Option<&str>, sql: &str) -> Req {
    Req { method: "POST", path: format!("{}/q", prefix(db)), headers: vec![], body: Some(json_body(sql)) }
}

/// The three ways to ask for the results of a query.
pub fn get(db: Option<&str>, sql: &str, how: u8, ext: &str) -> Req {
    let hash = seafowl_full::config::schema::str_to_hex_hash(sql);
    let p = prefix(db);
    match how {
        0 => Req { method: "GET", path: format!("{p}/q/{}", escape(sql)), ..Default::default() },
        1 => Req { method: "GET", path: format!("{p}/q/{hash}{ext}"), body: Some(json_body(sql)), ..Default::default() },
        _ => Req { method: "GET", path: format!("{p}/q/{hash}{ext}"), headers: vec![("X-Seafowl-Query".into(), escape(sql))], ..Default::default() },
    }
}

pub struct Part<'a> {
    pub name: &'a str,
    pub filename: Option<&'a str>,
    pub data: Vec<u8>,
}

pub fn upload(db: Option<&str>, schema: &str, table: &str, parts: &[Part]) -> Req {
    const B: &str = "----a-boundary-7MA4YWxk";
    let mut body = vec![];
    for p in parts {
        let file = p.filename.map_or(String::new(), |f| format!("; filename=\"{f}\""));
        body.extend(format!("--{B}\r\nContent-Disposition: form-data; name=\"{}\"{file}\r\n\r\n", p.name).into_bytes());
        body.extend(&p.data);
        body.extend(b"\r\n");
    }
    body.extend(format!("--{B}--\r\n").into_bytes());
    Req {
        method: "POST",
        path: format!("{}/upload/{schema}/{table}", prefix(db)),
        headers: vec![("Content-Type".into(), format!("multipart/form-data; boundary={B}"))],
        body: Some(body),
    }
}
