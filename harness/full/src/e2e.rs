//! Starts the real server over upstreams of our own: everything from the text of the
//! configuration to the bytes of the answer is /repo's code.
#![allow(dead_code)]
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use hyper::body::Bytes;
use tailcall::core::app_context::AppContext;
use tailcall::core::async_graphql_hyper::{GraphQLBatchRequest, GraphQLRequest};
use tailcall::core::blueprint::Blueprint;
use tailcall::core::cache::InMemoryCache;
use tailcall::core::config::{Config, ConfigModule, Content, Extensions};
use tailcall::core::http::{handle_request, Response};
use tailcall::core::rest::{EndpointSet, Unchecked};
use tailcall::core::runtime::TargetRuntime;
use tailcall::core::{EnvIO, FileIO, HttpIO};
use tailcall_valid::Validator;

pub type Answerer = dyn Fn(&Seen) -> Result<(u16, Vec<(String, String)>, String), String> + Send + Sync;

/// A request as an upstream sees it.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub method: String,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
impl Seen {
    pub fn path(&self) -> String {
        url::Url::parse(&self.url).map(|u| u.path().to_string()).unwrap_or_default()
    }
    pub fn pairs(&self) -> Vec<(String, String)> {
        url::Url::parse(&self.url)
            .map(|u| u.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect())
            .unwrap_or_default()
    }
    pub fn header(&self, n: &str) -> Option<String> {
        self.headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone())
    }
}

/// How long an upstream works, in turns of the others: 0 is one turn for all
pub static PACE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn turns(url: &str) -> u64 {
    let pace = PACE.load(std::sync::atomic::Ordering::Relaxed);
    let h = url.bytes().fold(pace, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    if pace == 0 { 1 } else { 1 + (h >> 20) % 9 }
}

pub struct Upstream {
    pub log: Arc<Mutex<Vec<Seen>>>,
    pub answer: Arc<Answerer>,
}
#[async_trait::async_trait]
impl HttpIO for Upstream {
    async fn execute(&self, request: reqwest::Request) -> anyhow::Result<Response<Bytes>> {
        let mut headers: Vec<(String, String)> = request
            .headers()
            .iter()
            .map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).to_string()))
            .collect();
        headers.sort();
        let seen = Seen {
            method: request.method().to_string(),
            url: request.url().to_string(),
            headers,
            body: request.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default(),
        };
        self.log.lock().unwrap().push(seen.clone());
        // others may run while the upstream works
        for _ in 0..turns(&seen.url) {
            tokio::task::yield_now().await;
        }
        match (self.answer)(&seen) {
            Ok((status, hs, body)) => {
                let mut map = reqwest::header::HeaderMap::new();
                for (k, v) in hs {
                    map.append(
                        reqwest::header::HeaderName::from_bytes(k.as_bytes())?,
                        reqwest::header::HeaderValue::from_str(&v)?,
                    );
                }
                Ok(Response { status: reqwest::StatusCode::from_u16(status)?, headers: map, body: Bytes::from(body) })
            }
            Err(e) => Err(anyhow::anyhow!(e)),
        }
    }
}

pub struct Env(pub HashMap<String, String>);
impl EnvIO for Env {
    fn get(&self, key: &str) -> Option<Cow<'_, str>> {
        self.0.get(key).map(|s| Cow::Borrowed(s.as_str()))
    }
}
pub struct Files;
#[async_trait::async_trait]
impl FileIO for Files {
    async fn write<'a>(&'a self, _: &'a str, _: &'a [u8]) -> anyhow::Result<()> {
        Err(anyhow::anyhow!("no files"))
    }
    async fn read<'a>(&'a self, _: &'a str) -> anyhow::Result<String> {
        Err(anyhow::anyhow!("no files"))
    }
}

#[derive(Clone)]
pub struct Setup {
    pub sdl: String,
    pub env: HashMap<String, String>,
    pub answer: Arc<Answerer>,
    /// (id, JSON Web Key set)
    pub jwks: Vec<(Option<String>, serde_json::Value)>,
    /// (id, lines `user:password`)
    pub htpasswd: Vec<(Option<String>, String)>,
    /// operations served below /api
    pub rest: Option<String>,
    /// runtime settings in YAML
    pub config: Option<String>,
}

pub struct Server {
    pub ctx: Arc<AppContext>,
    pub log: Arc<Mutex<Vec<Seen>>>,
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

impl Setup {
    pub fn new(sdl: impl Into<String>, answer: Arc<Answerer>) -> Self {
        Setup { sdl: sdl.into(), env: Default::default(), answer, jwks: vec![], htpasswd: vec![], rest: None, config: None }
    }
    pub fn module(&self) -> Result<ConfigModule, String> {
        let config = Config::from_sdl(&self.sdl).to_result().map_err(|e| format!("configuration: {e}"))?;
        let config = match &self.config {
            None => config,
            Some(y) => config.with_runtime_config(tailcall::core::config::RuntimeConfig::from_yaml(y).map_err(|e| format!("settings: {e}"))?),
        };
        let mut ext = Extensions::default();
        for (id, set) in &self.jwks {
            ext.jwks.push(Content { id: id.clone(), content: serde_json::from_value(set.clone()).map_err(|e| e.to_string())? });
        }
        for (id, text) in &self.htpasswd {
            ext.htpasswd.push(Content { id: id.clone(), content: text.clone() });
        }
        Ok(ConfigModule::new(config, ext))
    }
    pub fn start(&self) -> Result<Server, String> {
        let module = self.module()?;
        let blueprint = Blueprint::try_from(&module).map_err(|e| format!("blueprint: {e}"))?;
        let log = Arc::new(Mutex::new(vec![]));
        let up = Arc::new(Upstream { log: log.clone(), answer: self.answer.clone() });
        let runtime = TargetRuntime {
            http: up.clone(),
            http2_only: up,
            env: Arc::new(Env(self.env.clone())),
            file: Arc::new(Files),
            cache: Arc::new(InMemoryCache::default()),
            extensions: Arc::new(vec![]),
            cmd_worker: None,
            worker: None,
        };
        let endpoints = match &self.rest {
            None => EndpointSet::default(),
            Some(ops) => {
                let set: EndpointSet<Unchecked> = EndpointSet::try_new(ops).map_err(|e| format!("endpoints: {e}"))?;
                rt().block_on(set.into_checked(&blueprint, runtime.clone())).map_err(|e| format!("endpoints: {e}"))?
            }
        };
        Ok(Server { ctx: Arc::new(AppContext::new(blueprint, runtime, endpoints)), log })
    }
}

#[derive(Clone, Debug)]
pub struct Ask {
    pub method: String,
    pub uri: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Got {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
impl Got {
    pub fn json(&self) -> serde_json::Value {
        serde_json::from_str(&self.body).unwrap_or(serde_json::Value::Null)
    }
}
pub fn query(text: &str, op: Option<&str>, vars: Option<serde_json::Value>) -> String {
    let mut o = serde_json::Map::new();
    o.insert("query".into(), text.into());
    if let Some(op) = op {
        o.insert("operationName".into(), op.into());
    }
    if let Some(v) = vars {
        o.insert("variables".into(), v);
    }
    serde_json::Value::Object(o).to_string()
}
pub fn post(body: String, headers: Vec<(String, String)>) -> Ask {
    Ask { method: "POST".into(), uri: "http://localhost:8000/graphql".into(), headers, body }
}

impl Server {
    pub async fn ask(&self, a: &Ask) -> Result<Got, String> {
        let mut b = http::Request::builder().method(a.method.as_str()).uri(a.uri.as_str());
        for (k, v) in &a.headers {
            b = b.header(k, v);
        }
        let req = b.body(hyper::Body::from(a.body.clone())).map_err(|e| e.to_string())?;
        let batch = a.body.trim_start().starts_with('[');
        let res = if batch {
            handle_request::<GraphQLBatchRequest>(req, self.ctx.clone()).await
        } else {
            handle_request::<GraphQLRequest>(req, self.ctx.clone()).await
        }
        .map_err(|e| format!("failed: {e}"))?;
        let status = res.status().as_u16();
        let mut headers: Vec<(String, String)> = res
            .headers()
            .iter()
            .map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).to_string()))
            .collect();
        headers.sort();
        let body = hyper::body::to_bytes(res.into_body()).await.map_err(|e| e.to_string())?;
        Ok(Got { status, headers, body: String::from_utf8_lossy(&body).to_string() })
    }
}
