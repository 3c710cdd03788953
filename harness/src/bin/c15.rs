#![allow(deprecated)]
use std::collections::{BTreeMap, BTreeSet};

use serde_json::{json, Map, Value};
use tailcall::core::config::cors::Cors;
use tailcall::core::config::headers::Headers;
use tailcall::core::config::{Batch, Discriminate, HttpVersion, KeyValue, Routes, Server, Upstream};
use tcv::{same, Audit, Rng};

fn text(r: &mut Rng) -> String {
    r.pick(&["", "a", "A", "/status", "/graphql", "127.0.0.1", "0.0.0.0", "Tailcall/1.0", "type", "kind", "x-é", "ünï"]).to_string()
}
fn num(r: &mut Rng) -> u64 {
    *r.pick(&[0, 1, 5, 59, 60, 61, 100, 101, 8000, 8001, 65535])
}
fn kvs(r: &mut Rng) -> Vec<(String, String)> {
    r.vec(5, |r| (r.pick(&["", "a", "A", "b", "c"]).to_string(), text(r)))
}
fn kv(v: &[(String, String)]) -> Vec<KeyValue> {
    v.iter().map(|(k, v)| KeyValue { key: k.clone(), value: v.clone() }).collect()
}
fn kvj(v: &[(String, String)]) -> Value {
    Value::Array(v.iter().map(|(k, v)| json!({"key": k, "value": v})).collect())
}
fn set(r: &mut Rng) -> BTreeSet<String> {
    r.vec(4, |r| r.pick(&["", "a", "A", "x-b", "b"]).to_string()).into_iter().collect()
}
struct Doc(Map<String, Value>);
impl Doc {
    /// writes a setting under its documented name, if it is there; says what it is
    fn put<T: Clone + Into<Value>>(&mut self, k: &str, v: &Option<T>) -> Option<T> {
        if let Some(v) = v {
            self.0.insert(k.into(), v.clone().into());
        }
        v.clone()
    }
}

fn server(a: &mut Audit, r: &mut Rng) {
    let mut d = Doc(Map::new());
    let b = |r: &mut Rng| r.opt(|r| r.flip());
    let tracing = d.put("apolloTracing", &b(r));
    let batch = d.put("batchRequests", &b(r));
    let timeout = d.put("globalResponseTimeout", &r.opt(|r| num(r) as i64 - 100));
    let hostname = d.put("hostname", &r.opt(text));
    let intro = d.put("introspection", &b(r));
    let fed = d.put("enableFederation", &b(r));
    let flush = d.put("pipelineFlush", &b(r));
    let port = d.put("port", &r.opt(|r| num(r) as u16));
    let query = d.put("queryValidation", &b(r));
    let resp = d.put("responseValidation", &b(r));
    let show = d.put("showcase", &b(r));
    let workers = d.put("workers", &r.opt(|r| num(r) as u32));
    let version = d.put("version", &r.opt(|r| r.pick(&["HTTP1", "HTTP2"]).to_string()));
    let vars = r.opt(kvs);
    d.put("vars", &vars.as_ref().map(|v| kvj(v)));
    let headers = r.opt(|r| (r.opt(|r| r.flip()), r.opt(|r| r.flip()), r.opt(kvs), r.opt(set)));
    d.put("headers", &headers.as_ref().map(|(cc, sc, custom, exp)| {
        let mut h = Doc(Map::new());
        h.put("cacheControl", cc);
        h.put("setCookies", sc);
        h.put("custom", &custom.as_ref().map(|v| kvj(v)));
        h.put("experimental", &exp.as_ref().map(|v| json!(v)));
        Value::Object(h.0)
    }));
    let routes = r.opt(|r| (r.opt(text), r.opt(text)));
    d.put("routes", &routes.as_ref().map(|(s, g)| {
        let mut h = Doc(Map::new());
        h.put("status", s);
        h.put("graphQL", g);
        Value::Object(h.0)
    }));
    let doc = Value::Object(d.0);
    let inp = || doc.to_string();
    let some = doc.as_object().unwrap().len() > 1;
    // built by hand as well as read
    let read: Result<Server, _> = serde_json::from_value(doc.clone());
    let built = Server {
        apollo_tracing: tracing,
        batch_requests: batch,
        global_response_timeout: timeout,
        hostname: hostname.clone(),
        introspection: intro,
        enable_federation: fed,
        pipeline_flush: flush,
        port,
        query_validation: query,
        response_validation: resp,
        showcase: show,
        workers: workers.map(|w| w as usize),
        version: version.as_ref().map(|v| if v == "HTTP2" { HttpVersion::HTTP2 } else { HttpVersion::HTTP1 }),
        vars: kv(&vars.clone().unwrap_or_default()),
        headers: headers.as_ref().map(|(cc, sc, custom, exp)| Headers {
            cache_control: *cc,
            set_cookies: *sc,
            custom: kv(&custom.clone().unwrap_or_default()),
            experimental: exp.clone(),
            cors: None,
        }),
        routes: routes.as_ref().map(|(s, g)| {
            let mut x = Routes::default();
            if let Some(s) = s {
                x = x.with_status(s.as_str());
            }
            if let Some(g) = g {
                x = x.with_graphql(g.as_str());
            }
            x
        }),
        ..Default::default()
    };
    a.case("server settings are read under their names", some, inp, || match &read {
        Ok(s) => same("read", s, &built),
        Err(e) => Err(format!("not read: {e}")),
    });
    a.case("server settings written back", some, inp, || {
        let s = read.as_ref().map_err(|e| format!("not read: {e}"))?;
        let w = serde_json::to_value(s).map_err(|e| e.to_string())?;
        let keys = |v: &Value| v.as_object().unwrap().iter().filter(|(k, v)| *k != "vars" || *v != &json!([])).map(|(k, _)| k.clone()).collect::<BTreeSet<_>>();
        same("what is written", keys(&w), keys(&doc))?;
        same("read again", serde_json::from_value::<Server>(w).map_err(|e| e.to_string())?, s.clone())
    });
    a.case("server switches", some, inp, || {
        same("apolloTracing", built.enable_apollo_tracing(), tracing == Some(true))?;
        same("batchRequests", built.enable_batch_requests(), batch == Some(true))?;
        same("introspection", built.enable_introspection(), intro != Some(false))?;
        same("federation", built.get_enable_federation(), fed == Some(true))?;
        same("pipelineFlush", built.get_pipeline_flush(), flush != Some(false))?;
        same("queryValidation", built.enable_query_validation(), query == Some(true))?;
        same("responseValidation", built.enable_http_validation(), resp == Some(true))?;
        same("showcase", built.enable_showcase(), show == Some(true))?;
        same("cacheControl", built.enable_cache_control(), headers.as_ref().is_some_and(|h| h.0 == Some(true)))?;
        same("setCookies", built.enable_set_cookies(), headers.as_ref().is_some_and(|h| h.1 == Some(true)))
    });
    a.case("server numbers and texts", some, inp, || {
        same("timeout", built.get_global_response_timeout(), timeout.unwrap_or(0))?;
        same("port", built.get_port(), port.unwrap_or(8000))?;
        same("workers", built.get_workers(), workers.map_or(num_cpus::get(), |w| w as usize))?;
        same("hostname", built.get_hostname(), hostname.clone().unwrap_or("127.0.0.1".into()))?;
        same("version", built.clone().get_version(), if version.as_deref() == Some("HTTP2") { HttpVersion::HTTP2 } else { HttpVersion::HTTP1 })?;
        let r = built.get_routes();
        let (s, g) = routes.clone().unwrap_or_default();
        same("status", r.status().clone(), s.unwrap_or("/status".into()))?;
        same("graphQL", r.graphql().clone(), g.unwrap_or("/graphql".into()))
    });
    a.case("server vars and headers", some, inp, || {
        let mut m = BTreeMap::new();
        for (k, v) in vars.iter().flatten() {
            m.insert(k.clone(), v.clone());
        }
        same("vars", built.get_vars(), m)?;
        let h = headers.clone().unwrap_or_default();
        same("headers", built.get_response_headers(), h.2.unwrap_or_default())?;
        same("experimental", built.get_experimental_headers(), h.3.unwrap_or_default())
    });
    let bad = r.pick(&["Port", "host_name", "graphiql", "queryvalidation", ""]).to_string();
    a.case("an unknown server setting is refused", true, || bad.clone(), || {
        let got: Result<Server, _> = serde_json::from_value(json!({bad.clone(): true}));
        same("read", got.is_ok(), false)
    });
}

fn upstream(a: &mut Audit, r: &mut Rng) {
    let mut d = Doc(Map::new());
    let on = d.put("onRequest", &r.opt(text));
    let allowed = r.opt(set);
    d.put("allowedHeaders", &allowed.as_ref().map(|v| json!(v)));
    let ct = d.put("connectTimeout", &r.opt(num));
    let cache = d.put("httpCache", &r.opt(num));
    let h2 = d.put("http2Only", &r.opt(|r| r.flip()));
    let ki = d.put("keepAliveInterval", &r.opt(num));
    let kt = d.put("keepAliveTimeout", &r.opt(num));
    let kw = d.put("keepAliveWhileIdle", &r.opt(|r| r.flip()));
    let pm = d.put("poolMaxIdlePerHost", &r.opt(num));
    let pi = d.put("poolIdleTimeout", &r.opt(num));
    let tk = d.put("tcpKeepAlive", &r.opt(num));
    let to = d.put("timeout", &r.opt(num));
    let ua = d.put("userAgent", &r.opt(text));
    let ssl = d.put("verifySSL", &r.opt(|r| r.flip()));
    let batch = r.opt(|r| (r.opt(num), r.opt(num), r.opt(set)));
    d.put("batch", &batch.as_ref().map(|(delay, size, hs)| {
        let mut h = Doc(Map::new());
        h.put("delay", delay);
        h.put("maxSize", size);
        h.put("headers", &hs.as_ref().map(|v| json!(v)));
        Value::Object(h.0)
    }));
    let doc = Value::Object(d.0);
    let inp = || doc.to_string();
    let some = doc.as_object().unwrap().len() > 1;
    let read: Result<Upstream, _> = serde_json::from_value(doc.clone());
    a.case("upstream settings", some, inp, || {
        let u = read.as_ref().map_err(|e| format!("not read: {e}"))?;
        same("onRequest", u.get_on_request(), on.clone())?;
        same("allowedHeaders", u.get_allowed_headers(), allowed.clone().unwrap_or_default())?;
        same("connectTimeout", u.get_connect_timeout(), ct.unwrap_or(60))?;
        same("httpCache", u.get_http_cache_size(), cache.unwrap_or(0))?;
        same("http2Only", u.get_http_2_only(), h2 == Some(true))?;
        same("keepAliveInterval", u.get_keep_alive_interval(), ki.unwrap_or(60))?;
        same("keepAliveTimeout", u.get_keep_alive_timeout(), kt.unwrap_or(60))?;
        same("keepAliveWhileIdle", u.get_keep_alive_while_idle(), kw == Some(true))?;
        same("poolMaxIdlePerHost", u.get_pool_max_idle_per_host() as u64, pm.unwrap_or(60))?;
        same("poolIdleTimeout", u.get_pool_idle_timeout(), pi.unwrap_or(60))?;
        same("tcpKeepAlive", u.get_tcp_keep_alive(), tk.unwrap_or(5))?;
        same("timeout", u.get_timeout(), to.unwrap_or(60))?;
        same("userAgent", u.get_user_agent(), ua.clone().unwrap_or("Tailcall/1.0".into()))?;
        same("verifySSL", u.get_verify_ssl(), ssl != Some(false))?;
        let (delay, size, hs) = batch.clone().unwrap_or_default();
        same("delay", u.get_delay() as u64, delay.unwrap_or(0))?;
        same("maxSize", u.get_max_size() as u64, size.unwrap_or(100))?;
        same("batch headers", u.batch.as_ref().map(|b| b.headers.clone()), batch.as_ref().map(|_| hs.unwrap_or_default()))
    });
    a.case("upstream settings given by hand", some, inp, || {
        let u = Upstream {
            timeout: to,
            connect_timeout: ct,
            pool_max_idle_per_host: pm.map(|x| x as usize),
            verify_ssl: ssl,
            batch: batch.as_ref().map(|(d, s, h)| Batch {
                delay: d.unwrap_or(0) as usize,
                max_size: s.map(|s| s as usize),
                headers: h.clone().unwrap_or_default(),
            }),
            ..Default::default()
        };
        same("timeout", u.get_timeout(), to.unwrap_or(60))?;
        same("connectTimeout", u.get_connect_timeout(), ct.unwrap_or(60))?;
        same("verifySSL", u.get_verify_ssl(), ssl != Some(false))?;
        same("poolMaxIdlePerHost", u.get_pool_max_idle_per_host() as u64, pm.unwrap_or(60))?;
        let (delay, size, _) = batch.clone().unwrap_or_default();
        same("delay", u.get_delay() as u64, delay.unwrap_or(0))?;
        same("maxSize", u.get_max_size() as u64, size.unwrap_or(100))
    });
    let bad = r.pick(&["Timeout", "verifySsl", "http_cache", "http2only", ""]).to_string();
    a.case("upstream settings written back", some, inp, || {
        let u = read.as_ref().map_err(|e| format!("not read: {e}"))?;
        let w = serde_json::to_value(u).map_err(|e| e.to_string())?;
        same("verifySSL", w.get("verifySSL").cloned(), if ssl == Some(false) { Some(json!(false)) } else { None })?;
        let keys = |v: &Value| v.as_object().unwrap().keys().filter(|k| *k != "verifySSL").cloned().collect::<BTreeSet<_>>();
        same("what is written", keys(&w), keys(&doc))?;
        same("read again", serde_json::from_value::<Upstream>(w).map_err(|e| e.to_string())?, u.clone())
    });
    a.case("no batching settings", true, || "Batch::default()".into(), || {
        let b = Batch::default();
        same("batch", (b.delay, b.max_size, b.headers.len()), (0, Some(100), 0))?;
        let b: Batch = serde_json::from_value(json!({})).map_err(|e| e.to_string())?;
        let u = Upstream { batch: Some(b), ..Default::default() };
        same("batch read", (u.get_delay(), u.get_max_size()), (0, 100))
    });
    a.case("verifySSL is left out when it is on", true, || "None, true, false".into(), || {
        let f = tailcall::core::verify_ssl_is_default;
        same("default", (f(&None), f(&Some(true)), f(&Some(false))), (true, true, false))?;
        use tailcall::core::is_default as d;
        same("is default", (d(&None::<u8>), d(&Some(0u8)), d(&false), d(&true), d(&0u8), d(&1u8), d(&String::new()), d(&" ".to_string())), (true, false, true, false, true, false, true, false))
    });
    a.case("an unknown upstream setting is refused", true, || bad.clone(), || {
        let got: Result<Upstream, _> = serde_json::from_value(json!({bad.clone(): 1}));
        same("read", got.is_ok(), false)
    });
}

fn rest(a: &mut Audit, r: &mut Rng) {
    let f = r.opt(text);
    a.case("discriminate", f.is_some(), || format!("{f:?}"), || {
        let want = f.clone().unwrap_or("type".into());
        same("built", Discriminate { field: f.clone() }.get_field(), want.clone())?;
        let doc = f.as_ref().map_or(json!({}), |f| json!({ "field": f }));
        let got: Discriminate = serde_json::from_value(doc).map_err(|e| e.to_string())?;
        same("read", got.get_field(), want)
    });
    let vary = r.opt(|r| r.vec(3, text));
    let (cred, net) = (r.opt(|r| r.flip()), r.opt(|r| r.flip()));
    let age = r.opt(num);
    let list = |r: &mut Rng| r.opt(|r| r.vec(3, text));
    let (hs, os, es) = (list(r), list(r), list(r));
    let mut d = Doc(Map::new());
    d.put("vary", &vary.as_ref().map(|v| json!(v)));
    d.put("allowCredentials", &cred);
    d.put("allowPrivateNetwork", &net);
    d.put("maxAge", &age);
    d.put("allowHeaders", &hs.as_ref().map(|v| json!(v)));
    d.put("allowOrigins", &os.as_ref().map(|v| json!(v)));
    d.put("exposeHeaders", &es.as_ref().map(|v| json!(v)));
    let doc = json!({ "cors": d.0 });
    a.case("cors", vary.is_some(), || doc.to_string(), || {
        let h: Headers = serde_json::from_value(doc.clone()).map_err(|e| e.to_string())?;
        let c: Cors = h.get_cors().ok_or("no cors")?;
        let pre = ["origin", "access-control-request-method", "access-control-request-headers"];
        same("vary", c.vary, vary.clone().unwrap_or(pre.map(String::from).to_vec()))?;
        same("credentials", c.allow_credentials, cred)?;
        same("private network", c.allow_private_network, net)?;
        same("max age", c.max_age.map(|x| x as u64), age)?;
        same("headers", c.allow_headers, hs.clone().unwrap_or_default())?;
        same("origins", c.allow_origins, os.clone().unwrap_or_default())?;
        same("expose", c.expose_headers, es.clone().unwrap_or_default())?;
        same("none", serde_json::from_value::<Headers>(json!({})).map_err(|e| e.to_string())?.get_cors().is_none(), true)
    });
}

fn main() {
    let mut a = Audit::start("settings left out and given, read from JSON and built; nontrivial: settings given");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    for _ in 0..n {
        server(&mut a, &mut r);
        upstream(&mut a, &mut r);
        rest(&mut a, &mut r);
    }
    a.finish();
}
