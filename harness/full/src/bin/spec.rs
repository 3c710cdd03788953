//! Not a check: runs the repository's execution tests (which its own build here leaves
//! out). Reads {name, sdl, env, mocks, tests} a line, prints {name, responses} a line.
#[path = "../e2e.rs"]
mod e2e;
use e2e::*;
use serde_json::{json, Value};
use std::sync::Arc;
fn norm(u: &str) -> String { url::Url::parse(u).map(|u| { let mut q: Vec<_> = u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect(); q.sort(); format!("{} {} {:?}", u.host_str().unwrap_or(""), u.path(), q) }).unwrap_or(u.to_string()) }
fn main() {
    for line in std::io::stdin().lines() {
        let t: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mocks = t["mocks"].as_array().unwrap().clone();
        let mut s = Setup::new(t["sdl"].as_str().unwrap(), Arc::new(move |s: &Seen| {
            for m in &mocks {
                let r = &m["request"];
                if r["method"].as_str().unwrap_or("GET") != s.method || norm(r["url"].as_str().unwrap_or("")) != norm(&s.url) { continue }
                let b = if r["textBody"].is_null() { &r["body"] } else { &r["textBody"] };
                let same = match b { Value::Null => true, Value::String(t) => *t == s.body || t.trim() == s.body.trim() || serde_json::from_str::<Value>(&s.body).ok().map_or(false, |v| v == Value::String(t.clone())) || serde_json::from_str::<Value>(&s.body).ok() == serde_json::from_str::<Value>(t).ok(), v => serde_json::from_str::<Value>(&s.body).ok().as_ref() == Some(v) };
                if !same { continue }
                let a = &m["response"];
                let body = match &a["body"] { Value::Null if a["textBody"].is_string() => a["textBody"].as_str().unwrap().to_string(), Value::String(t) => serde_json::to_string(t).unwrap(), v => v.to_string() };
                let hs = a["headers"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default();
                return Ok((a["status"].as_u64().unwrap_or(200) as u16, hs, body));
            }
            Err(format!("no mock for {} {} {}", s.method, s.url, s.body))
        }));
        s.config = t["config"].as_str().map(|s| s.to_string());
        if let Some(e) = t["env"].as_object() { s.env = e.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect(); }
        let name = t["name"].clone();
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match s.start() {
            Err(e) => json!({"name": name, "error": e}),
            Ok(srv) => rt().block_on(async {
                let mut rs = vec![];
                for q in t["tests"].as_array().unwrap() {
                    let hs = q["headers"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default();
                    let mut a = post(if q["body"].is_null() { String::new() } else { q["body"].to_string() }, hs);
                    a.method = q["method"].as_str().unwrap_or("POST").to_string();
                    if let Ok(u) = url::Url::parse(q["url"].as_str().unwrap_or("")) { a.uri = u.to_string(); }
                    rs.push(match srv.ask(&a).await { Ok(g) => json!({"status": g.status, "body": g.body}), Err(e) => json!({"error": e}) });
                }
                json!({"name": name, "responses": rs})
            }),
        })).unwrap_or(json!({"name": name, "error": "panic"}));
        println!("{out}");
    }
}
