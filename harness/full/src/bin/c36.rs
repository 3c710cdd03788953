//! C36: what is served at an address, and the headers that answers carry.
#[path = "../e2e.rs"]
mod e2e;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use e2e::*;
use serde_json::{json, Value};
use tcv::*;

const SDL: &str = r#"schema { query: Query }
type Query {
  f0: JSON @http(url: "http://u/f0")
  f1: JSON @http(url: "http://u/f1")
  f2: JSON @http(url: "http://u/f2")
  g(a: Int, s: String): JSON @http(url: "http://u/g", query: [{key: "a", value: "{{.args.a}}"}, {key: "s", value: "{{.args.s}}"}])
}
"#;
const OPS: &str = r#"
query A($a: Int!) @rest(method: GET, path: "/item/$a") { g(a: $a) }
query B($a: Int!, $s: String) @rest(method: GET, path: "/api/$a", query: {s: $s}) { g(a: $a, s: $s) }
query C($s: String) @rest(method: GET, path: "/x/api/y", query: {s: $s}) { g(s: $s) }
query D($s: String) @rest(method: POST, path: "/put", body: $s) { g(s: $s) }
query E @rest(method: GET, path: "/all") { f0 f1 f2 }
"#;

#[derive(Clone, Debug)]
struct Up {
    status: u16,
    /// (maximum age, private, no-cache)
    caching: Option<(Option<u64>, bool, bool)>,
    cookie: Option<String>,
    x: Vec<(&'static str, String)>,
}
impl Up {
    fn gen(r: &mut Rng) -> Self {
        Up {
            status: *r.pick(&[200, 200, 200, 200, 201, 299, 302, 404, 500]),
            caching: if r.one_in(4) { None } else { Some((r.opt(|r| *r.pick(&[0u64, 1, 60, 3600, 2147483647, 2147483648, 4294967295, 4294967296 + 5, 99999999999])), r.one_in(4), r.one_in(6))) },
            cookie: r.opt(|r| format!("k{}=v{}", r.below(9), r.below(9))),
            x: ["x-one", "x-two", "x-three"].into_iter().filter_map(|n| r.opt(|r| (n, format!("{n}{}", r.below(5))))).collect(),
        }
    }
    fn headers(&self) -> Vec<(String, String)> {
        let mut out = vec![];
        if let Some((age, private, no)) = &self.caching {
            let mut v = vec![];
            // one of these can be said at a time
            if *no {
                v.push("no-cache".to_string())
            } else if *private {
                v.push("private".to_string())
            }
            if let Some(n) = age {
                v.push(format!("max-age={n}"));
            }
            if !v.is_empty() {
                out.push(("cache-control".to_string(), v.join(", ")));
            }
        }
        if let Some(c) = &self.cookie {
            out.push(("set-cookie".to_string(), c.clone()));
        }
        out.extend(self.x.iter().map(|(k, v)| (k.to_string(), v.clone())));
        out
    }
}

#[derive(Clone, Debug)]
struct Cors {
    credentials: bool,
    private: bool,
    origins: Vec<&'static str>,
    methods: Vec<&'static str>,
    headers: Vec<&'static str>,
    expose: Vec<&'static str>,
    age: Option<u32>,
    vary: Option<Vec<&'static str>>,
}
#[derive(Clone, Debug)]
struct Rules {
    caching: bool,
    cookies: bool,
    x: Vec<&'static str>,
    custom: Vec<(&'static str, &'static str)>,
    cors: Option<Cors>,
    routes: Option<(&'static str, &'static str)>,
}
const ORIGINS: &[&str] = &["https://a.com", "https://b.com", "https://a.com.evil", "null", "https://tailcall.run", "http://tailcall.run", "*"];
fn few(r: &mut Rng, of: &[&'static str]) -> Vec<&'static str> {
    of.iter().copied().filter(|_| r.flip()).collect()
}
impl Rules {
    fn gen(r: &mut Rng) -> Self {
        Rules {
            caching: r.one_in(3) || r.flip(),
            cookies: r.flip(),
            x: few(r, &["x-one", "x-two", "x-four"]),
            custom: [("x-custom", "c"), ("x-one", "own"), ("vary", "cookie"), ("access-control-expose-headers", "mine")].into_iter().filter(|_| r.one_in(3)).collect(),
            cors: if r.flip() {
                None
            } else {
                let credentials = r.one_in(3);
                Some(Cors {
                    credentials,
                    private: r.flip(),
                    origins: if !credentials && r.one_in(4) { vec!["https://a.com", "*"] } else { few(r, &ORIGINS[..5]) },
                    methods: if credentials || r.flip() { vec!["POST", "OPTIONS"] } else { vec![] },
                    headers: if !credentials && r.one_in(4) { vec!["*"] } else { few(r, &["authorization", "x-y"]) },
                    expose: few(r, &["x-one", "x-two"]),
                    age: r.opt(|r| r.below(9000) as u32),
                    vary: r.opt(|r| few(r, &["origin", "access-control-request-method", "accept"])),
                })
            },
            routes: r.opt(|r| *r.pick(&[("/health", "/gql"), ("/graphql", "/q"), ("/s", "/apiary"), ("/s", "/api")])),
        }
    }
    fn yaml(&self) -> String {
        let mut headers = json!({"cacheControl": self.caching, "setCookies": self.cookies, "experimental": self.x, "custom": self.custom.iter().map(|(k, v)| json!({"key": k, "value": v})).collect::<Vec<_>>()});
        if let Some(c) = &self.cors {
            let mut o = json!({"allowCredentials": c.credentials, "allowPrivateNetwork": c.private, "allowOrigins": c.origins, "allowMethods": c.methods, "allowHeaders": c.headers, "exposeHeaders": c.expose});
            if let Some(n) = c.age {
                o["maxAge"] = json!(n);
            }
            if let Some(v) = &c.vary {
                o["vary"] = json!(v);
            }
            headers["cors"] = o;
        }
        let mut server = json!({ "headers": headers });
        if let Some((s, g)) = self.routes {
            server["routes"] = json!({"status": s, "graphQL": g});
        }
        json!({ "server": server }).to_string()
    }
    fn status(&self) -> &'static str {
        self.routes.map(|r| r.0).unwrap_or("/status")
    }
    fn graphql(&self) -> &'static str {
        self.routes.map(|r| r.1).unwrap_or("/graphql")
    }
}

/// what an address answers with
#[derive(Debug)]
enum Answer {
    /// the data, as the fields asked for
    Data(Vec<usize>),
    /// several queries' data, perhaps with one that fails
    Batch(Vec<usize>, bool),
    Echo(Value),
    RestEcho(Value),
    RestData(Vec<usize>),
    Ready,
    Refused,
    Nothing,
}

/// Every header that has one value, and those which may have one of a few.
struct Said {
    is: Vec<(String, String)>,
    one_of: Vec<(String, BTreeSet<String>)>,
    cookies: BTreeSet<String>,
}
fn put(v: &mut Vec<(String, String)>, k: &str, t: &str) {
    v.retain(|(n, _)| n != k);
    v.push((k.to_string(), t.to_string()));
}
impl Rules {
    /// `ups`: the upstreams asked
    fn answered(&self, ups: &[&Up]) -> Said {
        let mut is = vec![("content-type".to_string(), "application/json".to_string())];
        let good: Vec<&&Up> = ups.iter().filter(|u| (200..300).contains(&u.status)).collect();
        if self.caching {
            let told: Vec<_> = good.iter().filter_map(|u| u.caching).collect();
            let mut words = vec![];
            if told.iter().any(|c| c.2) {
                words.push("no-cache".to_string());
            } else if let Some(n) = told.iter().filter_map(|c| c.0).min() {
                if n > 0 {
                    words.push(format!("max-age={}", n.min(i32::MAX as u64)));
                }
            }
            if told.iter().any(|c| c.1 && !c.2) {
                words.push("private".to_string());
            }
            if !words.is_empty() {
                put(&mut is, "cache-control", &words.join(", "));
            }
        }
        for (k, v) in &self.custom {
            put(&mut is, k, v);
        }
        let mut one_of = vec![];
        for n in &self.x {
            let all: BTreeSet<String> = ups.iter().flat_map(|u| &u.x).filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect();
            if !all.is_empty() {
                is.retain(|(k, _)| k != n);
                one_of.push((n.to_string(), all));
            }
        }
        let cookies = if self.cookies { good.iter().filter_map(|u| u.cookie.clone()).collect() } else { BTreeSet::new() };
        Said { is, one_of, cookies }
    }
    /// what browsers are told on top of it
    fn crossed(&self, said: &mut Said, asked: &[(String, String)]) {
        let of = |n: &str| asked.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str());
        if let Some(c) = &self.cors {
            if let Some(o) = self.let_in(of("origin")) {
                put(&mut said.is, "access-control-allow-origin", o);
            }
            if c.credentials {
                put(&mut said.is, "access-control-allow-credentials", "true");
            }
            if c.private && of("access-control-request-private-network") == Some("true") {
                put(&mut said.is, "access-control-allow-private-network", "true");
            }
            if let Some(v) = self.vary() {
                said.is.push(("vary".into(), v));
            }
        } else if matches!(of("origin"), Some("https://tailcall.run" | "http://tailcall.run")) {
            put(&mut said.is, "access-control-allow-origin", "https://tailcall.run");
        }
    }
    fn let_in<'a>(&self, o: Option<&'a str>) -> Option<&'a str> {
        let c = self.cors.as_ref()?;
        o.filter(|o| c.origins.iter().any(|x| x == o || *x == "*"))
    }
    fn vary(&self) -> Option<String> {
        let v = match &self.cors.as_ref()?.vary {
            Some(v) => v.clone(),
            None => vec!["origin", "access-control-request-method", "access-control-request-headers"],
        };
        (!v.is_empty()).then(|| v.join(", "))
    }
    fn expect(&self, answer: &Answer, ups: &[Up], preflight: bool, asked: &[(String, String)]) -> Said {
        let mut said = match answer {
            _ if preflight => Said { is: vec![], one_of: vec![], cookies: BTreeSet::new() },
            Answer::Batch(fs, bad) => {
                let mut said = self.answered(&fs.iter().map(|i| &ups[*i]).collect::<Vec<_>>());
                if *bad {
                    said.is.retain(|(k, _)| k != "cache-control");
                }
                said
            }
            Answer::Data(fs) | Answer::RestData(fs) => self.answered(&fs.iter().map(|i| &ups[*i]).collect::<Vec<_>>()),
            Answer::Echo(_) | Answer::RestEcho(_) => self.answered(&[&ups[3]]),
            Answer::Ready | Answer::Refused => Said { is: vec![("content-type".into(), "application/json".into())], one_of: vec![], cookies: BTreeSet::new() },
            Answer::Nothing => Said { is: vec![], one_of: vec![], cookies: BTreeSet::new() },
        };
        self.crossed(&mut said, asked);
        if preflight {
            match &self.cors {
                Some(c) => {
                    put(&mut said.is, "access-control-allow-methods", &if c.methods.is_empty() { "*".to_string() } else { c.methods.join(", ") });
                    if !c.headers.is_empty() {
                        put(&mut said.is, "access-control-allow-headers", &c.headers.join(", "));
                    }
                    if let Some(n) = c.age {
                        put(&mut said.is, "access-control-max-age", &n.to_string());
                    }
                }
                None => {
                    put(&mut said.is, "access-control-allow-methods", "GET, POST, OPTIONS");
                    put(&mut said.is, "access-control-allow-headers", "*");
                }
            }
        } else if let Some(c) = &self.cors {
            put(&mut said.is, "access-control-expose-headers", &c.expose.join(", "));
        }
        said
    }
}
fn headers_are(got: &[(String, String)], mut said: Said) -> Result<(), String> {
    let mut rest: Vec<(String, String)> = got.to_vec();
    for (n, vs) in &said.one_of {
        let found: Vec<String> = rest.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect();
        rest.retain(|(k, _)| k != n);
        match found.as_slice() {
            [v] if vs.contains(v) => {}
            _ => return Err(format!("{n}: {found:?}, the property wants one of {vs:?}")),
        }
    }
    let found: Vec<String> = rest.iter().filter(|(k, _)| k == "set-cookie").flat_map(|(_, v)| v.split("; ").map(|s| s.to_string()).collect::<Vec<_>>()).collect();
    rest.retain(|(k, _)| k != "set-cookie");
    let (mut a, b): (Vec<String>, Vec<String>) = (found, said.cookies.iter().cloned().collect());
    a.sort();
    a.dedup();
    same("cookies", a, b)?;
    rest.sort();
    said.is.sort();
    same("headers", rest, said.is)
}

const NASTY: &[&str] = &["", "a", "é", "😀", "\u{301}x", "\u{200b}", "\u{7f}", "/api", "a/api/b", "{}", "#", "%25", "'", "x\ty", "\\\\", "\\\"", "\\u00e9", "\\n", "$", "[1]"];
fn nasty(r: &mut Rng) -> String {
    (0..r.below(4)).map(|_| *r.pick(NASTY)).collect()
}
/// what a string written in a query is
fn unescaped(t: &str) -> String {
    serde_json::from_str(&format!("\"{}\"", t.replace('\t', "\\t"))).unwrap()
}
fn percent(t: &str) -> String {
    t.bytes().map(|b| if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let iters: usize = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(200);
    let mut a = Audit::start("an address is asked of a server with its own headers, routes and CORS rules, over upstreams that say things of their answers");
    let mut r = Rng::new(seed);
    let rt = rt();
    for _ in 0..iters {
        let rules = Rules::gen(&mut r);
        let ups: Vec<Up> = (0..4).map(|_| Up::gen(&mut r)).collect();
        let mut ups = ups;
        ups[3].status = 200;
        let served = ups.clone();
        let mut setup = Setup::new(
            SDL,
            Arc::new(move |s: &Seen| {
                let path = s.path();
                let i = match path.as_str() {
                    "/f0" => 0,
                    "/f1" => 1,
                    "/f2" => 2,
                    _ => 3,
                };
                let body = if i == 3 { json!(s.pairs().into_iter().collect::<BTreeMap<_, _>>()) } else { json!(format!("f{i}")) };
                Ok((served[i].status, served[i].headers(), body.to_string()))
            }),
        );
        setup.rest = Some(OPS.to_string());
        setup.config = Some(rules.yaml());
        if let Some(c) = &rules.cors {
            let mut c = Cors { credentials: !r.one_in(4), ..c.clone() };
            c.origins.retain(|o| *o != "*");
            if r.one_in(3) {
                let at = r.below(c.origins.len() + 1);
                c.origins.insert(at, "*");
            }
            c.methods = r.pick(&[vec!["POST"], vec!["POST", "GET"], vec!["POST"], vec![]]).clone();
            c.headers = r.pick(&[vec![], vec!["x-y"], vec!["x-y", "x-z"], vec!["*"]]).clone();
            c.expose = r.pick(&[vec![], vec!["x-one"], vec!["*"]]).clone();
            let wild = c.origins.contains(&"*") || c.methods.is_empty() || c.headers == ["*"] || c.expose == ["*"];
            let mut sayable = true;
            if r.one_in(6) {
                sayable = false;
                match r.below(4) {
                    0 => c.origins.push("a\nb"),
                    1 => c.headers = vec!["x-y", "\n"],
                    2 => c.expose = vec!["\n", "x-y"],
                    _ => c.vary = Some(vec!["origin", "\n"]),
                }
            }
            let fine = sayable && !(c.credentials && wild);
            let other = Rules { cors: Some(c), ..rules.clone() };
            let mut setup = setup.clone();
            setup.config = Some(other.yaml());
            a.case("rules that are taken or refused", true, || other.yaml(), || same("taken", setup.start().map(|_| ()).is_ok(), fine));
        }
        let srv = match setup.start() {
            Ok(s) => s,
            Err(e) => {
                a.case("a server starts", true, || rules.yaml(), || Err(e));
                continue;
            }
        };
        for _ in 0..12 {
            let mut headers: Vec<(String, String)> = vec![];
            if r.flip() {
                headers.push(("origin".into(), r.pick(ORIGINS).to_string()));
            }
            if r.one_in(3) {
                headers.push(("access-control-request-private-network".into(), r.pick(&["true", "false"]).to_string()));
            }
            let n = r.below(900) as i64;
            let echo = |a: Option<i64>, s: Option<&str>| {
json!({"a": a.map(|n| n.to_string()).unwrap_or_default(), "s": s.unwrap_or_default()})
            };
            let text = nasty(&mut r);
            let (mut method, path, body, mut answer, key): (&str, String, String, Answer, &str) = match r.below(16) {
                0 => ("GET", format!("/api/item/{n}"), String::new(), Answer::RestEcho(echo(Some(n), None)), "an endpoint by its path"),
                1 => ("GET", format!("/api/api/{n}?s={}", percent(&text)), String::new(), Answer::RestEcho(echo(Some(n), Some(&text))), "an endpoint by its path and query"),
                2 => ("GET", format!("/api/x/api/y?s={}", percent(&text)), String::new(), Answer::RestEcho(echo(None, Some(&text))), "an endpoint by its path and query"),
                3 => ("POST", "/api/put".into(), json!(text).to_string(), Answer::RestEcho(echo(None, Some(&text))), "an endpoint with a body"),
                4 => ("GET", "/api/all".into(), String::new(), Answer::RestData(vec![0, 1, 2]), "an endpoint by its path"),
                5 => {
                    let p = r.pick(&["/api", "/apiary", "/apix/item/3", "/item/3", "/api/api/item/3", "/api/item/3/api", "/api/x/y", "/", "/status/", "/graphql/x", "/showcase/graphql", "/apiapi/item/3"]).to_string();
                    (if r.flip() { "GET" } else { "POST" }, p, query("{ f0 }", None, None), Answer::Nothing, "an address of nothing")
                }
                6 => ("GET", rules.status().to_string(), String::new(), Answer::Ready, "the status"),
                7 => (*r.pick(&["PUT", "DELETE", "HEAD"]), r.pick(&[rules.status(), rules.graphql()]).to_string(), String::new(), Answer::Nothing, "an address of nothing"),
                8 | 9 => {
                    headers.push(("content-type".into(), "application/graphql".into()));
                    let q = format!("{{ g(a: {n}, s: \"{}\") }}", text.replace('\t', " "));
                    let said = unescaped(&text.replace('\t', " "));
                    let body = if r.flip() { json!(q).to_string() } else { q };
                    ("POST", rules.graphql().to_string(), body, Answer::Echo(echo(Some(n), Some(&said))), "a query as text")
                }
                10 => ("POST", rules.graphql().to_string(), r.pick(&["", "{", "\"a\"", "null"]).to_string(), Answer::Refused, "not a query"),
                11 => {
                    let fs = vec![0, 1, 2];
                    let bad = r.one_in(3);
                    let mut qs: Vec<Value> = fs.iter().map(|i| json!({"query": format!("{{ f{i} }}")})).collect();
                    if bad {
                        qs.insert(r.below(4), json!({"query": "{ f0 "}));
                    }
                    ("POST", rules.graphql().to_string(), Value::Array(qs).to_string(), Answer::Batch(fs, bad), "several queries")
                }
                _ => {
                    let fs: Vec<usize> = loop {
                        let fs: Vec<usize> = (0..3).filter(|_| r.flip()).collect();
                        if !fs.is_empty() {
                            break fs;
                        }
                    };
                    let q = format!("{{ {} }}", fs.iter().map(|i| format!("f{i}")).collect::<Vec<_>>().join(" "));
                    ("POST", rules.graphql().to_string(), query(&q, None, None), Answer::Data(fs), "a query")
                }
            };
            let mut key = key;
            // what is at an address depends on nothing but the routes
            if matches!(answer, Answer::Nothing) {
                if method == "POST" && path == rules.graphql() {
                    answer = Answer::Data(vec![0]);
                    key = "a query";
                } else if method == "GET" && path == rules.status() {
                    answer = Answer::Ready;
                    key = "the status";
                }
            }
            if r.one_in(6) {
                method = "OPTIONS";
            }
            let playground = rules.cors.is_none() && headers.iter().any(|(k, v)| k == "origin" && (v == "https://tailcall.run" || v == "http://tailcall.run"));
            let preflight = method == "OPTIONS" && (rules.cors.is_some() || playground);
            if method == "OPTIONS" {
                key = if preflight { "a preflight request" } else { "an address of nothing" };
                answer = Answer::Nothing;
            }
            if matches!(answer, Answer::RestData(_) | Answer::RestEcho(_)) && method != "OPTIONS" && !path.starts_with("/api/") {
                unreachable!();
            }
            let ask = Ask { method: method.into(), uri: format!("http://localhost:8000{path}"), headers: headers.clone(), body };
            srv.log.lock().unwrap().clear();
            a.case(
                key,
                true,
                || format!("{ask:?}\n{}\n{ups:?}", rules.yaml()),
                || {
                    let got = rt.block_on(srv.ask(&ask))?;
                    let said = rules.expect(&answer, &ups, preflight, &headers);
                    let data = |fs: &[usize]| Value::Object(fs.iter().map(|i| (format!("f{i}"), json!(format!("f{i}")))).collect());
                    match &answer {
                        _ if preflight => {
                            same("status", got.status, 200)?;
                            same("body", got.body.as_str(), "")?;
                        }
                        Answer::Nothing => {
                            same("status", got.status, 404)?;
                            same("body", got.body.as_str(), "")?;
                            same("requests", srv.log.lock().unwrap().len(), 0)?;
                        }
                        Answer::Ready => {
                            same("status", got.status, 200)?;
                            same("body", got.json(), json!({"message": "ready"}))?;
                        }
                        Answer::Refused => {
                            same("status", got.status, 200)?;
                            if got.json().get("errors").and_then(|e| e.as_array()).is_none_or(|e| e.is_empty()) {
                                return Err(format!("no errors: {}", got.body));
                            }
                        }
                        Answer::Echo(v) => {
                            same("status", got.status, 200)?;
                            same("body", got.json(), json!({"data": {"g": v}}))?;
                        }
                        Answer::RestEcho(v) => {
                            same("status", got.status, 200)?;
                            same("body", &got.json(), v)?;
                        }
                        Answer::Batch(fs, bad) => {
                            same("status", got.status, 200)?;
                            let all = got.json();
                            let all = all.as_array().ok_or(format!("no list: {}", got.body))?;
                            let fine: Vec<Value> = all.iter().filter(|v| v.get("errors").is_none()).cloned().collect();
                            same("answers", all.len(), fs.len() + *bad as usize)?;
                            same("body", fine, fs.iter().map(|i| json!({"data": data(&[*i])})).collect())?;
                        }
                        Answer::Data(fs) => {
                            same("status", got.status, 200)?;
                            same("body", got.json(), json!({"data": data(fs)}))?;
                        }
                        Answer::RestData(fs) => {
                            same("status", got.status, 200)?;
                            same("body", got.json(), data(fs))?;
                        }
                    }
                    headers_are(&got.headers, said)
                },
            );
        }
    }
    // a body that isn't text
    let srv = Setup::new(SDL, Arc::new(|_: &Seen| Ok((200, vec![], "1".into())))).start().unwrap();
    for ct in ["application/json", "application/graphql"] {
        a.case("not a query", true, || format!("{ct}: bytes that are no text"), || {
            let req = http::Request::builder().method("POST").uri("http://localhost:8000/graphql").header("content-type", ct).body(hyper::Body::from(vec![0xffu8, 0xfe, b'{'])).unwrap();
            let res = rt.block_on(tailcall::core::http::handle_request::<tailcall::core::async_graphql_hyper::GraphQLRequest>(req, srv.ctx.clone())).map_err(|e| e.to_string())?;
            same("status", res.status().as_u16(), 200)
        });
    }
    a.finish()
}
