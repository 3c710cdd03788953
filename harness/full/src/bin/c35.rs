//! C35: the requests that upstreams get: method, address, query, headers and body of an `@http`
//! are what the configuration says, with what its templates speak of filled in.
#[path = "../e2e.rs"]
mod e2e;
use std::collections::BTreeMap;
use std::sync::Arc;

use e2e::*;
use serde_json::{json, Map, Value};
use tcv::*;

#[derive(Clone, Debug)]
enum Piece {
    Lit(String),
    Path(Vec<&'static str>),
}
type Tpl = Vec<Piece>;
fn shown(t: &Tpl) -> String {
    t.iter()
        .map(|p| match p {
            Piece::Lit(s) => s.clone(),
            Piece::Path(p) => format!("{{{{.{}}}}}", p.join(".")),
        })
        .collect()
}
#[derive(Clone, Debug)]
struct Query {
    key: String,
    value: Tpl,
    skip: Option<bool>,
}
#[derive(Clone, Debug)]
struct Ask35 {
    method: &'static str,
    base: Tpl,
    query: Vec<Query>,
    headers: Vec<(&'static str, Tpl)>,
    body: Option<Tpl>,
    form: bool,
}
/// what can be spoken of
struct Around {
    args: Map<String, Value>,
    parent: Option<Value>,
    passed: BTreeMap<String, String>,
    vars: BTreeMap<String, String>,
    env: BTreeMap<String, String>,
}
enum Found {
    Value(Value),
    Text(String),
}
fn at(v: &Value, p: &[&str]) -> Option<Value> {
    let mut v = v;
    for k in p {
        v = v.as_object()?.get(*k)?;
    }
    Some(v.clone())
}
impl Around {
    fn find(&self, p: &[&str]) -> Option<Found> {
        Some(match p[0] {
            "args" => Found::Value(at(&Value::Object(self.args.clone()), &p[1..])?),
            "value" => Found::Value(at(self.parent.as_ref()?, &p[1..])?),
            "headers" => Found::Text(self.passed.get(p[1])?.clone()),
            "vars" => Found::Text(self.vars.get(p[1])?.clone()),
            "env" => Found::Text(self.env.get(p[1])?.clone()),
            _ => return None,
        })
    }
    fn fill(&self, t: &Tpl) -> String {
        t.iter()
            .map(|p| match p {
                Piece::Lit(s) => s.clone(),
                Piece::Path(p) => match self.find(p) {
                    Some(Found::Text(t)) => t,
                    Some(Found::Value(Value::String(s))) => s,
                    Some(Found::Value(Value::Null)) | None => String::new(),
                    Some(Found::Value(v)) => v.to_string(),
                },
            })
            .collect()
    }
    /// what a server reads of a parameter
    fn sent(&self, q: &Query) -> Vec<(String, String)> {
        fn of(k: &str, v: &Value) -> Vec<(String, String)> {
            let one = |s: String| vec![(k.to_string(), s)];
            match v {
                Value::String(s) => one(s.clone()),
                Value::Number(n) => one(n.to_string()),
                Value::Bool(b) => one(b.to_string()),
                Value::Array(l) if !l.is_empty() => l.iter().flat_map(|v| of(k, v)).collect(),
                _ => one(String::new()),
            }
        }
        let found = match q.value.as_slice() {
            [] => None,
            [Piece::Path(p)] => self.find(p),
            t => Some(Found::Text(self.fill(&t.to_vec()))),
        };
        match found {
            None if q.skip == Some(true) => vec![],
            None => vec![(q.key.clone(), String::new())],
            Some(Found::Text(t)) => vec![(q.key.clone(), t)],
            Some(Found::Value(v)) => of(&q.key, &v),
        }
    }
}

const NASTY: &[&str] = &["", "a", "a b", "a&b=c", "&", "=", "#x", "+", "1+1", "%", "%20", "%zz", "é✓", "a\tb", "x\ny", "\"q\"", "a/b?c", "[1]", "\\", ";", "'", "a,b", " ", " x "];
const NAMES: &[&str] = &["one", "x-two", "xthree", "authorization"];
fn lit(r: &mut Rng) -> Piece {
    Piece::Lit(r.pick(&["a", "x y", "p&q", "k=v", "50%", "a+b", "é", "c#d", "-", "/"]).to_string())
}
fn tpl(r: &mut Rng, inner: bool, max: usize, objects: bool) -> Tpl {
    let mut t: Tpl = vec![];
    for _ in 0..1 + r.below(max) {
        if r.one_in(3) && !matches!(t.last(), Some(Piece::Lit(_))) {
            t.push(lit(r));
        } else {
            t.push(Piece::Path(match r.below(if inner { 14 } else { 11 }) {
                0 | 1 => vec!["args", "s"],
                2 => vec!["args", "n"],
                3 => vec!["args", "l"],
                4 => vec!["args", "e"],
                5 => vec!["args", "o", "b"],
                6 => vec!["args", "f"],
                7 if objects => vec!["args", "o"],
                7 => vec!["args", "e"],
                8 => vec!["headers", *r.pick(&["one", "xthree", "authorization"])],
                9 => vec!["vars", "v"],
                10 => vec!["env", *r.pick(&["V", "W"])],
                11 => vec!["value", "k"],
                12 => vec!["value", "l"],
                _ => vec!["value", "m", "z"],
            }));
        }
    }
    t
}
fn js(s: &str) -> String {
    Value::String(s.to_string()).to_string()
}
impl Ask35 {
    fn random(r: &mut Rng, inner: bool, i: usize) -> Self {
        let mut base = vec![Piece::Lit(format!("http://up:81/f{i}"))];
        if r.one_in(3) {
            base.push(Piece::Lit("/".into()));
            base.push(Piece::Path(vec!["args", "n"]));
        }
        if r.one_in(3) {
            base.push(Piece::Lit(r.pick(&["?", "?a=1", "?a=1&b=&c=x%26y%3D%2B", "?k=%25+z&k=2"]).to_string()));
            if r.one_in(4) {
                base.push(Piece::Lit("&t=".into()));
                base.push(Piece::Path(vec!["args", "n"]));
            }
        }
        // literals next to each other are one
        let mut t: Tpl = vec![];
        for p in base {
            match (t.last_mut(), p) {
                (Some(Piece::Lit(a)), Piece::Lit(b)) => a.push_str(&b),
                (_, p) => t.push(p),
            }
        }
        let method = *r.pick(&["GET", "GET", "POST", "PUT", "DELETE", "PATCH"]);
        let query = r.vec(3, |r| Query {
            key: r.pick(&["k", "a", "x y", "p&q", "l[]", "100%", "n+1", "é", "a=b"]).to_string(),
            value: if r.one_in(12) { vec![] } else { tpl(r, inner, 3, false) },
            skip: *r.pick(&[None, Some(false), Some(true)]),
        });
        let headers = r.vec(3, |r| (*r.pick(&["x-own", "x-other", "one", "content-type", "X-Two"]), tpl(r, inner, 2, true)));
        let body = if method != "GET" && !r.one_in(4) {
            Some(match r.below(3) {
                0 => vec![Piece::Path(vec!["args", "o"])],
                n => {
                    let mut t = vec![];
                    for i in 0..n {
                        t.push(Piece::Lit(format!("{}\"k{i}\":\"", if i == 0 { "{" } else { "\"," })));
                        let p: Vec<&'static str> = match r.below(4) {
                            0 => vec!["args", "s"],
                            1 => vec!["args", "n"],
                            2 => vec!["vars", "v"],
                            _ => vec!["args", "l"],
                        };
                        t.push(Piece::Path(p));
                    }
                    t.push(Piece::Lit("\"}".into()));
                    t
                }
            })
        } else {
            None
        };
        Ask35 { method, base: t, query, headers, body, form: r.one_in(3) }
    }
    fn sdl(&self) -> String {
        let q = self.query.iter().map(|q| format!("{{key: {}, value: {}{}}}", js(&q.key), js(&shown(&q.value)), q.skip.map(|b| format!(", skipEmpty: {b}")).unwrap_or_default())).collect::<Vec<_>>().join(", ");
        let h = self.headers.iter().map(|(k, v)| format!("{{key: {}, value: {}}}", js(k), js(&shown(v)))).collect::<Vec<_>>().join(", ");
        let mut s = format!("@http(url: {}, method: {}", js(&shown(&self.base)), self.method);
        if !q.is_empty() {
            s += &format!(", query: [{q}]");
        }
        if !h.is_empty() {
            s += &format!(", headers: [{h}]");
        }
        if let Some(b) = &self.body {
            let t = shown(b);
            let v = if t.starts_with("{\"") {
                // an object of texts
                let o: Map<String, Value> = serde_json::from_str(&t).unwrap();
                format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", "))
            } else {
                js(&t)
            };
            s += &format!(", body: {v}");
        }
        if self.form {
            s += ", encoding: ApplicationXWwwFormUrlencoded";
        }
        s + ")"
    }
    fn url(&self, c: &Around) -> Option<(url::Url, Vec<(String, String)>)> {
        let u = url::Url::parse(&c.fill(&self.base)).ok()?;
        let base: Vec<(String, String)> = u.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect();
        if self.query.is_empty() && self.base.iter().all(|p| matches!(p, Piece::Lit(_))) {
            return Some((u, base));
        }
        let mut pairs: Vec<_> = base.into_iter().filter(|p| !p.1.is_empty()).collect();
        pairs.extend(self.query.iter().flat_map(|q| c.sent(q)));
        Some((u, pairs))
    }
    fn head(&self, c: &Around) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        for (k, v) in &self.headers {
            let t = c.fill(v);
            if t.bytes().all(|b| b == b'\t' || (b >= 32 && b != 127)) {
                m.insert(k.to_lowercase(), t);
            }
        }
        if self.method != "GET" {
            m.insert("content-type".into(), if self.form { "application/x-www-form-urlencoded" } else { "application/json" }.into());
        }
        m.extend(c.passed.clone());
        m
    }
    fn payload(&self, c: &Around) -> Option<String> {
        let Some(b) = &self.body else { return Some(String::new()) };
        let t = c.fill(b);
        if !self.form {
            return Some(t);
        }
        match serde_json::from_str::<Value>(&t) {
            Err(_) => Some(t),
            // a form has plain values only
            Ok(Value::Object(o)) => {
                let mut f = url::form_urlencoded::Serializer::new(String::new());
                for (k, v) in &o {
                    match v {
                        Value::String(s) => f.append_pair(k, s),
                        Value::Number(n) => f.append_pair(k, &n.to_string()),
                        Value::Bool(b) => f.append_pair(k, &b.to_string()),
                        Value::Null => continue,
                        _ => return None,
                    };
                }
                Some(f.finish())
            }
            Ok(Value::Null) => Some(String::new()),
            Ok(_) => None,
        }
    }
}

fn main() {
    let mut a = Audit::start("random @http (methods, addresses with and without a query and expressions, query parameters with and without skipEmpty, headers, JSON bodies and forms) at the root and in an object, with templates of text and of arguments (texts with every character that means something in an address, numbers, booleans, enums, lists, objects, absent), the parent's fields, headers, variables and environment, for clients with any headers of which any are allowed; the method, address, pairs as a server reads them, headers and body that the upstream gets");
    let rt = rt();
    for _ in 0..a.iters {
        let r = &mut a.rng;
        let asks: Vec<(bool, Ask35)> = (0..3).map(|i| { let inner = r.one_in(3); (inner, Ask35::random(r, inner, i)) }).collect();
        let args = "(s: String n: Int! f: Float e: E l: [JSON] o: In t: Boolean)";
        let fields = |inner: bool| asks.iter().enumerate().filter(|(_, x)| x.0 == inner).map(|(i, x)| format!(" f{i}{args}: JSON {}\n", x.1.sdl())).collect::<String>();
        let parent = json!({"k": *r.pick(NASTY), "l": [*r.pick(NASTY), 1, null], "m": {"z": r.flip()}});
        let allowed: Vec<String> = NAMES.iter().filter_map(|n| match r.below(4) { 0 => Some(n.to_uppercase()), 1 => Some(n.to_string()), _ => None }).collect();
        let vars: BTreeMap<String, String> = [("v".to_string(), r.pick(NASTY).to_string())].into();
        let env: BTreeMap<String, String> = [("V".to_string(), r.pick(NASTY).to_string())].into();
        let sdl = format!(
            "schema @server(vars: [{{key: \"v\", value: {}}}]) @upstream(allowedHeaders: [{}]) {{ query: Query }}\nenum E {{ A B }}\ninput In {{ a: Int b: JSON }}\ntype Query {{\n{} x: O @expr(body: {{p: {}}})\n}}\ntype O {{\n{} p: JSON\n k: JSON\n l: JSON\n m: M\n}}\ntype M {{\n z: JSON\n}}\n",
            js(&vars["v"]),
            allowed.iter().map(|n| js(n)).collect::<Vec<_>>().join(", "),
            fields(false),
            js("y"),
            fields(true),
        );
        // the parent is what an upstream answers
        let sdl = sdl.replace("@expr(body: {p: \"y\"})", "@http(url: \"http://up:81/parent\")");
        let given = parent.clone();
        let mut setup = Setup::new(sdl.clone(), Arc::new(move |s: &Seen| Ok((200, vec![], if s.path() == "/parent" { given.to_string() } else { "1".into() }))));
        setup.env = env.clone().into_iter().collect();
        let srv = match setup.start() {
            Ok(s) => s,
            Err(e) => {
                a.case("server starts", true, || sdl.clone(), || Err(e));
                continue;
            }
        };
        for _ in 0..6 {
            let r = &mut a.rng;
            let i = r.below(asks.len());
            let (inner, ask) = &asks[i];
            let mut args = Map::new();
            let mut text = vec![];
            let plain = |r: &mut Rng| -> Value {
                match r.below(6) {
                    0 => json!(r.below(90)),
                    1 => json!(r.flip()),
                    2 => json!(1e30),
                    _ => json!(*r.pick(NASTY)),
                }
            };
            if !r.one_in(4) {
                args.insert("s".into(), json!(*r.pick(NASTY)));
            }
            args.insert("n".into(), json!(r.below(900) as i64 - 5));
            if !r.one_in(4) {
                args.insert("f".into(), json!(*r.pick(&[0.5, 1e30, -2.25, 1e-7])));
            }
            if !r.one_in(4) {
                args.insert("l".into(), if r.one_in(5) { json!([plain(r), [plain(r), plain(r)]]) } else { Value::Array(r.vec(3, plain)) });
            }
            if !r.one_in(4) {
                args.insert("o".into(), if r.flip() { json!({"b": plain(r)}) } else { json!({"a": 1}) });
            }
            for (k, v) in &args {
                let t = if k == "o" { format!("{{{}}}", v.as_object().unwrap().iter().map(|(k, v)| format!("{k}: {v}")).collect::<String>()) } else { v.to_string() };
                text.push(format!("{k}: {t}"));
            }
            if !r.one_in(4) {
                args.insert("e".into(), json!("A"));
                text.push("e: A".into());
            }
            let mut sent: Vec<(String, String)> = vec![];
            for n in NAMES.iter().chain(&["other"]) {
                if r.flip() {
                    sent.push((if r.flip() { n.to_uppercase() } else { n.to_string() }, r.pick(&["", "v", "a b", "1&2=3", "x,y"]).to_string()));
                }
            }
            let passed: BTreeMap<String, String> = sent.iter().filter(|(k, _)| allowed.iter().any(|a| a.eq_ignore_ascii_case(k))).map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
            let around = Around { args, parent: if *inner { Some(parent.clone()) } else { None }, passed, vars: vars.clone(), env: env.clone() };
            let field = format!("f{i}{}", if text.is_empty() { String::new() } else { format!("({})", text.join(", ")) });
            let q = if *inner { format!("{{ x {{ {field} }} }}") } else { format!("{{ {field} }}") };
            srv.log.lock().unwrap().clear();
            let got = rt.block_on(srv.ask(&post(query(&q, None, None), sent.clone())));
            let seen: Vec<Seen> = srv.log.lock().unwrap().iter().filter(|s| s.path() != "/parent").cloned().collect();
            let want = (ask.url(&around), ask.payload(&around));
            a.case(
                if want.0.is_none() || want.1.is_none() { "nothing can be asked" } else if ask.query.is_empty() && ask.body.is_none() { "a plain request" } else { "a request with something in it" },
                true,
                || format!("{q}\n{sent:?}\n{sdl}"),
                || {
                    let got = got?;
                    let (Some((url, pairs)), Some(body)) = want else {
                        return if seen.is_empty() { Ok(()) } else { Err(format!("asked: {seen:?}")) };
                    };
                    let [s] = seen.as_slice() else { return Err(format!("{} requests: {}", seen.len(), got.body)) };
                    let u = url::Url::parse(&s.url).map_err(|e| e.to_string())?;
                    same("method", &s.method, &ask.method.to_string())?;
                    same("scheme", &u.scheme(), &url.scheme())?;
                    same("host", &(u.host_str(), u.port()), &(url.host_str(), url.port()))?;
                    same("path", &u.path(), &url.path())?;
                    same("fragment", &u.fragment(), &url.fragment())?;
                    same(&format!("query ({})", s.url), &s.pairs(), &pairs)?;
                    same("headers", &s.headers.iter().cloned().collect::<BTreeMap<_, _>>(), &ask.head(&around))?;
                    same("body", &s.body, &body)
                },
            );
        }
    }
    a.finish()
}
