//! C29: what a running server answers depends only on the request, not on the
//! requests it answered before or answers at the same time.
#[path = "../e2e.rs"]
mod e2e;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use e2e::*;
use serde_json::json;
use tailcall_hasher::TailcallHasher;
use tcv::*;

fn digest(s: &Seen) -> String {
    format!("{} {} {:?} {}", s.method, s.url, s.headers, s.body.replace(['"', '\\'], "'"))
}

/// answers every request by what the request says
fn upstream() -> Arc<Answerer> {
    Arc::new(|s: &Seen| {
        let path = s.path();
        let hs = vec![];
        if path.starts_with("/list") {
            // one item for each id asked for, the same whoever else is asked for
            let all = |name: &str| s.pairs().into_iter().filter(|(k, _)| k == name).map(|(_, v)| v).collect::<Vec<_>>();
            let mut ids = all("id");
            if s.method == "POST" {
                let v: serde_json::Value = serde_json::from_str(&s.body).unwrap_or_default();
                let list = v.as_array().cloned().unwrap_or(vec![v]);
                ids = list.iter().map(|v| v["id"].as_str().unwrap_or("?").to_string()).collect();
            }
            let about = format!("{path} {:?} {:?} {:?} {:?}", all("kind"), s.header("authorization"), s.header("x-a"), s.header("x-c"));
            // nobody has id 0
            ids.retain(|id| id != "0");
            let items: Vec<_> = ids.iter().map(|id| json!({"id": id, "v": format!("{about}: {id}").replace('"', "'")})).collect();
            return Ok((200, hs, json!(items).to_string()));
        }
        if path.starts_with("/obj") || path.starts_with("/b/obj") {
            return Ok((200, hs, json!({"id": path, "v": digest(s)}).to_string()));
        }
        if path.starts_with("/gql") {
            let name = s.body.split('{').nth(2).unwrap_or("").trim();
            let name: String = name.chars().take_while(|c| c.is_alphanumeric()).collect();
            return Ok((200, hs, json!({"data": {name: digest(s)}}).to_string()));
        }
        if path.starts_with("/fail") {
            return Err(format!("down: {}", digest(s)));
        }
        Ok((200, hs, json!(digest(s)).to_string()))
    })
}

fn http(r: &mut Rng, at: &str, nested: bool) -> String {
    let host = *r.pick(&["http://h1", "http://h2"]);
    let arg = if nested { "{{.value.id}}" } else { "{{.args.id}}" };
    let path = match r.below(6) {
        0 => at.to_string(),
        1 => format!("{at}/x"),
        2 => format!("{at}/{{{{.env.V}}}}"),
        3 if r.one_in(4) && !at.starts_with("/b") => "/fail".to_string(),
        _ => format!("{at}/{arg}"),
    };
    let mut o = vec![format!("url: \"{host}{path}\"")];
    if r.one_in(3) {
        o.push(format!("query: [{{key: \"k\", value: \"{arg}\"}}]"));
    }
    if r.one_in(4) {
        o.push(format!("headers: [{{key: \"{}\", value: \"{}\"}}]", r.pick(&["x-c", "x-d"]), r.pick(&["1", "2", arg, "{{.headers.authorization}}"])));
    }
    if r.one_in(5) {
        o.push(format!("method: POST, body: \"{}\"", r.pick(&["b", arg])));
    }
    if r.flip() {
        o.push("dedupe: true".into());
    }
    format!("@http({})", o.join(", "))
}
fn gql(r: &mut Rng, nested: bool) -> String {
    let arg = if nested { "{{.value.id}}" } else { "{{.args.id}}" };
    let mut o = vec![format!("url: \"{}/gql\", name: \"{}\"", r.pick(&["http://h1", "http://h2"]), r.pick(&["q", "p"]))];
    if r.flip() {
        o.push(format!("args: [{{key: \"a\", value: \"{}\"}}]", r.pick(&["1", arg])));
    }
    if r.one_in(3) {
        o.push(format!("headers: [{{key: \"x-c\", value: \"{}\"}}]", r.pick(&["1", "2", "{{.headers.authorization}}"])));
    }
    if r.flip() {
        o.push("dedupe: true".into());
    }
    format!("@graphQL({})", o.join(", "))
}
fn expr(r: &mut Rng, nested: bool) -> String {
    let v = match r.below(7) {
        0 | 1 | 2 => r.pick(&["one", "two", ""]).to_string(),
        3 => "{{.headers.authorization}}".into(),
        4 => "{{.env.V}}".into(),
        _ => if nested { "{{.value.id}}".into() } else { "{{.args.id}}".into() },
    };
    format!("@expr(body: \"{v}\")")
}

#[derive(Clone)]
struct World {
    setup: Setup,
    fields: Vec<String>,
    objects: Vec<String>,
    lists: Vec<String>,
    /// nothing says that calls may be shared
    no_sharing: bool,
}

fn world(r: &mut Rng) -> World {
    let (mut q, mut fields, mut objects, mut lists) = (String::new(), vec![], vec![], vec![]);
    let mode = r.below(5);
    let protect = mode == 0;
    let one = |r: &mut Rng, nested: bool| {
        let mut s = match (mode, r.below(6)) {
            (0 | 1, 0..=4) => expr(r, nested),
            (_, 0) => expr(r, nested),
            (_, 1 | 2) => gql(r, nested),
            _ => http(r, if mode == 4 { "/b" } else { "/s" }, nested),
        };
        if !s.starts_with("@expr") && r.one_in(3) {
            s.push_str(" @cache(maxAge: 100000)");
        }
        if protect && r.one_in(2) {
            s.push_str(" @protected");
        }
        s
    };
    for i in 0..1 + r.below(4) {
        q.push_str(&format!("  f{i}(id: String!): String {}\n", one(r, false)));
        fields.push(format!("f{i}"));
    }
    let mut types = String::new();
    for i in 0..r.below(3) {
        let how = match r.below(3) {
            0 => "@expr(body: {id: \"e\", v: \"w\"})".to_string(),
            1 => format!("{} @cache(maxAge: 100000)", http(r, if mode == 4 { "/b/obj" } else { "/obj" }, false)),
            _ => http(r, if mode == 4 { "/b/obj" } else { "/obj" }, false),
        };
        q.push_str(&format!("  o{i}(id: String!): O{i} {how}\n"));
        types.push_str(&format!("type O{i} {{\n  id: String!\n  v: String\n  n: String {}\n  m: String {}\n}}\n", one(r, true), one(r, true)));
        objects.push(format!("o{i}"));
    }
    let mut batch = String::new();
    if mode == 4 {
        batch = format!(", batch: {{delay: 1, maxSize: {}, headers: [\"authorization\", \"x-a\", \"x-c\", \"x-d\"]}}", r.pick(&[10, 2]));
        q.push_str("  us: [U] @expr(body: [{id: \"1\", k: \"1\"}, {id: \"2\", k: \"1\"}, {id: \"1\", k: \"2\"}, {id: \"0\", k: \"2\"}])\n");
        lists.push("us".into());
        let list = |r: &mut Rng, key: bool| {
            let path = r.pick(&["/list", "/list", "/list/{{.args.kind}}", "/list/{{.value.k}}"]);
            let mut query = vec![];
            let mut o = vec![];
            if r.one_in(3) {
                o.push("method: POST, body: \"{\\\"id\\\": \\\"{{.value.id}}\\\"}\"".to_string());
            } else {
                query.push("{key: \"id\", value: \"{{.value.id}}\"}".to_string());
            }
            if query.len() == 1 && r.one_in(2) {
                let kind = r.pick(&["{{.args.kind}}", "{{.value.k}}", "{{.headers.x-a}}"]);
                // the first parameter that is not constant is the batched one
                let at = if key { 1 } else { r.below(2) as usize };
                query.insert(at, format!("{{key: \"kind\", value: \"{kind}\"}}"));
            }
            if r.one_in(3) {
                o.push(format!("headers: [{{key: \"x-c\", value: \"{}\"}}]", r.pick(&["1", "{{.args.kind}}", "{{.value.k}}"])));
            }
            if !query.is_empty() { o.push(format!("query: [{}]", query.join(", "))) }
            if key { o.push("batchKey: [\"id\"]".into()) }
            let mut s = format!("@http(url: \"http://h1{path}\", {}", o.join(", "));
            if r.flip() { s.push_str(", dedupe: true") }
            s.push(')');
            if r.flip() { s.push_str(" @cache(maxAge: 100000)") }
            s
        };
        types.push_str(&format!("type P {{ id: String v: String }}\ntype U {{\n  id: String!\n  k: String!\n  one(kind: String!): P {}\n  many(kind: String!): [P] {}\n  raw(kind: String!): [P] {}\n}}\n", list(r, true), list(r, true), list(r, false)));
    }
    let sdl = format!("schema @server(port: 8000) @upstream(allowedHeaders: [\"authorization\", \"x-a\"]{batch}) {{ query: Query }}\ntype Query {{\n{q}}}\n{types}");
    let mut setup = Setup::new(sdl.clone(), upstream());
    setup.env.insert("V".into(), "v1".into());
    if protect {
        setup.htpasswd.push((None, "u1:p1\nu2:p2".into()));
    }
    World { setup, fields, objects, lists, no_sharing: !sdl.contains("dedupe") && !sdl.contains("@cache") && batch.is_empty() }
}

fn selection(r: &mut Rng, w: &World) -> String {
    let mut out = vec![];
    let mut n = 0;
    let mut name = |r: &mut Rng, f: &str| {
        n += 1;
        let alias = format!("a{n}: {f}");
        let dir = match r.below(5) {
            0 => " @include(if: $v)",
            1 => " @skip(if: $v)",
            _ => "",
        };
        (alias, dir)
    };
    let arg = |r: &mut Rng| match r.below(4) {
        0 => "(id: $id)".to_string(),
        _ => format!("(id: \"{}\")", r.pick(&["1", "2", "xyz00z", "xyz08e"])),
    };
    for _ in 0..1 + r.below(3) {
        let k = r.below(6);
        if k >= 4 && !w.objects.is_empty() {
            let f = r.pick(&w.objects).clone();
            let (a, d) = name(r, &f);
            out.push(format!("{a}{}{d} {{ {} }}", arg(r), r.pick(&["id v n", "n m", "id m", "v"])));
        } else if k >= 3 && !w.lists.is_empty() {
            let f = r.pick(&w.lists).clone();
            let (a, d) = name(r, &f);
            let mut sel: Vec<String> = vec!["id".into()];
            for x in ["one", "many", "raw"] {
                for k in ["1", "2"] {
                    if r.one_in(2) { sel.push(format!("{x}{k}: {x}(kind: \"{}\") {{ id v }}", r.pick(&[k, "1"]))) }
                }
            }
            if r.flip() { sel.reverse() }
            out.push(format!("{a}{d} {{ {} }}", sel.join(" ")));
        } else {
            let f = r.pick(&w.fields).clone();
            let (a, d) = name(r, &f);
            out.push(format!("{a}{}{d}", arg(r)));
        }
    }
    out.join(" ")
}
fn doc(r: &mut Rng, w: &World) -> (String, Vec<Option<&'static str>>) {
    let vars = |s: &str| match (s.contains("$v"), s.contains("$id")) {
        (true, true) => "($v: Boolean!, $id: String!)",
        (true, false) => "($v: Boolean!)",
        (false, true) => "($id: String!)",
        _ => "",
    };
    if r.flip() {
        let s = selection(r, w);
        (format!("query {} {{ {s} }}", vars(&s)), vec![None])
    } else {
        let (s, t) = (selection(r, w), selection(r, w));
        (format!("query A{} {{ {s} }} query B{} {{ {t} }}", vars(&s), vars(&t)), vec![Some("A"), Some("B")])
    }
}
fn asks(r: &mut Rng, w: &World) -> Vec<Ask> {
    let docs: Vec<_> = (0..1 + r.below(2)).map(|_| doc(r, w)).collect();
    let one = |r: &mut Rng| {
        let (d, ops) = r.pick(&docs).clone();
        let op = *r.pick(&ops);
        let vars = match r.below(5) {
            0 if !d.contains('$') => None,
            1 if !d.contains("$id") => Some(json!({"v": r.flip()})),
            _ => Some(json!({"v": r.flip(), "id": r.pick(&["1", "2", "xyz00z", "xyz08e"])})),
        };
        query(&d, op, vars)
    };
    let n = 2 + r.below(5);
    let mut out: Vec<Ask> = vec![];
    for _ in 0..n {
        let mut hs = vec![];
        if let Some(p) = r.pick(&[None, Some("u1:p1"), Some("u2:p2"), Some("u1:p2")]) {
            let v = match *p { "u1:p1" => "dTE6cDE=", "u2:p2" => "dTI6cDI=", _ => "dTE6cDI=" };
            hs.push(("authorization".to_string(), format!("Basic {v}")));
        }
        if r.one_in(4) {
            hs.push(("x-a".to_string(), r.pick(&["1", "2"]).to_string()));
        }
        if r.one_in(4) {
            hs.push(("x-b".to_string(), r.pick(&["1", "2"]).to_string()));
        }
        hs.push(("content-type".into(), "application/json".into()));
        let body = if r.one_in(6) { format!("[{}, {}]", one(r), one(r)) } else { one(r) };
        // the same once more, or the same by somebody else
        match (out.last().cloned(), r.below(4)) {
            (Some(l), 0) => out.push(l),
            (Some(l), 1) => out.push(post(l.body, hs)),
            _ => out.push(post(body, hs)),
        }
    }
    out
}

/// a batch is answered like its requests
fn alone(s: &Setup, a: &Ask) -> Result<(Got, usize), String> {
    if let Ok(serde_json::Value::Array(parts)) = serde_json::from_str(&a.body) {
        let parts: Vec<_> = parts.iter().map(|p| single(s, &post(p.to_string(), a.headers.clone()))).collect::<Result<_, _>>()?;
        let body = format!("[{}]", parts.iter().map(|p| p.0.body.clone()).collect::<Vec<_>>().join(","));
        return Ok((Got { body, ..parts[0].0.clone() }, parts.iter().map(|p| p.1).sum()));
    }
    single(s, a)
}
fn single(s: &Setup, a: &Ask) -> Result<(Got, usize), String> {
    let srv = s.start()?;
    let got = rt().block_on(srv.ask(a))?;
    let n = srv.log.lock().unwrap().len();
    Ok((got, n))
}

fn main() {
    let mut a = Audit::start("servers with random resolvers (constant, of headers, variables and the environment, http and graphql upstreams with and without cache, dedupe and batching, protected or not) answering series of requests that repeat, differ in user, variables or operation, one after another and all at once, against each request's answer from a server of its own; and texts that are near one another for the key that keeps them apart; nontrivial: a request of the series repeats the document of an earlier one");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    for _ in 0..n {
        let w = world(&mut r);
        let seq = asks(&mut r, &w);
        let input = || format!("{}\n{}", w.setup.sdl, seq.iter().map(|q| format!("{:?} {}", q.headers, q.body)).collect::<Vec<_>>().join("\n"));
        let want: Result<Vec<_>, String> = seq.iter().map(|q| alone(&w.setup, q)).collect();
        let want = match want {
            Ok(w) => w,
            Err(e) => {
                a.case("servers start", false, input, || Err(e.clone()));
                continue;
            }
        };
        let nontrivial = seq.iter().enumerate().any(|(i, q)| seq[..i].iter().any(|p| p.body == q.body));
        a.case("after other requests", nontrivial, input, || {
            let srv = w.setup.start()?;
            rt().block_on(async {
                for (i, q) in seq.iter().enumerate() {
                    let got = srv.ask(q).await?;
                    same(&format!("answer {i}"), got, want[i].0.clone())?;
                }
                Ok::<(), String>(())
            })?;
            if w.no_sharing {
                let calls = srv.log.lock().unwrap().len();
                same("upstream calls", calls, want.iter().map(|w| w.1).sum::<usize>())?;
            }
            Ok(())
        });
        a.case("besides other requests", nontrivial, input, || {
            let srv = w.setup.start()?;
            rt().block_on(async {
                let all = futures_util::future::join_all(seq.iter().map(|q| srv.ask(q))).await;
                for (i, got) in all.into_iter().enumerate() {
                    let got = got?;
                    same(&format!("answer {i}"), (got.status, got.body), (want[i].0.status, want[i].0.body.clone()))?;
                }
                Ok::<(), String>(())
            })?;
            if w.no_sharing {
                let calls = srv.log.lock().unwrap().len();
                same("upstream calls", calls, want.iter().map(|w| w.1).sum::<usize>())?;
            }
            Ok(())
        });
    }
    for _ in 0..n / 10 {
        let delay = r.pick(&[0, 1, 5]);
        let method = r.pick(&[", method: POST, body: \"{{.args.n}}\"", ", query: [{key: \"n\", value: \"{{.args.n}}\"}]", ""]);
        let dedupe = r.pick(&["", ", dedupe: true"]);
        let sdl = format!("schema @server(port: 8000) @upstream(batch: {{delay: {delay}, maxSize: 100}}) {{ query: Query mutation: Mutation }}\ntype Query {{ q: Int @http(url: \"http://u/q\") }}\ntype Mutation {{ add(n: Int): Int @http(url: \"http://u/add\"{method}{dedupe}) }}");
        let setup = Setup::new(sdl.clone(), Arc::new(|_: &Seen| Ok((200, vec![], "1".into()))));
        let docs: Vec<String> = (0..1 + r.below(3)).map(|_| format!("mutation {{ {} }}", (0..1 + r.below(3)).map(|i| format!("a{i}: add(n: {})", r.below(2))).collect::<Vec<_>>().join(" "))).collect();
        let want: usize = docs.iter().map(|d| d.matches("add(").count()).sum();
        a.case("mutations call as often as they are asked to", want > 1, || format!("{sdl}\n{}", docs.join("\n")), || {
            let srv = setup.start()?;
            let all: Vec<Ask> = docs.iter().map(|d| post(query(d, None, None), vec![])).collect();
            rt().block_on(futures_util::future::join_all(all.iter().map(|q| srv.ask(q)))).into_iter().collect::<Result<Vec<_>, _>>()?;
            let calls = srv.log.lock().unwrap().len();
            same("upstream calls", calls, want)
        });
    }
    for _ in 0..n {
        let t = tcv::json::text(&mut r);
        let pre = "a".repeat(r.below(9) as usize);
        let s: String = (0..3).map(|_| *r.pick(&['0', '1', '8', '9', 'a', 'b', 'x', 'y', 'z', 'A', 'B', 'Z'])).collect();
        let mut u: String = s.chars().rev().collect();
        if r.flip() {
            u = (0..3).map(|_| *r.pick(&['0', '1', '8', '9', 'a', 'b', 'x', 'y', 'z', 'A', 'B', 'Z'])).collect();
        }
        let (x, y) = (format!("{t}{pre}{s}"), format!("{t}{pre}{u}"));
        a.case("key of texts", x != y, || format!("{x:?} and {y:?}"), || {
            let h = |s: &str| {
                let mut h = TailcallHasher::default();
                s.hash(&mut h);
                h.finish()
            };
            same("same key", h(&x) == h(&y), x == y)
        });
    }
    a.finish();
}
