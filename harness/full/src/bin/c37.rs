//! C37: what a GraphQL upstream is asked for: the configured operation with the part of the
//! query that is the upstream's to answer, as JSON.
#[path = "../e2e.rs"]
mod e2e;
use std::sync::Arc;

use e2e::*;
use serde_json::{json, Map, Value};
use tcv::*;

const NASTY: &[&str] = &["", "a", "a b", "#x", "é✓", "a\tb", "x\ny", "\"q\"", "\\", "it's", "{{.args.s}}", "{{v0}}", "$v0", "{ a }", "\\\"", ")"];

/// what a GraphQL server reads of a document
fn tokens(q: &str) -> Result<Vec<String>, String> {
    let cs: Vec<char> = q.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < cs.len() {
        let from = i;
        i += 1;
        match cs[from] {
            c if c.is_whitespace() || c == ',' => {}
            '"' => {
                while i < cs.len() && cs[i] != '"' {
                    i += if cs[i] == '\\' { 2 } else { 1 };
                }
                i += 1;
                let text: String = cs.get(from..i).ok_or(format!("no end of a string in {q}"))?.iter().collect();
                out.push(format!("{:?}", serde_json::from_str::<String>(&text).map_err(|e| format!("{text}: {e}"))?));
            }
            c if c.is_alphanumeric() || "_-$.".contains(c) => {
                while i < cs.len() && (cs[i].is_alphanumeric() || "_-+.".contains(cs[i])) {
                    i += 1;
                }
                out.push(cs[from..i].iter().collect());
            }
            c => out.push(c.to_string()),
        }
    }
    Ok(out)
}
/// the argument of a field, as it's written in the query and as it's to be sent
fn argument(r: &mut Rng, name: &str, of: u8, vars: &mut Map<String, Value>) -> (String, String) {
    let (ty, v) = match of {
        b's' => ("String", json!(*r.pick(NASTY))),
        b'n' => ("Int", json!(r.below(90) as i64 - 40)),
        _ => ("[String]", Value::Array((0..r.below(3)).map(|_| json!(*r.pick(NASTY))).collect())),
    };
    if r.flip() {
        let var = format!("v{}", vars.len());
        vars.insert(format!("{var}: {ty}"), v.clone());
        (format!("{name}: ${var}"), format!("{name}: {v}"))
    } else {
        (format!("{name}: {v}"), format!("{name}: {v}"))
    }
}
fn part(r: &mut Rng, depth: usize, vars: &mut Map<String, Value>) -> (String, String) {
    let (mut asked, mut sent) = ("{ a ".to_string(), "{ a ".to_string());
    let mut names = vec!["own", "kept", "both", "safe", "b"];
    if depth < 2 {
        names.push("c");
    }
    for (i, f) in names.iter().enumerate() {
        if r.flip() {
            continue;
        }
        let mut both = vec![];
        if *f == "b" || *f == "c" {
            for of in [b's', b'n', b'l'] {
                if r.one_in(3) {
                    both.push(argument(r, &(of as char).to_string(), of, vars));
                }
            }
            // one with a default in the schema
            if *f == "b" {
                both.push(if r.one_in(3) { argument(r, "o", b's', vars) } else { (String::new(), "o: \"dd\"".to_string()) });
            }
        }
        let list = |l: Vec<String>| if l.is_empty() { String::new() } else { format!("({})", l.join(", ")) };
        let (x, y) = if *f == "c" { part(r, depth + 1, vars) } else { Default::default() };
        let alias = if r.one_in(4) { format!("x{i}: ") } else { String::new() };
        asked.push_str(&format!("{alias}{f}{} {x} ", list(both.iter().map(|b| b.0.clone()).filter(|b| !b.is_empty()).collect())));
        if !["own", "kept", "both"].contains(f) {
            sent.push_str(&format!("{f}{} {y} ", list(both.iter().map(|b| b.1.clone()).collect())));
        }
    }
    (asked + "}", sent + "}")
}
/// what a GraphQL upstream is asked for
fn graphql(a: &mut Audit, rt: &tokio::runtime::Runtime) {
    let r = &mut a.rng;
    let batch = r.one_in(3);
    let sdl = format!(
        "schema @server(port: 8000) @upstream(batch: {{delay: 1, maxSize: 10, headers: []}}) {{ query: Query }}\n\
         type Query {{\n q(s: String n: Int l: [String]): O @graphQL(url: \"http://h1/gql\", name: \"up\", batch: {batch}, args: [{{key: \"t\", value: \"{{{{.args.s}}}}\"}}, {{key: \"m\", value: \"{{{{.args.n}}}}\"}}, {{key: \"k\", value: \"{{{{.args.l}}}}\"}}])\n}}\n\
         type O {{\n a: String\n b(s: String n: Int l: [String] o: String = \"dd\"): String\n c(s: String n: Int l: [String]): O\n own: String @http(url: \"http://h1/own\")\n kept: String @http(url: \"http://h1/own\") @cache(maxAge: 100)\n both: String @http(url: \"http://h1/own\") @expr(body: \"x\")\n safe: String @protected\n}}\n"
    );
    let mut setup = Setup::new(sdl.clone(), Arc::new(move |s: &Seen| {
        let one = json!({"data": {"up": {"a": "x", "c": null}}});
        Ok((200, vec![], if s.path() == "/own" { json!("own") } else if batch { json!([one]) } else { one }.to_string()))
    }));
    setup.htpasswd.push((None, "u:p".into()));
    let srv = match setup.start() {
        Ok(s) => s,
        Err(e) => return a.case("server starts", true, || sdl.clone(), || Err(e)),
    };
    for _ in 0..3 {
        let r = &mut a.rng;
        let mut vars = Map::new();
        let mut both = vec![];
        for (of, to) in [(b's', "t"), (b'n', "m"), (b'l', "k")] {
            if r.one_in(3) {
                let (x, y) = argument(r, &(of as char).to_string(), of, &mut vars);
                both.push((x, y.replacen(of as char, to, 1)));
            }
        }
        let (asked, sent) = part(r, 0, &mut vars);
        let list = |l: Vec<String>| if l.is_empty() { String::new() } else { format!("({})", l.join(", ")) };
        let heads: Vec<String> = vars.keys().map(|k| format!("${k}")).collect();
        let q = format!("query{} {{ q{} {asked} }}", list(heads), list(both.iter().map(|b| b.0.clone()).collect()));
        let want = format!("query {{ up{} {sent} }}", list(both.iter().map(|b| b.1.clone()).collect()));
        let values: Map<String, Value> = vars.iter().map(|(k, v)| (k.split(':').next().unwrap().to_string(), v.clone())).collect();
        srv.log.lock().unwrap().clear();
        let got = rt.block_on(srv.ask(&post(query(&q, None, Some(Value::Object(values.clone()))), vec![("authorization".into(), "Basic dTpw".into())])));
        let seen: Vec<Seen> = srv.log.lock().unwrap().iter().filter(|s| s.path() == "/gql").cloned().collect();
        a.case(
            if values.is_empty() { "a GraphQL upstream" } else { "a GraphQL upstream, with variables" },
            q.contains('('),
            || format!("{q}\n{}\n{sdl}", Value::Object(values.clone())),
            || {
                let got = got?;
                let [s] = seen.as_slice() else { return Err(format!("{} requests: {}", seen.len(), got.body)) };
                let body: Value = serde_json::from_str(&s.body).map_err(|e| format!("not JSON ({e}): {}", s.body))?;
                let body = if batch { body[0].clone() } else { body };
                let text = body["query"].as_str().ok_or(format!("no query in {}", s.body))?;
                same("keys", &body.as_object().map_or(0, |o| o.len()), &1)?;
                same(&format!("query ({text})"), &tokens(text)?, &tokens(&want)?)
            },
        );
    }
}


fn main() {
    let mut a = Audit::start("random queries of objects from a @graphQL upstream, in a batch or not, with aliases, with arguments of every kind at every depth by literals and by variables (texts with every character that means something in JSON or GraphQL), and with fields that have resolvers of their own, cached, merged or protected ones too; the document that the upstream reads");
    let rt = rt();
    for _ in 0..a.iters {
        graphql(&mut a, &rt);
    }
    a.finish()
}
