//! C32: the answer has the shape that the query and the schema say, whatever the upstream
//! sends: every value below its own name, null only where the type allows it.
#[path = "../e2e.rs"]
mod e2e;
#[path = "../gql.rs"]
mod gql;
use std::collections::BTreeSet;
use std::sync::Arc;

use e2e::*;
use gql::*;
use serde_json::{json, Value};
use tcv::*;

fn main() {
    let mut a = Audit::start("random schemas with nested lists, non-null types, enums, checked scalars, interfaces and unions, and upstream answers with nulls, missing keys, wrong enum values and wrong scalars at every place; the answer of an executor written from the GraphQL specification, or the error with the place of the first value that the schema doesn't allow");
    let rt = rt();
    for _ in 0..a.iters {
        let odd = *a.rng.pick(&[0, 6, 12, 25, 60]);
        let s = Schema::random(&mut a.rng, odd);
        let salt = a.rng.u64();
        let up = s.clone();
        let srv = match Setup::new(s.sdl(), Arc::new(move |q: &Seen| Ok((200, vec![], up.upstream(&q.path(), salt).to_string())))).start() {
            Ok(srv) => srv,
            Err(e) => {
                a.case("server starts", true, || s.sdl(), || Err(e));
                continue;
            }
        };
        for _ in 0..8 {
            let frags = a.rng.one_in(4);
            let doc = Gen::new(&s, false, frags).doc(&mut a.rng);
            let text = doc.text();
            let mut want = Exec::new(&s, &doc, salt);
            let out = want.run();
            let got = rt.block_on(srv.ask(&post(query(&text, None, None), vec![])));
            let key = if out.is_ok() { "answer" } else { "error" };
            let nontrivial = out.as_ref().map_or(true, |o| o.text().len() > 4);
            a.case(key, nontrivial, || format!("{text}\nsalt {salt} odd {odd}\n{}", s.sdl()), || {
                let got = got?;
                let v = got.json();
                match out {
                    Ok(o) => {
                        if v.get("errors").is_some() {
                            return Err(format!("got {}, want {}", got.body, o.text()));
                        }
                        if frags {
                            let w: Value = serde_json::from_str(&o.text()).unwrap();
                            same("answer", &v["data"], &w)
                        } else {
                            same("answer", got.body.trim(), format!("{{\"data\":{}}}", o.text()).as_str())
                        }
                    }
                    Err(mut path) => {
                        same("data", &v["data"], &Value::Null)?;
                        let errors = v["errors"].as_array().cloned().unwrap_or_default();
                        same("number of errors", &errors.len(), &1)?;
                        // a list of scalars is checked at once
                        let mut at = errors[0]["path"].as_array().cloned().unwrap_or_default();
                        if frags {
                            return same("has a path", &at.is_empty(), &false);
                        }
                        while path.last().map_or(false, |p| p.is_number()) {
                            path.pop();
                        }
                        while at.last().map_or(false, |p| p.is_number()) {
                            at.pop();
                        }
                        same("path", &json!(at), &json!(path))
                    }
                }
            });
        }
    }
    a.finish();
}
