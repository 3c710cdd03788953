//! C31: exactly the fields that the query selects, whatever fragments and conditions
//! select them, and no request for any other.
#[path = "../e2e.rs"]
mod e2e;
#[path = "../gql.rs"]
mod gql;
use std::collections::BTreeSet;
use std::sync::Arc;

use e2e::*;
use gql::*;
use tcv::*;

fn main() {
    let mut a = Audit::start("random schemas with interfaces and unions, queries with aliases, repeated names, inline and named fragments in each other and @skip/@include by constants and variables, asked from the running server; the answer of an executor written from the GraphQL specification, the requests it makes");
    let rt = rt();
    for n in 0..a.iters {
        let s = Schema::random(&mut a.rng, 0);
        let salt = a.rng.u64();
        let up = s.clone();
        let srv = match Setup::new(s.sdl(), Arc::new(move |q: &Seen| Ok((200, vec![], up.upstream(&q.path(), salt).to_string())))).start() {
            Ok(srv) => srv,
            Err(e) => {
                a.case("server starts", true, || s.sdl(), || Err(e));
                continue;
            }
        };
        for _ in 0..6 {
            let (conds, frags) = *a.rng.pick(&[(false, false), (true, false), (false, true), (true, true), (true, true)]);
            let doc = Gen::new(&s, conds, frags).doc(&mut a.rng);
            let text = doc.text();
            let key = match (conds, frags) {
                (false, false) => "fields",
                (true, false) => "conditions",
                (false, true) => "fragments",
                (true, true) => "fragments and conditions",
            };
            let mut want = Exec::new(&s, &doc, salt);
            let out = want.run();
            let nontrivial = out.as_ref().map_or(false, |o| o.text().len() > 4);
            srv.log.lock().unwrap().clear();
            let got = rt.block_on(srv.ask(&post(query(&text, None, Some(doc.variables())), vec![])));
            a.case(
                key,
                nontrivial,
                || format!("{text}\nvariables {}\nsalt {salt}\n{}", doc.variables(), s.sdl()),
                || {
                    let got = got?;
                    let want_text = out.map_err(|p| format!("reference: error at {p:?}"))?.text();
                    let v = got.json();
                    let w: serde_json::Value = serde_json::from_str(&want_text).unwrap();
                    if v.get("errors").is_some() {
                        return Err(format!("got {}, want {want_text}", got.body));
                    }
                    same("answer", &v["data"], &w)?;
                    if !conds && !frags {
                        same("answer, with the order of its keys", got.body.trim(), format!("{{\"data\":{want_text}}}").as_str())?;
                    }
                    let asked: BTreeSet<String> = srv.log.lock().unwrap().iter().map(|s| s.path()).collect();
                    same("requests", &asked, &want.asked)
                },
            );
        }
        if n % 4 == 0 {
            // fragments that spread themselves are refused
            let k = 1 + a.rng.below(3);
            let mut text = "query { qA { ...F0 } qB { __typename } }".to_string();
            let cut = a.rng.one_in(3);
            for i in 0..k {
                let next = (i + 1) % k;
                let wrap = a.rng.below(3);
                let inner = if cut && next == 0 { "sh { id }".to_string() } else {
                    match wrap {
                        0 => format!("...F{next}"),
                        1 => format!("... on It {{ ...F{next} }}"),
                        _ => format!("sh {{ id }} ...F{next} @include(if: true)"),
                    }
                };
                text.push_str(&format!(" fragment F{i} on It {{ id {inner} }}"));
            }
            let got = rt.block_on(srv.ask(&post(query(&text, None, None), vec![])));
            a.case("cyclic fragments", !cut, || text.clone(), || {
                let v = got?.json();
                let refused = v.get("errors").is_some() && v["data"].is_null();
                same("refused", &refused, &!cut)
            });
        }
    }
    a.finish();
}
