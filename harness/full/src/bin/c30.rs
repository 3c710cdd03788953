//! C30: what is protected is only in answers to requests that its rules let in, whichever
//! way it's selected; and everything else is answered as if nothing was protected.
#[path = "../e2e.rs"]
mod e2e;
#[path = "../gql.rs"]
mod gql;
use std::collections::BTreeSet;
use std::sync::Arc;

use e2e::*;
use gql::*;
use serde_json::Value;
use tcv::*;

/// nothing but what the reference has
fn within(got: &Value, out: &Out, at: &str) -> Result<(), String> {
    match (got, out) {
        (Value::Null, _) => Ok(()),
        (v, Out::Denied) => Err(format!("{at}: {v} is given to a request that isn't let in")),
        (v, Out::Leaf(w)) => same(at, v, w),
        (Value::Array(l), Out::List(w)) if l.len() == w.len() => l.iter().zip(w).enumerate().try_for_each(|(i, (v, w))| within(v, w, &format!("{at}/{i}"))),
        (Value::Object(o), Out::Obj(w)) => o.iter().try_for_each(|(k, v)| match w.iter().find(|w| w.0 == *k) {
            Some(w) => within(v, &w.1, &format!("{at}/{k}")),
            None => Err(format!("{at}/{k}: unexpected")),
        }),
        (v, w) => Err(format!("{at}: got {v}, want {}", w.text())),
    }
}

fn b64(s: &str) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    s.as_bytes().chunks(3).map(|c| {
        let n = (0..3).fold(0u32, |n, i| n << 8 | *c.get(i).unwrap_or(&0) as u32);
        (0..4).map(|i| if i <= c.len() { T[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }).collect::<String>()
    }).collect()
}

const HTPASSWD: [&str; 3] = ["p0 in0:x both:y", "p1 in1:x both:y", "p2 in2:x both:y in0:x"];

fn main() {
    let mut a = Audit::start("random schemas whose types and fields are @protected by none, one or several of one to three providers, queries with aliases, inline and named fragments on interfaces and unions and conditions, with no, wrong, partly and fully sufficient credentials; the answer of an executor written from the GraphQL specification, without what the request's credentials don't allow, and the upstream requests it makes");
    let rt = rt();
    for n in 0..a.iters {
        let mut s = Schema::random(&mut a.rng, 0);
        let count = 1 + a.rng.below(3);
        let all: Vec<String> = (0..count).map(|i| format!("p{i}")).collect();
        let ids = |r: &mut Rng| match r.below(3) {
            0 => vec![],
            1 => vec![r.pick(&all).clone()],
            _ => (0..1 + r.below(2)).map(|_| r.pick(&all).clone()).collect(),
        };
        for t in ["A", "B", "C", "D", "Query"] {
            if t != "Query" && a.rng.one_in(4) || a.rng.one_in(20) {
                let g = ids(&mut a.rng);
                s.guards.insert(t.into(), g);
            }
            for f in s.types[t].clone() {
                if a.rng.one_in(8) {
                    let g = ids(&mut a.rng);
                    s.guards.insert(format!("{t}.{}", f.name), g);
                }
            }
        }
        let salt = a.rng.u64();
        let up = s.clone();
        let mut setup = Setup::new(s.sdl(), Arc::new(move |q: &Seen| Ok((200, vec![], up.upstream(&q.path(), salt).to_string()))));
        let open = s.guards.is_empty();
        if !open || a.rng.flip() {
            for p in HTPASSWD.iter().take(count) {
                let (id, users) = p.split_once(' ').unwrap();
                setup.htpasswd.push((Some(id.into()), users.replace(' ', "\n")));
            }
        }
        let srv = match setup.start() {
            Ok(srv) => srv,
            Err(e) => {
                a.case("server starts", true, || s.sdl(), || Err(e));
                continue;
            }
        };
        for _ in 0..8 {
            let (conds, frags) = *a.rng.pick(&[(false, false), (true, true), (false, true)]);
            let doc = Gen::new(&s, conds, frags).doc(&mut a.rng);
            let text = doc.text();
            let user = *a.rng.pick(&["", "in0:x", "in1:x", "in2:x", "both:y", "both:y", "both:x", "nobody:y"]);
            let lets_in: BTreeSet<String> = HTPASSWD.iter().take(count).filter(|p| p.split(' ').skip(1).any(|u| u == user)).map(|p| p[..2].to_string()).collect();
            let headers = if user.is_empty() { vec![] } else { vec![("authorization".to_string(), format!("Basic {}", b64(user)))] };
            let mut want = Exec::new(&s, &doc, salt);
            let denied: BTreeSet<(String, String)> = s.types.iter().flat_map(|(t, fs)| fs.iter().map(|f| (t.clone(), f.name.clone()))).filter(|(t, f)| !s.rule(t, f, &all).is_subset(&lets_in)).collect();
            let sure = want.fields().is_disjoint(&denied);
            want.denied = denied;
            let out = want.run();
            let key = match (want.hit, sure) {
                (true, _) => "not let in",
                (false, true) => "let in",
                (false, false) => "not let in by what isn't there",
            };
            srv.log.lock().unwrap().clear();
            let got = rt.block_on(srv.ask(&post(query(&text, None, Some(doc.variables())), headers)));
            a.case(
                key,
                want.hit || sure,
                || format!("{user:?} {text}\nvariables {}\nsalt {salt}\n{}", doc.variables(), s.sdl()),
                || {
                    let got = got?;
                    let out = out.map_err(|p| format!("reference: error at {p:?}"))?;
                    let v = got.json();
                    let asked: BTreeSet<String> = srv.log.lock().unwrap().iter().map(|s| s.path()).collect();
                    if sure {
                        if v.get("errors").is_some() {
                            return Err(format!("got {}, want {}", got.body, out.text()));
                        }
                        let w: Value = serde_json::from_str(&out.text()).unwrap();
                        same("answer", &v["data"], &w)?;
                        return same("requests", &asked, &want.asked);
                    }
                    within(&v["data"], &out, "data")?;
                    if want.hit && v.get("errors").is_none() {
                        return Err(format!("no error: {}", got.body));
                    }
                    match asked.difference(&want.asked).next() {
                        Some(p) => Err(format!("{p} is requested for a request that isn't let in")),
                        None => Ok(()),
                    }
                },
            );
        }
        if n % 8 == 0 {
            // a rule that can't be applied is refused
            let unknown = a.rng.flip();
            let guard = if unknown { "@protected(id: [\"p7\"])" } else { "@protected" };
            let (on_type, on_field) = if a.rng.flip() { (guard, "") } else { ("", guard) };
            let sdl = format!("schema @server(port: 8000) {{ query: Query }}\ntype T {on_type} {{ a: Int {on_field} }}\ntype Query {{ t: T @http(url: \"http://h/t\") }}");
            let mut setup = Setup::new(sdl.clone(), Arc::new(|_: &Seen| Ok((200, vec![], "{}".into()))));
            if unknown {
                setup.htpasswd.push((Some("p0".into()), "in0:x".into()));
            }
            a.case("rules without providers", true, || sdl.clone(), || match setup.start() {
                Ok(_) => Err("is taken".into()),
                Err(_) => Ok(()),
            });
        }
    }
    a.finish();
}
