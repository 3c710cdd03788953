//! C34: every object of an answer has what was resolved for it, in whatever order the
//! upstreams answer.
#[path = "../e2e.rs"]
mod e2e;
#[path = "../gql.rs"]
mod gql;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use e2e::*;
use gql::*;
use tcv::*;

fn main() {
    let mut a = Audit::start("random schemas with many resolved fields below lists, nested lists, interfaces and unions, upstreams that answer in any order and fail for some objects; the answer of an executor that resolves every object on its own, or an error if an upstream that is asked for an object fails");
    let rt = rt();
    for _ in 0..a.iters {
        let mut s = Schema::random(&mut a.rng, 0);
        for (t, fs) in s.types.iter_mut() {
            if t != "Query" && t != "It" {
                for f in fs.iter_mut().filter(|f| f.name != "id" && f.name != "sh") {
                    f.resolver = f.resolver || a.rng.one_in(2);
                }
            }
        }
        let salt = a.rng.u64();
        let weak = if a.rng.one_in(3) { 4 + a.rng.below(30) as u64 } else { 0 };
        let fails = move |p: &str| weak > 0 && p.bytes().fold(salt, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) >> 24 & 0xffff_ffff < u64::from(u32::MAX) / weak;
        let up = s.clone();
        let srv = match Setup::new(s.sdl(), Arc::new(move |q: &Seen| if fails(&q.path()) { Err("no answer".into()) } else { Ok((200, vec![], up.upstream(&q.path(), salt).to_string())) })).start() {
            Ok(srv) => srv,
            Err(e) => {
                a.case("server starts", true, || s.sdl(), || Err(e));
                continue;
            }
        };
        for _ in 0..6 {
            let frags = a.rng.one_in(3);
            let pace = a.rng.u64();
            let doc = Gen::new(&s, false, frags).doc(&mut a.rng);
            let text = doc.text();
            let mut want = Exec::new(&s, &doc, salt);
            let out = want.run();
            let failing = want.asked.iter().any(|p| fails(p));
            srv.log.lock().unwrap().clear();
            PACE.store(pace, Ordering::Relaxed);
            let got = rt.block_on(srv.ask(&post(query(&text, None, None), vec![])));
            PACE.store(0, Ordering::Relaxed);
            let many = want.asked.iter().filter(|p| !p.starts_with("/Query/")).count() > 1;
            let key = if failing { "failing upstream" } else if frags { "fragments" } else { "fields" };
            a.case(key, many || failing, || format!("{text}\nsalt {salt} pace {pace} weak {weak}\n{}", s.sdl()), || {
                let got = got?;
                let v = got.json();
                if failing {
                    same("refused", &(v["data"].is_null() && v["errors"].as_array().map_or(false, |e| !e.is_empty())), &true)?;
                    let asked: BTreeSet<String> = srv.log.lock().unwrap().iter().map(|s| s.path()).collect();
                    return same("asks for other objects", &asked.is_subset(&want.asked), &true);
                }
                let want_text = out.map_err(|p| format!("reference: error at {p:?}"))?.text();
                let w: serde_json::Value = serde_json::from_str(&want_text).unwrap();
                if v.get("errors").is_some() {
                    return Err(format!("got {}, want {want_text}", got.body));
                }
                same("answer", &v["data"], &w)?;
                let asked: BTreeSet<String> = srv.log.lock().unwrap().iter().map(|s| s.path()).collect();
                same("requests", &asked, &want.asked)
            });
        }
    }
    a.finish();
}
