use reqwest::{Method, Request, Url};
use tailcall::core::http::transformations::{BodyBatching, QueryBatching};
use tailcall::core::http::DataLoaderRequest;
use tailcall::core::transform::TransformerOps;
use tailcall::core::Transform;
use tailcall_valid::Validator;
use tcv::{same, Audit, Rng};

type Pairs = Vec<(String, String)>;
#[derive(Clone, Debug)]
struct Spec {
    method: &'static str,
    url: String,
    body: Option<String>,
}
fn request(s: &Spec) -> Request {
    let mut q = Request::new(s.method.parse::<Method>().unwrap(), s.url.parse().unwrap());
    q.headers_mut().insert("x-a", "1".parse().unwrap());
    if let Some(b) = &s.body {
        q.body_mut().replace(b.clone().into());
    }
    q
}
fn pairs(u: &Url) -> Pairs {
    u.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect()
}
const NAMES: &[&str] = &["id", "ID", "id ", "userId", "a", "", "i&d", "é", "id[]", "i=d", "+", "%69d", "id+", "%"];
const VALUES: &[&str] = &["", "1", "2", "10", "a b", "a+b", "%20", "é", "x&y=z", "#", "?", "1,2", "null", "=", "/"];
const BODIES: &[&str] = &["{}", "{\"id\":1}", "{\"id\":2}", "{\"id\":10}", "{ \"id\" : [1, 2] }", "[1,2]", "[]", "1", "\"a,b\"", "null", "{\"a\":\"]\"}", "é", " ", ",", "[", "{\"id\":1}\n", "not json"];
fn url(r: &mut Rng) -> String {
    let base = *r.pick(&["http://a.test/", "http://a.test/users", "https://u:p@b.test:8080/a/b%20c;d/", "http://a.test/x#frag"]);
    let mut u: Url = base.parse().unwrap();
    let n = r.below(4);
    if n == 0 && r.one_in(3) {
        u.set_query(Some(*r.pick(&["", "id", "&", "id=1&&id=2", "a=b=c", "id=%zz", "a+b=c"])));
    }
    for _ in 0..n {
        let k = if r.flip() { "id" } else { *r.pick(NAMES) };
        let v = *r.pick(VALUES);
        u.query_pairs_mut().append_pair(k, v);
    }
    u.to_string()
}
fn gen(r: &mut Rng) -> Spec {
    Spec { method: *r.pick(&["GET", "POST"]), url: url(r), body: if r.one_in(3) { None } else { Some(r.pick(BODIES).to_string()) } }
}
/// `[b1,b2,..]` with every body once, in some order
fn listed(mut left: Vec<&[u8]>, got: &[u8]) -> bool {
    fn rest(left: &mut Vec<&[u8]>, got: &[u8], first: bool) -> bool {
        if left.is_empty() {
            return got == b"]";
        }
        let Some(got) = (if first { Some(got) } else { got.strip_prefix(b",") }) else { return false };
        for i in 0..left.len() {
            if left[..i].contains(&left[i]) {
                continue;
            }
            if let Some(g) = got.strip_prefix(left[i]) {
                let b = left.remove(i);
                let ok = rest(left, g, false);
                left.insert(i, b);
                if ok {
                    return true;
                }
            }
        }
        false
    }
    got.strip_prefix(b"[").is_some_and(|g| rest(&mut left, g, true))
}
fn frame(q: &Request, b: &Request) -> Result<(), String> {
    same("method", q.method().clone(), b.method().clone())?;
    same("headers", q.headers().clone(), b.headers().clone())?;
    let strip = |u: &Url| {
        let mut u = u.clone();
        u.set_query(None);
        u
    };
    same("address", strip(q.url()), strip(b.url()))
}
fn main() {
    let mut a = Audit::start("members of a batch merged into its request");
    for _ in 0..a.iters {
        let n = *a.rng.pick(&[0, 1, 1, 2, 2, 3, 4, 6]);
        let mut specs: Vec<Spec> = (0..n).map(|_| gen(&mut a.rng)).collect();
        if n > 1 && a.rng.one_in(4) {
            // twins
            specs[n - 1] = specs[0].clone();
        }
        if a.rng.one_in(3) {
            specs.iter_mut().for_each(|s| s.body = s.body.as_ref().map(|_| BODIES[1].to_string()).or(Some("{\"id\":2}".into())));
        }
        let mut base = gen(&mut a.rng);
        if a.rng.flip() {
            base.body = None;
        }
        let name = a.rng.opt(|r| if r.flip() { "id".to_string() } else { r.pick(NAMES).to_string() });
        let show = || format!("base {base:?} members {specs:?} key {name:?}");
        let members: Vec<DataLoaderRequest> = specs.iter().map(|s| DataLoaderRequest::new(request(s), Default::default())).collect();
        let refs: Vec<&DataLoaderRequest> = members.iter().collect();
        let asked: Pairs = members.iter().flat_map(|m| pairs(m.url())).filter(|(k, _)| name.as_ref().is_none_or(|n| n == k)).collect();
        let query = |q: &Request| -> Result<(), String> {
            let b = request(&base);
            let mut want = pairs(b.url());
            want.extend(asked.clone());
            same("query", pairs(q.url()), want)?;
            if asked.is_empty() {
                same("address (nothing to add)", q.url().to_string(), b.url().to_string())?;
            }
            Ok(())
        };
        let body = |q: &Request| -> Result<(), String> {
            let got = q.body().and_then(|b| b.as_bytes());
            let want: Vec<&[u8]> = specs.iter().filter_map(|s| s.body.as_deref()).map(|b| b.as_bytes()).collect();
            if want.is_empty() {
                same("body (nothing to add)", got.map(|b| b.to_vec()), base.body.as_ref().map(|b| b.as_bytes().to_vec()))
            } else {
                same("body lists every member's", got.is_some_and(|g| listed(want.clone(), g)), true).map_err(|e| format!("{e}: {:?}", got.map(String::from_utf8_lossy)))
            }
        };
        a.case("query", !asked.is_empty() && n > 1, show, || {
            let q = QueryBatching::new(&refs, name.as_deref()).transform(request(&base)).to_result().map_err(|_| "failed")?;
            frame(&q, &request(&base))?;
            same("body", q.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec()), base.body.as_ref().map(|b| b.as_bytes().to_vec()))?;
            query(&q)
        });
        a.case("body", n > 1, show, || {
            let q = BodyBatching::new(&refs).transform(request(&base)).to_result().map_err(|_| "failed")?;
            frame(&q, &request(&base))?;
            same("address", q.url().to_string(), request(&base).url().to_string())?;
            body(&q)
        });
        a.case("both", n > 1, show, || {
            let q = QueryBatching::new(&refs, name.as_deref()).pipe(BodyBatching::new(&refs)).transform(request(&base)).to_result().map_err(|_| "failed")?;
            frame(&q, &request(&base))?;
            query(&q)?;
            body(&q)
        });
    }
    a.finish();
}
