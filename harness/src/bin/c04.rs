use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

use reqwest::header::{HeaderMap, HeaderName, HeaderValue};
use reqwest::{Method, Request};
use tailcall::core::http::DataLoaderRequest;
use tailcall_hasher::TailcallHasher;
use tcv::{same, Audit, Rng};

#[derive(Clone, Debug, PartialEq)]
struct Spec {
    method: &'static str,
    url: String,
    body: Option<String>,
    headers: Vec<(String, String)>,
    names: BTreeSet<String>,
    batching: Option<String>,
}
fn build(s: &Spec) -> DataLoaderRequest {
    let mut r = Request::new(s.method.parse().unwrap(), s.url.parse().unwrap());
    for (k, v) in &s.headers {
        r.headers_mut().insert(k.parse::<HeaderName>().unwrap(), v.parse::<HeaderValue>().unwrap());
    }
    if let Some(b) = &s.body {
        r.body_mut().replace(b.clone().into());
    }
    DataLoaderRequest::new(r, s.names.clone()).with_batching_value(s.batching.clone())
}
/// what identifies a request: where it goes, what it sends, and the named headers
fn key(s: &Spec) -> (String, Option<String>, Vec<(String, String)>) {
    let mut h: HashMap<String, String> = HashMap::new();
    for (k, v) in &s.headers {
        h.insert(k.to_lowercase(), v.clone());
    }
    let named = s.names.iter().filter_map(|n| h.get(&n.to_lowercase()).map(|v| (n.clone(), v.clone()))).collect();
    (s.url.clone(), s.body.clone(), named)
}
fn gen(r: &mut Rng) -> Spec {
    Spec {
        method: *r.pick(&["GET", "POST", "PUT"]),
        url: r.pick(&["http://a.test/", "http://a.test/x?id=1", "http://a.test/x?id=2", "http://b.test/x?id=1", "http://a.test/x?id=1&id=2"]).to_string(),
        body: r.opt(|r| r.pick(&["", "{}", "{\"id\":1}", "{\"id\":2}", "null"]).to_string()),
        headers: r.vec(4, |r| (r.pick(&["a", "b", "authorization", "x-id"]).to_string(), r.pick(&["", "1", "2", "u", "ab"]).to_string())),
        names: ["a", "b", "Authorization", "x-id", "missing"].iter().filter(|_| r.flip()).map(|s| s.to_string()).collect(),
        batching: r.opt(|r| r.pick(&["", "0", "1", " ", "{}", "\n"]).to_string()),
    }
}
fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = TailcallHasher::default();
    t.hash(&mut h);
    h.finish()
}
/// two different 16-character texts that the request hasher does not tell apart
/// when they follow an already hashed, 8-byte aligned prefix
fn collision(r: &mut Rng, prefix: &[u8]) -> Option<(String, String)> {
    const K: u64 = 0x517cc1b727220a95;
    let al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    let mut h = TailcallHasher::default();
    h.write(prefix);
    let s = h.finish();
    let word = |r: &mut Rng| {
        let mut b = [0u8; 8];
        b.iter_mut().for_each(|x| *x = *r.pick(al));
        b
    };
    'next: for _ in 0..200_000 {
        let (a, b) = (word(r), word(r));
        let f = |w: [u8; 8]| (s.rotate_left(5) ^ u64::from_le_bytes(w)).wrapping_mul(K).rotate_left(5);
        let d = (f(a) ^ f(b)).to_le_bytes();
        let (mut x, mut y) = ([0u8; 8], [0u8; 8]);
        for i in 0..8 {
            let Some(c) = al.iter().find(|c| al.contains(&(**c ^ d[i]))) else { continue 'next };
            x[i] = *c;
            y[i] = *c ^ d[i];
        }
        if a != b {
            let t = |p: [u8; 8], q: [u8; 8]| String::from_utf8([p, q].concat()).unwrap();
            return Some((t(a, x), t(b, y)));
        }
    }
    None
}
fn pair(a: &Spec, b: &Spec) -> Result<(), String> {
    let (x, y) = (build(a), build(b));
    let want = key(a) == key(b);
    same("equal", x == y, want)?;
    same("equal the other way", y == x, want)?;
    if want {
        same("same hash", hash_of(&x), hash_of(&y))?;
    }
    // as the data loader uses them
    let mut m: HashMap<DataLoaderRequest, u8> = HashMap::new();
    m.insert(x, 1);
    m.insert(y, 2);
    same("requests kept", m.len(), if want { 1 } else { 2 })?;
    same("answer of the first", m.get(&build(a)).copied(), Some(if want { 2 } else { 1 }))
}

fn main() {
    let mut a = Audit::start("random pairs of requests differing in nothing, in one part or in several, and pairs of different requests built so that the request hash is the same for both; nontrivial: pairs with equal hash or differing in one part only");
    for i in 0..a.iters {
        let r = &mut a.rng;
        let x = gen(r);
        let mut y = x.clone();
        let z = gen(r);
        match r.below(9) {
            0 => y.url = z.url,
            1 => y.body = z.body,
            2 => y.headers = z.headers,
            3 => y.names = z.names,
            4 => y.batching = z.batching,
            5 => y = z,
            6 => y.method = z.method,
            7 => y.headers.reverse(),
            _ => {}
        }
        a.case("pairs", true, || format!("{x:?} and {y:?}"), || pair(&x, &y));
        a.case("parts", true, || format!("{x:?}"), || {
            let d = build(&x);
            let c = d.clone();
            same("copy equal", c == d, true)?;
            for d in [&d, &c] {
                same("batching value", d.batching_value().cloned(), x.batching.clone())?;
                same("names", d.headers().clone(), x.names.clone())?;
            }
            let q = c.to_request();
            same("url", q.url().to_string(), x.url.clone())?;
            same("method", q.method().clone(), x.method.parse::<Method>().unwrap())?;
            same("body", q.body().map(|b| b.as_bytes().unwrap().to_vec()), x.body.clone().map(|b| b.into_bytes()))?;
            let mut h = HeaderMap::new();
            for (k, v) in &x.headers {
                h.insert(k.parse::<HeaderName>().unwrap(), v.parse::<HeaderValue>().unwrap());
            }
            same("headers", q.headers().clone(), h)
        });
        if i % 40 == 0 {
            let r = &mut a.rng;
            let base = Spec { method: "GET", url: "http://localhost/users?id=000000".into(), body: None, headers: vec![], names: ["x-id".to_string()].into(), batching: None };
            assert_eq!(base.url.len() % 8, 0);
            if let Some((p, q)) = collision(r, base.url.as_bytes()) {
                let (x, y) = (Spec { url: format!("{}{p}", base.url), ..base.clone() }, Spec { url: format!("{}{q}", base.url), ..base.clone() });
                a.case("equal hash", hash_of(&build(&x)) == hash_of(&build(&y)), || format!("{x:?} and {y:?}"), || pair(&x, &y));
            }
        }
    }
    a.finish();
}
