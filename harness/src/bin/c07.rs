use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::num::NonZeroU64;
use std::time::Duration;

use async_graphql_value::{ConstValue, Name};
use http_cache_reqwest::{CacheManager, HttpResponse};
use http_cache_semantics::CachePolicy;
use tailcall::core::cache::cache::InMemoryCache;
use tailcall::core::counter::{AtomicCounter, Count, Counter};
use tailcall::core::helpers::value::HashableConstValue;
use tailcall::core::Cache;
use tailcall_http_cache::HttpCacheManager;
use tcv::{same, Audit, Rng};

#[derive(Clone, Debug)]
enum Do {
    Set(String, i32, u64),
    Get(String),
    Rate,
    /// until everything short-lived is over
    Wait,
}
const LONG: &[u64] = &[3_600_000, 60_000, 86_400_000 * 365, 120_001];
const SHORT: &[u64] = &[1, 2, 5];
fn name(r: &mut Rng) -> String {
    r.pick(&["", "a", "A", "b", "a ", "é", "ab"]).to_string()
}
fn plan(r: &mut Rng, waits: bool) -> Vec<Do> {
    let mut v = r.vec(14, |r| match r.below(7) {
        0..=1 => Do::Set(name(r), r.below(4) as i32, *r.pick(LONG)),
        2 => Do::Rate,
        _ => Do::Get(name(r)),
    });
    if waits {
        // something short-lived, in a table that holds other things, looked up after its time
        let (k, n) = (name(r), r.below(v.len() + 1));
        let later = [Do::Set(k.clone(), 9, *r.pick(SHORT)), Do::Wait, Do::Get(k.clone()), Do::Rate];
        if r.flip() {
            v.insert(n, Do::Set(k, 8, *r.pick(LONG)));
        }
        v.extend(later);
        v.extend(r.vec(6, |r| Do::Get(name(r))));
        v.push(Do::Rate);
    }
    v
}
type Seen = Vec<(String, Option<i32>, Option<f64>)>;
async fn run(p: &[Do], c: &InMemoryCache<String, i32>) -> Seen {
    let mut out = vec![];
    for d in p {
        match d {
            Do::Set(k, v, ttl) => out.push((format!("set {}", c.set(k.clone(), *v, NonZeroU64::new(*ttl).unwrap()).await.is_ok()), None, None)),
            Do::Get(k) => out.push((k.clone(), c.get(k).await.ok().unwrap(), None)),
            Do::Rate => out.push(("rate".into(), None, c.hit_rate())),
            Do::Wait => std::thread::sleep(Duration::from_millis(20)),
        }
    }
    out
}
fn wanted(p: &[Do]) -> Seen {
    let (mut m, mut hits, mut all, mut out) = (HashMap::new(), 0, 0, vec![]);
    for d in p {
        match d {
            Do::Set(k, v, ttl) => {
                m.insert(k.clone(), (*v, *ttl));
                out.push(("set true".to_string(), None, None));
            }
            Do::Get(k) => {
                let x = m.get(k).map(|x| x.0);
                all += 1;
                hits += x.is_some() as usize;
                out.push((k.clone(), x, None));
            }
            Do::Rate => out.push(("rate".into(), None, if all > 0 { Some(hits as f64 / all as f64) } else { None })),
            Do::Wait => m.retain(|_, x| x.1 > 1000),
        }
    }
    out
}

fn response(r: &mut Rng) -> HttpResponse {
    HttpResponse {
        headers: (0..r.below(3)).map(|_| (r.pick(&["a", "cache-control", "x"]).to_string(), r.pick(&["", "1", "max-age=3"]).to_string())).collect(),
        body: r.vec(4, |r| r.below(256) as u8),
        status: *r.pick(&[200, 404, 500, 304]),
        url: r.pick(&["http://a.test/", "http://a.test/x?y=1"]).parse().unwrap(),
        version: serde_json::from_value(serde_json::json!(*r.pick(&["HTTP/1.1", "HTTP/2.0"]))).unwrap(),
    }
}
fn policy(r: &mut Rng, p: &HttpResponse) -> CachePolicy {
    let q = http::Request::get(p.url.as_str()).body(()).unwrap();
    let mut a = http::Response::builder().status(p.status);
    a = a.header("cache-control", *r.pick(&["max-age=10", "no-store", "public"]));
    CachePolicy::new(&q, &a.body(()).unwrap())
}
fn shown(p: &Option<(HttpResponse, CachePolicy)>) -> String {
    match p {
        None => "nothing".into(),
        Some((p, c)) => {
            let mut h: Vec<_> = p.headers.iter().collect();
            h.sort();
            format!("{h:?} {:?} {} {} {:?} {}", p.body, p.status, p.url, p.version, serde_json::to_string(c).unwrap())
        }
    }
}

fn text(r: &mut Rng) -> String {
    r.pick(&["", "a", "b", "ab", "A", "é", "1", "true"]).to_string()
}
fn value(r: &mut Rng, depth: usize) -> ConstValue {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => ConstValue::Null,
        1 => ConstValue::Boolean(r.flip()),
        2 => ConstValue::Number(r.pick(&[serde_json::Number::from(0), 1.into(), (-1).into(), u64::MAX.into(), i64::MIN.into(), serde_json::Number::from_f64(0.0).unwrap(), serde_json::Number::from_f64(-0.0).unwrap(), serde_json::Number::from_f64(1.0).unwrap(), serde_json::Number::from_f64(1.5).unwrap()]).clone()),
        3 => ConstValue::String(text(r)),
        4 => ConstValue::Enum(Name::new(text(r))),
        5 => ConstValue::Binary(r.vec(3, |r| r.below(3) as u8).into()),
        6 => ConstValue::List(r.vec(3, |r| value(r, depth - 1))),
        _ => ConstValue::Object((0..r.below(5)).map(|_| (Name::new(text(r)), value(r, depth - 1))).collect()),
    }
}
/// the same value: object fields in another order, zero's sign changed
fn again(r: &mut Rng, v: &ConstValue) -> ConstValue {
    match v {
        ConstValue::Number(n) if n.as_f64() == Some(0.0) && n.is_f64() => ConstValue::Number(serde_json::Number::from_f64(if r.flip() { 0.0 } else { -0.0 }).unwrap()),
        ConstValue::Enum(s) if r.flip() => ConstValue::String(s.to_string()),
        ConstValue::String(s) if r.flip() => ConstValue::Enum(Name::new(s)),
        ConstValue::List(l) => ConstValue::List(l.iter().map(|v| again(r, v)).collect()),
        ConstValue::Object(m) => {
            let mut e: Vec<_> = m.iter().map(|(k, v)| (k.clone(), again(r, v))).collect();
            for i in (1..e.len()).rev() {
                e.swap(i, r.below(i + 1));
            }
            ConstValue::Object(e.into_iter().collect())
        }
        v => v.clone(),
    }
}
/// one thing in it changed, perhaps into something that is the same
fn other(r: &mut Rng, v: &ConstValue) -> ConstValue {
    match v {
        ConstValue::List(l) if !l.is_empty() && r.flip() => {
            let mut l = l.clone();
            let i = r.below(l.len());
            l[i] = other(r, &l[i]);
            ConstValue::List(l)
        }
        ConstValue::Object(m) if !m.is_empty() && r.flip() => {
            let mut m = m.clone();
            let i = r.below(m.len());
            let x = other(r, &m[i]);
            m[i] = x;
            ConstValue::Object(m)
        }
        _ => value(r, 1),
    }
}
fn equal(a: &ConstValue, b: &ConstValue) -> bool {
    match (a, b) {
        (ConstValue::Null, ConstValue::Null) => true,
        (ConstValue::Boolean(a), ConstValue::Boolean(b)) => a == b,
        (ConstValue::Number(a), ConstValue::Number(b)) => a == b,
        (ConstValue::String(a), ConstValue::String(b)) => a == b,
        (ConstValue::Enum(a), ConstValue::Enum(b)) => a == b,
        (ConstValue::Enum(a), ConstValue::String(b)) | (ConstValue::String(b), ConstValue::Enum(a)) => a.as_str() == b,
        (ConstValue::Binary(a), ConstValue::Binary(b)) => a == b,
        (ConstValue::List(a), ConstValue::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (ConstValue::Object(a), ConstValue::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| equal(v, w))),
        _ => false,
    }
}
fn hash(v: &HashableConstValue) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn main() {
    let mut a = Audit::start("operations on a cache; values and their hashes");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    for i in 0..n {
        let p = plan(&mut r, i % 100 == 0);
        let room = *r.pick(&[7, 8, 1000]);
        let own = r.flip();
        a.case("memory", p.iter().any(|d| matches!(d, Do::Set(..))), || format!("{p:?}"), || {
            let c = if own { InMemoryCache::new(room) } else { InMemoryCache::default() };
            same("what was seen", rt.block_on(run(&p, &c)), wanted(&p))
        });
        let v = value(&mut r, 3);
        let (w, x) = (again(&mut r, &v), other(&mut r, &v));
        a.case("hash", true, || format!("values {v:?}, {w:?} and {x:?}"), || {
            let (hv, hw, hx) = (HashableConstValue(v.clone()), HashableConstValue(w.clone()), HashableConstValue(x.clone()));
            same("equal to itself reordered", hv == hw, true)?;
            same("hash of itself reordered", hash(&hw), hash(&hv))?;
            same("equal to the other", hv == hx, equal(&v, &x))?;
            if hv == hx {
                same("hash of an equal", hash(&hx), hash(&hv))?;
            }
            Ok(())
        });
        if i % 4 == 0 {
            let keys: &[&str] = &["", "GET:http://a.test/", "GET:http://a.test", "POST:http://a.test/", "get:http://a.test/", "é"];
            let ops: Vec<(usize, &str, HttpResponse, CachePolicy)> = (0..r.below(12))
                .map(|_| {
                    let p = response(&mut r);
                    let c = policy(&mut r, &p);
                    (r.below(13), *r.pick(keys), p, c)
                })
                .collect();
            let own = r.flip();
            let show = || format!("{:?}", ops.iter().map(|o| format!("{} {:?} {}", ["put", "get", "del", "clear"][[0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 3][o.0]], o.1, o.2.status)).collect::<Vec<_>>());
            let cap = r.below(5) as u64;
            let put: Vec<(String, HttpResponse)> = (0..r.below(12)).map(|i| (format!("k{i}"), response(&mut r))).collect();
            let pols: Vec<CachePolicy> = put.iter().map(|p| policy(&mut r, &p.1)).collect();
            a.case("http cache of limited size", put.len() as u64 > cap, || format!("size {cap}, {} put", put.len()), || {
                rt.block_on(async {
                    let m = HttpCacheManager::new(cap);
                    for ((k, p), c) in put.iter().zip(&pols) {
                        m.put(k.clone(), p.clone(), c.clone()).await.map_err(|e| e.to_string())?;
                    }
                    m.cache.run_pending_tasks().await;
                    same("held", m.cache.entry_count(), cap.min(put.len() as u64))
                })
            });
            a.case("http", ops.len() > 2, show, || {
                rt.block_on(async {
                    let m = if own { HttpCacheManager::new(6) } else { HttpCacheManager::default() };
                    let mut want: HashMap<&str, (HttpResponse, CachePolicy)> = HashMap::new();
                    for (op, k, p, c) in &ops {
                        match op {
                            0..=4 => {
                                let got = m.put(k.to_string(), p.clone(), c.clone()).await.map_err(|e| e.to_string())?;
                                same("put gives the response", shown(&Some((got, c.clone()))), shown(&Some((p.clone(), c.clone()))))?;
                                want.insert(k, (p.clone(), c.clone()));
                            }
                            5..=9 => {}
                            10..=11 => {
                                m.delete(k).await.map_err(|e| e.to_string())?;
                                want.remove(k);
                            }
                            _ => {
                                m.clear().await.map_err(|e| e.to_string())?;
                                want.clear();
                            }
                        }
                        for k in keys {
                            same(&format!("held for {k:?}"), shown(&m.get(k).await.map_err(|e| e.to_string())?), shown(&want.get(k).cloned()))?;
                        }
                    }
                    Ok(())
                })
            });
        }
        if i % 8 == 0 {
            let (start, n) = (r.below(1000) as u64, 1 + r.below(20));
            a.eq("counter", true, || format!("counter from {start}, {n} times"), || {
                let c = Counter::new(start);
                (0..n).map(|_| c.next()).collect::<Vec<_>>()
            }, || (start..start + n as u64).collect());
        }
        if i % 50 == 0 {
            let n = 50;
            a.case("threads", true, || format!("4 threads, {n} numbers and {n} lookups each"), || {
                let (c, m) = (AtomicCounter::<usize>::default(), InMemoryCache::<String, i32>::default());
                let long = NonZeroU64::new(1 << 30).unwrap();
                let all: Vec<usize> = std::thread::scope(|s| {
                    let (c, m) = (&c, &m);
                    let t: Vec<_> = (0..4).map(|t| s.spawn(move || {
                        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                        (0..n).map(|j| {
                            rt.block_on(async {
                                let k = format!("{t}/{j}");
                                assert_eq!(m.get(&k).await.ok().unwrap(), None);
                                m.set(k.clone(), j, long).await.ok().unwrap();
                                assert_eq!(m.get(&k).await.ok().unwrap(), Some(j));
                            });
                            c.next()
                        }).collect::<Vec<_>>()
                    })).collect();
                    t.into_iter().flat_map(|t| t.join().unwrap_or_default()).collect()
                });
                same("numbers", all.iter().copied().collect::<HashSet<_>>(), (1..=4 * n as usize).collect())?;
                same("hit rate", m.hit_rate(), Some(0.5))
            });
        }
    }
    a.finish();
}
