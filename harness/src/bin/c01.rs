use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::NonZeroU64;

use async_graphql_value::{ConstValue, Name};
use indexmap::IndexMap;
use serde_yaml_ng::Value as Yaml;
use tailcall::core::config::cors::Cors;
use tailcall::core::config::headers::Headers;
use tailcall::core::config::*;
use tailcall::core::http::Method;
use tailcall::core::merge_right::MergeRight;
use tcv::{same, Audit, Rng};

fn word(r: &mut Rng) -> String {
    r.pick(&["", "a", "b", "c", "key", "é", "x y"]).to_string()
}
fn cv(r: &mut Rng, d: usize) -> ConstValue {
    match r.below(if d == 0 { 5 } else { 8 }) {
        0 => ConstValue::Null,
        1 => ConstValue::Number(r.below(3).into()),
        2 => ConstValue::String(word(r)),
        3 => ConstValue::Boolean(r.flip()),
        4 => ConstValue::Enum(Name::new(["A", "B"][r.below(2)])),
        5 => ConstValue::List(r.vec(3, |r| cv(r, d - 1))),
        _ => ConstValue::Object(r.vec(4, |r| (Name::new(word(r)), cv(r, d - 1))).into_iter().collect()),
    }
}
fn cv_want(a: ConstValue, b: ConstValue) -> ConstValue {
    match (a, b) {
        (ConstValue::List(a), ConstValue::List(b)) => ConstValue::List(a.into_iter().chain(b).collect()),
        (ConstValue::List(a), b) => ConstValue::List(a.into_iter().chain([b]).collect()),
        (ConstValue::Object(a), ConstValue::Object(b)) => {
            let mut out: IndexMap<Name, ConstValue> = IndexMap::new();
            for (k, v) in &a {
                let v = match b.get(k) {
                    Some(w) => cv_want(v.clone(), w.clone()),
                    None => v.clone(),
                };
                out.insert(k.clone(), v);
            }
            for (k, v) in b {
                if !a.contains_key(&k) {
                    out.insert(k, v);
                }
            }
            ConstValue::Object(out)
        }
        (_, b) => b,
    }
}
fn yaml(r: &mut Rng, d: usize) -> Yaml {
    match r.below(if d == 0 { 4 } else { 9 }) {
        0 => Yaml::Null,
        1 => Yaml::Bool(r.flip()),
        2 => Yaml::Number(r.below(3).into()),
        3 => Yaml::String(word(r)),
        4 | 5 => Yaml::Sequence(r.vec(3, |r| yaml(r, d - 1))),
        6 | 7 => Yaml::Mapping(r.vec(4, |r| (Yaml::String(word(r)), yaml(r, d - 1))).into_iter().collect()),
        _ => Yaml::Tagged(Box::new(serde_yaml_ng::value::TaggedValue {
            tag: serde_yaml_ng::value::Tag::new(["t", "u"][r.below(2)]),
            value: yaml(r, d - 1),
        })),
    }
}
fn yaml_want(a: Yaml, b: Yaml) -> Yaml {
    match (a, b) {
        (Yaml::Sequence(a), Yaml::Sequence(b)) => Yaml::Sequence(a.into_iter().chain(b).collect()),
        (Yaml::Sequence(a), b) => Yaml::Sequence(a.into_iter().chain([b]).collect()),
        (Yaml::Mapping(a), Yaml::Mapping(b)) => {
            let mut out = a.clone();
            for (k, v) in b {
                let v = match a.get(&k) {
                    Some(w) => yaml_want(w.clone(), v),
                    None => v,
                };
                out.insert(k, v);
            }
            Yaml::Mapping(out)
        }
        (a @ Yaml::Mapping(_), Yaml::Sequence(b)) => Yaml::Sequence(b.into_iter().chain([a]).collect()),
        (Yaml::Tagged(a), Yaml::Tagged(b)) if a.tag == b.tag => Yaml::Tagged(Box::new(serde_yaml_ng::value::TaggedValue {
            tag: a.tag,
            value: yaml_want(a.value, b.value),
        })),
        (_, b) => b,
    }
}
fn right<T>(a: Option<T>, b: Option<T>) -> Option<T> {
    b.or(a)
}
fn both<T>(a: Option<T>, b: Option<T>, f: impl FnOnce(T, T) -> T) -> Option<T> {
    match (a, b) {
        (Some(a), Some(b)) => Some(f(a, b)),
        (a, b) => b.or(a),
    }
}
fn cat<T>(a: Vec<T>, b: Vec<T>) -> Vec<T> {
    a.into_iter().chain(b).collect()
}
fn union<T: Ord>(a: BTreeSet<T>, b: BTreeSet<T>) -> BTreeSet<T> {
    a.into_iter().chain(b).collect()
}
fn kv(r: &mut Rng) -> KeyValue {
    KeyValue { key: word(r), value: word(r) }
}
fn kvs_want(a: &[KeyValue], b: &[KeyValue]) -> BTreeMap<String, String> {
    a.iter().chain(b).map(|x| (x.key.clone(), x.value.clone())).collect()
}
fn kvs_ok(a: &[KeyValue], b: &[KeyValue], r: &[KeyValue]) -> Result<(), String> {
    let m: BTreeMap<String, String> = r.iter().map(|x| (x.key.clone(), x.value.clone())).collect();
    if m.len() != r.len() {
        return Err(format!("a key comes twice: {r:?}"));
    }
    same("pairs", m, kvs_want(a, b))
}
fn cors(r: &mut Rng) -> Cors {
    let m = [Method::GET, Method::POST, Method::PUT];
    Cors {
        allow_credentials: r.opt(|r| r.flip()),
        allow_headers: r.vec(2, word),
        allow_methods: r.vec(2, |r| r.pick(&m).clone()),
        allow_origins: r.vec(2, word),
        allow_private_network: r.opt(|r| r.flip()),
        expose_headers: r.vec(2, word),
        max_age: r.opt(|r| r.below(4)),
        vary: r.vec(2, word),
    }
}
fn cors_want(a: Cors, b: Cors) -> Cors {
    Cors {
        allow_credentials: right(a.allow_credentials, b.allow_credentials),
        allow_headers: cat(a.allow_headers, b.allow_headers),
        allow_methods: cat(a.allow_methods, b.allow_methods),
        allow_origins: cat(a.allow_origins, b.allow_origins),
        allow_private_network: right(a.allow_private_network, b.allow_private_network),
        expose_headers: cat(a.expose_headers, b.expose_headers),
        max_age: right(a.max_age, b.max_age),
        vary: cat(a.vary, b.vary),
    }
}
fn headers(r: &mut Rng) -> Headers {
    Headers {
        cache_control: r.opt(|r| r.flip()),
        custom: r.vec(2, kv),
        experimental: r.opt(|r| r.vec(2, word).into_iter().collect()),
        set_cookies: r.opt(|r| r.flip()),
        cors: r.opt(cors),
    }
}
fn headers_want(a: Headers, b: Headers) -> Headers {
    Headers {
        cache_control: right(a.cache_control, b.cache_control),
        custom: cat(a.custom, b.custom),
        experimental: both(a.experimental, b.experimental, union),
        set_cookies: right(a.set_cookies, b.set_cookies),
        cors: both(a.cors, b.cors, cors_want),
    }
}
fn batch(r: &mut Rng) -> Batch {
    Batch { delay: r.below(4), headers: r.vec(2, word).into_iter().collect(), max_size: r.opt(|r| r.below(9)) }
}
fn batch_want(a: Batch, b: Batch) -> Batch {
    Batch { delay: b.delay, headers: union(a.headers, b.headers), max_size: right(a.max_size, b.max_size) }
}
#[allow(deprecated)]
fn server(r: &mut Rng) -> Server {
    Server {
        enable_jit: r.opt(|r| r.flip()),
        apollo_tracing: r.opt(|r| r.flip()),
        batch_requests: r.opt(|r| r.flip()),
        headers: r.opt(headers),
        global_response_timeout: r.opt(|r| r.below(99) as i64),
        hostname: r.opt(word),
        introspection: r.opt(|r| r.flip()),
        enable_federation: r.opt(|r| r.flip()),
        pipeline_flush: r.opt(|r| r.flip()),
        port: r.opt(|r| r.below(99) as u16),
        query_validation: r.opt(|r| r.flip()),
        response_validation: r.opt(|r| r.flip()),
        script: r.opt(|r| ScriptOptions { timeout: r.opt(|r| r.below(9) as u64) }),
        showcase: r.opt(|r| r.flip()),
        vars: r.vec(3, kv),
        version: r.opt(|r| if r.flip() { HttpVersion::HTTP1 } else { HttpVersion::HTTP2 }),
        workers: r.opt(|r| r.below(9)),
        routes: r.opt(|r| Routes::default().with_status(word(r)).with_graphql(word(r))),
    }
}
#[allow(deprecated)]
fn server_want(a: Server, b: Server) -> Server {
    Server {
        enable_jit: right(a.enable_jit, b.enable_jit),
        apollo_tracing: right(a.apollo_tracing, b.apollo_tracing),
        batch_requests: right(a.batch_requests, b.batch_requests),
        headers: both(a.headers, b.headers, headers_want),
        global_response_timeout: right(a.global_response_timeout, b.global_response_timeout),
        hostname: right(a.hostname, b.hostname),
        introspection: right(a.introspection, b.introspection),
        enable_federation: right(a.enable_federation, b.enable_federation),
        pipeline_flush: right(a.pipeline_flush, b.pipeline_flush),
        port: right(a.port, b.port),
        query_validation: right(a.query_validation, b.query_validation),
        response_validation: right(a.response_validation, b.response_validation),
        script: both(a.script, b.script, |a, b| ScriptOptions { timeout: right(a.timeout, b.timeout) }),
        showcase: right(a.showcase, b.showcase),
        vars: vec![],
        version: right(a.version, b.version),
        workers: right(a.workers, b.workers),
        routes: right(a.routes, b.routes),
    }
}
fn upstream(r: &mut Rng) -> Upstream {
    let n = |r: &mut Rng| r.below(50) as u64;
    Upstream {
        on_request: r.opt(word),
        allowed_headers: r.opt(|r| r.vec(2, word).into_iter().collect()),
        batch: r.opt(batch),
        connect_timeout: r.opt(n),
        http_cache: r.opt(n),
        http2_only: r.opt(|r| r.flip()),
        keep_alive_interval: r.opt(n),
        keep_alive_timeout: r.opt(n),
        keep_alive_while_idle: r.opt(|r| r.flip()),
        pool_max_idle_per_host: r.opt(|r| r.below(50)),
        pool_idle_timeout: r.opt(n),
        proxy: r.opt(|r| Proxy { url: word(r) }),
        tcp_keep_alive: r.opt(n),
        timeout: r.opt(n),
        user_agent: r.opt(word),
        verify_ssl: r.opt(|r| r.flip()),
    }
}
fn upstream_want(a: Upstream, b: Upstream) -> Upstream {
    Upstream {
        on_request: right(a.on_request, b.on_request),
        allowed_headers: both(a.allowed_headers, b.allowed_headers, union),
        batch: both(a.batch, b.batch, batch_want),
        connect_timeout: right(a.connect_timeout, b.connect_timeout),
        http_cache: right(a.http_cache, b.http_cache),
        http2_only: right(a.http2_only, b.http2_only),
        keep_alive_interval: right(a.keep_alive_interval, b.keep_alive_interval),
        keep_alive_timeout: right(a.keep_alive_timeout, b.keep_alive_timeout),
        keep_alive_while_idle: right(a.keep_alive_while_idle, b.keep_alive_while_idle),
        pool_max_idle_per_host: right(a.pool_max_idle_per_host, b.pool_max_idle_per_host),
        pool_idle_timeout: right(a.pool_idle_timeout, b.pool_idle_timeout),
        proxy: right(a.proxy, b.proxy),
        tcp_keep_alive: right(a.tcp_keep_alive, b.tcp_keep_alive),
        timeout: right(a.timeout, b.timeout),
        user_agent: right(a.user_agent, b.user_agent),
        verify_ssl: right(a.verify_ssl, b.verify_ssl),
    }
}

fn main() {
    let mut a = Audit::start("random pairs of values of every mergeable type; nontrivial: the two sides differ");
    for _ in 0..a.iters {
        let r = &mut a.rng;
        let (x, y) = (r.opt(word), r.opt(word));
        a.eq("option", x != y, || format!("{x:?} <- {y:?}"), || x.clone().merge_right(y.clone()), || right(x.clone(), y.clone()));
        let r = &mut a.rng;
        let (x, y) = (r.vec(4, word), r.vec(4, word));
        a.eq("vec", x != y, || format!("{x:?} <- {y:?}"), || x.clone().merge_right(y.clone()), || cat(x.clone(), y.clone()));
        let (bx, by): (BTreeSet<_>, BTreeSet<_>) = (x.iter().cloned().collect(), y.iter().cloned().collect());
        a.eq("btree-set", bx != by, || format!("{bx:?} <- {by:?}"), || bx.clone().merge_right(by.clone()), || union(bx.clone(), by.clone()));
        let (hx, hy): (HashSet<_>, HashSet<_>) = (x.iter().cloned().collect(), y.iter().cloned().collect());
        a.eq("hash-set", hx != hy, || format!("{bx:?} <- {by:?}"), || hx.clone().merge_right(hy.clone()), || hx.union(&hy).cloned().collect());
        // maps of lists: an entry both sides have is merged, not replaced
        let r = &mut a.rng;
        let mut m = |r: &mut Rng| r.vec(5, |r| (word(r), r.vec(2, word))).into_iter().collect::<IndexMap<_, _>>();
        let (x, y) = (m(r), m(r));
        let mut want = x.clone();
        for (k, v) in &y {
            want.entry(k.clone()).or_default().extend(v.clone());
        }
        let inp = || format!("{x:?} <- {y:?}");
        let seq = |m: IndexMap<String, Vec<String>>| m.into_iter().collect::<Vec<_>>();
        a.eq("index-map", x != y, inp, || seq(x.clone().merge_right(y.clone())), || seq(want.clone()));
        let t = |m: &IndexMap<String, Vec<String>>| m.clone().into_iter().collect::<BTreeMap<_, _>>();
        a.eq("btree-map", x != y, inp, || t(&x).merge_right(t(&y)), || t(&want));
        let h = |m: &IndexMap<String, Vec<String>>| m.clone().into_iter().collect::<HashMap<_, _>>();
        a.eq("hash-map", x != y, inp, || h(&x).merge_right(h(&y)), || h(&want));
        let r = &mut a.rng;
        let (x, y) = (cv(r, 3), cv(r, 3));
        // (insertion order of object keys counts)
        a.eq("graphql-value", x != y, || format!("{x} <- {y}"), || x.clone().merge_right(y.clone()).to_string(), || cv_want(x.clone(), y.clone()).to_string());
        let r = &mut a.rng;
        let (x, y) = (yaml(r, 3), yaml(r, 3));
        a.eq("yaml-value", x != y, || format!("{x:?} <- {y:?}"), || x.clone().merge_right(y.clone()), || yaml_want(x.clone(), y.clone()));
        let r = &mut a.rng;
        let (x, y) = (r.vec(4, kv), r.vec(4, kv));
        a.case("vars", x != y, || format!("{x:?} <- {y:?}"), || kvs_ok(&x, &y, &merge_key_value_vecs(&x, &y)));
        let r = &mut a.rng;
        let (x, y) = (server(r), server(r));
        a.case("server", x != y, || format!("{x:?} <- {y:?}"), || {
            let mut got = x.clone().merge_right(y.clone());
            kvs_ok(&x.vars, &y.vars, &got.vars)?;
            got.vars = vec![];
            same("server", got, server_want(x.clone(), y.clone()))
        });
        let r = &mut a.rng;
        let (x, y) = (upstream(r), upstream(r));
        a.eq("upstream", x != y, || format!("{x:?} <- {y:?}"), || x.clone().merge_right(y.clone()), || upstream_want(x.clone(), y.clone()));
        let r = &mut a.rng;
        let (x, y) = (r.vec(2, word).into_iter().collect::<BTreeSet<_>>(), r.vec(2, word).into_iter().collect::<BTreeSet<_>>());
        a.eq("alias", x != y, || format!("{x:?} <- {y:?}"), || Alias { options: x.clone() }.merge_right(Alias { options: y.clone() }), || Alias { options: union(x.clone(), y.clone()) });
        let r = &mut a.rng;
        let (x, y) = (NonZeroU64::new(1 + r.u64() % 9).unwrap(), NonZeroU64::new(1 + r.u64() % 9).unwrap());
        a.eq("cache", x != y, || format!("{x:?} <- {y:?}"), || Cache { max_age: x }.merge_right(Cache { max_age: y }), || Cache { max_age: y });
        let r = &mut a.rng;
        let (x, y) = (Modify { name: r.opt(word), omit: r.opt(|r| r.flip()) }, Modify { name: r.opt(word), omit: r.opt(|r| r.flip()) });
        a.eq("modify", x != y, || format!("{x:?} <- {y:?}"), || x.clone().merge_right(y.clone()), || Modify { name: right(x.name.clone(), y.name.clone()), omit: right(x.omit, y.omit) });
        let r = &mut a.rng;
        let (x, y) = (r.opt(|r| r.vec(2, word)), r.opt(|r| r.vec(2, word)));
        a.eq("protected", x != y, || format!("{x:?} <- {y:?}"), || Protected { id: x.clone() }.merge_right(Protected { id: y.clone() }), || Protected { id: both(x.clone(), y.clone(), cat) });
        let r = &mut a.rng;
        let (x, y) = (r.opt(word), r.opt(word));
        a.eq("discriminate", x != y, || format!("{x:?} <- {y:?}"), || Discriminate { field: x.clone() }.merge_right(Discriminate { field: y.clone() }), || Discriminate { field: right(x.clone(), y.clone()) });
    }
    a.finish();
}
