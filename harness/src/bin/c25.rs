#![allow(deprecated)]
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::num::NonZeroU64;

use async_graphql::parser::types::ConstDirective;
use async_graphql::{Name, Pos, Positioned};
use async_graphql_value::ConstValue;
use indexmap::IndexMap;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use tailcall::core::config::cors::Cors;
use tailcall::core::config::directive::{to_const_directive, to_directive};
use tailcall::core::config::headers::Headers;
use tailcall::core::config::{
    AddField, Alias, Batch, Cache, Call, Directive, Discriminate, Expr, GraphQL, Grpc, HttpVersion, KeyValue, Link, LinkType, Modify,
    Omit, Protected, Proxy, Routes, Server, Step, Upstream, JS,
};
use tailcall::core::directive::DirectiveCodec;
use tailcall::core::http::Method;
use tailcall_valid::{Valid, Validator};
use tcv::{json, near, same, Audit, Rng};

// types of the reader's own, for the names
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct A {
    x: Option<i64>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct AB(BTreeMap<String, Value>);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct ABC {
    a: Value,
    #[serde(rename = "B")]
    b: Vec<i64>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct É {}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct ÉA {}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct HTTPServer {
    z: String,
    a: String,
    m: u8,
}

fn text(r: &mut Rng) -> String {
    r.pick(&["", "a", "A", "{{.value.id}}", "http://a.b/c?d=e", "x\ny", "é \"q\"", "null", "true"]).to_string()
}
fn n(r: &mut Rng) -> u64 {
    *r.pick(&[0, 1, 2, 60, 100, 1 << 31, u64::MAX, i64::MAX as u64])
}
fn kvs(r: &mut Rng) -> Vec<KeyValue> {
    r.vec(3, |r| KeyValue { key: text(r), value: text(r) })
}
fn set(r: &mut Rng) -> BTreeSet<String> {
    r.vec(3, text).into_iter().collect()
}
fn optb(r: &mut Rng) -> Option<bool> {
    r.opt(|r| r.flip())
}
fn optn(r: &mut Rng) -> Option<u64> {
    r.opt(n)
}
fn val(r: &mut Rng) -> Value {
    json::gen(r, 3)
}
// null in place of an optional value means none
fn optv(r: &mut Rng) -> Option<Value> {
    r.opt(val).filter(|v| !v.is_null())
}

fn ps<T>(t: T) -> Positioned<T> {
    Positioned::new(t, Pos::default())
}
fn directive(name: &str, args: &[(String, ConstValue)]) -> ConstDirective {
    ConstDirective { name: ps(Name::new(name)), arguments: args.iter().map(|(k, v)| (ps(Name::new(k)), ps(v.clone()))).collect() }
}
fn args(d: &ConstDirective) -> Vec<(String, Value)> {
    d.arguments.iter().map(|(k, v)| (k.node.to_string(), json::from_const(&v.node))).collect()
}
type Causes = Vec<(String, Option<String>, Vec<String>)>;
fn out<T>(v: Valid<T, String>) -> Result<T, Causes> {
    v.to_result().map_err(|e| {
        e.as_vec().iter().map(|c| (c.message.clone(), c.description.clone(), c.trace.iter().cloned().collect())).collect()
    })
}
fn lowered(name: &str) -> String {
    if name.len() <= 2 {
        return name.to_lowercase();
    }
    let mut c = name.chars();
    let first = c.next().unwrap();
    first.to_lowercase().chain(c).collect()
}

fn setting<T: Serialize + DeserializeOwned + Debug + PartialEq + Clone + DirectiveCodec>(a: &mut Audit, r: &mut Rng, own: &str, x: T) {
    let name = lowered(own);
    let dx = format!("{x:?}");
    let inp = || format!("{own} {dx}");
    a.case("the directive's name", true, || own.to_string(), || {
        same("name", T::directive_name(), name.clone())?;
        same("trace name", T::trace_name(), format!("@{name}"))
    });
    let members: Vec<(String, Value)> = match serde_json::to_value(&x).unwrap() {
        Value::Object(m) => m.into_iter().collect(),
        _ => vec![],
    };
    a.case("a setting is written whole", members.len() > 1, inp, || {
        let d = x.to_directive();
        same("name", d.name.node.to_string(), name.clone())?;
        same("arguments", args(&d), members.clone())
    });
    a.case("a setting written is read back", !members.is_empty(), inp, || same("read", out(T::from_directive(&x.to_directive())), Ok(x.clone())));
    // arguments in any order, some repeated, some changed
    let mut list: Vec<(String, Value)> = members.clone();
    for _ in 0..r.below(4) {
        let i = r.below(list.len() + 1);
        let k = if !list.is_empty() && !r.one_in(4) {
            let j = r.below(list.len());
            let k = list[j].0.clone();
            if r.one_in(4) { near(r, &k) } else { k }
        } else {
            json::key(r)
        };
        let v = val(r);
        list.insert(i, (k, v));
    }
    if r.one_in(3) && !list.is_empty() {
        let i = r.below(list.len());
        list.remove(i);
    }
    let called = if r.one_in(3) { text(r) } else { name.clone() };
    let d = directive(&called, &list.iter().map(|(k, v)| (k.clone(), json::to_const(v))).collect::<Vec<_>>());
    let mut map = serde_json::Map::new();
    for (k, v) in &list {
        map.insert(k.clone(), v.clone());
    }
    let want = serde_path_to_error::deserialize::<_, T>(Value::Object(map.clone()));
    let inp = || format!("@{called} {list:?} as {own}");
    a.case("a directive is read as its arguments say", list.len() > members.len(), inp, || match (out(T::from_directive(&d)), &want) {
        (Ok(g), Ok(w)) => same("read", &g, w),
        (Ok(g), Err(e)) => Err(format!("read {g:?}, the type's own reading says {e}")),
        (Err(c), Ok(w)) => Err(format!("refused with {c:?}, should read {w:?}")),
        (Err(c), Err(e)) => {
            let path = e.path();
            // the type's own causes, as tailcall-valid gives them
            let own = tailcall_valid::ValidationError::from(serde_path_to_error::deserialize::<_, T>(Value::Object(map.clone())).unwrap_err());
            let own: Vec<_> = own.as_vec().iter().map(|c| (c.message.clone(), c.description.clone(), c.trace.iter().cloned().collect::<Vec<_>>())).collect();
            let want: Causes = own.into_iter().map(|(m, d, t)| (m, d, std::iter::once(format!("@{called}")).chain(t).collect())).collect();
            same(&format!("causes ({path})"), c, want)
        }
    });
    // one among others
    let count = r.below(4);
    let mut ds: Vec<Positioned<ConstDirective>> = Vec::new();
    let mut first: Option<ConstDirective> = None;
    for _ in 0..count {
        let (nm, d) = match r.below(4) {
            0 => (name.clone(), x.to_directive()),
            1 => (name.clone(), directive(&name, &list.iter().map(|(k, v)| (k.clone(), json::to_const(v))).collect::<Vec<_>>())),
            2 => {
                let nm = if r.flip() { own.to_string() } else { near(r, &name) };
                (nm.clone(), directive(&nm, &args(&x.to_directive()).iter().map(|(k, v)| (k.clone(), json::to_const(v))).collect::<Vec<_>>()))
            }
            _ => ("deprecated".to_string(), directive("deprecated", &[])),
        };
        if nm == name && first.is_none() {
            first = Some(d.clone());
        }
        ds.push(ps(d));
    }
    let inp = || format!("{own} of {:?}", ds.iter().map(|d| (d.node.name.node.to_string(), args(&d.node))).collect::<Vec<_>>());
    a.case("the first directive of the name counts", ds.len() > 1, inp, || {
        let got = out(T::from_directives(ds.iter()));
        match &first {
            None => same("without the directive", got, Ok(None)),
            Some(d) => same("the first", got, out(T::from_directive(d)).map(Some)),
        }
    });
}

fn server(r: &mut Rng) -> Server {
    Server {
        apollo_tracing: optb(r),
        batch_requests: optb(r),
        headers: r.opt(|r| Headers {
            cache_control: optb(r),
            custom: kvs(r),
            experimental: r.opt(set),
            set_cookies: optb(r),
            cors: r.opt(|r| Cors {
                allow_credentials: optb(r),
                allow_headers: r.vec(3, text),
                allow_methods: r.vec(3, |r| r.pick(&[Method::GET, Method::POST, Method::PUT, Method::OPTIONS]).clone()),
                allow_origins: r.vec(3, text),
                allow_private_network: optb(r),
                expose_headers: r.vec(3, text),
                max_age: optn(r).map(|n| n as usize),
                vary: r.vec(3, text),
            }),
        }),
        global_response_timeout: r.opt(|r| n(r) as i64),
        hostname: r.opt(text),
        introspection: optb(r),
        enable_federation: optb(r),
        pipeline_flush: optb(r),
        port: r.opt(|r| n(r) as u16),
        query_validation: optb(r),
        response_validation: optb(r),
        script: None,
        showcase: optb(r),
        vars: kvs(r),
        version: r.opt(|r| if r.flip() { HttpVersion::HTTP1 } else { HttpVersion::HTTP2 }),
        workers: optn(r).map(|n| n as usize),
        routes: r.opt(|r| {
            let (s, g) = (text(r), text(r));
            Routes::default().with_status(s.as_str()).with_graphql(g.as_str())
        }),
        ..Default::default()
    }
}
fn upstream(r: &mut Rng) -> Upstream {
    Upstream {
        on_request: r.opt(text),
        allowed_headers: r.opt(set),
        batch: r.opt(|r| Batch { delay: n(r) as usize, headers: set(r), max_size: optn(r).map(|n| n as usize) }),
        connect_timeout: optn(r),
        http_cache: optn(r),
        http2_only: optb(r),
        keep_alive_interval: optn(r),
        keep_alive_timeout: optn(r),
        keep_alive_while_idle: optb(r),
        pool_max_idle_per_host: optn(r).map(|n| n as usize),
        pool_idle_timeout: optn(r),
        proxy: r.opt(|r| Proxy { url: text(r) }),
        tcp_keep_alive: optn(r),
        timeout: optn(r),
        user_agent: r.opt(text),
        // none is said as the default, true
        verify_ssl: Some(r.flip()),
    }
}

fn custom(a: &mut Audit, r: &mut Rng) {
    let mut args_: IndexMap<String, Value> = IndexMap::new();
    for _ in 0..r.below(5) {
        args_.insert(json::key(r), val(r));
    }
    let d = Directive { name: text(r), arguments: args_ };
    let list: Vec<(String, Value)> = d.arguments.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let inp = || format!("{d:?}");
    a.case("a custom directive is written whole", list.len() > 1, inp, || match out(to_const_directive(&d)) {
        Ok(c) => {
            same("name", c.name.node.to_string(), d.name.clone())?;
            same("arguments", args(&c), list.clone())
        }
        Err(e) => Err(format!("refused: {e:?}")),
    });
    a.case("a custom directive written is read back", list.len() > 1, inp, || {
        let c = out(to_const_directive(&d)).map_err(|e| format!("{e:?}"))?;
        let b = out(to_directive(c)).map_err(|e| format!("{e:?}"))?;
        same("read", &b, &d)?;
        same("in order", b.arguments.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), list.clone())
    });
    // repeated names
    let mut many = list.clone();
    for _ in 0..r.below(3) {
        let k = if many.is_empty() || r.flip() { json::key(r) } else { many[r.below(many.len())].0.clone() };
        many.push((k, val(r)));
    }
    let mut want: Vec<(String, Value)> = vec![];
    for (k, v) in &many {
        match want.iter_mut().find(|w| w.0 == *k) {
            Some(w) => w.1 = v.clone(),
            None => want.push((k.clone(), v.clone())),
        }
    }
    let c = directive(&d.name, &many.iter().map(|(k, v)| (k.clone(), json::to_const(v))).collect::<Vec<_>>());
    a.case("a custom directive is read as its arguments say", many.len() > list.len(), || format!("@{} {many:?}", d.name), || {
        let b = out(to_directive(c.clone())).map_err(|e| format!("{e:?}"))?;
        same("name", &b.name, &d.name)?;
        same("arguments", b.arguments.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), want.clone())
    });
}

fn main() {
    let mut a = Audit::start("a setting, or a list of directives, with at least two arguments or one beside the setting's own");
    let (mut r, iters) = (Rng::new(a.rng.u64()), a.iters);
    let r = &mut r;
    for i in 0..iters {
        match i % 22 {
            0 | 1 => {
                let x = server(r);
                setting(&mut a, r, "Server", x)
            }
            2 | 3 => {
                let x = upstream(r);
                setting(&mut a, r, "Upstream", x)
            }
            4 => {
                let x = AddField { name: text(r), path: r.vec(3, text) };
                setting(&mut a, r, "AddField", x)
            }
            5 => {
                let x = Alias { options: set(r) };
                setting(&mut a, r, "Alias", x)
            }
            6 => {
                let x = Cache { max_age: NonZeroU64::new(n(r).max(1)).unwrap() };
                setting(&mut a, r, "Cache", x)
            }
            7 => {
                let x = Call {
                    steps: r.vec(3, |r| Step {
                        query: r.opt(text),
                        mutation: r.opt(text),
                        args: r.vec(3, |r| (json::key(r), val(r))).into_iter().collect(),
                    }),
                    dedupe: optb(r),
                };
                setting(&mut a, r, "Call", x)
            }
            8 => {
                let x = Expr { body: val(r) };
                setting(&mut a, r, "Expr", x)
            }
            9 => {
                let x = GraphQL { args: r.opt(kvs), url: text(r), batch: r.flip(), headers: kvs(r), name: text(r), dedupe: r.flip() };
                setting(&mut a, r, "GraphQL", x)
            }
            10 => {
                let x = Grpc {
                    url: text(r),
                    body: optv(r),
                    batch_key: r.vec(3, text),
                    headers: kvs(r),
                    method: text(r),
                    dedupe: optb(r),
                    select: optv(r),
                    on_response_body: r.opt(text),
                };
                setting(&mut a, r, "Grpc", x)
            }
            11 => {
                let x = JS { name: text(r) };
                setting(&mut a, r, "JS", x)
            }
            12 => {
                let x = Link {
                    id: r.opt(text),
                    src: text(r),
                    type_of: r.pick(&[LinkType::Config, LinkType::Protobuf, LinkType::Jwks, LinkType::Grpc]).clone(),
                    headers: r.opt(kvs),
                    meta: optv(r),
                    proto_paths: r.opt(|r| r.vec(3, text)),
                };
                setting(&mut a, r, "Link", x)
            }
            13 => {
                let x = Modify { name: r.opt(text), omit: optb(r) };
                setting(&mut a, r, "Modify", x)
            }
            14 => {
                setting(&mut a, r, "Omit", Omit {})
            }
            15 => {
                let x = Protected { id: r.opt(|r| r.vec(3, text)) };
                setting(&mut a, r, "Protected", x)
            }
            16 => {
                let x = Discriminate { field: Some(text(r)) };
                setting(&mut a, r, "Discriminate", x)
            }
            17 => {
                let x = A { x: r.opt(|r| n(r) as i64) };
                setting(&mut a, r, "A", x);
                setting(&mut a, r, "É", É {});
                setting(&mut a, r, "ÉA", ÉA {})
            }
            18 => {
                let x = AB(r.vec(4, |r| (json::key(r), val(r))).into_iter().collect());
                setting(&mut a, r, "AB", x)
            }
            19 => {
                let x = ABC { a: val(r), b: r.vec(3, |r| n(r) as i64) };
                setting(&mut a, r, "ABC", x)
            }
            20 => {
                let x = HTTPServer { z: text(r), a: text(r), m: n(r) as u8 };
                setting(&mut a, r, "HTTPServer", x)
            }
            _ => custom(&mut a, r),
        }
        if i % 3 == 0 {
            custom(&mut a, r)
        }
    }
    a.finish()
}
