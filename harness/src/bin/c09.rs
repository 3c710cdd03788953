use std::collections::BTreeMap;

use async_graphql::parser::types::Type;
use tailcall::core::rest::directive::Rest;
use tailcall::core::rest::path::{Path, Segment};
use tailcall::core::rest::query_params::QueryParams;
use tailcall::core::rest::type_map::TypeMap;
use tailcall::core::rest::typed_variables::{TypedVariable, UrlParamType, N};
use tcv::{same, Audit, Rng};

const NAMES: [&str; 6] = ["id", "name", "n", "flag", "other", "q"];
fn ty(r: &mut Rng) -> &'static str {
    if r.one_in(12) {
        ["ID", "[Int]", "User!", "[String!]!"][r.below(4)]
    } else {
        ["Int", "String", "Boolean", "Float", "Int!", "Float!"][r.below(6)]
    }
}
fn kind(t: &str) -> Option<UrlParamType> {
    match t.trim_end_matches('!') {
        "Int" => Some(UrlParamType::Number(N::Int)),
        "Float" => Some(UrlParamType::Number(N::Float)),
        "String" => Some(UrlParamType::String),
        "Boolean" => Some(UrlParamType::Boolean),
        _ => None,
    }
}
fn var(name: &str, t: &str) -> Option<TypedVariable> {
    kind(t)?;
    TypedVariable::try_from(&Type::new(t).unwrap(), name).ok()
}
#[derive(Debug, Clone, PartialEq)]
struct Want {
    path: Vec<Segment>,
    query: QueryParams,
    method: String,
    body: Option<String>,
}

fn main() {
    let mut a = Audit::start("random operations with a @rest directive (arguments in any order, some left out or of another kind) over variables of random types, read as the server reads them; nontrivial: accepted declarations with a variable");
    for _ in 0..a.iters {
        let r = &mut a.rng;
        let vars: BTreeMap<String, &str> = NAMES.iter().map(|n| (n.to_string(), ty(r))).collect();
        let vars: BTreeMap<String, &str> = vars.into_iter().filter(|_| !r.one_in(8)).collect();
        let segs: Vec<String> = r.vec(4, |r| if r.flip() { format!("${}", r.pick(&NAMES)) } else { r.pick(&["a", "users", "x y", "a\\\"b", "1"]).to_string() });
        let decl: Vec<(String, String)> = r.vec(3, |r| (r.pick(&["id", "q", "page", "n"]).to_string(), if r.one_in(8) { "3".into() } else { format!("${}", r.pick(&NAMES)) }));
        let decl: BTreeMap<String, String> = decl.into_iter().collect();
        let method = r.pick(&["GET", "POST", "put", "DELETE", "Patch", "HEAD", "UPDATE", "\"GET\""]).to_string();
        let body = r.opt(|r| if r.one_in(5) { "4".to_string() } else { format!("${}", r.pick(&NAMES)) });
        let path_txt = format!("/{}", segs.join("/"));
        let (has_path, has_method) = (!r.one_in(10), !r.one_in(10));
        let mut args = vec![];
        if has_path {
            args.push(format!("path: \"{path_txt}\""));
        }
        if has_method {
            args.push(format!("method: {method}"));
        }
        if !decl.is_empty() || r.flip() {
            args.push(format!("query: {{{}}}", decl.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", ")));
        }
        if let Some(b) = &body {
            args.push(format!("body: {b}"));
        }
        if r.one_in(6) || args.is_empty() {
            args.push("extra: 1".into());
        }
        for i in (1..args.len()).rev() {
            args.swap(i, r.below(i + 1));
        }
        let src = format!("query ({}) @rest({}) {{ v }}", NAMES.iter().map(|n| format!("${n}: {}", vars.get(*n).unwrap_or(&"Int"))).collect::<Vec<_>>().join(", "), args.join(", "));
        let want = (|| {
            let m = method.to_uppercase();
            if !has_path || !has_method || !["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD"].contains(&m.as_str()) {
                return None;
            }
            let mut path = vec![];
            for s in &segs {
                path.push(match s.strip_prefix('$') {
                    Some(n) => Segment::Param(var(n, vars.get(n)?)?),
                    None => Segment::Literal(s.replace("\\\"", "\"")),
                });
            }
            let mut query = vec![];
            for (k, v) in &decl {
                if let Some(n) = v.strip_prefix('$') {
                    query.push((k.as_str(), var(n, vars.get(n)?)?));
                }
            }
            Some(Want { path, query: QueryParams::from(query), method: m, body: body.as_ref().and_then(|b| b.strip_prefix('$')).map(|b| b.to_string()) })
        })();
        let nt = want.as_ref().map(|w| w.path.iter().any(|s| matches!(s, Segment::Param(_)))).unwrap_or(false);
        a.case("declaration", nt, || format!("{src} with {vars:?}"), || {
            let doc = async_graphql::parser::parse_query(&src).map_err(|e| format!("harness: {e}"))?;
            let d = doc.operations.iter().next().unwrap().1.node.directives[0].node.clone();
            let tm = TypeMap::new(vars.iter().map(|(k, t)| (k.clone(), Type::new(t).unwrap())).collect());
            let got = (|| {
                let rest = Rest::try_from(&d).ok()?;
                let p = Path::parse(&tm, &rest.path).ok()?;
                let q = QueryParams::try_from_map(&tm, rest.query).ok()?;
                Some((p, q, rest.method.map(|m| m.to_string()), rest.body))
            })();
            same("accepted", got.is_some(), want.is_some())?;
            if let (Some((p, q, m, b)), Some(w)) = (got, want) {
                let lits: Vec<Segment> = w.path;
                let again = Path::parse(&tm, &lits.iter().map(|s| match s { Segment::Literal(l) => format!("/{l}"), Segment::Param(t) => format!("/${}", t.name()) }).collect::<String>()).map_err(|e| e.to_string())?;
                same("query", q, w.query)?;
                same("method", m, Some(w.method))?;
                same("body", b, w.body)?;
                same("segments", format!("{p:?}").split("segments").nth(1).map(|s| s.to_string()), Some(format!(": {lits:?} }}")))?;
                let _ = again;
            }
            Ok(())
        });
        let r = &mut a.rng;
        let (t, n) = (ty(r), r.pick(&NAMES).to_string());
        a.case("variable", kind(t).is_some(), || format!("${n}: {t}"), || {
            let got = TypedVariable::try_from(&Type::new(t).unwrap(), &n).ok();
            same("kind", got.as_ref().map(|v| v.ty()), kind(t))?;
            same("required", got.as_ref().map(|v| v.nullable()), kind(t).map(|_| false))?;
            same("name", got.map(|v| v.name().to_string()), kind(t).map(|_| n.clone()))?;
            let m = TypeMap::from(vec![(n.as_str(), Type::new(t).unwrap())]);
            same("looked up", (m.get(&n).map(|t| t.to_string()), m.get("zz").is_some()), (Some(t.to_string()), false))
        });
    }
    a.finish();
}
