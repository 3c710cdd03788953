use std::collections::BTreeMap;

use async_graphql::parser::types::Type;
use async_graphql_value::{ConstValue, Variables};
use tailcall::core::rest::path::Path;
use tailcall::core::rest::query_params::QueryParams;
use tailcall::core::rest::type_map::TypeMap;
use tailcall::core::rest::typed_variables::TypedVariable;
use tcv::{near, same, Audit, Rng};

const KINDS: [&str; 6] = ["Int", "String", "Boolean", "Float", "Int!", "String!"];
fn types(r: &mut Rng) -> BTreeMap<String, String> {
    ["id", "name", "n", "flag", "x-y", "Ü"].iter().map(|k| (k.to_string(), r.pick(&KINDS).to_string())).collect()
}
fn map(t: &BTreeMap<String, String>) -> TypeMap {
    TypeMap::new(t.iter().map(|(k, v)| (k.clone(), Type::new(v).unwrap())).collect())
}
/// the value a text stands for, if it is one of that type
fn value(kind: &str, s: &str) -> Option<ConstValue> {
    match kind.trim_end_matches('!') {
        "Int" => s.parse::<i64>().ok().map(|i| ConstValue::Number(i.into())),
        "Float" => s.parse::<f64>().ok().map(|f| serde_json::Number::from_f64(f).map(ConstValue::Number).unwrap_or(ConstValue::Null)),
        "Boolean" => match s {
            "true" => Some(ConstValue::Boolean(true)),
            "false" => Some(ConstValue::Boolean(false)),
            _ => None,
        },
        _ => Some(ConstValue::String(s.into())),
    }
}
fn text(r: &mut Rng) -> String {
    if r.one_in(4) {
        // any segment: digits, signs, points, letters of either case, blanks
        let n = 1 + r.below(12);
        return (0..n).map(|_| *r.pick(&['0', '1', '9', '-', '+', '.', 'e', 'E', 'a', 'Z', ' ', 'é', '_', '%', '{', '"', ',', ':'])).collect();
    }
    r.pick(&["1", "-7", "0", "true", "false", "a", "users", "1.25", "9223372036854775807", "9223372036854775808", "1e3", "posts", "Ü", "True", " 1", "+4", "$id", "%20", "a.b", "null", "TRUE", "False", "yes", "NaN", "inf", "-0", "007", "0x1f", "1_000", "-9223372036854775808", "1.", ".5", "{}", "Users", "USERS"]).to_string()
}
fn good(r: &mut Rng, kind: &str) -> String {
    match kind.trim_end_matches('!') {
        "Int" => r.below(1000).to_string(),
        "Float" => match r.below(4) { 0 => format!("{}.{}", r.below(100000), r.below(100000)), 1 => format!("-0.{}", r.below(1 << 40)), 2 => format!("{}e{}", r.below(1 << 40), r.below(30)), _ => format!("{}.5", r.below(100)) },
        "Boolean" => r.flip().to_string(),
        _ => text(r),
    }
}
fn slashes(r: &mut Rng, segs: &[String]) -> String {
    let mut s = String::new();
    for x in segs {
        s.push_str(if r.one_in(8) { "//" } else { "/" });
        s.push_str(x);
    }
    if r.one_in(3) {
        s.push('/');
    }
    s
}
fn show(v: Option<Variables>) -> Option<BTreeMap<String, ConstValue>> {
    v.map(|v| v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

fn main() {
    let mut a = Audit::start("random path patterns and query declarations over six typed variables, and request paths and queries that fit them, nearly fit (one segment more, fewer or changed) or do not; nontrivial: a match that binds a variable");
    for _ in 0..a.iters {
        let r = &mut a.rng;
        let ty = types(r);
        let names: Vec<String> = ty.keys().cloned().collect();
        let pat: Vec<String> = r.vec(5, |r| if r.flip() { format!("${}", r.pick(&names)) } else { r.pick(&["users", "a", "1", "posts", "Ü"]).to_string() });
        let pattern = slashes(r, &pat);
        let mut req: Vec<String> = pat.iter().map(|p| match p.strip_prefix('$') {
            Some(n) => good(r, &ty[n]),
            None => p.clone(),
        }).collect();
        match r.below(6) {
            0 if !req.is_empty() => {
                let i = r.below(req.len());
                let t = near(r, &req[i].clone());
                req[i] = if r.flip() || t.is_empty() || t.contains('/') { text(r) } else { t };
            }
            1 if !req.is_empty() => {
                req.pop();
            }
            2 => req.push(text(r)),
            3 if !req.is_empty() => {
                let n = r.below(req.len());
                req.truncate(n)
            }
            _ => {}
        }
        let path = slashes(r, &req);
        let mut want: Option<BTreeMap<String, ConstValue>> = Some(BTreeMap::new());
        if pat.len() != req.len() {
            want = None;
        }
        for (p, s) in pat.iter().zip(&req) {
            match p.strip_prefix('$') {
                None => {
                    if p != s {
                        want = None
                    }
                }
                Some(n) => match value(&ty[n], s) {
                    None => want = None,
                    Some(v) => {
                        if let Some(w) = &mut want {
                            w.insert(n.to_string(), v);
                        }
                    }
                },
            }
        }
        let binds = want.as_ref().map(|w| !w.is_empty()).unwrap_or(false);
        a.case("path", binds, || format!("{pattern} against {path} with {ty:?}"), || {
            let p = Path::parse(&map(&ty), &pattern).map_err(|e| e.to_string())?;
            same("pattern", p.as_str().to_string(), pattern.clone())?;
            same("variables", show(p.matches(&path)), want)
        });

        let r = &mut a.rng;
        let decl: BTreeMap<String, String> = r.vec(4, |r| (r.pick(&["id", "q", "name", "page", "n"]).to_string(), r.pick(&names).clone())).into_iter().collect();
        let query: BTreeMap<String, String> = r
            .vec(5, |r| {
                let k = r.pick(&["id", "q", "name", "page", "n", "other"]).to_string();
                let v = match decl.get(&k) {
                    Some(n) if !r.one_in(4) => good(r, &ty[n]),
                    Some(n) if r.one_in(3) => {
                        let g = good(r, &ty[n]);
                        near(r, &g)
                    }
                    _ if r.one_in(4) => String::new(),
                    _ if r.one_in(6) => format!("{}/{}", text(r), text(r)),
                    _ => text(r),
                };
                (k, v)
            })
            .into_iter()
            .collect();
        let mut want: Option<BTreeMap<String, ConstValue>> = Some(BTreeMap::new());
        for (k, n) in &decl {
            if let Some(s) = query.get(k) {
                match value(&ty[n], s) {
                    None => want = None,
                    Some(v) => {
                        if let Some(w) = &mut want {
                            w.insert(n.clone(), v);
                        }
                    }
                }
            }
        }
        let binds = want.as_ref().map(|w| !w.is_empty()).unwrap_or(false);
        a.case("query", binds, || format!("{decl:?} against {query:?} with {ty:?}"), || {
            let q = QueryParams::try_from_map(&map(&ty), decl.clone()).map_err(|e| e.to_string())?;
            same("variables", show(q.matches(query.clone())), want)
        });
        let r = &mut a.rng;
        let (k, s) = (r.pick(&KINDS).to_string(), if r.one_in(12) { String::new() } else { text(r) });
        a.case("value", true, || format!("{s:?} as {k}"), || {
            let t = TypedVariable::try_from(&Type::new(&k).unwrap(), "v").map_err(|e| e.to_string())?;
            same("value", t.to_value(&s).ok(), value(&k, &s))
        });
    }
    a.finish();
}
