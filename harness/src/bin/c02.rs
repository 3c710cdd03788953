use std::collections::{BTreeMap, HashMap};

use serde_json::Value;
use tailcall::core::config::group_by::GroupBy;
use tailcall::core::json::JsonLike;
use tcv::json::*;
use tcv::{same, Audit, Rng};

fn keyed(r: &mut Rng, path: &[String], depth: usize) -> Value {
    if path.is_empty() {
        return match r.below(4) {
            0 => num(r),
            1 => Value::String(text(r)),
            2 => gen(r, 1),
            _ => Value::Number(r.below(3).into()),
        };
    }
    if depth > 0 && r.one_in(3) {
        return Value::Array(r.vec(4, |r| keyed(r, path, depth - 1)));
    }
    let mut m = serde_json::Map::new();
    m.insert("n".into(), Value::from(r.below(100000)));
    if !r.one_in(6) {
        m.insert(path[0].clone(), keyed(r, &path[1..], depth));
    }
    Value::Object(m)
}
/// (text of the key, the object that holds it), in document order
fn oracle(v: &Value, path: &[String], out: &mut Vec<(Option<String>, Value)>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| oracle(x, path, out)),
        Value::Object(m) => {
            if let Some((k, t)) = path.split_first() {
                if let Some(x) = m.get(k) {
                    if t.is_empty() {
                        let key = match x {
                            Value::String(s) => Some(s.clone()),
                            // i64 and u64 print exactly
                            Value::Number(n) if n.is_i64() || n.is_u64() => Some(n.to_string()),
                            Value::Number(n) => n.as_f64().map(|f| f.to_string()),
                            _ => None,
                        };
                        out.push((key, v.clone()))
                    } else {
                        oracle(x, t, out)
                    }
                }
            }
        }
        _ => {}
    }
}
fn plain<T>(m: HashMap<String, Vec<&T>>, f: impl Fn(&T) -> Value) -> BTreeMap<String, Vec<Value>> {
    m.into_iter().map(|(k, v)| (k, v.into_iter().map(&f).collect())).collect()
}

fn main() {
    let mut a = Audit::start("random responses with keys at a random path, arrays nested on the way, keys of every kind (integers beyond 2^53 included), in each of the four JSON representations; random group-by settings; nontrivial: a group with two members or more");
    for i in 0..a.iters {
        let path: Vec<String> = {
            let n = if a.rng.one_in(8) { 0 } else { 1 + a.rng.below(3) };
            (0..n).map(|_| a.rng.pick(&["id", "user", "a", "1"]).to_string()).collect()
        };
        let v = if a.rng.one_in(6) { gen(&mut a.rng, 4) } else { Value::Array((0..a.rng.below(6)).map(|_| keyed(&mut a.rng, &path, 2)).collect()) };
        let mut pairs = vec![];
        oracle(&v, &path, &mut pairs);
        let mut want: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for (k, o) in pairs {
            if let Some(k) = k {
                want.entry(k).or_default().push(o);
            }
        }
        let deep = want.values().any(|g| g.len() > 1);
        let key = ["serde_json", "serde_json_borrow", "const_value", "value"][i % 4];
        a.case(key, deep, || format!("path {path:?} of {v}"), || {
            let got = match i % 4 {
                0 => plain(v.group_by(&path), |x: &Value| x.clone()),
                1 => {
                    let s = v.to_string();
                    let b: serde_json_borrow::Value = serde_json::from_str(&s).unwrap();
                    plain(b.group_by(&path), |x| from_borrow(x))
                }
                2 => plain(to_const(&v).group_by(&path), from_const),
                _ => plain(to_gvalue(&v).group_by(&path), from_gvalue),
            };
            same("groups", got, want)
        });
        if i % 8 == 0 {
            let k = a.rng.opt(text);
            let (p, k2) = (path.clone(), k.clone());
            a.case("settings", !path.is_empty(), || format!("path {p:?} key {k2:?}"), || {
                let g = GroupBy::new(path.clone(), k.clone());
                let wp = if path.is_empty() { vec!["id".to_string()] } else { path.clone() };
                same("path", g.path(), wp.clone())?;
                same("key", g.key().to_string(), k.clone().unwrap_or(wp.last().unwrap().clone()))?;
                let d = GroupBy::default();
                same("default", (d.path(), d.key().to_string()), (vec!["id".to_string()], "id".to_string()))
            });
        }
    }
    a.finish();
}
