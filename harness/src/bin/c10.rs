use std::borrow::Cow;

use async_graphql::Name;
use async_graphql_value::{ConstValue, Value as GValue};
use serde_json::Value;
use tailcall::core::json::{JsonLike, JsonObjectLike, JsonPrimitive};
use tcv::json::*;
use tcv::{same, Audit, Rng};

fn at<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    match path.split_first() {
        None => Some(v),
        Some((k, t)) => match v {
            Value::Array(a) => at(a.get(k.parse::<usize>().ok()?)?, t),
            Value::Object(m) => at(m.get(k)?, t),
            _ => None,
        },
    }
}
fn prim(p: Option<JsonPrimitive>) -> Option<Value> {
    p.map(|p| match p {
        JsonPrimitive::Null => Value::Null,
        JsonPrimitive::Bool(b) => Value::Bool(b),
        JsonPrimitive::Str(s) => Value::String(s.to_string()),
        JsonPrimitive::Number(n) => Value::Number(n),
    })
}
/// everything the trait tells about a value, against the same value as serde_json holds it
fn reads<'a, T: JsonLike<'a>>(t: &'a T, v: &Value, plain: &impl Fn(&T) -> Value, paths: &[Vec<String>]) -> Result<(), String> {
    same("is_null", t.is_null(), v.is_null())?;
    same("as_bool", t.as_bool(), v.as_bool())?;
    same("as_str", t.as_str().map(|s| s.to_string()), v.as_str().map(|s| s.to_string()))?;
    same("as_i64", t.as_i64(), v.as_i64())?;
    same("as_u64", t.as_u64(), v.as_u64())?;
    same("as_f64", t.as_f64(), v.as_f64())?;
    same("as_array", t.as_array().map(|a| a.iter().map(plain).collect::<Vec<_>>()), v.as_array().cloned())?;
    same("as_object", t.as_object().is_some(), v.is_object())?;
    same("as_primitive", prim(t.as_primitive()), if v.is_array() || v.is_object() { None } else { Some(v.clone()) })?;
    if let (Some(o), Value::Object(m)) = (t.as_object(), v) {
        same("object len", (o.len(), o.is_empty()), (m.len(), m.is_empty()))?;
        let mut got: Vec<(String, Value)> = o.iter().map(|(k, v)| (k.to_string(), plain(v))).collect();
        let mut want: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        got.sort_by(|a, b| a.0.cmp(&b.0));
        want.sort_by(|a, b| a.0.cmp(&b.0));
        same("object entries", got, want)?;
        for k in m.keys().cloned().chain(["zz".to_string(), "a".into()]) {
            same("object get_key", o.get_key(&k).map(plain), m.get(&k).cloned())?;
        }
    }
    for p in paths {
        same(&format!("get_path {p:?}"), t.get_path(p).map(plain), at(v, p).cloned())?;
        if let Some(k) = p.first() {
            same(&format!("get_key {k}"), t.get_key(k).map(plain), v.as_object().and_then(|m| m.get(k).cloned()))?;
        }
    }
    Ok(())
}
fn owned<'a, T: JsonLike<'a>>(mk: impl Fn() -> T, v: &Value, plain: &impl Fn(&T) -> Value) -> Result<(), String> {
    same("into_array", mk().into_array().map(|a| a.iter().map(plain).collect::<Vec<_>>()), v.as_array().cloned())?;
    same("into_object", mk().into_object().map(|o| plain(&T::object(o))), Some(v.clone()).filter(|v| v.is_object()))?;
    let mut m = mk();
    let mut w = v.clone();
    same("as_array_mut", m.as_array_mut().is_some(), w.is_array())?;
    if let (Some(a), Value::Array(b)) = (m.as_array_mut(), &mut w) {
        a.push(T::null());
        b.push(Value::Null);
    }
    same("as_object_mut", m.as_object_mut().is_some(), w.is_object())?;
    if let (Some(o), Value::Object(b)) = (m.as_object_mut(), &mut w) {
        // serde_json_borrow's objects are plain vectors: insert only what is new
        for k in ["zz", "yy"] {
            o.insert_key(k, T::string(Cow::Borrowed(k)));
            b.insert(k.into(), Value::String(k.into()));
        }
    }
    same("changed in place", plain(&m), w)
}
fn made<'a, T: JsonLike<'a>>(s: &'a str, n: serde_json::Number, items: Vec<(&'a str, i64)>, plain: &impl Fn(&T) -> Value) -> Result<(), String> {
    same("null", plain(&T::null()), Value::Null)?;
    same("string", plain(&T::string(Cow::Borrowed(s))), Value::String(s.into()))?;
    same("owned string", plain(&T::string(Cow::Owned(s.to_string()))), Value::String(s.into()))?;
    same("from text", plain(&T::from_primitive(JsonPrimitive::Str(s))), Value::String(s.into()))?;
    same("from null", plain(&T::from_primitive(JsonPrimitive::Null)), Value::Null)?;
    for b in [false, true] {
        same("from bool", plain(&T::from_primitive(JsonPrimitive::Bool(b))), Value::Bool(b))?;
    }
    let t = T::from_primitive(JsonPrimitive::Number(n.clone()));
    same("from number", (t.as_i64(), t.as_u64(), t.as_f64()), (n.as_i64(), n.as_u64(), n.as_f64()))?;
    let num = |i: i64| T::from_primitive(JsonPrimitive::Number(i.into()));
    same("array", plain(&T::array(items.iter().map(|x| num(x.1)).collect())), Value::Array(items.iter().map(|x| x.1.into()).collect()))?;
    let o = T::JsonObject::from_vec(items.iter().map(|x| (x.0, num(x.1))).collect());
    let want: serde_json::Map<String, Value> = items.iter().map(|x| (x.0.to_string(), x.1.into())).collect();
    same("object", plain(&T::object(o)), Value::Object(want))?;
    let (e, c) = (T::JsonObject::new(), T::JsonObject::with_capacity(4));
    same("new object", (e.len(), c.is_empty()), (0, true))
}
/// distinct keys, any order
fn items(r: &mut Rng) -> Vec<(&'static str, i64)> {
    let mut v: Vec<(&'static str, i64)> = vec![];
    for k in ["b", "a", "id", "", "Ü"] {
        if r.flip() {
            let i = r.below(10) as i64 - 5;
            v.insert(r.below(v.len() + 1), (k, i));
        }
    }
    v
}

fn main() {
    let mut a = Audit::start("random documents (to depth 4) in each JSON representation, every reader, constructor, path and object operation of the trait compared with the same document in serde_json; nontrivial: documents with at least one object or list");
    for i in 0..a.iters {
        let v = gen(&mut a.rng, 4);
        let r = &mut a.rng;
        // paths that mostly walk into the document
        let paths: Vec<Vec<String>> = (0..5)
            .map(|_| {
                let mut p = vec![];
                let mut cur = Some(&v);
                for _ in 0..r.below(5) {
                    let t = match cur {
                        Some(Value::Array(x)) if !x.is_empty() && !r.one_in(5) => r.below(x.len()).to_string(),
                        Some(Value::Object(m)) if !m.is_empty() && !r.one_in(5) => m.keys().nth(r.below(m.len())).unwrap().clone(),
                        _ => text(r),
                    };
                    cur = cur.and_then(|c| at(c, &[t.clone()]));
                    p.push(t);
                }
                p
            })
            .collect();
        let n = match num(r) {
            Value::Number(n) => n,
            _ => unreachable!(),
        };
        let (s, it) = (text(r), items(r));
        let key = ["serde_json", "serde_json_borrow", "const_value", "value"][i % 4];
        a.case(key, v.is_array() || v.is_object(), || format!("{v} paths {paths:?} made of {s:?} {n} {it:?}"), || match i % 4 {
            0 => {
                let p = |x: &Value| x.clone();
                reads(&v, &v, &p, &paths)?;
                owned(|| v.clone(), &v, &p)?;
                made::<Value>(&s, n.clone(), it.clone(), &p)
            }
            1 => {
                let txt = v.to_string();
                let b: serde_json_borrow::Value = serde_json::from_str(&txt).unwrap();
                fn p(x: &serde_json_borrow::Value) -> Value {
                    from_borrow(x)
                }
                reads(&b, &v, &p, &paths)?;
                owned(|| b.clone(), &v, &|x| from_borrow(x))?;
                made::<serde_json_borrow::Value>(&s, n.clone(), it.clone(), &|x| from_borrow(x))
            }
            2 => {
                let c = to_const(&v);
                reads(&c, &v, &from_const, &paths)?;
                owned(|| c.clone(), &v, &from_const)?;
                same("enum value", prim(ConstValue::Enum(Name::new("E")).as_primitive()), Some(Value::String("E".into())))?;
                same("enum is no text", ConstValue::Enum(Name::new("E")).as_str(), None)?;
                made::<ConstValue>(&s, n.clone(), it.clone(), &from_const)
            }
            _ => {
                let c = to_gvalue(&v);
                reads(&c, &v, &from_gvalue, &paths)?;
                owned(|| c.clone(), &v, &from_gvalue)?;
                same("variable", prim(GValue::Variable(Name::new("E")).as_primitive()), None)?;
                made::<GValue>(&s, n.clone(), it.clone(), &from_gvalue)
            }
        });
    }
    a.finish();
}
