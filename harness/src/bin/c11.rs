use async_graphql::Name;
use async_graphql_value::{ConstValue, Value as GValue};
use serde_json::Value;
use tailcall::core::json::JsonLike;
use tcv::json::*;
use tcv::{same, Audit};

/// turns some texts into enum values; the document they stand for stays the same
fn enums_c(v: ConstValue, k: &mut usize) -> ConstValue {
    match v {
        ConstValue::String(s) => {
            *k += 1;
            if *k % 2 == 0 { ConstValue::Enum(Name::new(s)) } else { ConstValue::String(s) }
        }
        ConstValue::List(a) => ConstValue::List(a.into_iter().map(|x| enums_c(x, k)).collect()),
        ConstValue::Object(m) => ConstValue::Object(m.into_iter().map(|(n, x)| (n, enums_c(x, k))).collect()),
        v => v,
    }
}
fn enums_g(v: GValue, k: &mut usize) -> GValue {
    match v {
        GValue::String(s) => {
            *k += 1;
            if *k % 2 == 0 { GValue::Enum(Name::new(s)) } else { GValue::String(s) }
        }
        GValue::List(a) => GValue::List(a.into_iter().map(|x| enums_g(x, k)).collect()),
        GValue::Object(m) => GValue::Object(m.into_iter().map(|(n, x)| (n, enums_g(x, k))).collect()),
        v => v,
    }
}
/// numbers must answer as the original's do, not only print alike
fn answers<'a, A: JsonLike<'a>>(t: &'a A, v: &Value) -> Result<(), String> {
    match v {
        Value::Array(a) => t.as_array().unwrap().iter().zip(a).try_for_each(|(x, y)| answers(x, y)),
        Value::Number(n) => same(&format!("number {n}"), (t.as_i64(), t.as_u64(), t.as_f64()), (n.as_i64(), n.as_u64(), n.as_f64())),
        Value::Object(m) => m.iter().try_for_each(|(k, y)| answers(t.get_key(k).unwrap(), y)),
        _ => Ok(()),
    }
}
fn copies<'a, S>(src: &'a S, v: &Value) -> Result<(), String>
where
    S: JsonLike<'a>,
    S::JsonObject: tailcall::core::json::JsonObjectLike<'a, Value = S>,
{
    let c: Value = JsonLike::clone_from(src);
    same("to serde_json", c.clone(), v.clone())?;
    let c: serde_json_borrow::Value = JsonLike::clone_from(src);
    same("to serde_json_borrow", from_borrow(&c), v.clone())?;
    let c: ConstValue = JsonLike::clone_from(src);
    same("to const value", from_const(&c), v.clone())?;
    let c: GValue = JsonLike::clone_from(src);
    same("to value", from_gvalue(&c), v.clone())
}
fn order(v: &ConstValue) -> Vec<String> {
    match v {
        ConstValue::List(a) => a.iter().flat_map(order).collect(),
        ConstValue::Object(m) => m.iter().flat_map(|(k, v)| std::iter::once(k.to_string()).chain(order(v))).collect(),
        _ => vec![],
    }
}

fn main() {
    let mut a = Audit::start("random documents (to depth 5) held in each representation and copied into each; nontrivial: documents with at least one object or list");
    for i in 0..a.iters {
        let v = gen(&mut a.rng, 5);
        let key = ["serde_json", "serde_json_borrow", "const_value", "value"][i % 4];
        let k = a.rng.below(2);
        a.case(key, v.is_array() || v.is_object(), || v.to_string(), || match i % 4 {
            0 => {
                copies(&v, &v)?;
                let b: serde_json_borrow::Value = JsonLike::clone_from(&v);
                // leaks nothing that outlives the case but the small copy
                let b: &'static serde_json_borrow::Value<'static> = unsafe { std::mem::transmute(&b) };
                answers(b, &v)
            }
            1 => {
                let s = v.to_string();
                let b: serde_json_borrow::Value = serde_json::from_str(&s).unwrap();
                let b: &'static serde_json_borrow::Value<'static> = unsafe { std::mem::transmute(&b) };
                copies(b, &v)?;
                let c: Value = JsonLike::clone_from(b);
                answers(&c, &v)
            }
            2 => {
                let c = enums_c(to_const(&v), &mut { k });
                copies(&c, &v)?;
                let d: ConstValue = JsonLike::clone_from(&c);
                same("order of keys", order(&d), order(&c))?;
                answers(&d, &v)
            }
            _ => copies(&enums_g(to_gvalue(&v), &mut { k }), &v),
        });
    }
    a.finish();
}
