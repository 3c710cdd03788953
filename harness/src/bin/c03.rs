use std::collections::BTreeSet;

use async_graphql_value::ConstValue as GValue;
use serde_json::{json, Value};
use tailcall::core::ir::{Discriminator, TypedValue};
use tailcall_valid::Validator;
use tcv::json::*;
use tcv::{same, Audit, Rng};

const MARK: &str = "__typename";
const NAMES: [&str; 5] = ["Foo", "Bar", "foo", "Ü", "Query"];

fn with_type(v: &Value, t: &str) -> Option<Value> {
    match v {
        Value::Null => Some(Value::Null),
        Value::Object(m) => {
            let mut m = m.clone();
            m.insert(MARK.into(), t.into());
            Some(Value::Object(m))
        }
        _ => None,
    }
}
fn oracle(types: &BTreeSet<String>, field: &Option<String>, v: &Value) -> Option<Value> {
    if let Some(Value::String(_)) = v.get(MARK) {
        return Some(v.clone());
    }
    match v {
        Value::Null => Some(Value::Null),
        Value::Array(a) => a.iter().map(|x| oracle(types, field, x)).collect::<Option<Vec<_>>>().map(Value::Array),
        Value::Object(m) => match field {
            None => {
                let (k, x) = m.iter().next()?;
                if m.len() != 1 || !types.contains(k) {
                    return None;
                }
                with_type(x, k)
            }
            Some(f) => match m.get(f)? {
                Value::String(t) if types.contains(t) => with_type(v, t),
                _ => None,
            },
        },
        _ => None,
    }
}
fn item(r: &mut Rng, field: &Option<String>, d: usize) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 if d == 0 => gen(r, 1),
        2 => json!({MARK: if r.flip() { json!(*r.pick(&NAMES)) } else { json!(3) }, "x": 1}),
        3 | 4 if d > 0 => Value::Array(r.vec(4, |r| item(r, field, d - 1))),
        _ => {
            let t = r.pick(&NAMES).to_string();
            match field {
                None => {
                    let inner = match r.below(6) {
                        0 => Value::Null,
                        1 if r.one_in(3) => json!("text"),
                        2 => json!({MARK: "Other", "a": 1}),
                        _ => json!({"a": r.below(9)}),
                    };
                    let mut o = json!({ t: inner });
                    if r.one_in(15) {
                        o["other"] = json!(1);
                    }
                    o
                }
                Some(f) => {
                    let mut o = json!({"b": r.below(9)});
                    if !r.one_in(15) {
                        o[f] = if r.one_in(15) { json!(r.below(3)) } else { json!(t) };
                    }
                    if r.one_in(6) {
                        o[MARK] = json!(7);
                    }
                    o
                }
            }
        }
    }
}

fn main() {
    let mut a = Audit::start("random responses (objects with and without marks, nested lists to depth 3, nulls, wrong kinds) resolved by random keyed and field discriminators; nontrivial: resolved to something with at least one mark set");
    for i in 0..a.iters {
        let r = &mut a.rng;
        let types: BTreeSet<String> = NAMES.iter().filter(|_| !r.one_in(8)).map(|s| s.to_string()).collect();
        let field = if i % 2 == 0 { None } else { Some(r.pick(&["type", "kind", "b", "Ü", MARK]).to_string()) };
        let v = item(r, &field, 3);
        let want = oracle(&types, &field, &v);
        let marked = want.as_ref().map(|w| w != &v).unwrap_or(false);
        let key = if i % 2 == 0 { "keyed" } else { "field" };
        a.case(key, marked, || format!("{v} types {types:?} field {field:?}"), || {
            let d = Discriminator::new("T".into(), types.clone(), field.clone()).to_result().map_err(|e| e.to_string())?;
            let got = d.resolve_type(to_const(&v)).ok();
            same("resolved", got.as_ref().map(from_const), want.clone())?;
            if let Some(g) = &got {
                same("reads back", g.get_type_name().map(|s| s.to_string()), want.as_ref().and_then(|w| w.get(MARK)).and_then(|x| x.as_str()).map(|s| s.to_string()))?;
            }
            Ok(())
        });
        if i % 50 == 0 {
            a.case("creation", true, || format!("{types:?}"), || {
                same("empty field", Discriminator::new("T".into(), types.clone(), Some(String::new())).to_result().is_err(), true)?;
                let mut x = GValue::Null;
                same("marking null", (x.set_type_name("A".into()).is_ok(), x.clone()), (true, GValue::Null))?;
                let mut x = GValue::Boolean(true);
                same("marking text", (x.set_type_name("A".into()).is_ok(), x.clone()), (false, GValue::Boolean(true)))
            });
        }
    }
    a.finish();
}
