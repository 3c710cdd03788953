use serde_json::{json, Value};
use tailcall::core::json::JsonLikeList;
use tcv::json::*;
use tcv::{same, Audit, Rng};

fn nested(r: &mut Rng, d: usize) -> Value {
    if d == 0 || r.one_in(3) {
        match gen(r, 1) {
            Value::Array(_) => Value::Null,
            v => v,
        }
    } else {
        Value::Array(r.vec(4, |r| nested(r, d - 1)))
    }
}
fn leaves<'a>(v: &'a Value, out: &mut Vec<&'a Value>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| leaves(x, out)),
        v => out.push(v),
    }
}
fn refill(v: &Value, n: &mut usize) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| refill(x, n)).collect()),
        v => {
            *n += 1;
            mapped(v, *n - 1)
        }
    }
}
/// what the test mapper makes of the n-th leaf (sometimes a list again)
fn mapped(v: &Value, n: usize) -> Value {
    if n % 3 == 0 {
        json!([v, n])
    } else {
        json!({"n": n, "v": v})
    }
}

fn main() {
    let mut a = Audit::start("random nested lists (to depth 5) in each JSON representation, mapped by a mapper that numbers the items it sees and sometimes fails at a random item; nontrivial: at least two items");
    for i in 0..a.iters {
        let v = nested(&mut a.rng, 5);
        let mut l = vec![];
        leaves(&v, &mut l);
        let l: Vec<Value> = l.into_iter().cloned().collect();
        let stop = if a.rng.one_in(3) { Some(a.rng.below(l.len() + 1)) } else { None };
        let fails = stop.map(|s| s < l.len()).unwrap_or(false);
        let want: Result<Value, usize> = if fails { Err(stop.unwrap()) } else { Ok(refill(&v, &mut 0)) };
        let want_seen: Vec<Value> = if fails { l[..=stop.unwrap()].to_vec() } else { l.clone() };
        let inp = || format!("{v} failing at {stop:?}");
        let kind = i % 4;
        let key = ["serde_json", "serde_json_borrow", "const_value", "value"][kind];
        a.case(key, l.len() > 1, inp, || {
            macro_rules! go {
                ($mk:expr, $back:expr, $from:expr) => {{
                    let mut seen = vec![];
                    let mut f = |x: &_| {
                        let x: Value = $back(x);
                        seen.push(x.clone());
                        if Some(seen.len() - 1) == stop { Err(seen.len() - 1) } else { Ok($from(&mapped(&x, seen.len() - 1))) }
                    };
                    let r = JsonLikeList::map_ref(&$mk, &mut f).map(|x| $back(&x));
                    same("map_ref result", r, want.clone())?;
                    same("map_ref items", seen, want_seen.clone())?;
                    let mut seen = vec![];
                    let mut f = |x| {
                        let x: Value = $back(&x);
                        seen.push(x.clone());
                        if Some(seen.len() - 1) == stop { Err(seen.len() - 1) } else { Ok($from(&mapped(&x, seen.len() - 1))) }
                    };
                    let r = JsonLikeList::map($mk, &mut f).map(|x| $back(&x));
                    same("map result", r, want.clone())?;
                    same("map items", seen, want_seen.clone())?;
                    let m = $mk;
                    let mut seen = vec![];
                    JsonLikeList::for_each(&m, &mut |x| seen.push($back(x)));
                    same("for_each items", seen, l.clone())
                }};
            }
            match kind {
                0 => go!(v.clone(), |x: &Value| x.clone(), |x: &Value| x.clone()),
                1 => {
                    let s = v.to_string();
                    go!(serde_json::from_str::<serde_json_borrow::Value>(&s).unwrap(), from_borrow, |x: &Value| serde_json::from_str::<serde_json_borrow::Value>(Box::leak(x.to_string().into_boxed_str())).unwrap())
                }
                2 => go!(to_const(&v), from_const, to_const),
                _ => go!(to_gvalue(&v), from_gvalue, to_gvalue),
            }
        });
    }
    a.finish();
}
