//! C33: what a resolver gets as the arguments of its field: what the query, its variables and
//! the defaults of the schema say; and nothing is done where something required is missing.
#[path = "../e2e.rs"]
mod e2e;
use std::collections::BTreeMap;
use std::sync::Arc;

use e2e::*;
use serde_json::{json, Map, Value};
use tcv::*;

#[derive(Clone, Debug)]
enum Ty {
    Named(String, bool),
    List(Box<Ty>, bool),
}
impl Ty {
    fn text(&self) -> String {
        match self {
            Ty::Named(n, r) => format!("{n}{}", if *r { "!" } else { "" }),
            Ty::List(t, r) => format!("[{}]{}", t.text(), if *r { "!" } else { "" }),
        }
    }
    fn required(&self) -> bool {
        match self {
            Ty::Named(_, r) | Ty::List(_, r) => *r,
        }
    }
}
/// a value as it's written in a query
#[derive(Clone, Debug)]
enum Lit {
    Json(Value),
    Enum(String),
    List(Vec<Lit>),
    Obj(Vec<(String, Lit)>),
    Var(String),
}
impl Lit {
    fn text(&self) -> String {
        match self {
            Lit::Json(v) => v.to_string(),
            Lit::Enum(s) => s.clone(),
            Lit::List(l) => format!("[{}]", l.iter().map(Lit::text).collect::<Vec<_>>().join(", ")),
            Lit::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", v.text())).collect::<Vec<_>>().join(", ")),
            Lit::Var(v) => format!("${v}"),
        }
    }
    fn json(&self, vars: &BTreeMap<String, Value>) -> Option<Value> {
        Some(match self {
            Lit::Json(v) => v.clone(),
            Lit::Enum(s) => json!(s),
            Lit::List(l) => Value::Array(l.iter().map(|v| v.json(vars)).collect::<Option<_>>()?),
            Lit::Obj(o) => Value::Object(o.iter().map(|(k, v)| Some((k.clone(), v.json(vars)?))).collect::<Option<_>>()?),
            Lit::Var(v) => vars.get(v)?.clone(),
        })
    }
}
#[derive(Clone, Debug)]
struct Slot {
    name: String,
    ty: Ty,
    default: Option<Lit>,
}
struct World {
    inputs: Vec<Vec<Slot>>,
    /// the arguments of the fields Query.a, Query.b, O.a, O.b
    args: BTreeMap<String, Vec<Slot>>,
}
#[derive(Debug)]
struct Lacks;
/// the number of an input type
fn input(n: &str) -> Option<usize> {
    n.strip_prefix('I')?.parse().ok()
}

impl World {
    fn ty(r: &mut Rng, n: usize) -> Ty {
        let name = match r.below(8) {
            0 => "Int".into(),
            1 => "String".into(),
            2 => "Boolean".into(),
            3 => "E".into(),
            4 => "JSON".into(),
            _ if n > 0 => format!("I{}", r.below(n)),
            _ => "Float".into(),
        };
        let mut t = Ty::Named(name, r.one_in(3));
        while r.one_in(3) {
            t = Ty::List(Box::new(t), r.one_in(3));
        }
        t
    }
    /// a value of the type, whose variables and lacks are as asked for, with objects of the first `below` inputs only
    fn value(&self, r: &mut Rng, t: &Ty, depth: usize, (sloppy, below): (bool, usize), vars: &mut Option<&mut Vec<(String, Ty, Lit)>>) -> Lit {
        if let Some(list) = vars {
            if r.one_in(5) && depth < 4 {
                let name = format!("v{}", list.len());
                list.push((name.clone(), t.clone(), Lit::Json(Value::Null)));
                let v = self.value(r, t, depth + 1, (sloppy, below), &mut None);
                list.iter_mut().find(|x| x.0 == name).unwrap().2 = v;
                return Lit::Var(name);
            }
        }
        if if t.required() { sloppy && r.one_in(14) } else { r.one_in(6) } {
            return Lit::Json(Value::Null);
        }
        match t {
            _ if input(Self::named(t)).is_some_and(|i| i >= below) => if matches!(t, Ty::List(..)) { Lit::List(vec![]) } else { Lit::Json(Value::Null) },
            Ty::List(t, _) => Lit::List((0..r.below(if depth > 3 { 1 } else { 3 })).map(|_| self.value(r, t, depth + 1, (sloppy, below), vars)).collect()),
            Ty::Named(n, _) => match n.as_str() {
                "Int" => Lit::Json(json!(r.below(9))),
                "String" => Lit::Json(json!(*r.pick(&["", "x", "two words", "é\"\\"]))),
                "Boolean" => Lit::Json(json!(r.flip())),
                "Float" => Lit::Json(json!(0.5 + r.below(4) as f64)),
                "E" => Lit::Enum(r.pick(&["A", "B"]).to_string()),
                "JSON" => match r.below(4) {
                    0 => Lit::List(vec![Lit::Json(Value::Null), Lit::Json(json!(1))]),
                    1 => Lit::Obj(vec![("k".into(), Lit::Json(Value::Null))]),
                    _ => Lit::Json(json!(r.below(3))),
                },
                i => {
                    let i: usize = i[1..].parse().unwrap();
                    let mut o = vec![];
                    for f in &self.inputs[i] {
                        let left = if f.ty.required() && f.default.is_none() { sloppy && r.one_in(10) } else { depth > 3 || r.one_in(2) };
                        if !left {
                            o.push((f.name.clone(), self.value(r, &f.ty, depth + 1, (sloppy, below), vars)));
                        }
                    }
                    Lit::Obj(o)
                }
            },
        }
    }
    fn slots(&self, r: &mut Rng, n: usize, deep: usize) -> Vec<Slot> {
        (0..1 + r.below(4))
            .map(|i| {
                // an input object requires only those before it, so that there are values of it
                let mut ty = Self::ty(r, n);
                if let (Ty::Named(t, req), true) = (&mut ty, n > deep) {
                    if input(t).is_some_and(|i| i >= deep) {
                        *req = false;
                    }
                }
                Slot { name: format!("f{i}"), ty, default: None }
            })
            .collect()
    }
    fn named(t: &Ty) -> &str {
        match t {
            Ty::Named(n, _) => n,
            Ty::List(t, _) => Self::named(t),
        }
    }
    fn random(r: &mut Rng) -> World {
        let n = 1 + r.below(3) as usize;
        let mut w = World { inputs: vec![], args: Default::default() };
        for i in 0..n {
            let s = w.slots(r, n, i);
            w.inputs.push(s);
        }
        // defaults only use what is complete, so that they end
        for i in 0..n {
            for k in 0..w.inputs[i].len() {
                let ty = w.inputs[i][k].ty.clone();
                let t = Self::named(&ty);
                let later = input(t).is_some_and(|k| k >= i);
                if !later && r.flip() {
                    let d = w.value(r, &ty, 2, (false, i), &mut None);
                    w.inputs[i][k].default = Some(d);
                }
            }
        }
        for f in ["Query.a", "Query.b", "O.a", "O.b"] {
            let mut s = w.slots(r, n, n);
            for f in s.iter_mut() {
                if r.flip() {
                    f.default = Some(w.value(r, &f.ty, 2, (false, n), &mut None));
                }
            }
            w.args.insert(f.into(), s);
        }
        w
    }
    fn decl(s: &[Slot]) -> String {
        s.iter().map(|f| format!("{}: {}{}", f.name, f.ty.text(), f.default.as_ref().map(|d| format!(" = {}", d.text())).unwrap_or_default())).collect::<Vec<_>>().join(", ")
    }
    fn sdl(&self) -> String {
        let f = |n: &str| Self::decl(&self.args[n]);
        let mut s = format!(
            "schema @server(port: 8000) {{ query: Query }}\nenum E {{ A B }}\ntype Query {{\n a({}): JSON @expr(body: \"{{{{.args}}}}\")\n b({}): JSON @http(url: \"http://up/q\", method: POST, body: \"{{{{.args}}}}\")\n o: O @expr(body: {{}})\n l: [O] @expr(body: [{{}}, {{}}])\n}}\ntype O {{\n a({}): JSON @expr(body: \"{{{{.args}}}}\")\n b({}): JSON @http(url: \"http://up/o\", method: POST, body: \"{{{{.args}}}}\")\n o: O @expr(body: {{}})\n}}\n",
            f("Query.a"), f("Query.b"), f("O.a"), f("O.b")
        );
        for (i, d) in self.inputs.iter().enumerate() {
            s += &format!("input I{i} {{ {} }}\n", Self::decl(d));
        }
        s
    }
    /// what is left of a value by the specification: defaults are in place, and nothing that is required lacks
    fn filled(&self, t: &Ty, v: Value) -> Result<Value, Lacks> {
        if v.is_null() {
            return if t.required() { Err(Lacks) } else { Ok(v) };
        }
        match (t, v) {
            (Ty::List(t, _), Value::Array(l)) => Ok(Value::Array(l.into_iter().map(|v| self.filled(t, v)).collect::<Result<_, _>>()?)),
            (Ty::Named(n, _), Value::Object(o)) if input(n).is_some() => Ok(Value::Object(self.all(&self.inputs[input(n).unwrap()], o)?)),
            (_, v) => Ok(v),
        }
    }
    fn all(&self, slots: &[Slot], given: Map<String, Value>) -> Result<Map<String, Value>, Lacks> {
        let mut out = Map::new();
        for f in slots {
            let v = given.get(&f.name).cloned().or_else(|| f.default.as_ref().map(|d| d.json(&Default::default()).unwrap()));
            match v {
                Some(v) => {
                    out.insert(f.name.clone(), self.filled(&f.ty, v)?);
                }
                None if f.ty.required() => return Err(Lacks),
                None => {}
            }
        }
        Ok(out)
    }
}

/// a selection of fields, with the values of their arguments
struct Sel {
    alias: Option<String>,
    name: &'static str,
    args: Vec<(String, Lit)>,
    sub: Vec<Sel>,
}
impl Sel {
    fn random(w: &World, r: &mut Rng, on: &str, depth: usize, sloppy: bool, vars: &mut Vec<(String, Ty, Lit)>) -> Vec<Sel> {
        (0..1 + r.below(3))
            .map(|i| {
                let name = match r.below(if depth < 3 { 4 } else { 2 }) {
                    0 => "a",
                    1 => "b",
                    2 if on == "Query" => "l",
                    _ => "o",
                };
                let (args, sub) = match w.args.get(&format!("{on}.{name}")) {
                    Some(s) => {
                        let mut args = vec![];
                        for f in s {
                            if !if f.ty.required() && f.default.is_none() { sloppy && r.one_in(12) } else { r.flip() } {
                                let v = w.value(r, &f.ty, 0, (sloppy, 9), &mut Some(&mut *vars));
                                args.push((f.name.clone(), v));
                            }
                        }
                        (args, vec![])
                    }
                    None => (vec![], Self::random(w, r, "O", depth + 1, sloppy, vars)),
                };
                Sel { alias: Some(format!("x{i}")), name, args, sub }
            })
            .collect()
    }
    fn text(l: &[Sel]) -> String {
        let one = |s: &Sel| {
            let args = s.args.iter().map(|(k, v)| format!("{k}: {}", v.text())).collect::<Vec<_>>().join(", ");
            format!("{}{}{}{}", s.alias.as_ref().map(|a| format!("{a}: ")).unwrap_or_default(), s.name, if args.is_empty() { String::new() } else { format!("({args})") }, if s.sub.is_empty() { String::new() } else { Self::text(&s.sub) })
        };
        format!("{{ {} }}", l.iter().map(one).collect::<Vec<_>>().join(" "))
    }
    fn answer(w: &World, l: &[Sel], on: &str, vars: &BTreeMap<String, Value>) -> Result<Value, Lacks> {
        let mut out = Map::new();
        for s in l {
            let v = match w.args.get(&format!("{on}.{}", s.name)) {
                Some(slots) => {
                    let given = s.args.iter().map(|(k, v)| Ok((k.clone(), v.json(vars).ok_or(Lacks)?))).collect::<Result<_, Lacks>>()?;
                    Value::Object(w.all(slots, given)?)
                }
                None => {
                    let v = Self::answer(w, &s.sub, "O", vars)?;
                    if s.name == "l" { json!([v, v]) } else { v }
                }
            };
            out.insert(s.alias.clone().unwrap(), v);
        }
        Ok(Value::Object(out))
    }
}

fn main() {
    let mut a = Audit::start("random schemas whose fields have arguments of scalars, enums, input objects (of each other too) and nested lists of them, with and without defaults, at the root, in objects and in lists of them, queries that give, leave out or set them to null, by literals and by variables that the request or the operation sets or that aren't set; the values that a resolver gets for them, as an upstream request and in the answer, by the rules of the GraphQL specification");
    let rt = rt();
    for _ in 0..a.iters {
        let w = World::random(&mut a.rng);
        let setup = Setup::new(w.sdl(), Arc::new(|q: &Seen| Ok((200, vec![], q.body.clone()))));
        let srv = match setup.start() {
            Ok(srv) => srv,
            Err(e) => {
                a.case("server starts", true, || w.sdl(), || Err(e));
                continue;
            }
        };
        for _ in 0..8 {
            let sloppy = a.rng.one_in(3);
            let mut vars = vec![];
            let sel = Sel::random(&w, &mut a.rng, "Query", 0, sloppy, &mut vars);
            let mut set = BTreeMap::new();
            let mut sent = Map::new();
            let mut head = vec![];
            for (name, ty, v) in &vars {
                let v_json = v.json(&Default::default()).unwrap();
                let how = a.rng.below(if sloppy { 7 } else { 6 });
                let mut d = String::new();
                if how < 4 {
                    sent.insert(name.clone(), v_json.clone());
                    set.insert(name.clone(), v_json.clone());
                    if how == 0 {
                        // the default isn't used
                        let other = w.value(&mut a.rng, ty, 1, (false, 9), &mut None);
                        d = format!(" = {}", other.text());
                    }
                } else if how < 6 {
                    d = format!(" = {}", v.text());
                    set.insert(name.clone(), v_json.clone());
                }
                head.push(format!("${name}: {}{d}", ty.text()));
            }
            let text = format!("query{} {}", if head.is_empty() { String::new() } else { format!("({})", head.join(", ")) }, Sel::text(&sel));
            let want = Sel::answer(&w, &sel, "Query", &set);
            srv.log.lock().unwrap().clear();
            let got = rt.block_on(srv.ask(&post(query(&text, None, Some(Value::Object(sent.clone()))), vec![])));
            a.case(
                if want.is_ok() { "arguments are given" } else { "something is missing" },
                true,
                || format!("{text}\nvariables {}\n{}", Value::Object(sent.clone()), w.sdl()),
                || {
                    let got = got?;
                    let v = got.json();
                    match want {
                        Ok(want) => {
                            if v.get("errors").is_some() {
                                return Err(format!("got {}, want {want}", got.body));
                            }
                            same("answer", &v["data"], &want)
                        }
                        Err(_) => {
                            if v.get("errors").is_none() {
                                return Err(format!("no error: {}", got.body));
                            }
                            match srv.log.lock().unwrap().first() {
                                Some(q) => Err(format!("{} is requested", q.url)),
                                None => Ok(()),
                            }
                        }
                    }
                },
            );
        }
    }
    a.finish()
}
