//! A GraphQL executor of our own, written from the specification: random schemas, queries
//! and upstream data, and what the answer has to be.
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet};

use serde_json::{json, Map, Value};
use tcv::Rng;

#[derive(Clone, Debug)]
pub enum Ty {
    Named(String, bool),
    List(Box<Ty>, bool),
}
impl Ty {
    pub fn name(&self) -> &str {
        match self {
            Ty::Named(n, _) => n,
            Ty::List(t, _) => t.name(),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Ty::Named(n, b) => format!("{n}{}", if *b { "!" } else { "" }),
            Ty::List(t, b) => format!("[{}]{}", t.text(), if *b { "!" } else { "" }),
        }
    }
    pub fn non_null(&self) -> bool {
        match self {
            Ty::Named(_, b) | Ty::List(_, b) => *b,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fd {
    pub name: String,
    pub ty: Ty,
    pub resolver: bool,
}

/// Objects A, B (implement It), C, D; the union U of A and C; the enum E
#[derive(Clone, Debug)]
pub struct Schema {
    pub types: BTreeMap<String, Vec<Fd>>,
    /// one in how many values is wrong or null
    pub odd: usize,
    /// @protected by a type or `type.field`: ids of providers
    pub guards: BTreeMap<String, Vec<String>>,
}

pub const OBJECTS: [&str; 4] = ["A", "B", "C", "D"];
const LEAVES: [&str; 6] = ["Int", "String", "Boolean", "Float", "E", "Email"];

fn ty(r: &mut Rng, name: &str, depth: usize, strict: bool) -> Ty {
    if depth > 0 && r.one_in(3) {
        Ty::List(Box::new(ty(r, name, depth - 1, strict)), r.one_in(4))
    } else {
        Ty::Named(name.to_string(), r.one_in(4) && (strict || LEAVES.contains(&name)))
    }
}

impl Schema {
    pub fn random(r: &mut Rng, odd: usize) -> Schema {
        let mut types = BTreeMap::new();
        let all = ["A", "B", "C", "D", "It", "U"];
        let shared = ty(r, "D", 1, odd > 0);
        for t in OBJECTS {
            let mut fs = vec![Fd { name: "id".into(), ty: Ty::Named("Int".into(), true), resolver: false }];
            if t == "A" || t == "B" {
                fs.push(Fd { name: "sh".into(), ty: shared.clone(), resolver: false });
            }
            for i in 0..1 + r.below(3) {
                let n = *r.pick(&LEAVES);
                let ty = ty(r, n, 2, odd > 0);
                let low = if r.flip() { t.to_lowercase() } else { String::new() };
                fs.push(Fd { name: format!("{low}l{i}"), ty, resolver: false });
            }
            for i in 0..1 + r.below(3) {
                let n = *r.pick(&all);
                let ty = ty(r, n, 2, odd > 0);
                let low = if r.flip() { t.to_lowercase() } else { String::new() };
                fs.push(Fd { name: format!("{low}f{i}"), ty, resolver: r.one_in(3) });
            }
            if r.one_in(3) {
                fs.push(Fd { name: format!("{}r", t.to_lowercase()), ty: ty(r, "String", 1, odd > 0), resolver: true });
            }
            types.insert(t.to_string(), fs);
        }
        types.insert("It".into(), vec![types["A"][0].clone(), types["A"][1].clone()]);
        // resolved by the types that implement it
        for t in ["A", "B"] {
            if r.one_in(4) {
                types.get_mut(t).unwrap()[1].resolver = true;
            }
        }
        types.insert("U".into(), vec![]);
        let mut q = vec![];
        for t in all {
            q.push(Fd { name: format!("q{t}"), ty: ty(r, t, 2, odd > 0), resolver: true });
        }
        q.push(Fd { name: "leaf".into(), ty: { let n = *r.pick(&LEAVES); ty(r, n, 2, odd > 0) }, resolver: true });
        types.insert("Query".into(), q);
        Schema { types, odd, guards: Default::default() }
    }
    pub fn sdl(&self) -> String {
        let mut s = "schema @server(port: 8000, hostname: \"0.0.0.0\") { query: Query }\nenum E { X Y Z }\nunion U = A | C\n".to_string();
        for (t, fs) in &self.types {
            if t == "U" {
                continue;
            }
            let head = match t.as_str() {
                "It" => "interface It".to_string(),
                "A" | "B" => format!("type {t} implements It"),
                _ => format!("type {t}"),
            };
            s.push_str(&format!("{head}{} {{\n", self.guard(t)));
            for f in fs {
                let at = match (f.resolver, t.as_str()) {
                    (false, _) => String::new(),
                    (true, "Query") => format!(" @http(url: \"http://h/Query/{}\")", f.name),
                    (true, t) => format!(" @http(url: \"http://h/{t}/{}/{{{{.value.id}}}}\")", f.name),
                };
                let guard = self.guard(&format!("{t}.{}", f.name));
                s.push_str(&format!("  {}: {}{at}{guard}\n", f.name, f.ty.text()));
            }
            s.push_str("}\n");
        }
        s
    }
    fn guard(&self, of: &str) -> String {
        match self.guards.get(of) {
            None => String::new(),
            Some(ids) if ids.is_empty() => " @protected".into(),
            Some(ids) => format!(" @protected(id: {})", json!(ids)),
        }
    }
    /// the providers that have to let a request in for the field, of all of them
    pub fn rule(&self, t: &str, f: &str, all: &[String]) -> BTreeSet<String> {
        let out = self.field(t, f).map(|d| d.ty.name().to_string()).unwrap_or_default();
        [t.to_string(), format!("{t}.{f}"), out]
            .iter()
            .filter_map(|k| self.guards.get(k))
            .flat_map(|ids| if ids.is_empty() { all.to_vec() } else { ids.clone() })
            .collect()
    }
    pub fn is_leaf(&self, n: &str) -> bool {
        !self.types.contains_key(n)
    }
    pub fn possible(&self, n: &str) -> Vec<&'static str> {
        match n {
            "It" => vec!["A", "B"],
            "U" => vec!["A", "C"],
            "A" => vec!["A"],
            "B" => vec!["B"],
            "C" => vec!["C"],
            "D" => vec!["D"],
            _ => vec!["Query"],
        }
    }
    pub fn field(&self, t: &str, f: &str) -> Option<&Fd> {
        self.types.get(t)?.iter().find(|d| d.name == f)
    }

    /// what the upstream answers for a path
    pub fn upstream(&self, path: &str, salt: u64) -> Value {
        let mut h: u64 = salt ^ 0xcbf29ce484222325;
        for b in path.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng::new(h);
        let mut parts = path.trim_start_matches('/').split('/');
        let (t, f) = (parts.next().unwrap_or(""), parts.next().unwrap_or(""));
        match self.field(t, f) {
            Some(d) => self.value(&mut r, &d.ty, 3),
            None => json!(format!("no {path}")),
        }
    }
    fn value(&self, r: &mut Rng, ty: &Ty, depth: usize) -> Value {
        let odd = self.odd > 0 && r.one_in(self.odd);
        if odd && r.flip() || (!ty.non_null() && r.one_in(8)) {
            return Value::Null;
        }
        match ty {
            Ty::List(t, _) => Value::Array((0..r.below(4)).map(|_| self.value(r, t, depth)).collect()),
            Ty::Named(n, nn) => match n.as_str() {
                "Int" if odd => json!("x"),
                "Int" => json!(r.below(50) as i64 - 10),
                "String" => json!(*r.pick(&["", "a", "b\"c", "null", "é"])),
                "Boolean" if odd => json!(1),
                "Boolean" => json!(r.flip()),
                "Float" => json!(*r.pick(&[0.5, 2.25, -1.5])),
                "E" if odd => json!(*r.pick(&["x", "XY", "", "W"])),
                "E" => json!(*r.pick(&["X", "Y", "Z"])),
                "Email" if odd => json!("nobody"),
                "Email" => json!(*r.pick(&["a@b.co", "c@d.org"])),
                _ if depth == 0 && !nn && r.flip() => Value::Null,
                _ => {
                    let t = *r.pick(&self.possible(n));
                    let mut o = Map::new();
                    // a type that is no interface or union needs no name
                    if t != n || r.flip() {
                        o.insert("__typename".into(), json!(t));
                    }
                    for f in &self.types[t] {
                        if f.resolver {
                            continue;
                        }
                        if f.name == "id" {
                            o.insert("id".into(), json!(r.below(4)));
                            continue;
                        }
                        if !f.ty.non_null() && (r.one_in(6) || depth == 0) {
                            continue;
                        }
                        if depth == 0 && !self.is_leaf(f.ty.name()) {
                            // a list may be empty; anything else that has to be
                            // there ends up null, which the answer reports
                            o.insert(f.name.clone(), if matches!(f.ty, Ty::List(..)) { json!([]) } else { Value::Null });
                            continue;
                        }
                        if self.odd > 0 && r.one_in(self.odd) {
                            continue;
                        }
                        o.insert(f.name.clone(), self.value(r, &f.ty, depth.saturating_sub(1)));
                    }
                    Value::Object(o)
                }
            },
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Const(bool),
    Var(String),
}
/// `@skip` or `@include`
#[derive(Clone, Debug)]
pub struct Dir {
    pub skip: bool,
    pub cond: Cond,
}
#[derive(Clone, Debug)]
pub enum Sel {
    Field { alias: Option<String>, name: String, dirs: Vec<Dir>, sub: Vec<Sel> },
    Inline { on: Option<String>, dirs: Vec<Dir>, sub: Vec<Sel> },
    Spread { name: String, dirs: Vec<Dir> },
}
#[derive(Clone, Debug)]
pub struct Doc {
    pub sels: Vec<Sel>,
    pub fragments: BTreeMap<String, (String, Vec<Sel>)>,
    /// name, default
    pub vars: Vec<(String, Option<bool>)>,
    pub given: BTreeMap<String, bool>,
}

pub struct Gen<'a> {
    pub s: &'a Schema,
    pub conds: bool,
    pub frags: bool,
    pub vars: Vec<(String, Option<bool>)>,
    used: BTreeSet<String>,
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a Schema, conds: bool, frags: bool) -> Self {
        Gen { s, conds, frags, vars: vec![], used: Default::default() }
    }
    pub fn doc(&mut self, r: &mut Rng) -> Doc {
        if self.conds {
            for v in ["a", "b", "c"] {
                let d = r.opt(|r| r.flip());
                self.vars.push((v.into(), d));
            }
        }
        let mut fragments = BTreeMap::new();
        if self.frags {
            // later fragments only spread earlier ones
            for i in 0..r.below(4) {
                let on = r.pick(&["A", "B", "C", "D", "It", "U", "Query"]).to_string();
                let sub = self.set(r, &on, 2, &fragments);
                fragments.insert(format!("F{i}"), (on, sub));
            }
        }
        let sels = self.set(r, "Query", 4, &fragments);
        let mut given = BTreeMap::new();
        for (v, _) in &self.vars {
            if r.flip() {
                given.insert(v.clone(), r.flip());
            }
        }
        Doc { sels, fragments, vars: self.vars.clone(), given }
    }
    fn dirs(&mut self, r: &mut Rng) -> Vec<Dir> {
        let mut ds = vec![];
        if self.conds && r.one_in(3) {
            let first = r.flip();
            for skip in [first, !first] {
                if !ds.is_empty() && !r.one_in(3) {
                    break;
                }
                let cond = if r.one_in(3) {
                    Cond::Const(r.flip())
                } else {
                    let v = r.pick(&["a", "b", "c"]).to_string();
                    self.used.insert(v.clone());
                    Cond::Var(v)
                };
                ds.push(Dir { skip, cond });
            }
        }
        ds
    }
        fn set(&mut self, r: &mut Rng, t: &str, depth: usize, frags: &BTreeMap<String, (String, Vec<Sel>)>) -> Vec<Sel> {
        let mut out = vec![];
        for _ in 0..1 + r.below(4) {
            let dirs = self.dirs(r);
            let kind = if !self.frags || depth == 0 { 0 } else { r.below(5) };
            match kind {
                3 => {
                    let on = match r.below(3) {
                        0 => None,
                        1 => Some(t.to_string()),
                        _ => Some(self.related(r, t)),
                    };
                    let inner = on.clone().unwrap_or(t.to_string());
                                        let sub = self.set(r, &inner, depth - 1, frags);
                    out.push(Sel::Inline { on, dirs, sub });
                }
                4 => {
                    let ok: Vec<_> = frags.iter().filter(|(_, (on, _))| self.may_spread(t, on)).map(|(n, _)| n.clone()).collect();
                    if !ok.is_empty() {
                        out.push(Sel::Spread { name: r.pick(&ok).clone(), dirs });
                    }
                }
                _ => out.extend(self.field(r, t, depth, dirs, frags)),
            }
        }
        if out.is_empty() {
            out.push(Sel::Field { alias: Some("tn".into()), name: "__typename".into(), dirs: vec![], sub: vec![] });
        }
        out
    }
    fn may_spread(&self, t: &str, on: &str) -> bool {
        self.s.possible(t).iter().any(|x| self.s.possible(on).contains(x))
    }
    fn related(&self, r: &mut Rng, t: &str) -> String {
        let all: Vec<_> = ["A", "B", "C", "D", "It", "U", "Query"].into_iter().filter(|on| self.may_spread(t, on)).collect();
        r.pick(&all).to_string()
    }
    fn field(&mut self, r: &mut Rng, t: &str, depth: usize, dirs: Vec<Dir>, frags: &BTreeMap<String, (String, Vec<Sel>)>) -> Option<Sel> {
        let fs = self.s.types[t].clone();
        let mut pool: Vec<Option<Fd>> = fs.into_iter().filter(|f| depth > 0 || self.s.is_leaf(f.ty.name())).map(Some).collect();
        if pool.is_empty() || r.one_in(6) {
            pool = vec![None];
        }
        let d = r.pick(&pool).clone();
        let name = d.as_ref().map(|d| d.name.clone()).unwrap_or("__typename".into());
        // a name says which field it is, and below a type condition for which type
        let mut alias = match r.below(6) {
            0 => Some(format!("{name}_x")),
            1 => Some(format!("{name}_y")),
            _ => None,
        };
        if !["id", "sh", "__typename"].contains(&name.as_str()) {
            alias = Some(format!("{}_{t}", alias.unwrap_or(name.clone())));
        } else if alias.is_none() && name == "__typename" {
            alias = r.opt(|_| "__typename".into());
        }
        let sub = match &d {
            Some(d) if !self.s.is_leaf(d.ty.name()) => {
                let n = d.ty.name().to_string();
                self.set(r, &n, depth - 1, frags)
            }
            _ => vec![],
        };
        Some(Sel::Field { alias, name, dirs, sub })
    }
}

fn dirs_text(ds: &[Dir]) -> String {
    ds.iter()
        .map(|d| {
            let c = match &d.cond {
                Cond::Const(b) => b.to_string(),
                Cond::Var(v) => format!("${v}"),
            };
            format!(" @{}(if: {c})", if d.skip { "skip" } else { "include" })
        })
        .collect()
}
fn set_text(ss: &[Sel]) -> String {
    let mut o = "{".to_string();
    for s in ss {
        o.push(' ');
        match s {
            Sel::Field { alias, name, dirs, sub } => {
                if let Some(a) = alias {
                    o.push_str(&format!("{a}: "));
                }
                o.push_str(name);
                o.push_str(&dirs_text(dirs));
                if !sub.is_empty() {
                    o.push_str(&format!(" {}", set_text(sub)));
                }
            }
            Sel::Inline { on, dirs, sub } => {
                o.push_str("...");
                if let Some(t) = on {
                    o.push_str(&format!(" on {t}"));
                }
                o.push_str(&format!("{} {}", dirs_text(dirs), set_text(sub)));
            }
            Sel::Spread { name, dirs } => o.push_str(&format!("...{name}{}", dirs_text(dirs))),
        }
    }
    o.push_str(" }");
    o
}
impl Doc {
    pub fn text(&self) -> String {
        let vars = if self.vars.is_empty() {
            String::new()
        } else {
            let vs: Vec<_> = self.vars.iter().map(|(v, d)| format!("${v}: Boolean{}", d.map(|d| format!(" = {d}")).unwrap_or_default())).collect();
            format!("({})", vs.join(", "))
        };
        let mut t = format!("query{vars} {}", set_text(&self.sels));
        for (n, (on, sub)) in &self.fragments {
            t.push_str(&format!(" fragment {n} on {on} {}", set_text(sub)));
        }
        t
    }
    pub fn variables(&self) -> Value {
        Value::Object(self.given.iter().map(|(k, v)| (k.clone(), json!(v))).collect())
    }
    fn holds(&self, ds: &[Dir]) -> bool {
        ds.iter().all(|d| {
            let v = match &d.cond {
                Cond::Const(b) => Some(*b),
                Cond::Var(v) => self.given.get(v).copied().or_else(|| self.vars.iter().find(|x| x.0 == *v).and_then(|x| x.1)),
            };
            // a variable without a value selects
            v.map_or(true, |v| v != d.skip)
        })
    }
}

/// the answer as text, in the order of the specification
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Leaf(Value),
    List(Vec<Out>),
    Obj(Vec<(String, Out)>),
    Denied,
}
impl Out {
    pub fn text(&self) -> String {
        match self {
            Out::Leaf(v) => v.to_string(),
            Out::Denied => "null".into(),
            Out::List(l) => format!("[{}]", l.iter().map(|o| o.text()).collect::<Vec<_>>().join(",")),
            Out::Obj(l) => format!("{{{}}}", l.iter().map(|(k, o)| format!("{}:{}", json!(k), o.text())).collect::<Vec<_>>().join(",")),
        }
    }
}

pub struct Exec<'a> {
    pub s: &'a Schema,
    pub d: &'a Doc,
    pub salt: u64,
    pub asked: BTreeSet<String>,
    /// fields of types that aren't given
    pub denied: BTreeSet<(String, String)>,
    pub hit: bool,
}
/// where the answer can't be given
pub type Path = Vec<Value>;

impl<'a> Exec<'a> {
    pub fn new(s: &'a Schema, d: &'a Doc, salt: u64) -> Self {
        Exec { s, d, salt, asked: Default::default(), denied: Default::default(), hit: false }
    }
    /// every field that may be needed, whatever the values are
    pub fn fields(&self) -> BTreeSet<(String, String)> {
        let mut out = BTreeSet::new();
        self.needed(&self.d.sels, &["Query"], &mut out);
        out
    }
    fn needed(&self, set: &[Sel], types: &[&str], out: &mut BTreeSet<(String, String)>) {
        let only = |on: &str| types.iter().copied().filter(|t| self.s.possible(on).contains(t)).collect::<Vec<_>>();
        for s in set {
            match s {
                Sel::Field { name, dirs, sub, .. } if self.d.holds(dirs) && name != "__typename" => {
                    for t in types {
                        out.insert((t.to_string(), name.clone()));
                        let d = self.s.field(t, name).expect("field").clone();
                        if !sub.is_empty() {
                            self.needed(sub, &self.s.possible(d.ty.name()), out);
                        }
                    }
                }
                Sel::Inline { on, dirs, sub } if self.d.holds(dirs) => match on {
                    Some(on) => self.needed(sub, &only(on), out),
                    None => self.needed(sub, types, out),
                },
                Sel::Spread { name, dirs } if self.d.holds(dirs) => {
                    let (on, sub) = &self.d.fragments[name];
                    self.needed(sub, &only(on), out);
                }
                _ => {}
            }
        }
    }
    pub fn run(&mut self) -> Result<Out, Path> {
        self.object("Query", &json!({}), &[&self.d.sels], &mut vec![])
    }
    /// CollectFields
    fn collect(&self, t: &str, set: &'a [Sel], out: &mut Vec<(String, String, Vec<&'a [Sel]>)>) {
        for s in set {
            match s {
                Sel::Field { alias, name, dirs, sub } => {
                    if !self.d.holds(dirs) {
                        continue;
                    }
                    let key = alias.clone().unwrap_or(name.clone());
                    match out.iter_mut().find(|o| o.0 == key) {
                        Some(o) => o.2.push(sub),
                        None => out.push((key, name.clone(), vec![sub])),
                    }
                }
                Sel::Inline { on, dirs, sub } => {
                    if self.d.holds(dirs) && on.as_ref().map_or(true, |on| self.s.possible(on).contains(&t)) {
                        self.collect(t, sub, out);
                    }
                }
                Sel::Spread { name, dirs } => {
                    let (on, sub) = &self.d.fragments[name];
                    if self.d.holds(dirs) && self.s.possible(on).contains(&t) {
                        self.collect(t, sub, out);
                    }
                }
            }
        }
    }
    fn object(&mut self, t: &str, v: &Value, sets: &[&'a [Sel]], path: &mut Path) -> Result<Out, Path> {
        let mut fields = vec![];
        for set in sets {
            self.collect(t, set, &mut fields);
        }
        let mut out = vec![];
        let mut bad = None;
        for (key, name, sets) in fields {
            path.push(json!(key));
            let got = if name == "__typename" {
                Ok(Out::Leaf(json!(t)))
            } else if self.denied.contains(&(t.to_string(), name.clone())) {
                self.hit = true;
                Ok(Out::Denied)
            } else {
                let d = self.s.field(t, &name).expect("field").clone();
                let v = if d.resolver {
                    let at = if t == "Query" { format!("/Query/{name}") } else { format!("/{t}/{name}/{}", v["id"]) };
                    self.asked.insert(at.clone());
                    self.s.upstream(&at, self.salt)
                } else {
                    v.get(&name).cloned().unwrap_or(Value::Null)
                };
                self.complete(&d.ty, &v, &sets, path)
            };
            path.pop();
            match got {
                Ok(o) => out.push((key, o)),
                Err(p) => bad = bad.or(Some(p)),
            }
        }
        match bad {
            Some(p) => Err(p),
            None => Ok(Out::Obj(out)),
        }
    }
    fn complete(&mut self, ty: &Ty, v: &Value, sets: &[&'a [Sel]], path: &mut Path) -> Result<Out, Path> {
        if v.is_null() {
            return if ty.non_null() { Err(path.clone()) } else { Ok(Out::Leaf(Value::Null)) };
        }
        match ty {
            Ty::List(t, _) => {
                let mut out = vec![];
                let mut bad = None;
                for (i, v) in v.as_array().into_iter().flatten().enumerate() {
                    path.push(json!(i));
                    let got = self.complete(t, v, sets, path);
                    path.pop();
                    match got {
                        Ok(o) => out.push(o),
                        Err(p) => bad = bad.or(Some(p)),
                    }
                }
                match bad {
                    Some(p) => Err(p),
                    None => Ok(Out::List(out)),
                }
            }
            Ty::Named(n, _) => {
                let ok = match n.as_str() {
                    "E" => ["X", "Y", "Z"].iter().any(|x| v == x),
                    "Email" => v.as_str().map_or(false, |s| s.contains('@')),
                    // given as the upstream gives them
                    "Int" | "Boolean" | "Float" | "String" => true,
                    _ => {
                        let t = v["__typename"].as_str().unwrap_or(n).to_string();
                        return self.object(&t, v, sets, path);
                    }
                };
                if ok { Ok(Out::Leaf(v.clone())) } else { Err(path.clone()) }
            }
        }
    }
}
