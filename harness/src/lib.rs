//! Shared parts of the bounded stand-ins: a seeded generator, and a recorder
//! that runs cases, catches panics of the code under test and reports.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.below(max + 1);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        if self.flip() {
            Some(f(self))
        } else {
            None
        }
    }
}

/// a text close to `s`: one letter in the other case, one character more, fewer or
/// another, blanks around it, or `s` doubled
pub fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = r.below(c.len().max(1));
    match r.below(8) {
        0 if !c.is_empty() => c[i] = if c[i].is_lowercase() { c[i].to_uppercase().next().unwrap() } else { c[i].to_lowercase().next().unwrap() },
        1 => c = s.to_uppercase().chars().collect(),
        2 => c = s.to_lowercase().chars().collect(),
        3 if !c.is_empty() => {
            c.remove(i);
        }
        4 => c.insert(i.min(c.len()), *r.pick(&['a', '0', ' ', '_', 'é', '-'])),
        5 => c.push(*r.pick(&['a', '0', ' ', '_', 'é'])),
        6 => c.insert(0, ' '),
        _ => c.extend(s.chars()),
    }
    c.into_iter().collect()
}

pub struct Audit {
    pub rng: Rng,
    pub iters: usize,
    rule: String,
    trail: Option<String>,
    evals: u64,
    distinct: BTreeSet<u64>,
    samples: Vec<String>,
    sampled: BTreeSet<String>,
    violations: Vec<serde_json::Value>,
    keys: std::collections::BTreeMap<String, usize>,
}

fn fx(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

impl Audit {
    pub fn start(rule: &str) -> Self {
        let a: Vec<String> = std::env::args().collect();
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            LAST.with(|l| *l.borrow_mut() = s);
        }));
        let seed = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
        Audit {
            rng: Rng::new(seed),
            iters: a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1000),
            rule: rule.to_string(),
            trail: a.get(3).cloned(),
            evals: 0,
            distinct: Default::default(),
            samples: vec![],
            sampled: Default::default(),
            violations: vec![],
            keys: Default::default(),
        }
    }
    /// One case. `key` names the clause of the property; `nontrivial` cases are
    /// counted when their input is new.
    pub fn case(&mut self, key: &str, nontrivial: bool, input: impl FnOnce() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        let input = input();
        if let Some(t) = &self.trail {
            // where a run that crashed or hung is looked into
            let _ = std::fs::write(t, format!("{key}\u{0}{input}"));
        }
        if nontrivial {
            self.distinct.insert(fx(&format!("{key}\u{0}{input}")));
            if self.sampled.insert(key.to_string()) && self.samples.len() < 40 {
                let mut i = input.clone();
                if i.len() > 300 {
                    let mut n = 300;
                    while !i.is_char_boundary(n) {
                        n -= 1;
                    }
                    i.truncate(n);
                }
                self.samples.push(format!("{key}: {i}"));
            }
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", LAST.with(|l| l.borrow().clone()))),
        };
        if let Err(what) = r {
            let n = self.keys.entry(key.to_string()).or_default();
            *n += 1;
            if *n <= 3 {
                self.violations.push(serde_json::json!({"key": key, "input": input, "what": what}));
            }
        }
    }
    /// equality with a readable report
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, key: &str, nontrivial: bool, input: impl FnOnce() -> String, got: impl FnOnce() -> T, want: impl FnOnce() -> T) {
        self.case(key, nontrivial, input, || {
            let (g, w) = (got(), want());
            if g == w {
                Ok(())
            } else {
                Err(format!("got {g:?}, the property wants {w:?}"))
            }
        })
    }
    pub fn finish(self) {
        let j = serde_json::json!({
            "evaluations": self.evals, "distinct_nontrivial": self.distinct.len(), "rule": self.rule,
            "samples": self.samples, "violations": self.violations,
        });
        println!("AUDIT {j}");
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, the property wants {want:?}"))
    }
}

pub mod json {
    use super::Rng;
    use async_graphql::Name;
    use async_graphql_value::{ConstValue, Value as GValue};
    use serde_json::Value;

    pub fn num(r: &mut Rng) -> Value {
        match r.below(9) {
            0 => Value::from(0),
            1 => Value::from(i64::MIN),
            2 => Value::from(i64::MAX),
            3 => Value::from(u64::MAX),
            4 => Value::from(9007199254740993u64 + r.below(3) as u64),
            5 => Value::from(-(r.below(100) as i64)),
            6 => Value::from(r.below(1000) as f64 / 8.0),
            7 => Value::from(-1.5e300),
            _ => Value::from(r.below(5)),
        }
    }
    pub fn text(r: &mut Rng) -> String {
        r.pick(&["", "a", "b", "id", "1", "0", "true", "null", "Ünï", "a.b", "é\"\\\n", "user", "2", "-1", "007", "1.5"]).to_string()
    }
    /// serde_json_borrow borrows object keys, so they carry no escapes
    pub fn key(r: &mut Rng) -> String {
        r.pick(&["", "a", "b", "id", "1", "0", "true", "Ünï", "a.b", "user", "2", "-1", "__typename"]).to_string()
    }
    pub fn gen(r: &mut Rng, depth: usize) -> Value {
        let n = if depth == 0 { 4 } else { 8 };
        match r.below(n) {
            0 => Value::Null,
            1 => Value::Bool(r.flip()),
            2 => num(r),
            3 => Value::String(text(r)),
            4 | 5 => Value::Array(r.vec(4, |r| gen(r, depth - 1))),
            _ => Value::Object(r.vec(4, |r| (key(r), gen(r, depth - 1))).into_iter().collect()),
        }
    }
    pub fn to_const(v: &Value) -> ConstValue {
        match v {
            Value::Null => ConstValue::Null,
            Value::Bool(b) => ConstValue::Boolean(*b),
            Value::Number(n) => ConstValue::Number(n.clone()),
            Value::String(s) => ConstValue::String(s.clone()),
            Value::Array(a) => ConstValue::List(a.iter().map(to_const).collect()),
            Value::Object(m) => ConstValue::Object(m.iter().map(|(k, v)| (Name::new(k), to_const(v))).collect()),
        }
    }
    pub fn to_gvalue(v: &Value) -> GValue {
        match v {
            Value::Null => GValue::Null,
            Value::Bool(b) => GValue::Boolean(*b),
            Value::Number(n) => GValue::Number(n.clone()),
            Value::String(s) => GValue::String(s.clone()),
            Value::Array(a) => GValue::List(a.iter().map(to_gvalue).collect()),
            Value::Object(m) => GValue::Object(m.iter().map(|(k, v)| (Name::new(k), to_gvalue(v))).collect()),
        }
    }
    pub fn from_const(v: &ConstValue) -> Value {
        match v {
            ConstValue::Null => Value::Null,
            ConstValue::Boolean(b) => Value::Bool(*b),
            ConstValue::Number(n) => Value::Number(n.clone()),
            ConstValue::String(s) => Value::String(s.clone()),
            ConstValue::List(a) => Value::Array(a.iter().map(from_const).collect()),
            ConstValue::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.to_string(), from_const(v))).collect()),
            ConstValue::Enum(n) => Value::String(format!("enum {n}")),
            ConstValue::Binary(_) => Value::String("binary".into()),
        }
    }
    pub fn from_gvalue(v: &GValue) -> Value {
        match v {
            GValue::Null => Value::Null,
            GValue::Boolean(b) => Value::Bool(*b),
            GValue::Number(n) => Value::Number(n.clone()),
            GValue::String(s) => Value::String(s.clone()),
            GValue::List(a) => Value::Array(a.iter().map(from_gvalue).collect()),
            GValue::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.to_string(), from_gvalue(v))).collect()),
            GValue::Enum(n) => Value::String(format!("enum {n}")),
            GValue::Binary(_) => Value::String("binary".into()),
            GValue::Variable(n) => Value::String(format!("${n}")),
        }
    }
    pub fn from_borrow(v: &serde_json_borrow::Value) -> Value {
        use serde_json_borrow::Value as B;
        match v {
            B::Null => Value::Null,
            B::Bool(b) => Value::Bool(*b),
            B::Number(n) => Value::Number((*n).into()),
            B::Str(s) => Value::String(s.to_string()),
            B::Array(a) => Value::Array(a.iter().map(from_borrow).collect()),
            B::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.to_string(), from_borrow(v))).collect()),
        }
    }
    /// the leaves of nested lists, in order
    pub fn depth(v: &Value) -> usize {
        match v {
            Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
            Value::Object(m) => 1 + m.values().map(depth).max().unwrap_or(0),
            _ => 0,
        }
    }
}
