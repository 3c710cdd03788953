use tailcall::core::mustache::{Mustache, Segment};
use tcv::{same, Audit, Rng};

#[derive(Debug, Clone, PartialEq)]
enum Seg {
    Lit(String),
    Expr(Vec<String>),
}
/// the property's own reading of a template
struct Reader<'a>(&'a [char], usize);
impl Reader<'_> {
    fn eat(&mut self, t: &str) -> bool {
        let t: Vec<char> = t.chars().collect();
        let ok = self.0[self.1..].starts_with(&t);
        if ok {
            self.1 += t.len();
        }
        ok
    }
    fn while_(&mut self, f: impl Fn(char) -> bool) -> String {
        let s = self.1;
        while self.1 < self.0.len() && f(self.0[self.1]) {
            self.1 += 1;
        }
        self.0[s..self.1].iter().collect()
    }
    fn name(&mut self) -> Option<String> {
        self.while_(|c| " \t\r\n".contains(c));
        let mut n = self.while_(|c| c.is_ascii_alphabetic());
        if n.is_empty() {
            return None;
        }
        n += &self.while_(|c| c.is_ascii_alphanumeric() || c == '_');
        self.while_(|c| " \t\r\n".contains(c));
        Some(n)
    }
    fn expr(&mut self) -> Option<Vec<String>> {
        if !self.eat("{{") {
            return None;
        }
        self.eat(".");
        let mut v = vec![self.name()?];
        while self.eat(".") {
            v.push(self.name()?);
        }
        self.eat("}}").then_some(v)
    }
}
fn template(s: &str) -> Vec<Seg> {
    let c: Vec<char> = s.chars().collect();
    let (mut out, mut at, mut lit) = (vec![], 0, String::new());
    while at < c.len() {
        if c[at..].starts_with(&['{', '{']) {
            let mut r = Reader(&c, at);
            match r.expr() {
                Some(v) => {
                    out.push(Seg::Lit(std::mem::take(&mut lit)));
                    out.push(Seg::Expr(v));
                    at = r.1;
                    continue;
                }
                None => {
                    out = vec![];
                    lit = s.to_string();
                    break;
                }
            }
        }
        lit.push(c[at]);
        at += 1;
    }
    out.push(Seg::Lit(lit));
    out.retain(|s| !matches!(s, Seg::Lit(t) if t.is_empty() || t == "\""));
    out
}
fn view(m: &Mustache) -> Vec<Seg> {
    m.segments().iter().map(|s| match s { Segment::Literal(t) => Seg::Lit(t.clone()), Segment::Expression(p) => Seg::Expr(p.clone()) }).collect()
}
fn show(v: &[Seg]) -> String {
    v.iter().map(|s| match s { Seg::Lit(t) => t.clone(), Seg::Expr(p) => "{{.".to_string() + &p.join(".") + "}}" }).collect()
}
const NAMES: &[&str] = &["a", "args", "value", "id", "user_id", "FOO_BAR", "a1", "a_1_b2", "headers", "x_", "userId2", "A"];
const BAD: &[&str] = &["", "_a", "1a", "a-b", "é", "aé", "a b", "a.", "a..b", "{a", "a}", "a[0]", "$a", "\"a\"", "a:b", "\u{a0}a", "\u{b}a", "a\u{3000}"];
const LITS: &[&str] = &["", "/", "\"", "\"\"", "{", "}", "}}", "{}", "{ {", "/users/", "?a=", "&b=", " ", "é", "\n", "{\"a\": ", "}\"", "'", ".", "{{", "{{}}", "{{.}}", "{{{", "}}}", "\\"];
fn name(r: &mut Rng) -> String {
    let pad = |r: &mut Rng| r.pick(&["", "", "", "", " ", "  ", "\t", "\n", "\r\n "]).to_string();
    let n = if r.one_in(24) { r.pick(BAD) } else { r.pick(NAMES) };
    pad(r) + n + &pad(r)
}
fn expr(r: &mut Rng) -> String {
    let n = 1 + r.below(4);
    let v: Vec<String> = (0..n).map(|_| name(r)).collect();
    let open = if r.one_in(8) { *r.pick(&["{{ .", "{{{", "{{..", "{ {", "{{ ", "{{. "]) } else { *r.pick(&["{{.", "{{"]) };
    let close = if r.one_in(12) { *r.pick(&["}}}", "}", "} }", "", ".}}"]) } else { "}}" };
    open.to_string() + &v.join(".") + close
}
fn text(r: &mut Rng) -> String {
    let n = r.below(6);
    (0..n).map(|_| match r.below(5) { 0..=2 => expr(r), _ => { let k = if r.one_in(3) { LITS.len() } else { LITS.len() - 8 }; LITS[r.below(k)].to_string() } }).collect()
}
fn main() {
    let mut a = Audit::start("generated templates against a reading of their grammar");
    for i in 0..a.iters {
        let t = if i < LITS.len() { LITS[i].to_string() } else { text(&mut a.rng) };
        let q = if a.rng.flip() { *a.rng.pick(NAMES) } else { *a.rng.pick(BAD) }.to_string();
        let want = template(&t);
        a.case("template", want.len() > 1, || format!("{t:?}"), || {
            let m = Mustache::parse(&t);
            same("parsed", view(&m), want.clone())?;
            let shown = m.to_string();
            same("shown", shown.clone(), show(&want))?;
            same("shown and parsed again", view(&Mustache::parse(&shown)), want.clone())?;
            same("const", m.is_const(), !want.iter().any(|s| matches!(s, Seg::Expr(_))))?;
            let exprs: Vec<Vec<String>> = want.iter().filter_map(|s| if let Seg::Expr(p) = s { Some(p.clone()) } else { None }).collect();
            same("contains", m.expression_contains(&q), exprs.iter().flatten().any(|n| *n == q))?;
            for n in exprs.iter().flatten() {
                same("contains its own", m.expression_contains(n), true)?;
            }
            same("expressions", m.expression_segments().into_iter().cloned().collect::<Vec<_>>(), exprs)?;
            Ok(())
        });
    }
    a.finish();
}
