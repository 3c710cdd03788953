#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/nom.rs
pub mod p_tpl {
use vstd::prelude::*;
use super::nom::{self, *};
use super::axiom_string_ext;
verus! {
broadcast use {axiom_string_ext, lemma_run, lemma_first_at};
// ---- the grammar of templates
pub open spec fn word(c: char) -> bool { alnum(c) || c == '_' }
// blanks, letters, letters digits and underscores, blanks
pub open spec fn name(i: Seq<char>) -> Ans<Seq<char>> {
    let a = i.skip(run(i, blank()));
    let n = run(a, |c: char| letter(c));
    if n == 0 { None } else {
        let b = a.skip(n); let m = run(b, |c: char| word(c)); let e = b.skip(m);
        Some((e.skip(run(e, blank())), a.take(n) + b.take(m)))
    }
}
pub open spec fn dotted(i: Seq<char>) -> (Seq<char>, Seq<Seq<char>>) decreases i.len() {
    if i.len() > 0 && i[0] == '.' { match name(i.skip(1)) { Some((j, t)) => if j.len() < i.len() { let (e, ts) = dotted(j); (e, seq![t] + ts) } else { (i, Seq::empty()) }, None => (i, Seq::empty()) } } else { (i, Seq::empty()) }
}
pub open spec fn names(i: Seq<char>) -> Ans<Seq<Seq<char>>> { match name(i) { Some((j, t)) => { let (e, ts) = dotted(j); Some((e, seq![t] + ts)) }, None => None } }
// {{ .a.b }}, the first dot optional
pub open spec fn expr(i: Seq<char>) -> Ans<Seq<Seq<char>>> {
    if starts(i, "{{"@) {
        let a = i.skip(2); let b = if a.len() > 0 && a[0] == '.' { a.skip(1) } else { a };
        match names(b) { Some((e, ts)) => if starts(e, "}}"@) { Some((e.skip(2), ts)) } else { None }, None => None }
    } else { None }
}
pub enum Seg { Lit(Seq<char>), Expr(Seq<Seq<char>>) }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// an expression or the text up to one, as long as there is more; None: braces that open no expression
pub open spec fn segs(i: Seq<char>) -> Option<Seq<Seg>> decreases i.len() {
    match expr(i) {
        Some((j, ts)) => if j.len() < i.len() { match segs(j) { Some(s) => Some(seq![Seg::Expr(ts)] + s), None => None } } else { None },
        None => match first_at(i, "{{"@) {
            Some(n) => if 0 < n <= i.len() { match segs(i.skip(n)) { Some(s) => Some(seq![Seg::Lit(i.take(n))] + s), None => None } } else { None },
            None => Some(if i.len() == 0 { Seq::empty() } else { seq![Seg::Lit(i)] }),
        }
    }
}
pub open spec fn dropped(s: Seg) -> bool { s == Seg::Lit(Seq::empty()) || s == Seg::Lit("\""@) }
pub open spec fn template(i: Seq<char>) -> Seq<Seg> { (match segs(i) { Some(s) => s, None => seq![Seg::Lit(i)] }).filter(|s: Seg| !dropped(s)) }
pub open spec fn concat(v: Seq<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { v[0]@ + concat(v.skip(1)) } }
// a run of words and underscores taken bit by bit is the whole run
pub broadcast proof fn lemma_underscore(i: Seq<char>) ensures #[trigger] starts(i, "_"@) == (i.len() > 0 && i[0] == '_'), "_"@.len() == 1 {
    reveal_strlit("_"); assert("_"@ =~= seq!['_']);
    if i.len() > 0 && i[0] == '_' { assert(i.take(1) =~= seq!['_']); }
    if starts(i, "_"@) { assert(i.take(1)[0] == '_'); }
}
pub open spec fn bit(i: Seq<char>, r: Ans<&str>) -> bool {
    match r { None => i.len() == 0 || !word(i[0]), Some((j, o)) => exists|n: int| 0 < n <= i.len() && j == #[trigger] i.skip(n) && o@ == i.take(n) && forall|k: int| 0 <= k < n ==> word(#[trigger] i[k]) }
}
pub proof fn lemma_run_split(i: Seq<char>, p: spec_fn(char) -> bool, n: int)
    requires 0 <= n <= i.len(), forall|k: int| 0 <= k < n ==> p(#[trigger] i[k])
    ensures run(i, p) == n + run(i.skip(n), p)
    decreases n
{
    if n > 0 { assert(p(i[0])); assert forall|k: int| 0 <= k < n - 1 implies p(#[trigger] i.skip(1)[k]) by { assert(i.skip(1)[k] == i[k + 1]); } lemma_run_split(i.skip(1), p, n - 1); assert(i.skip(1).skip(n - 1) =~= i.skip(n)); } else { assert(i.skip(0) =~= i); }
}
pub broadcast proof fn lemma_bits<'a, P: Parser<'a, &'a str>>(p: P, i: Seq<char>, r: Ans<Seq<&'a str>>)
    requires #[trigger] many(p, i, r), forall|i: Seq<char>, r: Ans<&'a str>| #[trigger] p.rel(i, r) ==> bit(i, r)
    ensures r is Some, ({ let n = run(i, |c: char| word(c)); (r->0).0 == i.skip(n) && concat((r->0).1) == i.take(n) })
    decreases i.len()
{
    let w = |c: char| word(c);
    if p.rel(i, None) && r == Some((i, Seq::<&'a str>::empty())) {
        assert(i.skip(0) =~= i); assert(i.take(0) =~= Seq::empty());
    } else if exists|j: Seq<char>, o: &'a str| #[trigger] p.rel(i, Some((j, o))) && j.len() == i.len() && r is None {
        let (j, o) = choose|j: Seq<char>, o: &'a str| #[trigger] p.rel(i, Some((j, o))) && j.len() == i.len() && r is None;
        assert(bit(i, Some((j, o))));
    } else {
        let (j, o, q) = choose|j: Seq<char>, o: &'a str, q: Ans<Seq<&'a str>>| #[trigger] p.rel(i, Some((j, o))) && j.len() < i.len() && #[trigger] both(o, q) && many(p, j, q) && r == (match q { Some((e, s)) => Some((e, seq![o] + s)), None => None::<(Seq<char>, Seq<&'a str>)> });
        lemma_bits(p, j, q);
        assert(bit(i, Some((j, o))));
        let n = choose|n: int| 0 < n <= i.len() && j == #[trigger] i.skip(n) && o@ == i.take(n) && forall|k: int| 0 <= k < n ==> word(#[trigger] i[k]);
        lemma_run_split(i, w, n);
        let s = (q->0).1;
        assert((seq![o] + s).skip(1) =~= s);
        let m = run(j, w);
        lemma_run(j, w);
        assert(i.take(n + m) =~= i.take(n) + j.take(m));
        assert(i.skip(n + m) =~= j.skip(m));
    }
}
pub broadcast proof fn lemma_braces(i: Seq<char>) ensures #[trigger] starts(i, "{{"@) ==> i.len() >= 2, "{{"@.len() == 2, "}}"@.len() == 2 { reveal_strlit("{{"); reveal_strlit("}}"); }
pub broadcast proof fn lemma_name(i: Seq<char>) ensures match #[trigger] name(i) { Some((j, t)) => j.len() < i.len(), None => true } {
    let a = i.skip(run(i, blank())); let n = run(a, |c: char| letter(c));
    if n != 0 { let b = a.skip(n); let m = run(b, |c: char| word(c)); let e = b.skip(m); assert(e.skip(run(e, blank())).len() <= e.len()); }
}
pub broadcast proof fn lemma_texts(o: String, s: Seq<String>) ensures texts(#[trigger] (seq![o] + s)) == seq![o@] + texts(s) { assert(texts(seq![o] + s) =~= seq![o@] + texts(s)); }
pub open spec fn dot(i: Seq<char>, r: Ans<char>) -> bool { if i.len() > 0 && i[0] == '.' { r is Some && (r->0).0 == i.skip(1) } else { r is None } }
pub open spec fn named(i: Seq<char>, r: Ans<String>) -> bool { match name(i) { Some((j, t)) => r is Some && (r->0).0 == j && (r->0).1@ == t, None => r is None } }
pub broadcast proof fn lemma_dotted<'a, G: Parser<'a, char>, P: Parser<'a, String>>(g: G, p: P, i: Seq<char>, r: Ans<Seq<String>>)
    requires #[trigger] more(g, p, i, r), forall|i: Seq<char>, r: Ans<char>| #[trigger] g.rel(i, r) ==> dot(i, r), forall|i: Seq<char>, r: Ans<String>| #[trigger] p.rel(i, r) ==> named(i, r)
    ensures r is Some, dotted(i) == ((r->0).0, texts((r->0).1))
    decreases i.len()
{
    if g.rel(i, None) && r == Some((i, Seq::<String>::empty())) {
        assert(dot(i, None)); assert(texts(Seq::empty()) =~= Seq::empty());
    } else if exists|m: Seq<char>, s: char| #[trigger] g.rel(i, Some((m, s))) && m.len() == i.len() && r is None {
        let (m, s) = choose|m: Seq<char>, s: char| #[trigger] g.rel(i, Some((m, s))) && m.len() == i.len() && r is None;
        assert(dot(i, Some((m, s))));
    } else if exists|m: Seq<char>, s: char| #[trigger] g.rel(i, Some((m, s))) && m.len() < i.len() && p.rel(m, None) && r == Some((i, Seq::<String>::empty())) {
        let (m, s) = choose|m: Seq<char>, s: char| #[trigger] g.rel(i, Some((m, s))) && m.len() < i.len() && p.rel(m, None) && r == Some((i, Seq::<String>::empty()));
        assert(dot(i, Some((m, s)))); assert(named(m, None)); assert(texts(Seq::empty()) =~= Seq::empty());
    } else {
        let (m, s, j, o, q) = choose|m: Seq<char>, s: char, j: Seq<char>, o: String, q: Ans<Seq<String>>| #[trigger] g.rel(i, Some((m, s))) && m.len() < i.len() && #[trigger] p.rel(m, Some((j, o))) && j.len() <= m.len() && #[trigger] both(o, q) && more(g, p, j, q) && r == (match q { Some((e, s)) => Some((e, seq![o] + s)), None => None::<(Seq<char>, Seq<String>)> });
        assert(dot(i, Some((m, s)))); assert(named(m, Some((j, o))));
        lemma_dotted(g, p, j, q);
        assert(texts(seq![o] + (q->0).1) =~= seq![o@] + texts((q->0).1));
    }
}
//@ item src/core/mustache/model.rs :: enum Segment
pub open spec fn seg_of(s: Segment) -> Seg { match s { Segment::Literal(t) => Seg::Lit(t@), Segment::Expression(p) => Seg::Expr(texts(p@)) } }
pub open spec fn view(v: Seq<Segment>) -> Seq<Seg> { v.map_values(|s: Segment| seg_of(s)) }
pub broadcast proof fn lemma_dotted_len(i: Seq<char>) ensures (#[trigger] dotted(i)).0.len() <= i.len() decreases i.len() {
    broadcast use lemma_name;
    if i.len() > 0 && i[0] == '.' { match name(i.skip(1)) { Some((j, t)) => { if j.len() < i.len() { lemma_dotted_len(j); } }, None => {} } }
}
pub broadcast proof fn lemma_expr(i: Seq<char>) ensures match #[trigger] expr(i) { Some((j, t)) => j.len() < i.len(), None => true } {
    broadcast use {lemma_name, lemma_dotted_len, lemma_braces};
}
pub open spec fn piece(i: Seq<char>, r: Ans<Segment>) -> bool {
    match expr(i) { Some((j, t)) => r is Some && (r->0).0 == j && seg_of((r->0).1) == Seg::Expr(t), None => match first_at(i, "{{"@) { Some(n) => r is Some && (r->0).0 == i.skip(n) && seg_of((r->0).1) == Seg::Lit(i.take(n)), None => r is None } }
}
pub open spec fn rest(i: Seq<char>) -> Seq<Seg> { if i.len() == 0 { Seq::empty() } else { seq![Seg::Lit(i)] } }
pub broadcast proof fn lemma_segs<'a, P: Parser<'a, Segment>>(p: P, i: Seq<char>, r: Ans<Seq<Segment>>)
    requires #[trigger] many(p, i, r), forall|i: Seq<char>, r: Ans<Segment>| #[trigger] p.rel(i, r) ==> piece(i, r)
    ensures match segs(i) { None => r is None, Some(s) => r is Some && s == view((r->0).1) + rest((r->0).0) }
    decreases i.len()
{
    broadcast use lemma_expr;
    if p.rel(i, None) && r == Some((i, Seq::<Segment>::empty())) {
        assert(piece(i, None)); assert(view(Seq::empty()) + rest(i) =~= rest(i));
    } else if exists|j: Seq<char>, o: Segment| #[trigger] p.rel(i, Some((j, o))) && j.len() == i.len() && r is None {
        let (j, o) = choose|j: Seq<char>, o: Segment| #[trigger] p.rel(i, Some((j, o))) && j.len() == i.len() && r is None;
        assert(piece(i, Some((j, o))));
    } else {
        let (j, o, q) = choose|j: Seq<char>, o: Segment, q: Ans<Seq<Segment>>| #[trigger] p.rel(i, Some((j, o))) && j.len() < i.len() && #[trigger] both(o, q) && many(p, j, q) && r == (match q { Some((e, s)) => Some((e, seq![o] + s)), None => None::<(Seq<char>, Seq<Segment>)> });
        assert(piece(i, Some((j, o))));
        lemma_segs(p, j, q);
        assert(view(seq![o] + (q->0).1) + rest((q->0).0) =~= seq![seg_of(o)] + (view((q->0).1) + rest((q->0).0)));
    }
}
pub broadcast proof fn lemma_view_push(s: Seq<Segment>, o: Segment) ensures view(#[trigger] s.push(o)) == view(s) + seq![seg_of(o)] { assert(view(s.push(o)) =~= view(s) + seq![seg_of(o)]); }
pub broadcast proof fn lemma_view_none(s: Seq<Segment>) ensures #[trigger] view(s) + Seq::<Seg>::empty() == view(s) { assert(view(s) + Seq::<Seg>::empty() =~= view(s)); }
// ---- reading and showing a template
pub open spec fn names_it(s: Segment, t: Seq<char>) -> bool { match s { Segment::Expression(p) => exists|i: int| 0 <= i < p@.len() && (#[trigger] p@[i])@ == t, _ => false } }
pub open spec fn is_expr(s: Seg) -> bool { s is Expr }
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + sep + joined(v.skip(1), sep) } }
pub open spec fn show_expr(p: Seq<Seq<char>>) -> Seq<char> { "{{."@ + joined(p, "."@) + "}}"@ }
pub open spec fn flat(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { v[0] + flat(v.skip(1)) } }
pub open spec fn show_seg(s: Seg) -> Seq<char> { match s { Seg::Lit(t) => t, Seg::Expr(p) => show_expr(p) } }
pub open spec fn show(v: Seq<Seg>) -> Seq<char> { flat(v.map_values(|s: Seg| show_seg(s))) }
#[verifier::external_body] pub fn flat_(v: Vec<String>) -> (r: String) ensures r@ == flat(texts(v@)) { unimplemented!() }
#[verifier::external_body] pub fn dots_(v: &Vec<String>) -> (r: String) ensures r@ == joined(texts(v@), "."@) { unimplemented!() }
#[verifier::external_body] pub fn braced_(a: String) -> (r: String) ensures r@ == "{{."@ + a@ + "}}"@ { unimplemented!() }
// [T]::iter().map(f).collect()
#[verifier::external_body] pub fn mapped_<F: Fn(&Segment) -> String>(v: &Vec<Segment>, f: F) -> (r: Vec<String>)
    requires forall|s: &Segment| #[trigger] f.requires((s,))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), r@[i]) { unimplemented!() }
#[verifier::external_body] pub fn filter_map_<'a, F: Fn(&'a Segment) -> Option<&'a Vec<String>>>(v: &'a Vec<Segment>, f: F) -> (r: Vec<&'a Vec<String>>)
    requires forall|s: &'a Segment| #[trigger] f.requires((s,))
    ensures exists|o: Seq<Option<&'a Vec<String>>>| o.len() == v@.len() && (forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), o[i])) && r@ == #[trigger] somes(o) { unimplemented!() }
pub open spec fn somes<T>(o: Seq<Option<T>>) -> Seq<T> decreases o.len() { if o.len() == 0 { Seq::empty() } else { match o[0] { Some(t) => seq![t] + somes(o.skip(1)), None => somes(o.skip(1)) } } }
pub open spec fn exprs(v: Seq<Seg>) -> Seq<Seq<Seq<char>>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { match v[0] { Seg::Expr(p) => seq![p] + exprs(v.skip(1)), _ => exprs(v.skip(1)) } } }
pub open spec fn parts_of(v: Seq<&Vec<String>>) -> Seq<Seq<Seq<char>>> { v.map_values(|x: &Vec<String>| texts(x@)) }
pub broadcast proof fn lemma_somes(o: Seq<Option<&Vec<String>>>, s: Seq<Segment>)
    requires o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (match #[trigger] o[i] { Some(x) => Some(texts(x@)), None => None }) == (match seg_of(s[i]) { Seg::Expr(p) => Some(p), _ => None })
    ensures parts_of(#[trigger] somes(o)) == exprs(#[trigger] view(s))
    decreases o.len()
{
    if o.len() > 0 {
        let (o1, s1) = (o.skip(1), s.skip(1));
        assert forall|i: int| 0 <= i < s1.len() implies (match #[trigger] o1[i] { Some(x) => Some(texts(x@)), None => None }) == (match seg_of(s1[i]) { Seg::Expr(p) => Some(p), _ => None }) by { assert(o1[i] == o[i + 1]); }
        lemma_somes(o1, s1);
        assert(view(s).skip(1) =~= view(s1));
        assert((match o[0] { Some(x) => Some(texts(x@)), None => None }) == (match seg_of(s[0]) { Seg::Expr(p) => Some(p), _ => None }));
        if let Some(x) = o[0] { assert(parts_of(seq![x] + somes(o1)) =~= seq![texts(x@)] + parts_of(somes(o1))); }
    } else { assert(parts_of(somes(o)) =~= exprs(view(s))); }
}
#[verifier::external_body] pub fn any_<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool) requires forall|x: &T| #[trigger] f.requires((x,)) ensures r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false) { unimplemented!() }
#[verifier::external_body] pub fn str_eq_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub struct Formatter { pub out: String }
pub struct FmtErr;
impl Formatter { #[verifier::external_body] pub fn put_(&mut self, s: &String) -> (r: Result<(), FmtErr>) ensures r is Ok ==> (*final(self)).out@ == (*old(self)).out@ + s@ { unimplemented!() } }
pub broadcast proof fn lemma_shown(v: Seq<String>, s: Seq<Segment>) requires #[trigger] v.len() == #[trigger] s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i])@ == show_seg(seg_of(s[i])) ensures texts(v) == view(s).map_values(|s: Seg| show_seg(s)) { assert(texts(v) =~= view(s).map_values(|s: Seg| show_seg(s))); }
}
}
pub mod p_mustache {
use super::p_tpl::*;
use vstd::prelude::*;
use super::nom::{self, *};
use super::nom::branch::alt; use super::nom::bytes::complete::{tag, take_until}; use super::nom::character::complete::char; use super::nom::combinator::map; use super::nom::multi::many0; use super::nom::sequence::delimited;
use super::axiom_string_ext;
verus! {
broadcast use {axiom_string_ext, lemma_run, lemma_first_at, lemma_bits, lemma_underscore, lemma_braces, lemma_name, lemma_dotted, lemma_texts, lemma_segs, lemma_view_push, lemma_view_none, lemma_somes, lemma_shown};
// ---- the code
//@ item src/core/mustache/model.rs :: struct Mustache
#[verifier::external_body] pub fn concat_(v: Vec<&str>) -> (r: String) ensures r@ == concat(v@) { unimplemented!() }
#[verifier::external_body] pub fn joined_(a: &str, b: &String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn str_ne_(a: &String, b: &str) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
#[verifier::external_body] pub fn str_empty_(a: &str) -> (r: bool) ensures r == (a@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn string_empty_(a: &String) -> (r: bool) ensures r == (a@ == Seq::<char>::empty()) { unimplemented!() }
// Iterator::filter, then collect
#[verifier::external_body] pub fn keep_<F: Fn(&Segment) -> bool>(v: Vec<Segment>, f: F) -> (r: Vec<Segment>)
    requires forall|s: &Segment| #[trigger] f.requires((s,))
    ensures forall|p: spec_fn(Seg) -> bool| (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] f.ensures((&v@[i],), true) ==> p(seg_of(v@[i]))) && (f.ensures((&v@[i],), false) ==> !p(seg_of(v@[i])))) ==> view(r@) == #[trigger] view(v@).filter(p) { unimplemented!() }
impl Mustache {
//@ fn src/core/mustache/model.rs :: impl<A: IntoIterator<Item = Segment>> From<A> for Mustache :: fn from
//@   sub /value: A/ => value: Vec<Segment>
//@   sub /value\.into_iter\(\)\.collect\(\)/ => value
//@   spec ensures r.0@ == value@
//@ rewrite /\)\((input|str|\w+)\)/ => ).run(\1)
//@ fn src/core/mustache/parse.rs :: impl Mustache :: fn parse
//@   spec ensures view(r.0@) == template(str@)
}
//@ fn src/core/mustache/parse.rs :: fn parse_name
//@   opt /let b: String = b\.into_iter\(\)\.collect\(\);/ => let b: String = concat_(b);
//@   opt /format!\("\{\}\{\}", a, b\)/ => joined_(a, &b)
//@   closurelet 1 |a0: (&str, &str, Vec<&str>, &str)| -> (b_: String) ensures b_@ == a0.1@ + concat(a0.2@)
//@   spec ensures match name(input@) { Some((j, t)) => r is Ok && (r->Ok_0).0@ == j && (r->Ok_0).1@ == t, None => r is Err }
//@ fn src/core/mustache/parse.rs :: fn parse_expression
//@   closurelet 1 |a0: (Option<char>, Vec<String>)| -> (b_: Segment) ensures b_ == Segment::Expression(a0.1)
//@   spec ensures match expr(input@) { Some((j, t)) => r is Ok && (r->Ok_0).0@ == j && seg_of((r->Ok_0).1) == Seg::Expr(t), None => r is Err }
//@ fn src/core/mustache/parse.rs :: fn parse_segment
//@   closure 1 |$0: &str| -> (b_: Segment) ensures seg_of(b_) == Seg::Lit($0@)
//@   opt /\bremaining\.is_empty\(\)/ => str_empty_(remaining)
//@   spec ensures r is Ok, view((r->Ok_0).1@) == (match segs(input@) { Some(s) => s, None => seq![Seg::Lit(input@)] })
//@ fn src/core/mustache/parse.rs :: fn parse_mustache
//@   opt /segments\.into_iter\(\)\.filter\(/ => keep_(segments, 
//@   opt /\bs\.is_empty\(\)/ => string_empty_(s)
//@   opt /\bs != "\\""/ => str_ne_(s, "\"")
//@   closure 1 |$0: Vec<Segment>| -> (b_: Mustache) ensures view(b_.0@) == view($0@).filter(|s: Seg| !dropped(s))
//@   closure 2 |$0: &Segment| -> (b_: bool) ensures b_ == !dropped(seg_of(*$0))
//@   spec ensures r is Ok, view((r->Ok_0).1.0@) == template(input@)
impl Mustache {
//@ fn src/core/mustache/model.rs :: impl Mustache :: fn segments
//@   spec ensures *r == self.0
//@ fn src/core/mustache/model.rs :: impl Mustache :: fn is_const
//@   attr #[verifier::loop_isolation(false)]
//@   loop 1 it=it invariant forall|i: int| 0 <= i < it.index@ ==> !(#[trigger] segments@[i] is Expression)
//@   spec ensures r == !exists|i: int| 0 <= i < self.0@.len() && #[trigger] self.0@[i] is Expression
//@ fn src/core/mustache/model.rs :: impl Mustache :: fn expression_segments
//@   opt /self\s*\.segments\(\)\s*\.iter\(\)\s*\.filter_map\((.*)\)\s*\.collect\(\)/ => filter_map_(self.segments(), \1)
//@   closure 1 |$0: &Segment| -> (o: Option<&Vec<String>>) ensures (match o { Some(x) => Some(texts(x@)), None => None }) == (match seg_of(*$0) { Seg::Expr(p) => Some(p), _ => None })
//@   spec ensures parts_of(r@) == exprs(view(self.0@))
//@ fn src/core/mustache/model.rs :: impl Mustache :: fn expression_contains
//@   opt /self\s*\.segments\(\)\s*\.iter\(\)\s*\.any\(/ => any_(self.segments(), 
//@   opt /(\w+)\s*\.iter\(\)\s*\.any\(/ => any_(\1, 
//@   opt /matches!\((\w+), (.*?) if (.*)\)\)(\s*\})/ => match \1 { \2 => \3, _ => false })\4
//@   opt /part\.as_str\(\) == expression/ => str_eq_(part.as_str(), expression)
//@   closure 1 |$0: &Segment| -> (b: bool) ensures b == (names_it(*$0, expression@))
//@   closure 2 |$0: &String| -> (b: bool) ensures b == ($0@ == expression@)
//@   spec ensures r == exists|i: int| 0 <= i < self.0@.len() && names_it(#[trigger] self.0@[i], expression@)
//@ fn src/core/mustache/model.rs :: impl Display for Mustache :: fn fmt
//@   sub /(?:std::)?fmt::Formatter<'_>/ => Formatter
//@   sub /(?:std::)?fmt::Result/ => Result<(), FmtErr>
//@   opt /self\s*\.segments\(\)\s*\.iter\(\)\s*\.map\((.*?)\)\s*\.collect::<Vec<String>>\(\)\s*\.join\(""\)/ => flat_(mapped_(self.segments(), \1))
//@   opt /format!\("\{\{\{\{\.\{\}\}\}\}\}", (\w+)\.join\("\."\)\)/ => braced_(dots_(\1))
//@   opt /write!\(f, "\{\}", (\w+)\)/ => f.put_(&\1)
//@   closure 1 |$0: &Segment| -> (b: String) ensures b@ == show_seg(seg_of(*$0))
//@   spec ensures r is Ok ==> (*final(f)).out@ == (*old(f)).out@ + show(view(self.0@))
}
}
}
fn main() {}
