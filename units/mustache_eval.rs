#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
pub mod p_eval {
use vstd::prelude::*;
use super::*;
use core::marker::PhantomData;
verus! {
broadcast use axiom_string_ext;
//@ item src/core/mustache/model.rs :: enum Segment
//@ item src/core/mustache/model.rs :: struct Mustache
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn flat(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { v[0] + flat(v.skip(1)) } }
// what a value holds at a path, as text / as GraphQL
pub trait PathString { spec fn at(&self, p: Seq<Seq<char>>) -> Option<Seq<char>>; fn path_string(&self, p: &Vec<String>) -> (r: Option<String>) ensures match r { Some(t) => self.at(texts(p@)) == Some(t@), None => self.at(texts(p@)) is None }; }
pub trait PathGraphql { spec fn gat(&self, p: Seq<Seq<char>>) -> Option<Seq<char>>; fn path_graphql(&self, p: &Vec<String>) -> (r: Option<String>) ensures match r { Some(t) => self.gat(texts(p@)) == Some(t@), None => self.gat(texts(p@)) is None }; }
pub uninterp spec fn show(p: Seq<Seq<char>>) -> Seq<char>;
pub open spec fn filled(v: Seq<Segment>, at: spec_fn(Seq<Seq<char>>) -> Seq<char>) -> Seq<char> { flat(v.map_values(|s: Segment| match s { Segment::Literal(t) => t@, Segment::Expression(p) => at(texts(p@)) })) }
pub open spec fn fill(s: Segment, at: spec_fn(Seq<Seq<char>>) -> Seq<char>) -> Seq<char> { match s { Segment::Literal(t) => t@, Segment::Expression(p) => at(texts(p@)) } }
// [T]::iter().map(f).collect::<String>()
#[verifier::external_body] pub fn mapped_<F: Fn(&Segment) -> String>(v: &Vec<Segment>, f: F) -> (r: String)
    requires forall|s: &Segment| #[trigger] f.requires((s,))
    ensures forall|at: spec_fn(Seq<Seq<char>>) -> Seq<char>| (forall|s: &Segment, o: String| #[trigger] f.ensures((s,), o) ==> o@ == fill(*s, at)) ==> r@ == #[trigger] filled(v@, at) { unimplemented!() }
#[verifier::external_body] pub fn shown_(p: &Vec<String>) -> (r: String) ensures r@ == show(texts(p@)) { unimplemented!() }
impl Mustache { pub fn segments(&self) -> (r: &Vec<Segment>) ensures *r == self.0 { &self.0 } }
pub struct PathStringEval<A>(pub PhantomData<A>);
pub struct PathGraphqlEval<A>(pub PhantomData<A>);
pub open spec fn or_empty(o: Option<Seq<char>>) -> Seq<char> { match o { Some(t) => t, None => Seq::empty() } }
//@ rewrite /mustache\s*\.segments\(\)\s*\.iter\(\)\s*\.map\((.*)\)\s*\.collect\(\)/ => mapped_(mustache.segments(), \1)
//@ rewrite /\.unwrap_or_default\(\)/ => .unwrap_or(empty_())
//@ rewrite /Mustache::from\(vec!\[Segment::Expression\((\w+)\.to_vec\(\)\)\]\)\.to_string\(\)/ => shown_(\1)
//@ rewrite /\.to_string\(\)/ => .to_text_()
pub trait ToText { spec fn tx(&self) -> Seq<char>; fn to_text_(&self) -> (r: String) ensures r@ == self.tx(); }
impl ToText for String { open spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_text_(&self) -> String { unimplemented!() } }
#[verifier::external_body] pub fn empty_() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
impl<A: PathString> PathStringEval<A> {
    pub fn new() -> Self { Self(PhantomData) }
//@ fn src/core/mustache/eval.rs :: impl<A> PathStringEval<A> :: fn eval_partial
//@   closure 1 |$0: &Segment| -> (o: String) ensures o@ == fill(*$0, |p: Seq<Seq<char>>| match in_value.at(p) { Some(t) => t, None => show(p) })
//@   closure 2 |$0: String| -> (o: String) ensures o@ == $0@
//@   spec ensures r@ == filled(mustache.0@, |p: Seq<Seq<char>>| match in_value.at(p) { Some(t) => t, None => show(p) })
//@ fn src/core/mustache/eval.rs :: impl<A: PathString> Eval<'_> for PathStringEval<A> :: fn eval
//@   sub /Self::In/ => A
//@   sub /Self::Out/ => String
//@   closure 1 |$0: &Segment| -> (o: String) ensures o@ == fill(*$0, |p: Seq<Seq<char>>| or_empty(in_value.at(p)))
//@   closure 2 |$0: String| -> (o: String) ensures o@ == $0@
//@   spec ensures r@ == filled(mustache.0@, |p: Seq<Seq<char>>| or_empty(in_value.at(p)))
}
impl<A: PathGraphql> PathGraphqlEval<A> {
    pub fn new() -> Self { Self(PhantomData) }
//@ fn src/core/mustache/eval.rs :: impl<A: PathGraphql> Eval<'_> for PathGraphqlEval<A> :: fn eval
//@   sub /Self::In/ => A
//@   sub /Self::Out/ => String
//@   closure 1 |$0: &Segment| -> (o: String) ensures o@ == fill(*$0, |p: Seq<Seq<char>>| or_empty(in_value.gat(p)))
//@   spec ensures r@ == filled(mustache.0@, |p: Seq<Seq<char>>| or_empty(in_value.gat(p)))
}
impl Mustache {
//@ fn src/core/mustache/eval.rs :: impl Mustache :: fn render
//@   sub /value: &impl PathString/ => value: &A_
//@   sub /fn render\(/ => fn render<A_: PathString>(
//@   spec ensures r@ == filled(self.0@, |p: Seq<Seq<char>>| or_empty(value.at(p)))
//@ fn src/core/mustache/eval.rs :: impl Mustache :: fn render_graphql
//@   sub /value: &impl PathGraphql/ => value: &A_
//@   sub /fn render_graphql\(/ => fn render_graphql<A_: PathGraphql>(
//@   spec ensures r@ == filled(self.0@, |p: Seq<Seq<char>>| or_empty(value.gat(p)))
}
}
}
fn main() {}
