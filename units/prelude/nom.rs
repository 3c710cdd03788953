// Assumed contracts of nom's combinators (nom 7, on text): what a parser may answer on an input.
pub mod nom {
use vstd::prelude::*;
verus! {
pub struct Error_;
pub type IResult<I, O> = Result<(I, O), Error_>;
// what is left of the input, and the output
pub type Ans<O> = Option<(Seq<char>, O)>;
pub open spec fn ans<'a, O>(r: IResult<&'a str, O>) -> Ans<O> { match r { Ok((i, o)) => Some((i@, o)), Err(_) => None } }
pub trait Finish<T> { spec fn v(self) -> T; fn finish(self) -> (r: T) ensures r == self.v(); }
impl<'a, O> Finish<IResult<&'a str, O>> for IResult<&'a str, O> { open spec fn v(self) -> IResult<&'a str, O> { self } fn finish(self) -> IResult<&'a str, O> { self } }
pub trait Parser<'a, O>: Sized {
    spec fn rel(&self, i: Seq<char>, r: Ans<O>) -> bool;
    fn run(self, i: &'a str) -> (r: IResult<&'a str, O>) ensures self.rel(i@, ans(r));
}
// a function
impl<'a, O, F: Fn(&'a str) -> IResult<&'a str, O>> Parser<'a, O> for F {
    open spec fn rel(&self, i: Seq<char>, r: Ans<O>) -> bool { exists|t: &'a str, q: IResult<&'a str, O>| t@ == i && #[trigger] self.ensures((t,), q) && ans(q) == r }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, O> { self(i) }
}
// text at the start
pub open spec fn starts(i: Seq<char>, t: Seq<char>) -> bool { i.len() >= t.len() && i.take(t.len() as int) == t }
pub open spec fn first_at(i: Seq<char>, t: Seq<char>) -> Option<int> decreases i.len() {
    if starts(i, t) { Some(0int) } else if i.len() == 0 { None } else { match first_at(i.skip(1), t) { Some(n) => Some(n + 1), None => None } }
}
// the longest start made of such characters
pub open spec fn run(i: Seq<char>, p: spec_fn(char) -> bool) -> int decreases i.len() { if i.len() == 0 || !p(i[0]) { 0 } else { 1 + run(i.skip(1), p) } }
pub broadcast proof fn lemma_run(i: Seq<char>, p: spec_fn(char) -> bool) ensures 0 <= #[trigger] run(i, p) <= i.len(), run(i, p) == 0 <==> (i.len() == 0 || !p(i[0])), forall|k: int| 0 <= k < run(i, p) ==> p(#[trigger] i[k]) decreases i.len() {
    if i.len() > 0 && p(i[0]) { lemma_run(i.skip(1), p); assert forall|k: int| 0 <= k < run(i, p) implies p(#[trigger] i[k]) by { if k > 0 { assert(i[k] == i.skip(1)[k - 1]); } } }
}
pub broadcast proof fn lemma_first_at(i: Seq<char>, t: Seq<char>) ensures match #[trigger] first_at(i, t) { Some(n) => 0 <= n && n + t.len() <= i.len(), None => true } decreases i.len() {
    if !starts(i, t) && i.len() > 0 { lemma_first_at(i.skip(1), t); }
}
pub open spec fn blank() -> spec_fn(char) -> bool { |c: char| c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn alnum(c: char) -> bool { letter(c) || ('0' <= c && c <= '9') }
pub open spec fn taken<'a>(i: Seq<char>, n: int, r: Ans<&'a str>) -> bool { r is Some && (r->0).0 == i.skip(n) && (r->0).1@ == i.take(n) }
pub struct Tag { pub t: &'static str }
impl<'a> Parser<'a, &'a str> for Tag {
    open spec fn rel(&self, i: Seq<char>, r: Ans<&'a str>) -> bool { if starts(i, self.t@) { taken(i, self.t@.len() as int, r) } else { r is None } }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, &'a str> { unimplemented!() }
}
pub struct Char { pub c: char }
impl<'a> Parser<'a, char> for Char {
    open spec fn rel(&self, i: Seq<char>, r: Ans<char>) -> bool { if i.len() > 0 && i[0] == self.c { r == Some((i.skip(1), self.c)) } else { r is None } }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, char> { unimplemented!() }
}
pub struct Until { pub t: &'static str }
impl<'a> Parser<'a, &'a str> for Until {
    open spec fn rel(&self, i: Seq<char>, r: Ans<&'a str>) -> bool { match first_at(i, self.t@) { Some(n) => taken(i, n, r), None => r is None } }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, &'a str> { unimplemented!() }
}
pub struct Opt<P> { pub p: P }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Option<O>> for Opt<P> {
    open spec fn rel(&self, i: Seq<char>, r: Ans<Option<O>>) -> bool { r is Some && match (r->0).1 { Some(o) => self.p.rel(i, Some(((r->0).0, o))), None => (r->0).0 == i && self.p.rel(i, None) } }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, Option<O>> { unimplemented!() }
}
pub struct Map<O, P, F> { pub p: P, pub f: F, pub o: Ghost<Option<O>> }
impl<'a, O, U, P: Parser<'a, O>, F: Fn(O) -> U> Parser<'a, U> for Map<O, P, F> {
    open spec fn rel(&self, i: Seq<char>, r: Ans<U>) -> bool { match r { None => self.p.rel(i, None), Some((j, u)) => exists|o: O| self.p.rel(i, Some((j, o))) && #[trigger] self.f.ensures((o,), u) } }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, U> { unimplemented!() }
}
pub struct Alt<P, Q> { pub p: P, pub q: Q }
impl<'a, O, P: Parser<'a, O>, Q: Parser<'a, O>> Parser<'a, O> for Alt<P, Q> {
    open spec fn rel(&self, i: Seq<char>, r: Ans<O>) -> bool { (r is Some && self.p.rel(i, r)) || (self.p.rel(i, None) && self.q.rel(i, r)) }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, O> { unimplemented!() }
}
// one after the other
pub open spec fn then_<'a, A, B, P: Parser<'a, A>, Q: Parser<'a, B>>(p: P, q: Q, i: Seq<char>, r: Ans<(A, B)>) -> bool {
    match r { Some((j, (a, b))) => exists|m: Seq<char>| #[trigger] p.rel(i, Some((m, a))) && q.rel(m, Some((j, b))), None => p.rel(i, None) || exists|m: Seq<char>, a: A| #[trigger] p.rel(i, Some((m, a))) && q.rel(m, None) }
}
pub struct Seq2<P, Q> { pub p: P, pub q: Q }
impl<'a, A, B, P: Parser<'a, A>, Q: Parser<'a, B>> Parser<'a, (A, B)> for Seq2<P, Q> {
    open spec fn rel(&self, i: Seq<char>, r: Ans<(A, B)>) -> bool { then_(self.p, self.q, i, r) }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, (A, B)> { unimplemented!() }
}
pub struct Seq4<P, Q, R, S> { pub p: P, pub q: Q, pub r: R, pub s: S }
impl<'a, A, B, C, D, P: Parser<'a, A>, Q: Parser<'a, B>, R: Parser<'a, C>, S: Parser<'a, D>> Parser<'a, (A, B, C, D)> for Seq4<P, Q, R, S> {
    open spec fn rel(&self, i: Seq<char>, r: Ans<(A, B, C, D)>) -> bool {
        let l = Seq2 { p: self.p, q: self.q }; let m = Seq2 { p: self.r, q: self.s };
        then_::<(A, B), (C, D), _, _>(l, m, i, match r { Some((j, (a, b, c, d))) => Some((j, ((a, b), (c, d)))), None => None })
    }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, (A, B, C, D)> { unimplemented!() }
}
pub struct Delimited<A, C, P, Q, R> { pub p: P, pub q: Q, pub r: R, pub o: Ghost<Option<(A, C)>> }
impl<'a, A, B, C, P: Parser<'a, A>, Q: Parser<'a, B>, R: Parser<'a, C>> Parser<'a, B> for Delimited<A, C, P, Q, R> {
    open spec fn rel(&self, i: Seq<char>, r: Ans<B>) -> bool {
        let l = Seq2 { p: self.p, q: self.q };
        match r { Some((j, b)) => exists|a: A, c: C| #[trigger] both(a, c) && then_::<(A, B), C, _, _>(l, self.r, i, Some((j, ((a, b), c)))), None => then_::<(A, B), C, _, _>(l, self.r, i, None) }
    }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, B> { unimplemented!() }
}
pub open spec fn both<A, C>(a: A, c: C) -> bool { true }
// again and again, until it does not answer; an answer that takes nothing is a failure
pub open spec fn many<'a, O, P: Parser<'a, O>>(p: P, i: Seq<char>, r: Ans<Seq<O>>) -> bool decreases i.len() {
    ||| p.rel(i, None) && r == Some((i, Seq::<O>::empty()))
    ||| exists|j: Seq<char>, o: O| #[trigger] p.rel(i, Some((j, o))) && j.len() == i.len() && r is None
    ||| exists|j: Seq<char>, o: O, q: Ans<Seq<O>>| #[trigger] p.rel(i, Some((j, o))) && j.len() < i.len() && #[trigger] both(o, q) && many(p, j, q) && r == (match q { Some((e, s)) => Some((e, seq![o] + s)), None => None::<(Seq<char>, Seq<O>)> })
}
pub open spec fn listed<O>(r: Ans<Vec<O>>) -> Ans<Seq<O>> { match r { Some((j, v)) => Some((j, v@)), None => None } }
pub struct Many0<P> { pub p: P }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Vec<O>> for Many0<P> {
    open spec fn rel(&self, i: Seq<char>, r: Ans<Vec<O>>) -> bool { many(self.p, i, listed(r)) }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, Vec<O>> { unimplemented!() }
}
// what follows the items so far: separator and item, as long as both are there
pub open spec fn more<'a, O, S, G: Parser<'a, S>, P: Parser<'a, O>>(g: G, p: P, i: Seq<char>, r: Ans<Seq<O>>) -> bool decreases i.len() {
    ||| g.rel(i, None) && r == Some((i, Seq::<O>::empty()))
    ||| exists|m: Seq<char>, s: S| #[trigger] g.rel(i, Some((m, s))) && m.len() == i.len() && r is None
    ||| exists|m: Seq<char>, s: S| #[trigger] g.rel(i, Some((m, s))) && m.len() < i.len() && p.rel(m, None) && r == Some((i, Seq::<O>::empty()))
    ||| exists|m: Seq<char>, s: S, j: Seq<char>, o: O, q: Ans<Seq<O>>| #[trigger] g.rel(i, Some((m, s))) && m.len() < i.len() && #[trigger] p.rel(m, Some((j, o))) && j.len() <= m.len() && #[trigger] both(o, q) && more(g, p, j, q) && r == (match q { Some((e, s)) => Some((e, seq![o] + s)), None => None::<(Seq<char>, Seq<O>)> })
}
pub struct List1<S, G, P> { pub g: G, pub p: P, pub s: Ghost<Option<S>> }
impl<'a, O, S, G: Parser<'a, S>, P: Parser<'a, O>> Parser<'a, Vec<O>> for List1<S, G, P> {
    open spec fn rel(&self, i: Seq<char>, r: Ans<Vec<O>>) -> bool {
        ||| self.p.rel(i, None) && r is None
        ||| exists|j: Seq<char>, o: O, q: Ans<Seq<O>>| #[trigger] self.p.rel(i, Some((j, o))) && #[trigger] more::<O, S, G, P>(self.g, self.p, j, q) && listed(r) == (match q { Some((e, s)) => Some((e, seq![o] + s)), None => None::<(Seq<char>, Seq<O>)> })
    }
    #[verifier::external_body] fn run(self, i: &'a str) -> IResult<&'a str, Vec<O>> { unimplemented!() }
}
pub trait AltOf { type P; spec fn alt(self) -> Self::P; }
impl<P, Q> AltOf for (P, Q) { type P = Alt<P, Q>; open spec fn alt(self) -> Alt<P, Q> { Alt { p: self.0, q: self.1 } } }
pub trait TupleOf { type P; spec fn tup(self) -> Self::P; }
impl<P, Q> TupleOf for (P, Q) { type P = Seq2<P, Q>; open spec fn tup(self) -> Seq2<P, Q> { Seq2 { p: self.0, q: self.1 } } }
impl<P, Q, R, S> TupleOf for (P, Q, R, S) { type P = Seq4<P, Q, R, S>; open spec fn tup(self) -> Seq4<P, Q, R, S> { Seq4 { p: self.0, q: self.1, r: self.2, s: self.3 } } }
pub mod branch { use super::*; verus! { #[verifier::external_body] pub fn alt<T: AltOf>(t: T) -> (r: T::P) ensures r == t.alt() { unimplemented!() } } }
pub mod bytes { pub mod complete { use super::super::*; verus! {
    #[verifier::external_body] pub fn tag(t: &'static str) -> (r: Tag) ensures r.t@ == t@ { unimplemented!() }
    #[verifier::external_body] pub fn take_until(t: &'static str) -> (r: Until) ensures r.t@ == t@ { unimplemented!() }
} } }
pub mod character { pub mod complete { use super::super::*; verus! {
    pub fn char(c: char) -> (r: Char) ensures r.c == c { Char { c } }
    #[verifier::external_body] pub fn multispace0<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures taken(i@, run(i@, blank()), ans(r)) { unimplemented!() }
    #[verifier::external_body] pub fn alpha1<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures ({ let n = run(i@, |c: char| letter(c)); if n > 0 { taken(i@, n, ans(r)) } else { r is Err } }) { unimplemented!() }
    #[verifier::external_body] pub fn alphanumeric1<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures ({ let n = run(i@, |c: char| alnum(c)); if n > 0 { taken(i@, n, ans(r)) } else { r is Err } }) { unimplemented!() }
} } }
pub mod combinator { use super::*; verus! {
    pub fn opt<P>(p: P) -> (r: Opt<P>) ensures r.p == p { Opt { p } }
    pub fn map<'a, O, U, P: Parser<'a, O>, F: Fn(O) -> U>(p: P, f: F) -> (r: Map<O, P, F>) requires forall|o: O| #[trigger] f.requires((o,)) ensures r.p == p, r.f == f { Map { p, f, o: Ghost(None) } }
} }
pub mod multi { use super::*; verus! {
    pub fn many0<P>(p: P) -> (r: Many0<P>) ensures r.p == p { Many0 { p } }
    pub fn separated_list1<'a, O, S, G: Parser<'a, S>, P: Parser<'a, O>>(g: G, p: P) -> (r: List1<S, G, P>) ensures r.g == g, r.p == p { List1 { g, p, s: Ghost(None) } }
} }
pub mod sequence { use super::*; verus! {
    #[verifier::external_body] pub fn tuple<T: TupleOf>(t: T) -> (r: T::P) ensures r == t.tup() { unimplemented!() }
    pub fn delimited<'a, A, B, C, P: Parser<'a, A>, Q: Parser<'a, B>, R: Parser<'a, C>>(p: P, q: Q, r_: R) -> (r: Delimited<A, C, P, Q, R>) ensures r.p == p, r.q == q, r.r == r_ { Delimited { p, q, r: r_, o: Ghost(None) } }
} }
}
}
