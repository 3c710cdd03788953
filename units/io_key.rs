#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
pub mod m_key {
// Assumed shapes of http, url, std's Hash and the templates, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct Url { _p: () }
#[verifier::external_body] pub struct Method { _p: () }
#[verifier::external_body] pub struct HeaderName { _p: () }
#[verifier::external_body] pub struct HeaderValue { _p: () }
#[verifier::external_body] pub struct HeaderMap { _p: () }
impl HeaderMap {
    // every entry, each name once for each of its values
    pub uninterp spec fn entries(&self) -> Seq<(HeaderName, HeaderValue)>;
    #[verifier::external_body] pub fn iter(&self) -> (r: It<(&HeaderName, &HeaderValue)>) ensures r@.len() == self.entries().len(), forall|i: int| #![trigger r@[i]] #![trigger self.entries()[i]] 0 <= i < r@.len() ==> (*r@[i].0, *r@[i].1) == self.entries()[i] { unimplemented!() }
}
#[verifier::external_body] pub struct GroupBy { _p: () }
#[verifier::external_body] pub struct WorkerHooks { _p: () }
#[verifier::external_body] pub struct DataLoaderId { _p: () }
// what a Hasher is fed
pub enum Piece { Url(Url), Method(Method), Name(HeaderName), Value(HeaderValue), Text(Seq<char>), Id(u64), Group(Option<GroupBy>), Flag(bool), Hook(Option<WorkerHooks>), Parts(grpc::RenderedRequestTemplate) }
#[verifier::external_body] pub struct TailcallHasher { _p: () }
impl TailcallHasher {
    pub uninterp spec fn log(&self) -> Seq<Piece>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.log() == Seq::<Piece>::empty() { unimplemented!() }
    // taken to tell apart whatever is hashed
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures meant(r) == self.log() { unimplemented!() }
}
// what a key was made of
pub uninterp spec fn meant(key: u64) -> Seq<Piece>;
pub trait Hash { spec fn pieces(&self) -> Seq<Piece>; fn hash(&self, state: &mut TailcallHasher) ensures final(state).log() == old(state).log() + self.pieces(); }
impl Hash for Url { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Url(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for Method { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Method(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for HeaderName { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Name(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for HeaderValue { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Value(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for String { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Text(self@)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for bool { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Flag(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for Option<GroupBy> { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Group(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for Option<WorkerHooks> { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Hook(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl<'a, T: Hash> Hash for &'a T { open spec fn pieces(&self) -> Seq<Piece> { (**self).pieces() } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl<A: Hash, B: Hash> Hash for (A, B) { open spec fn pieces(&self) -> Seq<Piece> { self.0.pieces() + self.1.pieces() } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl<A: Hash, B: Hash, C: Hash> Hash for (A, B, C) { open spec fn pieces(&self) -> Seq<Piece> { self.0.pieces() + self.1.pieces() + self.2.pieces() } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
// what a template is filled from; the methods are the traits PathString, PathGraphql, PathValue, HasHeaders and GraphQLOperationContext
pub trait PathString { spec fn given(&self) -> HeaderMap; fn headers(&self) -> (r: &HeaderMap) ensures *r == self.given(); }
pub trait HasHeaders { }
pub trait PathValue { }
pub trait PathGraphql { }
pub trait GraphQLOperationContext { }
#[verifier::external_body] pub struct Mustache { _p: () }
pub uninterp spec fn filled<C>(m: Mustache, c: C) -> Seq<char>;
pub uninterp spec fn filled_graphql<C>(m: Mustache, c: C) -> Seq<char>;
impl Mustache {
    #[verifier::external_body] pub fn render<C>(&self, c: &C) -> (r: String) ensures r@ == filled(*self, *c) { unimplemented!() }
    #[verifier::external_body] pub fn render_graphql<C>(&self, c: &C) -> (r: String) ensures r@ == filled_graphql(*self, *c) { unimplemented!() }
}
pub type MustacheHeaders = Vec<(HeaderName, Mustache)>;
#[verifier::external_body] pub struct Error { _p: () }
pub type Result<T> = core::result::Result<T, Error>;
} // verus!
}
pub mod m_lem {
use vstd::prelude::*;
use super::*;
verus! {
pub broadcast proof fn lemma_left(a: Seq<Piece>, b: Seq<Piece>, p: Piece) requires a.contains(p) ensures #[trigger] (a + b).contains(p) { let i = choose|i: int| 0 <= i < a.len() && a[i] == p; assert((a + b)[i] == p); }
pub broadcast proof fn lemma_right(a: Seq<Piece>, b: Seq<Piece>, p: Piece) requires b.contains(p) ensures #[trigger] (a + b).contains(p) { let i = choose|i: int| 0 <= i < b.len() && b[i] == p; assert((a + b)[a.len() + i] == p); }
pub broadcast proof fn lemma_one(p: Piece) ensures #[trigger] seq![p].contains(p) { assert(seq![p][0] == p); }
} // verus!
}
use m_key::*;
verus! {
pub struct IoId(pub u64);
impl IoId {
//@ fn src/core/ir/model.rs :: impl IoId :: fn new
//@   spec ensures r.0 == id
}
// ---- what a key tells apart: the header, in one of the two places
pub open spec fn own<C>(log: Seq<Piece>, h: Seq<(HeaderName, Mustache)>, n: int, c: C, graphql: bool) -> bool { forall|i: int| 0 <= i < n ==> log.contains(Piece::Name((#[trigger] h[i]).0)) && log.contains(Piece::Text(if graphql { filled_graphql(h[i].1, c) } else { filled(h[i].1, c) })) }
pub open spec fn passed(log: Seq<Piece>, h: Seq<(HeaderName, HeaderValue)>, n: int) -> bool { forall|i: int| 0 <= i < n ==> log.contains(Piece::Name((#[trigger] h[i]).0)) && log.contains(Piece::Value(h[i].1)) }
pub open spec fn grown(a: Seq<Piece>, b: Seq<Piece>) -> bool { forall|p: Piece| a.contains(p) ==> #[trigger] b.contains(p) }
//@ rewrite /(\w+)\.hash\(state\)/ => \1.hash(&mut *state)
}
pub mod http {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use {super::m_lem::lemma_left, super::m_lem::lemma_right, super::m_lem::lemma_one};
pub struct RequestTemplate { pub method: Method, pub headers: MustacheHeaders, pub body_path: Option<Mustache>, pub rest: Rest }
#[verifier::external_body] pub struct Rest { _p: () }
// what is asked of upstream is the method, the url, the headers and the body
pub uninterp spec fn url_of<C>(t: RequestTemplate, c: C) -> Option<Url>;
pub open spec fn says<C: PathString>(log: Seq<Piece>, t: RequestTemplate, c: C) -> bool {
    log.contains(Piece::Method(t.method)) && url_of(t, c) is Some && log.contains(Piece::Url(url_of(t, c)->0))
    && own(log, t.headers@, t.headers@.len() as int, c, false) && passed(log, c.given().entries(), c.given().entries().len() as int)
    && (t.body_path is Some ==> log.contains(Piece::Text(filled(t.body_path->0, c))))
}
impl RequestTemplate {
    // the address the request goes to
    #[verifier::external_body] pub fn create_url<C>(&self, ctx: &C) -> (r: Result<Url>) ensures match r { Ok(u) => url_of(*self, *ctx) == Some(u), Err(_) => url_of(*self, *ctx) is None } { unimplemented!() }
//@ fn src/core/http/request_template.rs :: impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate :: fn cache_key
//@   sub /fn cache_key\(/ => fn cache_key<Ctx: PathString>(
//@   before 1 let ghost l1 = state.log();
//@   loop 1 it=it var=e_ invariant it.seq().len() == self.headers@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger self.headers@[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.headers@[i], grown(l1, state.log()), own(state.log(), self.headers@, it.index() as int, *ctx, false),
//@   before 2 let ghost l2 = state.log();
//@   loop 2 it=jt var=f_ invariant jt.seq().len() == ctx.given().entries().len(), forall|i: int| #![trigger jt.seq()[i]] #![trigger ctx.given().entries()[i]] 0 <= i < jt.seq().len() ==> (*jt.seq()[i].0, *jt.seq()[i].1) == ctx.given().entries()[i], grown(l2, state.log()), passed(state.log(), ctx.given().entries(), jt.index() as int),
//@   spec ensures match r { Some(id) => says(meant(id.0), *self, *ctx), None => true }
}
} // verus!
}
pub mod graphql {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use {super::m_lem::lemma_left, super::m_lem::lemma_right, super::m_lem::lemma_one};
pub struct RequestTemplate { pub url: String, pub headers: MustacheHeaders, pub rest: Rest }
#[verifier::external_body] pub struct Rest { _p: () }
// what is asked of upstream is the url, the headers and the query
pub uninterp spec fn query_of<C>(t: RequestTemplate, c: C) -> Seq<char>;
pub open spec fn says<C: PathString>(log: Seq<Piece>, t: RequestTemplate, c: C) -> bool {
    log.contains(Piece::Text(t.url@)) && log.contains(Piece::Text(query_of(t, c)))
    && own(log, t.headers@, t.headers@.len() as int, c, true) && passed(log, c.given().entries(), c.given().entries().len() as int)
}
impl RequestTemplate {
    #[verifier::external_body] pub fn render_graphql_query<C>(&self, ctx: &C) -> (r: String) ensures r@ == query_of(*self, *ctx) { unimplemented!() }
//@ fn src/core/graphql/request_template.rs :: impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for RequestTemplate :: fn cache_key
//@   sub /fn cache_key\(/ => fn cache_key<Ctx: PathString>(
//@   before 1 let ghost l1 = state.log();
//@   loop 1 it=it var=e_ invariant it.seq().len() == self.headers@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger self.headers@[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.headers@[i], grown(l1, state.log()), own(state.log(), self.headers@, it.index() as int, *ctx, true),
//@   before 2 let ghost l2 = state.log();
//@   loop 2 it=jt var=f_ invariant jt.seq().len() == ctx.given().entries().len(), forall|i: int| #![trigger jt.seq()[i]] #![trigger ctx.given().entries()[i]] 0 <= i < jt.seq().len() ==> (*jt.seq()[i].0, *jt.seq()[i].1) == ctx.given().entries()[i], grown(l2, state.log()), passed(state.log(), ctx.given().entries(), jt.index() as int),
//@   spec ensures match r { Some(id) => says(meant(id.0), *self, *ctx), None => true }
}
} // verus!
}
pub mod grpc {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use {super::m_lem::lemma_left, super::m_lem::lemma_right, super::m_lem::lemma_one};
pub struct RequestTemplate { pub rest: Rest }
#[verifier::external_body] pub struct Rest { _p: () }
#[verifier::external_body] pub struct Operation { _p: () }
pub struct RenderedRequestTemplate { pub url: Url, pub headers: HeaderMap, pub body: String, pub operation: Operation }
//@ text src/core/grpc/request_template.rs /struct RenderedRequestTemplate\{pub url:Url,pub headers:HeaderMap,pub body:String,pub operation:ProtobufOperation,?\}/
// what is asked of upstream is the url, the headers and the message
pub uninterp spec fn rendered<C>(t: RequestTemplate, c: C) -> Option<RenderedRequestTemplate>;
pub open spec fn says<C: PathString>(log: Seq<Piece>, t: RequestTemplate, c: C) -> bool {
    let q = rendered(t, c);
    q is Some && log.contains(Piece::Url((q->0).url)) && log.contains(Piece::Text((q->0).body@)) && passed(log, (q->0).headers.entries(), (q->0).headers.entries().len() as int)
}
impl RenderedRequestTemplate {
//@ fn src/core/grpc/request_template.rs :: impl Hash for RenderedRequestTemplate :: fn hash
//@   sub /<H: Hasher>/ =>
//@   sub /&mut H/ => &mut TailcallHasher
//@   spec ensures grown(old(state).log(), final(state).log()), final(state).log().contains(Piece::Url(self.url)), final(state).log().contains(Piece::Text(self.body@))
}
impl RequestTemplate {
    #[verifier::external_body] pub fn render<C>(&self, ctx: &C) -> (r: Result<RenderedRequestTemplate>) ensures match r { Ok(u) => rendered(*self, *ctx) == Some(u), Err(_) => rendered(*self, *ctx) is None } { unimplemented!() }
//@ fn src/core/grpc/request_template.rs :: impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate :: fn cache_key
//@   sub /fn cache_key\(/ => fn cache_key<Ctx: PathString>(
//@   before 1 let ghost l1 = state.log();
//@   loop 1 it=it var=e_ invariant it.seq().len() == rendered_req.headers.entries().len(), forall|i: int| #![trigger it.seq()[i]] #![trigger rendered_req.headers.entries()[i]] 0 <= i < it.seq().len() ==> (*it.seq()[i].0, *it.seq()[i].1) == rendered_req.headers.entries()[i], grown(l1, state.log()), passed(state.log(), rendered_req.headers.entries(), it.index() as int),
//@   spec ensures match r { Some(id) => says(meant(id.0), *self, *ctx), None => true }
}
} // verus!
}
pub mod m_io {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use {super::m_lem::lemma_left, super::m_lem::lemma_right, super::m_lem::lemma_one};
impl Hash for IoId { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Id(self.0)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
//@ item src/core/ir/model.rs :: enum IO
// a value depends on what is asked and on how the answer is then taken apart
pub open spec fn value_says<C: PathString>(log: Seq<Piece>, io: IO, c: C) -> bool {
    match io {
        IO::Http { req_template, group_by, is_list, hook, .. } => (exists|k: u64| log.contains(Piece::Id(k)) && http::says(#[trigger] meant(k), req_template, c)) && log.contains(Piece::Group(group_by)) && (group_by is Some ==> log.contains(Piece::Flag(is_list))) && log.contains(Piece::Hook(hook)),
        IO::Grpc { req_template, group_by, hook, .. } => (exists|k: u64| log.contains(Piece::Id(k)) && grpc::says(#[trigger] meant(k), req_template, c)) && log.contains(Piece::Group(group_by)) && log.contains(Piece::Hook(hook)),
        IO::GraphQL { req_template, .. } => graphql::says(log, req_template, c),
        // what a script gives is never kept
        IO::Js { .. } => false,
    }
}
impl IO {
//@ fn src/core/ir/model.rs :: impl<'a, Ctx: ResolverContextLike + Sync> CacheKey<EvalContext<'a, Ctx>> for IO :: fn cache_key
//@   sub /fn cache_key\(/ => fn cache_key<Ctx: PathString>(
//@   sub /&EvalContext<'a, Ctx>/ => &Ctx
//@   spec ensures match r { Some(id) => value_says(meant(id.0), *self, *ctx), None => true }
}
} // verus!
}
fn main() {}
