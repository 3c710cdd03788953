#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
//@ include prelude/headers.rs
pub mod m_up {
// Assumed shapes of url, http, reqwest and the configuration, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Url { _p: () }
pub uninterp spec fn parsed(t: Seq<char>) -> Option<Url>;
impl Url { #[verifier::external_body] pub fn parse(t: &str) -> (r: Result<Url>) ensures match r { Ok(u) => parsed(t@) == Some(u), Err(_) => parsed(t@) is None } { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() } }
impl HeaderMap { #[verifier::external_body] pub fn clone(&self) -> (r: HeaderMap) ensures r@ == self@ { unimplemented!() } #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: HeaderMap) ensures r@ == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() } }
impl HeaderValue { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> (r: HeaderValue) ensures r@ == self@ { unimplemented!() } }
impl HeaderName { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
pub enum Verb { Post, Other }
pub fn post_() -> (r: Verb) ensures r is Post { Verb::Post }
pub struct Asked { pub method: Verb, pub url: Url, pub headers: Held, pub body: Option<Payload> }
pub enum Payload { Text(Seq<char>), Bytes(Seq<u8>) }
#[verifier::external_body] pub struct Request { _p: () }
impl View for Request { type V = Asked; uninterp spec fn view(&self) -> Asked; }
impl Request {
    #[verifier::external_body] pub fn new(m: Verb, u: Url) -> (r: Request) ensures r@ == (Asked { method: m, url: u, headers: Map::empty(), body: None }) { unimplemented!() }
    #[verifier::external_body] pub fn headers_mut(&mut self) -> (r: &mut HeaderMap) ensures r@ == old(self)@.headers, final(self)@ == (Asked { headers: final(r)@, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_text_(&mut self, t: String) ensures final(self)@ == (Asked { body: Some(Payload::Text(t@)), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_bytes_(&mut self, t: Vec<u8>) ensures final(self)@ == (Asked { body: Some(Payload::Bytes(t@)), ..old(self)@ }) { unimplemented!() }
}
// ---- what a template is filled from: the traits PathString, PathGraphql, HasHeaders and GraphQLOperationContext
pub trait Ctx_ { spec fn passed(&self) -> Held; fn headers(&self) -> (r: &HeaderMap) ensures r@ == self.passed(); }
pub trait PathString: Ctx_ { }
pub trait PathGraphql: Ctx_ { }
pub trait HasHeaders { }
pub trait GraphQLOperationContext { }
impl<T: Ctx_> HasHeaders for T { }
impl<T: Ctx_> GraphQLOperationContext for T { }
#[verifier::external_body] pub struct Mustache { _p: () }
pub uninterp spec fn filled<C>(m: Mustache, c: C) -> Seq<char>;
pub uninterp spec fn filled_graphql<C>(m: Mustache, c: C) -> Seq<char>;
// under contract in C18's unit
impl Mustache {
    #[verifier::external_body] pub fn render<C>(&self, c: &C) -> (r: String) ensures r@ == filled(*self, *c) { unimplemented!() }
    #[verifier::external_body] pub fn render_graphql<C>(&self, c: &C) -> (r: String) ensures r@ == filled_graphql(*self, *c) { unimplemented!() }
}
pub type MustacheHeaders = Vec<(HeaderName, Mustache)>;
// a template's own headers; one that can't be said is left out
pub open spec fn own<C>(h: Seq<(HeaderName, Mustache)>, n: int, c: C, g: bool, first: Held) -> Held decreases n { if n <= 0 { first } else { let t = if g { filled_graphql(h[n - 1].1, c) } else { filled(h[n - 1].1, c) }; if sayable(t) { own(h, n - 1, c, g, first).insert(h[n - 1].0@, seq![t]) } else { own(h, n - 1, c, g, first) } } }
#[verifier::external_body] pub fn text_(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
} // verus!
}
pub use m_up::*;
pub mod grpc {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
#[verifier::external_body] pub struct ProtobufOperation { _p: () }
// the message of a body's JSON (C05's)
pub uninterp spec fn message(o: ProtobufOperation, t: Seq<char>) -> Option<Seq<u8>>;
impl ProtobufOperation {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn convert_input(&self, t: &str) -> (r: Result<Vec<u8>>) ensures match r { Ok(v) => message(*self, t@) == Some(v@), Err(_) => message(*self, t@) is None } { unimplemented!() }
}
pub struct RequestTemplate { pub url: Mustache, pub headers: MustacheHeaders, pub body: Option<RequestBody>, pub operation: ProtobufOperation }
pub struct RequestBody { pub mustache: Option<Mustache>, pub value: String }
pub struct RenderedRequestTemplate { pub url: Url, pub headers: HeaderMap, pub body: String, pub operation: ProtobufOperation }
//@ text src/core/grpc/request_template.rs /struct RenderedRequestTemplate\{pub url:Url,pub headers:HeaderMap,pub body:String,pub operation:ProtobufOperation,?\}/
//@ text src/core/grpc/request_template.rs /GRPC_MIME_TYPE:HeaderValue=HeaderValue::from_static\("application\/grpc"\)/
pub open spec fn headed<C: Ctx_>(t: RequestTemplate, c: C) -> Held { over(own(t.headers@, t.headers@.len() as int, c, false, Map::<Seq<char>, Seq<Seq<char>>>::empty().insert("content-type"@, seq!["application/grpc"@])), c.passed()) }
pub open spec fn body_text<C>(t: RequestTemplate, c: C) -> Seq<char> { match t.body { Some(b) => match b.mustache { Some(m) => filled(m, c), None => b.value@ }, None => "{}"@ } }
impl RequestBody {
//@ fn src/core/grpc/request_template.rs :: impl RequestBody :: fn render
//@   opt /self\.value\.to_string\(\)/ => text_(self.value.as_str())
//@   spec ensures r@ == (match self.mustache { Some(m) => filled(m, *ctx), None => self.value@ })
}
impl RequestTemplate {
//@ fn src/core/grpc/request_template.rs :: impl RequestTemplate :: fn create_url vis=pub
//@   opt /url::Url::parse/ => Url::parse
//@   spec ensures match r { Ok(u) => parsed(filled(self.url, *ctx)) == Some(u), Err(_) => parsed(filled(self.url, *ctx)) is None }
//@ fn src/core/grpc/request_template.rs :: impl RequestTemplate :: fn create_headers vis=pub
//@   opt /CONTENT_TYPE/ => &content_type_()
//@   opt /GRPC_MIME_TYPE\.(to_owned|clone)\(\)/ => HeaderValue::from_static("application/grpc")
//@   opt /in &self\.headers/ => in self.headers.it_()
//@   opt /HeaderValue::from_str\(&v\.render\(ctx\)\)/ => HeaderValue::from_str(v.render(ctx).as_str())
//@   loop 1 it=it var=e_ invariant it.seq().len() == self.headers@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger self.headers@[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.headers@[i], header_map@ == own(self.headers@, it.index() as int, *ctx, false, Map::<Seq<char>, Seq<Seq<char>>>::empty().insert("content-type"@, seq!["application/grpc"@]))
//@   spec ensures r@ == own(self.headers@, self.headers@.len() as int, *ctx, false, Map::<Seq<char>, Seq<Seq<char>>>::empty().insert("content-type"@, seq!["application/grpc"@]))
//@ fn src/core/grpc/request_template.rs :: impl RequestTemplate :: fn render_headers vis=pub
//@   tail proof { assert(forall|h: Held| #[trigger] over(Map::empty(), h) =~= h); }
//@   spec ensures r@ == headed(*self, *ctx)
//@ fn src/core/grpc/request_template.rs :: impl RequestTemplate :: fn render_body vis=pub
//@   opt /"\{\}" *\.to_owned\(\)/ => text_("{}")
//@   spec ensures r@ == body_text(*self, *ctx)
//@ fn src/core/grpc/request_template.rs :: impl RequestTemplate :: fn render
//@   spec ensures match r { Ok(u) => parsed(filled(self.url, *ctx)) == Some(u.url) && u.headers@ == headed(*self, *ctx) && u.body@ == body_text(*self, *ctx) && u.operation == self.operation, Err(_) => parsed(filled(self.url, *ctx)) is None }
}
impl RenderedRequestTemplate {
//@ fn src/core/grpc/request_template.rs :: impl RenderedRequestTemplate :: fn to_request
//@   opt /reqwest::Request/ => Request
//@   spec ensures match r { Ok(q) => message(self.operation, self.body@) is Some && q@ == (Asked { method: Verb::Post, url: self.url, headers: self.headers@, body: Some(Payload::Bytes(message(self.operation, self.body@)->0)) }), Err(_) => message(self.operation, self.body@) is None }
}
//@ fn src/core/grpc/request.rs :: fn create_grpc_request
//@   opt /Method::POST/ => post_()
//@   opt /req\.body_mut\(\)\.replace\(body\.into\(\)\)/ => req.set_bytes_(body)
//@   tail proof { assert(forall|h: Held| #[trigger] over(Map::empty(), h) =~= h); }
//@   spec ensures r@ == (Asked { method: Verb::Post, url: url, headers: headers@, body: Some(Payload::Bytes(body@)) })
} // verus!
}
pub mod graphql {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
pub struct RequestTemplate { pub url: String, pub headers: MustacheHeaders, pub rest: Rest }
#[verifier::external_body] pub struct Rest { _p: () }
// the operation written for it (C06's)
pub uninterp spec fn query_of<C>(t: RequestTemplate, c: C) -> Seq<char>;
pub open spec fn headed<C: Ctx_>(t: RequestTemplate, h: Held, c: C) -> Held { over(over(h, own(t.headers@, t.headers@.len() as int, c, true, Map::<Seq<char>, Seq<Seq<char>>>::empty())).insert("content-type"@, seq!["application/json"@]), c.passed()) }
impl RequestTemplate {
    #[verifier::external_body] pub fn render_graphql_query<C>(&self, ctx: &C) -> (r: String) ensures r@ == query_of(*self, *ctx) { unimplemented!() }
//@ fn src/core/graphql/request_template.rs :: impl RequestTemplate :: fn create_headers vis=pub
//@   opt /in &self\.headers/ => in self.headers.it_()
//@   opt /HeaderValue::from_str\(&v\.render_graphql\(ctx\)\)/ => HeaderValue::from_str(v.render_graphql(ctx).as_str())
//@   loop 1 it=it var=e_ invariant it.seq().len() == self.headers@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger self.headers@[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.headers@[i], header_map@ == own(self.headers@, it.index() as int, *ctx, true, Map::<Seq<char>, Seq<Seq<char>>>::empty())
//@   spec ensures r@ == own(self.headers@, self.headers@.len() as int, *ctx, true, Map::<Seq<char>, Seq<Seq<char>>>::empty())
//@ fn src/core/graphql/request_template.rs :: impl RequestTemplate :: fn set_headers vis=pub
//@   opt /reqwest::header::CONTENT_TYPE/ => &content_type_()
//@   opt /reqwest::Request/ => Request
//@   start proof { assert(over(req@.headers, Map::empty()) =~= req@.headers); }
//@   spec ensures r@ == (Asked { headers: headed(*self, req@.headers, *ctx), ..req@ })
//@ fn src/core/graphql/request_template.rs :: impl RequestTemplate :: fn set_body vis=pub
//@   opt /req\.body_mut\(\)\s*\.replace\(self\.render_graphql_query\(ctx\)\.into\(\)\)/ => req.set_text_(self.render_graphql_query(ctx))
//@   opt /reqwest::Request/ => Request
//@   spec ensures r@ == (Asked { body: Some(Payload::Text(query_of(*self, *ctx))), ..req@ })
//@ fn src/core/graphql/request_template.rs :: impl RequestTemplate :: fn to_request
//@   opt /POST\.to_hyper\(\)/ => post_()
//@   opt /reqwest::Request/ => Request
//@   opt /url::Url::parse/ => Url::parse
//@   opt /anyhow::Result/ => Result
//@   spec ensures match r { Ok(q) => parsed(self.url@) is Some && q@ == (Asked { method: Verb::Post, url: parsed(self.url@)->0, headers: headed(*self, Map::empty(), *ctx), body: Some(Payload::Text(query_of(*self, *ctx))) }), Err(_) => parsed(self.url@) is None }
}
} // verus!
}
verus! {
// ---- what of the client's request is passed on
pub uninterp spec fn same_name(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body] pub fn same_name_(a: &String, b: &str) -> (r: bool) ensures r == same_name(a@, b@) { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { _p: core::marker::PhantomData<T> }
impl BTreeSet<String> {
    pub uninterp spec fn names(&self) -> Seq<String>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.names().len() { unimplemented!() }
    // iter().any(..)
    #[verifier::external_body] pub fn any_<F: Fn(&String) -> bool>(&self, f: F) -> (r: bool) requires forall|t: &String| #[trigger] f.requires((t,)) ensures r ==> exists|i: int| 0 <= i < self.names().len() && f.ensures((&#[trigger] self.names()[i],), true), !r ==> forall|i: int| 0 <= i < self.names().len() ==> f.ensures((&#[trigger] self.names()[i],), false) { unimplemented!() }
}
pub open spec fn allowed_name(a: Seq<String>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && same_name((#[trigger] a[i])@, k) }
// the headers that are allowed, as they came
pub open spec fn passing(e: Seq<(Seq<char>, Seq<char>)>, a: Seq<String>, n: int) -> Held decreases n { if n <= 0 { Map::empty() } else { let p = e[n - 1]; if allowed_name(a, p.0) { passing(e, a, n - 1).insert(p.0, seq![p.1]) } else { passing(e, a, n - 1) } } }
// no other name is there
pub proof fn lemma_passing(e: Seq<(Seq<char>, Seq<char>)>, a: Seq<String>, n: int, k: Seq<char>) requires passing(e, a, n).contains_key(k) ensures allowed_name(a, k) decreases n { if n > 0 { if !(allowed_name(a, e[n - 1].0) && k == e[n - 1].0) { lemma_passing(e, a, n - 1, k); } } }
//@ fn src/core/http/request_handler.rs :: fn create_allowed_headers
//@   opt /allowed\s*\.iter\(\)\s*\.any\(/ => allowed.any_(
//@   opt /(\w+)\.eq_ignore_ascii_case\(k\.as_str\(\)\)/ => same_name_(\1, k.as_str())
//@   closure /same_name_/ |$0: &String| -> (o: bool) ensures o == same_name($0@, k@)
//@   loop 1 it=it var=e_ invariant it.seq().len() == headers.entries().len(), forall|i: int| #![trigger it.seq()[i]] #![trigger headers.entries()[i]] 0 <= i < it.seq().len() ==> (it.seq()[i].0@, it.seq()[i].1@) == headers.entries()[i], new_headers@ == passing(headers.entries(), allowed.names(), it.index() as int)
//@   spec ensures r@ == passing(headers.entries(), allowed.names(), headers.entries().len() as int), forall|k: Seq<char>| r@.contains_key(k) ==> allowed_name(allowed.names(), k)
//@   tail proof { assert forall|k: Seq<char>| ret_@.contains_key(k) implies allowed_name(allowed.names(), k) by { lemma_passing(headers.entries(), allowed.names(), headers.entries().len() as int, k); } }
} // verus!
fn main() {}
