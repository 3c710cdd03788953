#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
pub mod m_http {
// Assumed shapes of reqwest, http, url and std's BTreeSet/Hash, as far as used here.
use vstd::prelude::*;
use vstd::std_specs::iter::*;
verus! {
#[verifier::external_body] pub struct Url { _p: () }
impl View for Url { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct Method { _p: () }
#[verifier::external_body] pub struct HeaderValue { _p: () }
impl View for HeaderValue { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
// a body without bytes is a stream
#[verifier::external_body] pub struct Body { _p: () }
impl View for Body { type V = Option<Seq<u8>>; uninterp spec fn view(&self) -> Option<Seq<u8>>; }
impl Body { #[verifier::external_body] pub fn as_bytes(&self) -> (r: Option<&[u8]>) ensures bytes(r) == self@ { unimplemented!() } }
pub open spec fn bytes(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(b) => Some(b@), None => None } }
#[verifier::external_body] pub struct HeaderMap { _p: () }
// name in lower case -> first value
impl View for HeaderMap { type V = Map<Seq<char>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<u8>>; }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
impl HeaderMap {
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&HeaderValue>)
        ensures match r { Some(v) => self@.dom().contains(lower(k@)) && v@ == self@[lower(k@)], None => !self@.dom().contains(lower(k@)) } { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: HeaderMap) ensures old(self)@ == Map::<Seq<char>, Seq<u8>>::empty() ==> final(self)@ == o@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Url { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Method { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Request { _p: () }
impl Request {
    pub uninterp spec fn url_(&self) -> Url;
    pub uninterp spec fn method_(&self) -> Method;
    pub uninterp spec fn body_(&self) -> Option<Body>;
    pub uninterp spec fn headers_(&self) -> HeaderMap;
    #[verifier::external_body] pub fn url(&self) -> (r: &Url) ensures *r == self.url_() { unimplemented!() }
    #[verifier::external_body] pub fn method(&self) -> (r: &Method) ensures *r == self.method_() { unimplemented!() }
    #[verifier::external_body] pub fn body(&self) -> (r: Option<&Body>) ensures match r { Some(b) => self.body_() == Some(*b), None => self.body_() is None } { unimplemented!() }
    #[verifier::external_body] pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.headers_() { unimplemented!() }
    #[verifier::external_body] pub fn headers_mut(&mut self) -> (r: &mut HeaderMap)
        ensures *r == old(self).headers_(), final(self).headers_() == *final(r), final(self).url_() == old(self).url_(), final(self).method_() == old(self).method_(), final(self).body_() == old(self).body_() { unimplemented!() }
    #[verifier::external_body] pub fn new(m: Method, u: Url) -> (r: Self) ensures r.method_() == m, r.url_() == u, r.body_() is None, r.headers_()@ == Map::<Seq<char>, Seq<u8>>::empty() { unimplemented!() }
    // only a request that streams its body cannot be copied
    #[verifier::external_body] pub fn try_clone(&self) -> (r: Option<Self>)
        ensures match r { Some(q) => q.url_() == self.url_() && q.method_() == self.method_() && q.headers_()@ == self.headers_()@ && body_key(q.body_()) == body_key(self.body_()), None => body_key(self.body_()) == Some(None::<Seq<u8>>) } { unimplemented!() }
}
pub open spec fn body_key(b: Option<Body>) -> Option<Option<Seq<u8>>> { match b { Some(b) => Some(b@), None => None } }
// BTreeSet<String>: its texts in order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { _k: core::marker::PhantomData<K> }
impl<K> View for BTreeSet<K> { type V = Seq<K>; uninterp spec fn view(&self) -> Seq<K>; }
impl<K> BTreeSet<K> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: SetIter<'_, K>) ensures r.rem() == self@.map_values(|t: K| &t) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct SetIter<'a, K> { _k: core::marker::PhantomData<&'a K> }
impl<'a, K> SetIter<'a, K> { pub uninterp spec fn rem(&self) -> Seq<&'a K>; }
impl<'a, K> Iterator for SetIter<'a, K> { type Item = &'a K; #[verifier::external_body] fn next(&mut self) -> Option<&'a K> { unimplemented!() } }
impl<'a, K> IteratorSpecImpl for SetIter<'a, K> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<&'a K> { self.rem() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.rem().len()) }
    open spec fn peek(&self, i: int) -> Option<&'a K> { if 0 <= i < self.rem().len() { Some(self.rem()[i]) } else { None } }
}
// what a Hasher is fed
pub enum Piece { Url(Seq<char>), Bytes(Option<Seq<u8>>), Text(Seq<char>), Value(Seq<u8>) }
pub trait Hasher { spec fn log(&self) -> Seq<Piece>; }
pub trait Hash { spec fn piece(&self) -> Piece; fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).log() == old(state).log().push(self.piece()); }
impl Hash for Url { open spec fn piece(&self) -> Piece { Piece::Url(self@) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for String { open spec fn piece(&self) -> Piece { Piece::Text(self@) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for HeaderValue { open spec fn piece(&self) -> Piece { Piece::Value(self@) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<'a> Hash for Option<&'a [u8]> { open spec fn piece(&self) -> Piece { Piece::Bytes(bytes(*self)) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
// `==` of these types compares their contents
pub trait Same { type K; spec fn same_key(&self) -> Self::K; }
impl<'a> Same for &'a Url { type K = Seq<char>; open spec fn same_key(&self) -> Seq<char> { self@ } }
impl<'a> Same for Option<Option<&'a [u8]>> { type K = Option<Option<Seq<u8>>>; open spec fn same_key(&self) -> Option<Option<Seq<u8>>> { match self { Some(o) => Some(bytes(*o)), None => None } } }
impl<'a> Same for Vec<(&'a String, &'a HeaderValue)> { type K = Seq<(Seq<char>, Seq<u8>)>; open spec fn same_key(&self) -> Seq<(Seq<char>, Seq<u8>)> { self@.map_values(|p: (&'a String, &'a HeaderValue)| (p.0@, p.1@)) } }
#[verifier::external_body] pub fn same_<A: Same>(a: A, b: A) -> (r: bool) ensures r == (a.same_key() == b.same_key()) { unimplemented!() }
} // verus!
}
use m_http::*;
pub mod reqwest { pub use super::m_http::*; }
verus! {
broadcast use axiom_string_ext;
// ---- what the property says: a request is its address, its body and the values of its key headers
pub open spec fn named(names: Seq<String>, h: Map<Seq<char>, Seq<u8>>) -> Seq<(Seq<char>, Seq<u8>)> decreases names.len() {
    if names.len() == 0 { Seq::empty() } else {
        let (p, k) = (named(names.drop_last(), h), names.last()@);
        if h.dom().contains(lower(k)) { p.push((k, h[lower(k)])) } else { p }
    }
}
pub open spec fn key(d: DataLoaderRequest) -> (Seq<char>, Option<Option<Seq<u8>>>, Seq<(Seq<char>, Seq<u8>)>) {
    (d.request.url_()@, body_key(d.request.body_()), named(d.headers@, d.request.headers_()@))
}
pub open spec fn fed(h: Seq<(Seq<char>, Seq<u8>)>) -> Seq<Piece> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else { fed(h.drop_last()).push(Piece::Text(h.last().0)).push(Piece::Value(h.last().1)) }
}
// the hash is a function of the key: equal requests have equal hashes
pub open spec fn hashed(k: (Seq<char>, Option<Option<Seq<u8>>>, Seq<(Seq<char>, Seq<u8>)>)) -> Seq<Piece> {
    seq![Piece::Url(k.0)] + (match k.1 { Some(b) => seq![Piece::Bytes(b)], None => Seq::empty() }) + fed(k.2)
}
pub proof fn lemma_named(names: Seq<String>, h: Map<Seq<char>, Seq<u8>>, n: int)
    requires 0 <= n < names.len()
    ensures named(names.take(n + 1), h) == (if h.dom().contains(lower(names[n]@)) { named(names.take(n), h).push((names[n]@, h[lower(names[n]@)])) } else { named(names.take(n), h) })
{ assert(names.take(n + 1).drop_last() =~= names.take(n)); assert(names.take(n + 1).last() == names[n]); }
//@ item src/core/http/data_loader_request.rs :: struct DataLoaderRequest
//@ rewrite /\bin &self\.headers\b/ => in self.headers.iter()
//@ rewrite /(self\.[\w.()]+) == (other\.[\w.()]+)/ => same_(\1, \2)
impl DataLoaderRequest {
//@ fn src/core/http/data_loader_request.rs :: impl DataLoaderRequest :: fn new
//@   spec ensures r.request == req, r.headers == headers, r.batching_value is None
//@ fn src/core/http/data_loader_request.rs :: impl DataLoaderRequest :: fn with_batching_value
//@   spec ensures r.request == self.request, r.headers == self.headers, r.batching_value == body
//@ fn src/core/http/data_loader_request.rs :: impl DataLoaderRequest :: fn batching_value
//@   spec ensures match r { Some(s) => self.batching_value == Some(*s), None => self.batching_value is None }
//@ fn src/core/http/data_loader_request.rs :: impl DataLoaderRequest :: fn to_request
//@   opt /self\.clone\(\)/ => self.clone_()
//@   spec ensures r.url_() == self.request.url_(), r.method_() == self.request.method_(), r.headers_()@ == self.request.headers_()@, body_key(self.request.body_()) != Some(None::<Seq<u8>>) ==> body_key(r.body_()) == body_key(self.request.body_())
//@ fn src/core/http/data_loader_request.rs :: impl DataLoaderRequest :: fn headers
//@   spec ensures *r == self.headers
//@ fn src/core/http/data_loader_request.rs :: impl DataLoaderRequest :: fn body_bytes
//@   spec ensures r.same_key() == body_key(self.request.body_())
//@   closure 1 |body: &Body| -> (o: Option<&[u8]>) ensures bytes(o) == body@
//@ fn src/core/http/data_loader_request.rs :: impl DataLoaderRequest :: fn key_headers
//@   attr #[verifier::loop_isolation(false)]
//@   spec ensures r.same_key() == named(self.headers@, self.request.headers_()@)
//@   loop 1 it=it invariant it.seq() == self.headers@.map_values(|t: String| &t), found.same_key() == named(self.headers@.take(it.index() as int), self.request.headers_()@),
//@   before 1 proof { assert(found.same_key() =~= Seq::empty()); }
//@   loopstart 1 let ghost f0 = found; proof { lemma_named(self.headers@, self.request.headers_()@, it.index() as int); }
//@   loopend 1 proof { assert(found@ == f0@ || found@ == f0@.push(found@.last())); assert(found@ != f0@ ==> found.same_key() =~= f0.same_key().push((found@.last().0@, found@.last().1@))); }
//@   after 1 proof { assert(self.headers@.take(self.headers@.len() as int) =~= self.headers@); }
//@ fn src/core/http/data_loader_request.rs :: impl Hash for DataLoaderRequest :: fn hash
//@   attr #[verifier::loop_isolation(false)]
//@   spec ensures final(state).log() == old(state).log() + hashed(key(*self))
//@   start let ghost h0 = self.request.headers_()@; let ghost l0 = state.log();
//@   before 1 let ghost l1 = state.log(); proof { assert(l1 =~= l0 + seq![Piece::Url(self.request.url_()@)] + (match body_key(self.request.body_()) { Some(b) => seq![Piece::Bytes(b)], None => Seq::empty() })); }
//@   loop 1 it=it invariant it.seq() == self.headers@.map_values(|t: String| &t), state.log() =~= l1 + fed(named(self.headers@.take(it.index() as int), h0)),
//@   loopstart 1 proof { lemma_named(self.headers@, h0, it.index() as int); let p = named(self.headers@.take(it.index() as int), h0); let q = named(self.headers@.take(it.index() as int + 1), h0); if q != p { assert(q.drop_last() =~= p); } }
//@   after 1 proof { assert(self.headers@.take(self.headers@.len() as int) =~= self.headers@); assert(state.log() =~= l0 + hashed(key(*self))); }
//@ fn src/core/http/data_loader_request.rs :: impl PartialEq for DataLoaderRequest :: fn eq name=eq_
//@   spec ensures r == (key(*self) == key(*other))
//@ fn src/core/http/data_loader_request.rs :: impl Clone for DataLoaderRequest :: fn clone name=clone_
//@   spec ensures r.batching_value == self.batching_value, r.headers == self.headers, r.request.url_() == self.request.url_(), r.request.method_() == self.request.method_(), r.request.headers_()@ == self.request.headers_()@,
//@   |    body_key(self.request.body_()) != Some(None::<Seq<u8>>) ==> body_key(r.request.body_()) == body_key(self.request.body_()) && key(r) == key(*self)
//@   closure 1 || -> (q: Request) ensures q.url_() == self.request.url_(), q.method_() == self.request.method_(), q.headers_()@ == self.request.headers_()@
//@   start proof { if self.batching_value is Some {} }
}
// the request a resolver has built, before it becomes a batched one
//@ item src/core/ir/request.rs :: struct DynamicRequest
impl<Value> DynamicRequest<Value> {
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn new
//@   spec ensures r.request == request, r.batching_value is None
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn with_batching_value
//@   spec ensures r.request == self.request, r.batching_value == body_key
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn request
//@   spec ensures *r == self.request
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn request_mut
//@   spec ensures *r == old(self).request, final(self).request == *final(r), final(self).batching_value == old(self).batching_value
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn body_key
//@   spec ensures match r { Some(s) => self.batching_value == Some(*s), None => self.batching_value is None }
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn into_request
//@   spec ensures r == self.request
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn into_body_key
//@   spec ensures r == self.batching_value
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn into_parts
//@   spec ensures r.0 == self.request, r.1 == self.batching_value
}
} // verus!
fn main() {}
