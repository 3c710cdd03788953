#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/valid.rs
pub mod m_req {
// Assumed shapes of reqwest and url, as far as used here.
use vstd::prelude::*;
verus! {
pub type Pair = (Seq<char>, Seq<char>);
#[verifier::external_body] pub struct Url { _p: () }
impl Url {
    // the text of the query, if there is one, and everything else of the address
    pub uninterp spec fn query(&self) -> Option<Seq<char>>;
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body] pub fn query_pairs(&self) -> (r: Pairs) ensures views(r.rem()) == pairs(self.query()) { unimplemented!() }
    // query_pairs_mut().extend_pairs(..)
    #[verifier::external_body] pub fn extend_pairs_(&mut self, v: Vec<(String, String)>) ensures final(self).rest() == old(self).rest(), final(self).query() is Some, pairs(final(self).query()) == pairs(old(self).query()) + views(v@) { unimplemented!() }
}
pub uninterp spec fn pairs(q: Option<Seq<char>>) -> Seq<Pair>;
pub open spec fn view1(p: (String, String)) -> Pair { (p.0@, p.1@) }
pub open spec fn views(v: Seq<(String, String)>) -> Seq<Pair> { v.map_values(|p: (String, String)| view1(p)) }
pub open spec fn kept(v: Seq<(String, String)>, keep: Seq<bool>) -> Seq<(String, String)> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { let k = kept(v.drop_last(), keep.drop_last()); if keep.last() { k.push(v.last()) } else { k } }
}
#[verifier::external_body] pub struct Pairs { _p: () }
impl Pairs {
    pub uninterp spec fn rem(&self) -> Seq<(String, String)>;
    #[verifier::external_body] pub fn filter<F: Fn(&(String, String)) -> bool>(self, f: F) -> (r: Pairs)
        requires forall|p: &(String, String)| #[trigger] f.requires((p,))
        ensures exists|keep: Seq<bool>| keep.len() == self.rem().len() && (forall|i: int| 0 <= i < keep.len() ==> f.ensures((&#[trigger] self.rem()[i],), keep[i])) && r.rem() == #[trigger] kept(self.rem(), keep) { unimplemented!() }
    #[verifier::external_body] pub fn collect_(self) -> (r: Vec<(String, String)>) ensures r@ == self.rem() { unimplemented!() }
}
#[verifier::external_body] pub struct Method { _p: () }
#[verifier::external_body] pub struct HeaderMap { _p: () }
#[verifier::external_body] pub struct Bytes { _p: () }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
// a body without bytes is a stream
#[verifier::external_body] pub struct Body { _p: () }
impl View for Body { type V = Option<Seq<u8>>; uninterp spec fn view(&self) -> Option<Seq<u8>>; }
impl Body {
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: Option<&Bytes>) ensures match r { Some(b) => self@ == Some(b@), None => self@ is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_(v: Vec<u8>) -> (r: Body) ensures r@ == Some(v@) { unimplemented!() }
}
#[verifier::external_body] pub struct Request { _p: () }
impl Request {
    pub uninterp spec fn url_(&self) -> Url;
    pub uninterp spec fn method_(&self) -> Method;
    pub uninterp spec fn headers_(&self) -> HeaderMap;
    pub uninterp spec fn body_(&self) -> Option<Body>;
    pub open spec fn sent(&self) -> Option<Seq<u8>> { match self.body_() { Some(b) => b@, None => None } }
    #[verifier::external_body] pub fn url(&self) -> (r: &Url) ensures *r == self.url_() { unimplemented!() }
    #[verifier::external_body] pub fn url_mut(&mut self) -> (r: &mut Url) ensures *r == old(self).url_(), final(self).url_() == *final(r), final(self).method_() == old(self).method_(), final(self).headers_() == old(self).headers_(), final(self).body_() == old(self).body_() { unimplemented!() }
    #[verifier::external_body] pub fn body(&self) -> (r: Option<&Body>) ensures match r { Some(b) => self.body_() == Some(*b), None => self.body_() is None } { unimplemented!() }
    #[verifier::external_body] pub fn body_mut(&mut self) -> (r: &mut Option<Body>) ensures *r == old(self).body_(), final(self).body_() == *final(r), final(self).method_() == old(self).method_(), final(self).headers_() == old(self).headers_(), final(self).url_() == old(self).url_() { unimplemented!() }
}
// a member of the batch (its contract is C04's)
#[verifier::external_body] pub struct DataLoaderRequest { _p: () }
impl DataLoaderRequest {
    pub uninterp spec fn request(&self) -> Request;
    #[verifier::external_body] pub fn to_request(&self) -> (r: Request) ensures r.url_() == self.request().url_(), r.method_() == self.request().method_(), r.sent() == self.request().sent() { unimplemented!() }
    #[verifier::external_body] pub fn url(&self) -> (r: &Url) ensures *r == self.request().url_() { unimplemented!() }
    #[verifier::external_body] pub fn body(&self) -> (r: Option<&Body>) ensures match r { Some(b) => self.request().body_() == Some(*b), None => self.request().body_() is None } { unimplemented!() }
}
}
}
pub use m_req::*;
pub mod p_spec {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
// ---- what the property says
// the pairs of the given name, or all
pub open spec fn named(v: Seq<Pair>, name: Option<Seq<char>>) -> Seq<Pair> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { let k = named(v.drop_last(), name); if name is None || name == Some(v.last().0) { k.push(v.last()) } else { k } }
}
pub open spec fn asked(d: Seq<&DataLoaderRequest>, name: Option<Seq<char>>) -> Seq<Pair> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { asked(d.drop_last(), name) + named(pairs(d.last().request().url_().query()), name) }
}
pub open spec fn bodies(d: Seq<&DataLoaderRequest>) -> Seq<Seq<u8>> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { match d.last().request().sent() { Some(b) => bodies(d.drop_last()).push(b), None => bodies(d.drop_last()) } }
}
pub open spec fn commas(v: Seq<Seq<u8>>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { commas(v.drop_last()).push(44u8) + v.last() }
}
pub open spec fn contents(v: Seq<&Bytes>) -> Seq<Seq<u8>> { v.map_values(|b: &Bytes| b@) }
pub broadcast proof fn lemma_kept(v: Seq<(String, String)>, keep: Seq<bool>, name: Seq<char>)
    requires v.len() == keep.len(), forall|i: int| 0 <= i < v.len() ==> keep[i] == ((#[trigger] v[i]).0@ == name)
    ensures #![trigger kept(v, keep), named(views(v), Some(name))] views(kept(v, keep)) == named(views(v), Some(name))
    decreases v.len()
{
    if v.len() > 0 {
        let (v1, k1) = (v.drop_last(), keep.drop_last());
        assert forall|i: int| 0 <= i < v1.len() implies k1[i] == ((#[trigger] v1[i]).0@ == name) by { assert(v[i] == v1[i]); }
        lemma_kept(v1, k1, name);
        assert(views(v).drop_last() =~= views(v1));
        assert(keep.last() == (v[v.len() - 1].0@ == name));
    }
    assert(views(kept(v, keep)) =~= named(views(v), Some(name)));
}
pub broadcast proof fn lemma_all(v: Seq<Pair>) ensures #[trigger] named(v, None) == v decreases v.len() { if v.len() > 0 { lemma_all(v.drop_last()); assert(v.drop_last().push(v.last()) =~= v); } }
pub broadcast proof fn lemma_asked(d: Seq<&DataLoaderRequest>, n: int, name: Option<Seq<char>>)
    requires 0 <= n < d.len()
    ensures #[trigger] asked(d.take(n + 1), name) == asked(d.take(n), name) + named(pairs(d[n].request().url_().query()), name)
{ assert(d.take(n + 1).drop_last() =~= d.take(n)); }
pub broadcast proof fn lemma_bodies(d: Seq<&DataLoaderRequest>, n: int)
    requires 0 <= n < d.len()
    ensures #[trigger] bodies(d.take(n + 1)) == (match d[n].request().sent() { Some(b) => bodies(d.take(n)).push(b), None => bodies(d.take(n)) })
{ assert(d.take(n + 1).drop_last() =~= d.take(n)); }
pub broadcast proof fn lemma_push(v: Seq<&Bytes>, b: &Bytes) ensures contents(#[trigger] v.push(b)) == contents(v).push(b@) { assert(contents(v.push(b)) =~= contents(v).push(b@)); }
pub open spec fn so_far<B>(b: B) -> bool { true }
pub broadcast proof fn lemma_full(d: Seq<&DataLoaderRequest>) ensures #[trigger] d.take(d.len() as int) == d { assert(d.take(d.len() as int) =~= d); }
// Iterator::fold, step by step
pub open spec fn folded<T, B, F: Fn(B, &T) -> B>(v: Seq<T>, init: B, f: F, r: B) -> bool decreases v.len() {
    if v.len() == 0 { r == init } else { exists|m: B| #[trigger] so_far(m) && folded(v.drop_last(), init, f, m) && f.ensures((m, &v.last()), r) }
}
pub open spec fn comma(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { if a.len() == 0 { b } else { a.push(44u8) + b } }
pub broadcast proof fn lemma_folded<'a, F: Fn(Vec<u8>, &&'a Bytes) -> Vec<u8>>(v: Seq<&'a Bytes>, init: Vec<u8>, f: F, r: Vec<u8>)
    requires #[trigger] folded(v, init, f, r), init@.len() == 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() > 0,
        forall|a: Vec<u8>, b: &'a Bytes, o: Vec<u8>| #[trigger] f.ensures((a, &b), o) ==> o@ == comma(a@, b@)
    ensures r@ == commas(contents(v)), v.len() > 0 ==> r@.len() > 0
    decreases v.len()
{
    if v.len() > 0 {
        let m = choose|m: Vec<u8>| #[trigger] so_far(m) && folded(v.drop_last(), init, f, m) && f.ensures((m, &v.last()), r);
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i])@.len() > 0 by { assert(v.drop_last()[i] == v[i]); }
        lemma_folded(v.drop_last(), init, f, m);
        assert(contents(v).drop_last() =~= contents(v.drop_last()));
        assert(v[v.len() - 1]@.len() > 0);
        assert(r@ == comma(m@, v.last()@));
        assert(contents(v).last() == v.last()@);
        if v.len() == 1 { assert(contents(v)[0] == v.last()@); }
    }
}
// sorting only changes the order
pub open spec fn same_bodies(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { a.to_multiset() == b.to_multiset() }
}
}
pub mod p_batching {
use vstd::prelude::*;
use super::*; use super::p_spec::*;
pub mod reqwest { pub use super::super::m_req::*; }
verus! {
broadcast use {axiom_string_ext, lemma_kept, lemma_all, lemma_asked, lemma_bodies, lemma_push, lemma_folded, lemma_full};
pub struct Infallible;
#[verifier::external_body] pub fn cfg_() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn str_eq_(a: &str, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait Fold<T> { spec fn seq_(&self) -> Seq<T>; fn fold_<B, F: Fn(B, &T) -> B>(&self, init: B, f: F) -> (r: B) requires forall|b: B, t: &T| #[trigger] f.requires((b, t)) ensures folded(self.seq_(), init, f, r); }
impl<'a> Fold<&'a Bytes> for Vec<&'a Bytes> { open spec fn seq_(&self) -> Seq<&'a Bytes> { self@ } #[verifier::external_body] fn fold_<B, F: Fn(B, &&'a Bytes) -> B>(&self, init: B, f: F) -> B { unimplemented!() } }
// sorting only changes the order
#[verifier::external_body] pub fn sort_<'a>(v: &mut Vec<&'a Bytes>) ensures same_bodies(contents(final(v)@), contents(old(v)@)), final(v)@.len() == old(v)@.len(), (forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i])@.len() > 0) ==> (forall|i: int| 0 <= i < final(v)@.len() ==> (#[trigger] final(v)@[i])@.len() > 0) { unimplemented!() }
#[verifier::external_body] pub fn put_bytes_(v: &mut Vec<u8>, s: &Bytes) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn put_vec_(v: &mut Vec<u8>, s: &Vec<u8>) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
pub fn put1_(v: &mut Vec<u8>, b: u8) ensures final(v)@ == old(v)@.push(b) { v.push(b); }
#[verifier::external_body] pub fn empty_(v: &Vec<u8>) -> (r: bool) ensures r == (v@.len() == 0) { unimplemented!() }
// what a batched body is: all bodies, each once, in some order
pub open spec fn together(d: Seq<&DataLoaderRequest>, b: Seq<u8>) -> bool { exists|v: Seq<Seq<u8>>| same_bodies(v, bodies(d)) && b == (seq![91u8] + #[trigger] commas(v)).push(93u8) }
pub open spec fn substantial(d: Seq<&DataLoaderRequest>) -> bool { forall|i: int| 0 <= i < bodies(d).len() ==> (#[trigger] bodies(d)[i]).len() > 0 }
pub struct BodyBatching<'a> { pub dl_requests: &'a Vec<&'a DataLoaderRequest> }
pub struct QueryBatching<'a> { pub dl_requests: &'a Vec<&'a DataLoaderRequest>, pub group_by: Option<&'a str> }
//@ text src/core/http/transformations/body_batching.rs /struct BodyBatching<'a>\{dl_requests:&'a\[&'a DataLoaderRequest\],?\}/
//@ text src/core/http/transformations/query_batching.rs /struct QueryBatching<'a>\{dl_requests:&'a\[&'a DataLoaderRequest\],group_by:Option<&'a str>,?\}/
pub open spec fn frame(a: Request, b: Request) -> bool { a.method_() == b.method_() && a.headers_() == b.headers_() && a.url_().rest() == b.url_().rest() }
//@ rewrite /Self::Value/ => Request
//@ rewrite /Self::Error/ => Infallible
impl<'a> QueryBatching<'a> {
//@ fn src/core/http/transformations/query_batching.rs :: impl<'a> QueryBatching<'a> :: fn new
//@   sub /&'a \[&'a DataLoaderRequest\]/ => &'a Vec<&'a DataLoaderRequest>
//@   spec ensures r.dl_requests == dl_requests, r.group_by == group_by
//@ fn src/core/http/transformations/query_batching.rs :: impl Transform for QueryBatching<'_> :: fn transform
//@   attr #[verifier::loop_isolation(false)]
//@   opt /(\w+)\.eq\(&(\w+)\.to_string\(\)\)/ => str_eq_(\1, \2)
//@   opt /\.collect\(\)/ => .collect_()
//@   opt /\.query_pairs_mut\(\)\s*\.extend_pairs\(/ => .extend_pairs_(
//@   opt /in self\.dl_requests \{/ => in self.dl_requests.iter() {
//@   closurelet 1 |a0: &(String, String)| -> (b: bool) ensures b == (a0.0@ == group_by_key@)
//@   loop 1 it=it invariant frame(base_request, base), base_request.body_() == base.body_(), pairs(base_request.url_().query()) == pairs(base.url_().query()) + asked(self.dl_requests@.take(it.index@ as int), name), asked(self.dl_requests@.take(it.index@ as int), name).len() == 0 ==> base_request.url_() == base.url_(),
//@   start let ghost base = base_request; let ghost name = match self.group_by { Some(s) => Some(s@), None => None };
//@   spec ensures r.ok() is Some, ({ let q = r.ok()->0; let name = match self.group_by { Some(s) => Some(s@), None => None };
//@   |    frame(q, base_request) && q.body_() == base_request.body_() && pairs(q.url_().query()) == pairs(base_request.url_().query()) + asked(self.dl_requests@, name)
//@   |    && (asked(self.dl_requests@, name).len() == 0 ==> q.url_() == base_request.url_()) })
}
impl<'a> BodyBatching<'a> {
//@ fn src/core/http/transformations/body_batching.rs :: impl<'a> BodyBatching<'a> :: fn new
//@   sub /&'a \[&'a DataLoaderRequest\]/ => &'a Vec<&'a DataLoaderRequest>
//@   spec ensures r.dl_requests == dl_requests
//@ fn src/core/http/transformations/body_batching.rs :: impl Transform for BodyBatching<'_> :: fn transform
//@   attr #[verifier::loop_isolation(false)]
//@   opt /in self\.dl_requests \{/ => in self.dl_requests.iter() {
//@   opt /cfg!\(debug_assertions\)/ => cfg_()
//@   opt /(\w+)\.sort(?:_unstable)?\(\)/ => sort_(&mut \1)
//@   opt /(\w+)\.iter\(\)\.fold\(\s*Vec::with_capacity\(.*?request_bodies\.len\(\),\s*\),/ => \1.fold_(Vec::new(),
//@   opt /(\w+)\.iter\(\)\.fold\(/ => \1.fold_(
//@   opt /Vec::with_capacity\((?:[^()]|\([^()]*\))*\)/ => Vec::new()
//@   opt /(\w+)\.extend_from_slice\(b"(.)"\)/ => put1_(&mut \1, b'\2')
//@   opt /(\w+)\.extend_from_slice\(&(\w+)\)/ => put_vec_(&mut \1, &\2)
//@   opt /(\w+)\.extend_from_slice\((\w+)\)/ => put_bytes_(&mut \1, \2)
//@   opt /\.replace\((\w+)\.into\(\)\)/ => .replace(Body::from_(\1))
//@   closure /as_bytes/ |$0: &Body| -> (o: Option<&Bytes>) ensures match o { Some(z_) => $0@ == Some(z_@), None => $0@ is None }
//@   closurelet /put_bytes_/ |a0: Vec<u8>, a1: &&Bytes| -> (o: Vec<u8>) ensures o@ == comma(a0@, (*a1)@)
//@   loop 1 it=it invariant contents(request_bodies@) == bodies(self.dl_requests@.take(it.index@ as int)),
//@   before 1 proof { assert(contents(request_bodies@) =~= Seq::empty()); }
//@   after 1 let ghost found = request_bodies@; proof { assert(contents(found) == bodies(self.dl_requests@)); if substantial(self.dl_requests@) { assert forall|i: int| 0 <= i < found.len() implies (#[trigger] found[i])@.len() > 0 by { assert(contents(found)[i].len() > 0); } } }
//@   spec ensures r.ok() is Some, ({ let q = r.ok()->0; let b = bodies(self.dl_requests@);
//@   |    frame(q, base_request) && q.url_() == base_request.url_() && (b.len() == 0 ==> q.body_() == base_request.body_())
//@   |    && (b.len() > 0 && substantial(self.dl_requests@) ==> q.sent() is Some && together(self.dl_requests@, q.sent()->0)) })
}
}
}
fn main() {}
