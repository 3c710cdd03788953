#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
//@ include prelude/headers.rs
pub mod m_srv {
// Assumed shapes of http, hyper and cache_control, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl HeaderValue {
    #[verifier::external_body] pub fn clone(&self) -> (r: HeaderValue) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn is_(&self, o: &HeaderValue) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    // visible ASCII
    #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str>) ensures match r { Ok(t) => t@ == self@ && ascii(self@), Err(_) => !ascii(self@) } { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == bytes(self@) { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<HeaderValue>) ensures match r { Ok(v) => bytes(v@) == b@, Err(_) => !octets(b@) } { unimplemented!() }
}
// from_str of what can be said
#[verifier::external_body] pub fn said_(t: &str) -> (r: HeaderValue) requires sayable(t@) ensures r@ == t@ { unimplemented!() }
pub uninterp spec fn ascii(t: Seq<char>) -> bool;
// what header values consist of
pub uninterp spec fn octets(b: Seq<u8>) -> bool;
pub broadcast axiom fn axiom_octets(v: HeaderValue) ensures octets(#[trigger] bytes(v@));
pub broadcast axiom fn axiom_octets_joined(a: Seq<u8>, v: HeaderValue) requires octets(a) ensures octets(#[trigger] (a + bytes(", "@) + bytes(v@)));
pub uninterp spec fn bytes(t: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn axiom_ascii(a: Seq<char>, b: Seq<char>) requires ascii(a), ascii(b) ensures #[trigger] sayable(a + "; "@ + b);
impl HeaderName { #[verifier::external_body] pub fn clone(&self) -> (r: HeaderName) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn name_(t: &str) -> (r: HeaderName) ensures r@ == t@ { unimplemented!() }
impl HeaderMap {
    #[verifier::external_body] pub fn get(&self, k: &HeaderName) -> (r: Option<&HeaderValue>) ensures match r { Some(v) => self@.contains_key(k@) && self@[k@].len() > 0 && v@ == self@[k@][0], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: HeaderMap) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn take_(&mut self, k: &HeaderName) -> (r: Option<HeaderValue>) ensures final(self)@ == old(self)@.remove(k@), match r { Some(v) => old(self)@.contains_key(k@) && old(self)@[k@].len() > 0 && v@ == old(self)@[k@][0], None => !old(self)@.contains_key(k@) } { unimplemented!() }
    // extend with pairs adds them to what is there
    #[verifier::external_body] pub fn add_(&mut self, o: Option<(HeaderName, HeaderValue)>) ensures final(self)@ == added(old(self)@, pair_of(o)) { unimplemented!() }
}
pub type Pair = Option<(Seq<char>, Seq<char>)>;
pub open spec fn pair_of(o: Option<(HeaderName, HeaderValue)>) -> Pair { match o { Some((k, v)) => Some((k@, v@)), None => None } }
pub open spec fn added(h: Held, p: Pair) -> Held { match p { Some((k, v)) => h.insert(k, if h.contains_key(k) { h[k].push(v) } else { seq![v] }), None => h } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { _p: core::marker::PhantomData<T> }
impl HashSet<HeaderName> {
    pub uninterp spec fn names(&self) -> Seq<HeaderName>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.names().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn it_(&self) -> (r: It<&HeaderName>) ensures r@.len() == self.names().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.names()[i] { unimplemented!() }
}
// ---- cache_control
pub enum Cachability { Public, Private, NoCache, OnlyIfCached }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { _p: () }
impl Duration { pub uninterp spec fn secs(&self) -> u64; #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r == self.secs() { unimplemented!() } }
pub struct Policy { pub cachability: Option<Cachability>, pub max_age: Option<Duration>, pub no_store: bool }
pub uninterp spec fn policy_of(t: Seq<char>) -> Option<Policy>;
impl Policy { #[verifier::external_body] pub fn from_value(t: &str) -> (r: Option<Policy>) ensures r == policy_of(t@) { unimplemented!() } }
pub fn no_cache_(c: &Option<Cachability>) -> (r: bool) ensures r == (*c == Some(Cachability::NoCache)) { match c { Some(Cachability::NoCache) => true, _ => false } }
pub fn i32_(n: u64) -> (r: core::result::Result<i32, Error>) ensures match r { Ok(v) => v as int == n as int, Err(_) => n > i32::MAX as u64 } { if n <= 0x7fff_ffff { Ok(n as i32) } else { Err(err_()) } }
#[verifier::external_body] pub fn err_() -> Error { unimplemented!() }
// ---- text
pub uninterp spec fn decimal(n: int) -> Seq<char>;
#[verifier::external_body] pub fn max_age_(n: i32) -> (r: String) ensures r@ == "max-age="@ + decimal(n as int) { unimplemented!() }
#[verifier::external_body] pub fn text_(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn room_() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn add_(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] pub fn empty_(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn both_(a: &str, b: &str) -> (r: String) ensures r@ == a@ + "; "@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn least_(a: i32, b: i32) -> (r: i32) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
} // verus!
}
use m_srv::*;
verus! {
broadcast use {axiom_string_ext, axiom_ascii};
// ---- what answers say of caching, taken together
pub struct Settings { pub experimental_headers: HashSet<HeaderName>, pub response_headers: HeaderMap, pub enable_cache_control_header: bool }
// the locks are left out: an answer's request is one task
pub struct RequestContext { pub server: Settings, pub x_response_headers: HeaderMap, pub cookie_headers: Option<HeaderMap>, pub min_max_age: Option<i32>, pub cache_public: Option<bool> }
#[verifier::external_body] pub struct StatusCode { _p: () }
impl StatusCode { pub uninterp spec fn good(&self) -> bool; #[verifier::external_body] pub fn is_success(&self) -> (r: bool) ensures r == self.good() { unimplemented!() } }
pub struct Reply { pub headers: HeaderMap, pub status: StatusCode }
pub open spec fn least(a: Option<i32>, n: int) -> Option<i32> { match a { Some(m) if m <= n => Some(m), _ => Some(n as i32) } }
pub open spec fn capped(n: u64) -> int { if n > i32::MAX as u64 { i32::MAX as int } else { n as int } }
pub open spec fn aged(a: Option<i32>, p: Policy) -> Option<i32> { let b = match p.max_age { Some(d) => least(a, capped(d.secs())), None => a }; if p.cachability == Some(Cachability::NoCache) { least(b, -1) } else { b } }
pub open spec fn public(a: Option<bool>, p: Policy) -> Option<bool> { if p.cachability == Some(Cachability::Private) { Some(false) } else { a } }
// the least of two is no more than either, whatever the order
pub proof fn lemma_least(a: Option<i32>, p: Policy) ensures a is Some ==> aged(a, p) is Some && aged(a, p)->0 <= a->0, p.max_age is Some ==> aged(a, p) is Some && aged(a, p)->0 <= capped(p.max_age->0.secs()), public(a_false(), p) == a_false() {}
pub open spec fn a_false() -> Option<bool> { Some(false) }
pub open spec fn policy_in(h: Held) -> Option<Policy> { if h.contains_key("cache-control"@) && ascii(h["cache-control"@][0]) { policy_of(h["cache-control"@][0]) } else { None } }
//@ fn src/core/http/cache.rs :: fn cache_policy
//@   opt /Response<async_graphql::Value>/ => Reply
//@   opt /\bCacheControl\b/ => Policy
//@   opt /http::header::CACHE_CONTROL/ => &name_("cache-control")
//@   spec ensures r == policy_in(res.headers@)
// cookies of the answers: the first, and the others joined
pub open spec fn cookies(h: Held, n: Held) -> Held { if n.contains_key("set-cookie"@) { let c = n["set-cookie"@][0]; if !h.contains_key("set-cookie"@) { h.insert("set-cookie"@, seq![c]) } else if ascii(h["set-cookie"@][0]) && ascii(c) { h.insert("set-cookie"@, seq![h["set-cookie"@][0] + "; "@ + c]) } else { h } } else { h } }
// the configured names' values of an answer
pub open spec fn chosen(h: Held, n: Held, names: Seq<HeaderName>, k: int) -> Held decreases k { if k <= 0 { h } else { let x = names[k - 1]@; let g = chosen(h, n, names, k - 1); if n.contains_key(x) { g.insert(x, seq![n[x][0]]) } else { g } } }
// no other name of the answer is taken
pub proof fn lemma_chosen(h: Held, n: Held, names: Seq<HeaderName>, k: int, x: Seq<char>)
    requires chosen(h, n, names, k).contains_key(x), k <= names.len() ensures h.contains_key(x) || exists|i: int| 0 <= i < k && #[trigger] names[i]@ == x decreases k
{ if k > 0 { if chosen(h, n, names, k - 1).contains_key(x) { lemma_chosen(h, n, names, k - 1, x); } else { assert(names[k - 1]@ == x); } } }
// a map's pairs put in place of what is there
pub open spec fn laid(h: Held, e: Seq<(Seq<char>, Seq<char>)>, k: int) -> Held decreases k { if k <= 0 { h } else { laid(h, e, k - 1).insert(e[k - 1].0, seq![e[k - 1].1]) } }
impl RequestContext {
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn set_min_max_age_conc vis=pub
//@   opt /\(&self/ => (&mut self
//@   opt /\*self\.min_max_age\.lock\(\)\.unwrap\(\)/ => self.min_max_age
//@   spec ensures *final(self) == (RequestContext { min_max_age: Some(min_max_age), ..*old(self) })
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn get_min_max_age
//@   opt /\*self\.min_max_age\.lock\(\)\.unwrap\(\)/ => self.min_max_age
//@   spec ensures r == self.min_max_age
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn set_cache_public_false
//@   opt /\(&self/ => (&mut self
//@   opt /\*self\.cache_public\.lock\(\)\.unwrap\(\)/ => self.cache_public
//@   spec ensures *final(self) == (RequestContext { cache_public: Some(false), ..*old(self) })
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn is_cache_public
//@   opt /\*self\.cache_public\.lock\(\)\.unwrap\(\)/ => self.cache_public
//@   spec ensures r == self.cache_public
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn set_min_max_age
//@   opt /\(&self/ => (&mut self
//@   spec ensures *final(self) == (RequestContext { min_max_age: least(old(self).min_max_age, max_age as int), ..*old(self) })
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn set_cache_visibility
//@   opt /\(&self/ => (&mut self
//@   spec ensures *final(self) == (RequestContext { cache_public: if *cachability == Some(Cachability::Private) { Some(false) } else { old(self).cache_public }, ..*old(self) })
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn set_cache_control
//@   opt /\(&self/ => (&mut self
//@   opt /\bCacheControl\b/ => Policy
//@   opt /i32::try_from/ => i32_
//@   opt /Some\(Cachability::NoCache\) == cache_policy\.cachability/ => no_cache_(&cache_policy.cachability)
//@   spec ensures *final(self) == (RequestContext { min_max_age: aged(old(self).min_max_age, cache_policy), cache_public: public(old(self).cache_public, cache_policy), ..*old(self) })
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn set_cookie_headers
//@   opt /\(&self/ => (&mut self
//@   opt /Some\(map\) = &self\.cookie_headers/ => Some(map) = &mut self.cookie_headers
//@   opt /let map = &mut map\.lock\(\)\.unwrap\(\);/ => 
//@   opt /headers\.get\("set-cookie"\)/ => headers.get(&name_("set-cookie"))
//@   opt /HeaderName::from_str\("set-cookie"\)\.unwrap\(\)/ => name_("set-cookie")
//@   opt /format!\("\{\}; \{\}", existing_str, new_cookies_str\)/ => both_(existing_str, new_cookies_str)
//@   opt /map\.insert\(\s*cookie_name/ => map.insert(&cookie_name
//@   opt /HeaderValue::from_str\(&combined_cookies\)\.unwrap\(\)/ => said_(combined_cookies.as_str())
//@   spec ensures final(self).server == old(self).server, final(self).x_response_headers == old(self).x_response_headers, final(self).min_max_age == old(self).min_max_age, final(self).cache_public == old(self).cache_public, match old(self).cookie_headers { Some(h) => final(self).cookie_headers is Some && final(self).cookie_headers->0@ == cookies(h@, headers@), None => final(self).cookie_headers is None }
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn has_experimental_headers
//@   spec ensures r == (self.server.experimental_headers.names().len() > 0)
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn add_x_headers
//@   opt /\(&self/ => (&mut self
//@   opt /let mut x_response_headers = self\.x_response_headers\.lock\(\)\.unwrap\(\);/ => 
//@   opt /\bx_response_headers\.insert/ => self.x_response_headers.insert
//@   opt /in &self\.server\.experimental_headers/ => in self.server.experimental_headers.it_()
//@   loop 1 it=it invariant it.seq().len() == old(self).server.experimental_headers.names().len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == old(self).server.experimental_headers.names()[i], self.x_response_headers@ == chosen(old(self).x_response_headers@, headers@, old(self).server.experimental_headers.names(), it.index() as int), self.server == old(self).server, self.cookie_headers == old(self).cookie_headers, self.min_max_age == old(self).min_max_age, self.cache_public == old(self).cache_public
//@   spec ensures final(self).x_response_headers@ == chosen(old(self).x_response_headers@, headers@, old(self).server.experimental_headers.names(), old(self).server.experimental_headers.names().len() as int), final(self).server == old(self).server, final(self).cookie_headers == old(self).cookie_headers, final(self).min_max_age == old(self).min_max_age, final(self).cache_public == old(self).cache_public
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn extend_x_headers
//@   opt /&self\.x_response_headers\.lock\(\)\.unwrap\(\)/ => &self.x_response_headers
//@   loop 1 it=it var=e_ invariant it.seq().len() == self.x_response_headers.entries().len(), forall|i: int| #![trigger it.seq()[i]] #![trigger self.x_response_headers.entries()[i]] 0 <= i < it.seq().len() ==> (it.seq()[i].0@, it.seq()[i].1@) == self.x_response_headers.entries()[i], headers@ == laid(old(headers)@, self.x_response_headers.entries(), it.index() as int)
//@   spec ensures final(headers)@ == (if self.server.experimental_headers.names().len() > 0 { laid(old(headers)@, self.x_response_headers.entries(), self.x_response_headers.entries().len() as int) } else { old(headers)@ })
}
} // verus!
pub mod m_heard {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
// ---- what is taken of an upstream's answer
pub struct EvalContext { pub request_ctx: RequestContext }
impl Settings { pub fn get_enable_cache_control(&self) -> (r: bool) ensures r == self.enable_cache_control_header { self.enable_cache_control_header } }
pub open spec fn heard_caching(c: RequestContext, a: Reply) -> RequestContext { match policy_in(a.headers@) { Some(p) => if c.server.enable_cache_control_header && a.status.good() { RequestContext { min_max_age: aged(c.min_max_age, p), cache_public: public(c.cache_public, p), ..c } } else { c }, None => c } }
// only answers that are no failures have a say in caching and cookies
pub open spec fn heard(c: RequestContext, a: Reply, d: RequestContext) -> bool {
    let k = heard_caching(c, a);
    d.server == c.server && d.min_max_age == k.min_max_age && d.cache_public == k.cache_public
        && d.x_response_headers@ == (if c.server.experimental_headers.names().len() > 0 { chosen(c.x_response_headers@, a.headers@, c.server.experimental_headers.names(), c.server.experimental_headers.names().len() as int) } else { c.x_response_headers@ })
        && match c.cookie_headers { Some(h) => d.cookie_headers is Some && d.cookie_headers->0@ == (if a.status.good() { cookies(h@, a.headers@) } else { h@ }), None => d.cookie_headers is None }
}
//@ fn src/core/ir/eval_http.rs :: fn set_cache_control vis=pub
//@   opt /<Ctx: ResolverContextLike>/ => 
//@   opt /&EvalContext<'_, Ctx>/ => &mut EvalContext
//@   opt /&Response<async_graphql::Value>/ => &Reply
//@   spec ensures final(ctx).request_ctx == heard_caching(old(ctx).request_ctx, *res)
//@ fn src/core/ir/eval_http.rs :: fn set_experimental_headers vis=pub
//@   opt /<Ctx: ResolverContextLike>/ => 
//@   opt /&EvalContext<'_, Ctx>/ => &mut EvalContext
//@   opt /&Response<async_graphql::Value>/ => &Reply
//@   spec ensures final(ctx).request_ctx.server == old(ctx).request_ctx.server, final(ctx).request_ctx.cookie_headers == old(ctx).request_ctx.cookie_headers, final(ctx).request_ctx.min_max_age == old(ctx).request_ctx.min_max_age, final(ctx).request_ctx.cache_public == old(ctx).request_ctx.cache_public, final(ctx).request_ctx.x_response_headers@ == chosen(old(ctx).request_ctx.x_response_headers@, res.headers@, old(ctx).request_ctx.server.experimental_headers.names(), old(ctx).request_ctx.server.experimental_headers.names().len() as int)
//@ fn src/core/ir/eval_http.rs :: fn set_cookie_headers vis=pub
//@   opt /<Ctx: ResolverContextLike>/ => 
//@   opt /&EvalContext<'_, Ctx>/ => &mut EvalContext
//@   opt /&Response<async_graphql::Value>/ => &Reply
//@   spec ensures final(ctx).request_ctx.server == old(ctx).request_ctx.server, final(ctx).request_ctx.x_response_headers == old(ctx).request_ctx.x_response_headers, final(ctx).request_ctx.min_max_age == old(ctx).request_ctx.min_max_age, final(ctx).request_ctx.cache_public == old(ctx).request_ctx.cache_public, match old(ctx).request_ctx.cookie_headers { Some(h) => final(ctx).request_ctx.cookie_headers is Some && final(ctx).request_ctx.cookie_headers->0@ == (if res.status.good() { cookies(h@, res.headers@) } else { h@ }), None => final(ctx).request_ctx.cookie_headers is None }
//@ fn src/core/ir/eval_http.rs :: fn set_headers
//@   opt /<Ctx: ResolverContextLike>/ => 
//@   opt /&EvalContext<'_, Ctx>/ => &mut EvalContext
//@   opt /&Response<async_graphql::Value>/ => &Reply
//@   spec ensures heard(old(ctx).request_ctx, *res, final(ctx).request_ctx)
} // verus!
}
pub mod m_agql {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
//@ item src/core/async_graphql_hyper.rs :: struct CacheControl
//@   opt /#\[derive\([^\]]*\)\]/ => #[derive(Clone)]
pub open spec fn caching(c: CacheControl) -> Seq<char> { let v = if c.max_age > 0 { "max-age="@ + decimal(c.max_age as int) } else if c.max_age == -1 { "no-cache"@ } else { Seq::empty() }; if c.public { v } else if v.len() > 0 { v + ", "@ + "private"@ } else { "private"@ } }
// private is said of it, whatever else is
pub proof fn lemma_said(c: CacheControl) requires !c.public ensures caching(c).len() > 0 { reveal_strlit("private"); }
pub open spec fn joint_age(a: i32, b: i32) -> i32 { if a == -1 || b == -1 { -1i32 } else if b == 0 { a } else if a == 0 { b } else if a <= b { a } else { b } }
impl CacheControl {
    pub fn clone_(&self) -> (r: CacheControl) ensures r == *self { CacheControl { max_age: self.max_age, public: self.public } }
//@ fn src/core/async_graphql_hyper.rs :: impl Default for CacheControl :: fn default vis=pub
//@   spec ensures r == (CacheControl { public: true, max_age: 0 })
//@ fn src/core/async_graphql_hyper.rs :: impl CacheControl :: fn value
//@   opt /format!\("max-age=\{\}", self\.max_age\)/ => max_age_(self.max_age)
//@   opt /"no-cache"\.to_string\(\)/ => text_("no-cache")
//@   opt /String::new\(\)/ => room_()
//@   opt /value\.is_empty\(\)/ => empty_(&value)
//@   opt /value \+= ", ";/ => add_(&mut value, ", ");
//@   opt /value \+= "private";/ => add_(&mut value, "private");
//@   start proof { reveal_strlit("max-age="); reveal_strlit("no-cache"); reveal_strlit("private"); reveal_strlit(", "); assert(Seq::<char>::empty() + "private"@ =~= "private"@); }
//@   spec ensures match r { Some(t) => t@ == caching(*self) && t@.len() > 0, None => caching(*self).len() == 0 }
//@ fn src/core/async_graphql_hyper.rs :: impl CacheControl :: fn merge
//@   opt /\ba\.min\(b\)/ => least_(a, b)
//@   spec ensures r == (CacheControl { public: self.public && other.public, max_age: joint_age(self.max_age, other.max_age) })
}
} // verus!
}
use m_agql::*;
pub mod m_cors {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use {axiom_string_ext, axiom_octets, axiom_octets_joined};
//@ item src/core/blueprint/cors.rs :: struct Cors
//@   opt /#\[derive\([^\]]*\)\]/ => 
pub struct Parts { pub headers: HeaderMap, pub method: Method, pub uri: Uri }
#[derive(Clone, Copy)] pub enum Method { GET, POST, OPTIONS, Other }
pub open spec fn any_value(v: Seq<HeaderValue>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == t }
#[verifier::external_body] pub fn any_wild_(v: &Vec<HeaderValue>) -> (r: bool) ensures r == any_value(v@, "*"@) { unimplemented!() }
#[verifier::external_body] pub fn has_(v: &Vec<HeaderValue>, o: &HeaderValue) -> (r: bool) ensures r == any_value(v@, o@) { unimplemented!() }
pub open spec fn wild(v: Option<HeaderValue>) -> bool { match v { Some(x) => x@ == "*"@, None => false } }
pub open spec fn named(n: Seq<char>, v: Option<HeaderValue>) -> Pair { match v { Some(x) => Some((n, x@)), None => None } }
// an origin is only let in if it is listed, or any is
pub open spec fn origin_of(c: Cors, o: Option<Seq<char>>) -> Pair { match o { Some(x) => if any_value(c.allow_origins@, "*"@) || any_value(c.allow_origins@, x) { Some(("access-control-allow-origin"@, x)) } else { None }, None => None } }
pub open spec fn credentials(c: Cors) -> Pair { if c.allow_credentials { Some(("access-control-allow-credentials"@, "true"@)) } else { None } }
pub open spec fn private_network(c: Cors, h: Held) -> Pair { let k = "access-control-request-private-network"@; if c.allow_private_network && h.contains_key(k) && h[k][0] == "true"@ { Some(("access-control-allow-private-network"@, "true"@)) } else { None } }
pub open spec fn usable(c: Cors) -> bool { !c.allow_credentials || !(wild(c.allow_headers) || wild(c.allow_methods) || any_value(c.allow_origins@, "*"@) || wild(c.expose_headers)) }
//@ fn src/core/blueprint/cors.rs :: fn is_wildcard vis=pub
//@   opt /header_value == WILDCARD/ => header_value.is_(&HeaderValue::from_static("*"))
//@   spec ensures r == (header_value@ == "*"@)
impl Cors {
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn allow_origin_to_header
//@   opt /header::ACCESS_CONTROL_ALLOW_ORIGIN/ => name_("access-control-allow-origin")
//@   opt /self\.allow_origins\.iter\(\)\.any\(is_wildcard\)/ => any_wild_(&self.allow_origins)
//@   opt /self\.allow_origins\.contains\(o\)/ => has_(&self.allow_origins, *o)
//@   opt /origin\.cloned\(\)/ => cloned_(origin)
//@   opt /origin\.filter\(/ => filter_(origin, 
//@   closure /has_/ |$0: &&HeaderValue| -> (b: bool) ensures b == any_value(self.allow_origins@, (*$0)@)
//@   spec ensures pair_of(r) == origin_of(*self, match origin { Some(o) => Some(o@), None => None })
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn allow_credentials_to_header
//@   opt /header::ACCESS_CONTROL_ALLOW_CREDENTIALS/ => name_("access-control-allow-credentials")
//@   opt /self\.allow_credentials\.then\(/ => then_(self.allow_credentials, 
//@   closure 1 || -> (b: (HeaderName, HeaderValue)) ensures b.0@ == "access-control-allow-credentials"@ && b.1@ == "true"@
//@   spec ensures pair_of(r) == credentials(*self)
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn allow_private_network_to_header
//@   opt /#\[allow\(clippy::\w+\)\]/ => 
//@   opt /const (\w+): HeaderName =\s*HeaderName::from_static\(/ => let \1 = name_(
//@   opt /const (\w+): HeaderValue =\s*HeaderValue::from_static\(/ => let \1 = HeaderValue::from_static(
//@   opt /parts\.headers\.get\(REQUEST_PRIVATE_NETWORK\) != Some\(&TRUE\)/ => !same_(parts.headers.get(&REQUEST_PRIVATE_NETWORK), &TRUE)
//@   opt /self\.allow_private_network\s*\.then_some\(/ => then_some_(self.allow_private_network, 
//@   spec ensures pair_of(r) == private_network(*self, parts.headers@)
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn allow_methods_to_header
//@   opt /header::ACCESS_CONTROL_ALLOW_METHODS/ => name_("access-control-allow-methods")
//@   opt /self\.allow_methods\.clone\(\)/ => opt_(&self.allow_methods)
//@   spec ensures pair_of(r) == named("access-control-allow-methods"@, self.allow_methods)
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn allow_headers_to_header
//@   opt /header::ACCESS_CONTROL_ALLOW_HEADERS/ => name_("access-control-allow-headers")
//@   opt /self\.allow_headers\.clone\(\)/ => opt_(&self.allow_headers)
//@   spec ensures pair_of(r) == named("access-control-allow-headers"@, self.allow_headers)
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn max_age_to_header
//@   opt /header::ACCESS_CONTROL_MAX_AGE/ => name_("access-control-max-age")
//@   spec ensures pair_of(r) == named("access-control-max-age"@, self.max_age)
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn expose_headers_to_header
//@   opt /header::ACCESS_CONTROL_EXPOSE_HEADERS/ => name_("access-control-expose-headers")
//@   spec ensures pair_of(r) == named("access-control-expose-headers"@, self.expose_headers)
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn vary_to_header
//@   opt /header::VARY/ => name_("vary")
//@   opt /values\.first\(\)\?\.as_bytes\(\)\.to_owned\(\)/ => bytes_(first_(values)?)
//@   opt /&values\[1\.\.\]/ => rest_(values)
//@   opt /res\.extend_from_slice\(b", "\);/ => extend_text_(&mut res, ", ");
//@   opt /res\.extend_from_slice\(val\.as_bytes\(\)\);/ => extend_(&mut res, val);
//@   loop 1 it=it invariant values@ == self.vary@, values@.len() > 0, it.seq().len() == values@.len() - 1, forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == values@[i + 1], res@ == listed(values@, it.index() as int + 1), octets(res@)
//@   start proof { if self.vary@.len() > 0 { reveal_with_fuel(listed, 2); } }
//@   spec ensures vary_said(*self, pair_of(r))
//@ fn src/core/blueprint/cors.rs :: impl Cors :: fn expose_headers_is_wildcard
//@   opt /#\[allow\(clippy::borrow_interior_mutable_const\)\]/ => 
//@   opt /matches!\(&self\.expose_headers, Some\(v\) if v == WILDCARD\)/ => opt_wild_(&self.expose_headers)
//@   spec ensures r == wild(self.expose_headers)
}
//@ fn src/core/blueprint/cors.rs :: fn ensure_usable_cors_rules
//@   opt /ValidationError<crate::core::blueprint::BlueprintError>/ => Error
//@   opt /(?s)ValidationError::new\(\s*BlueprintError::InvalidCORSConfiguration\([^;]*?\),?\s*\)\)/ => err_())
//@   opt /(?s)layer\s*\.(\w+)\s*\.as_ref\(\)\s*\.filter\(\|val\| is_wildcard\(val\)\)\s*\.is_some\(\)/ => opt_wild_(&layer.\1)
//@   opt /layer\.allow_origins\.iter\(\)\.any\(is_wildcard\)/ => any_wild_(&layer.allow_origins)
//@   spec ensures r is Ok <==> usable(*layer)
pub open spec fn listed(v: Seq<HeaderValue>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else if n == 1 { bytes(v[0]@) } else { listed(v, n - 1) + bytes(", "@) + bytes(v[n - 1]@) } }
pub open spec fn vary_said(c: Cors, p: Pair) -> bool { if c.vary@.len() == 0 { p is None } else { p matches Some((k, t)) && k == "vary"@ && bytes(t) == listed(c.vary@, c.vary@.len() as int) } }
#[verifier::external_body] pub fn first_(v: &Vec<HeaderValue>) -> (r: Option<&HeaderValue>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 } { unimplemented!() }
#[verifier::external_body] pub fn rest_(v: &Vec<HeaderValue>) -> (r: It<&HeaderValue>) requires v@.len() > 0 ensures r@.len() == v@.len() - 1, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[i + 1] { unimplemented!() }
#[verifier::external_body] pub fn bytes_(v: &HeaderValue) -> (r: Vec<u8>) ensures r@ == bytes(v@) { unimplemented!() }
#[verifier::external_body] pub fn extend_text_(v: &mut Vec<u8>, t: &str) ensures final(v)@ == old(v)@ + bytes(t@) { unimplemented!() }
#[verifier::external_body] pub fn extend_(v: &mut Vec<u8>, t: &HeaderValue) ensures final(v)@ == old(v)@ + bytes(t@) { unimplemented!() }
#[verifier::external_body] pub fn same_(o: Option<&HeaderValue>, v: &HeaderValue) -> (r: bool) ensures r == (o is Some && o->0@ == v@) { unimplemented!() }
#[verifier::external_body] pub fn header_is_(h: &HeaderMap, k: &str, v: &str) -> (r: bool) ensures r == (h@.contains_key(k@) && h@[k@][0] == v@) { unimplemented!() }
#[verifier::external_body] pub fn opt_(o: &Option<HeaderValue>) -> (r: Option<HeaderValue>) ensures match r { Some(v) => o is Some && v@ == o->0@, None => o is None } { unimplemented!() }
#[verifier::external_body] pub fn opt_wild_(o: &Option<HeaderValue>) -> (r: bool) ensures r == wild(*o) { unimplemented!() }
pub fn then_some_<T>(b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None }) { if b { Some(t) } else { None } }
pub fn cloned_(o: Option<&HeaderValue>) -> (r: Option<HeaderValue>) ensures match r { Some(v) => o is Some && v@ == o->0@, None => o is None } { match o { Some(v) => Some(v.clone()), None => None } }
#[verifier::external_body] pub fn filter_<'a, F: Fn(&&'a HeaderValue) -> bool>(o: Option<&'a HeaderValue>, f: F) -> (r: Option<&'a HeaderValue>) requires o is Some ==> f.requires((&o->0,)) ensures match o { Some(v) => (r == o && f.ensures((&v,), true)) || (r is None && f.ensures((&v,), false)), None => r is None } { unimplemented!() }
#[verifier::external_body] pub fn then_<T, F: FnOnce() -> T>(b: bool, f: F) -> (r: Option<T>) requires b ==> f.requires(()) ensures match r { Some(t) => b && f.ensures((), t), None => !b } { unimplemented!() }
// ---- the rules as they are configured
//@ item src/core/config/cors.rs :: struct Cors
//@   opt /struct Cors/ => struct CorsConfig
//@   opt /#\[derive\((?s:.*?)\)\]/ => 
//@   opt /#\[serde\([^\]]*\)\]/ => 
//@   opt /Vec<Method>/ => Vec<Verb>
#[verifier::external_body] pub struct Verb { _p: () }
impl View for Verb { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Verb { #[verifier::external_body] pub fn text_(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub open spec fn commas(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { commas(v.drop_last()) + ", "@ + v.last() } }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn verbs(v: Seq<Verb>) -> Seq<Seq<char>> { v.map_values(|s: Verb| s@) }
#[verifier::external_body] pub fn commas_(v: &Vec<String>) -> (r: String) ensures r@ == commas(texts(v@)) { unimplemented!() }
pub fn value_of_(t: &str) -> (r: Result<HeaderValue>) ensures match r { Ok(v) => sayable(t@) && v@ == t@, Err(_) => !sayable(t@) } { HeaderValue::from_str(t) }
#[verifier::external_body] pub fn string_value_(t: &String) -> (r: Result<HeaderValue>) ensures match r { Ok(v) => sayable(t@) && v@ == t@, Err(_) => !sayable(t@) } { unimplemented!() }
// collecting into a Result: all of them, or an error of one
#[verifier::external_body] pub fn all_read_<F: Fn(&String) -> Result<HeaderValue>>(t: &Vec<String>, f: F) -> (r: Result<Vec<HeaderValue>>) requires forall|i: int| 0 <= i < t@.len() ==> f.requires((&#[trigger] t@[i],))
    ensures match r { Ok(v) => v@.len() == t@.len() && forall|i: int| #![trigger v@[i]] #![trigger t@[i]] 0 <= i < t@.len() ==> f.ensures((&t@[i],), Ok(v@[i])), Err(_) => exists|i: int, e: Error| 0 <= i < t@.len() && #[trigger] f.ensures((&t@[i],), Err(e)) } { unimplemented!() }
pub uninterp spec fn digits(n: usize) -> Seq<char>;
#[verifier::external_body] pub fn seconds_(n: usize) -> (r: HeaderValue) ensures r@ == digits(n) { unimplemented!() }
pub fn map_<F: Fn(usize) -> HeaderValue>(o: Option<usize>, f: F) -> (r: Option<HeaderValue>) requires o is Some ==> f.requires((o->0,)) ensures match o { Some(n) => r is Some && f.ensures((n,), r->0), None => r is None } { match o { Some(n) => Some(f(n)), None => None } }
pub fn or_no_(o: Option<bool>) -> (r: bool) ensures r == (o == Some(true)) { match o { Some(b) => b, None => false } }
pub open spec fn same_texts(v: Seq<HeaderValue>, t: Seq<String>) -> bool { v.len() == t.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == t[i]@ }
pub open spec fn says(v: Option<HeaderValue>, t: Option<Seq<char>>) -> bool { match t { Some(x) => v is Some && v->0@ == x, None => v is None } }
pub open spec fn methods(f: CorsConfig) -> Seq<char> { if f.allow_methods@.len() == 0 { "*"@ } else { commas(verbs(f.allow_methods@)) } }
pub open spec fn configured(f: CorsConfig, c: Cors) -> bool {
    &&& c.allow_credentials == (f.allow_credentials == Some(true))
    &&& c.allow_private_network == (f.allow_private_network == Some(true))
    &&& says(c.allow_headers, if f.allow_headers@.len() == 0 { None } else { Some(commas(texts(f.allow_headers@))) })
    &&& says(c.allow_methods, Some(methods(f)))
    &&& says(c.expose_headers, Some(commas(texts(f.expose_headers@))))
    &&& says(c.max_age, match f.max_age { Some(n) => Some(digits(n)), None => None })
    &&& same_texts(c.allow_origins@, f.allow_origins@)
    &&& same_texts(c.vary@, f.vary@)
}
pub open spec fn all_sayable(t: Seq<String>) -> bool { forall|i: int| 0 <= i < t.len() ==> sayable((#[trigger] t[i])@) }
pub open spec fn readable(f: CorsConfig) -> bool { sayable(commas(texts(f.allow_headers@))) && sayable(methods(f)) && sayable(commas(texts(f.expose_headers@))) && all_sayable(f.allow_origins@) && all_sayable(f.vary@) }
// browsers take no wildcard where credentials are allowed
pub open spec fn usable_rules(f: CorsConfig) -> bool { f.allow_credentials != Some(true) || !((f.allow_headers@.len() > 0 && commas(texts(f.allow_headers@)) == "*"@) || methods(f) == "*"@ || (exists|i: int| 0 <= i < f.allow_origins@.len() && (#[trigger] f.allow_origins@[i])@ == "*"@) || commas(texts(f.expose_headers@)) == "*"@) }
pub proof fn lemma_usable(f: CorsConfig) ensures forall|c: Cors| #[trigger] configured(f, c) ==> usable(c) == usable_rules(f) {
    assert forall|c: Cors| #[trigger] configured(f, c) implies usable(c) == usable_rules(f) by {
        if any_value(c.allow_origins@, "*"@) { let i = choose|i: int| 0 <= i < c.allow_origins@.len() && (#[trigger] c.allow_origins@[i])@ == "*"@; assert(f.allow_origins@[i]@ == "*"@); }
        if exists|i: int| 0 <= i < f.allow_origins@.len() && (#[trigger] f.allow_origins@[i])@ == "*"@ { let i = choose|i: int| 0 <= i < f.allow_origins@.len() && (#[trigger] f.allow_origins@[i])@ == "*"@; assert(c.allow_origins@[i]@ == "*"@); }
    }
}
pub broadcast proof fn lemma_verbs(v: Seq<String>, m: Seq<Verb>) requires v.len() == m.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == m[i]@ ensures #[trigger] texts(v) == #[trigger] verbs(m) { assert(texts(v) =~= verbs(m)); }
impl Cors {
//@ fn src/core/blueprint/cors.rs :: impl TryFrom<config::cors::Cors> for Cors :: fn try_from vis=pub
//@   opt /ValidationError<crate::core::blueprint::BlueprintError>/ => Error
//@   opt /config::cors::Cors/ => CorsConfig
//@   opt /(?s)\s*\.map_err\(\|e: InvalidHeaderValue\| ValidationError::new\(e\.into\(\)\)\)/ => 
//@   opt /(?s)"\*"\s*\.parse\(\)/ => value_of_("*")
//@   opt /(?s)\(!value\.allow_headers\.is_empty\(\)\)\s*\.then_some\(/ => then_some_(!value.allow_headers.is_empty(), 
//@   opt /(?s)value\s*\.allow_methods\s*\.into_iter\(\)\s*\.map\(\|val\| val\.to_string\(\)\)\s*\.collect::<Vec<String>>\(\)\s*\.join\(", "\)\s*\.parse\(\)/ => string_value_(&commas_(&value.allow_methods.into_it_().map(|val| val.text_()).vec_()))
//@   opt /(?s)value\s*\.(\w+)\s*\.join\(", "\)\s*\.parse\(\)/ => string_value_(&commas_(&value.\1))
//@   opt /(?s)value\s*\.allow_origins\s*\.into_iter\(\)\s*\.map\((.*?)\)\s*\.collect::<Result<_, Error>>\(\)/ => all_read_(&value.allow_origins, \1)
//@   opt /(?s)value\s*\.vary\s*\.iter\(\)\s*\.map\((.*?)\)\s*\.collect::<Result<_, Error>>\(\)/ => all_read_(&value.vary, \1)
//@   opt /val\.parse\(\)/ => string_value_(&val)
//@   opt /value\.(\w+)\.unwrap_or_default\(\)/ => or_no_(value.\1)
//@   opt /value\.max_age\.map\(/ => map_(value.max_age, 
//@   opt /val\.into\(\)/ => seconds_(val)
//@   closure /text_/ |val: Verb| -> (o: String) ensures o@ == val@
//@   closure /string_value_/ |val: &String| -> (o: Result<HeaderValue>) ensures match o { Ok(v) => sayable((*val)@) && v@ == (*val)@, Err(_) => !sayable((*val)@) }
//@   closure /seconds_/ |val: usize| -> (o: HeaderValue) ensures o@ == digits(val)
//@   start broadcast use lemma_verbs; proof { lemma_usable(value); }
//@   spec ensures match r { Ok(c) => readable(value) && usable_rules(value) && configured(value, c), Err(_) => !(readable(value) && usable_rules(value)) }
}
} // verus!
}
use m_cors::*;
pub mod m_route {
// Assumed shapes of hyper and async-graphql, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
pub struct Target { pub path: Seq<char>, pub query: Option<Seq<char>> }
#[verifier::external_body] pub struct Uri { _p: () }
impl View for Uri { type V = Target; uninterp spec fn view(&self) -> Target; }
// a path and query as a request line has it
pub uninterp spec fn target_of(t: Seq<char>) -> Option<Target>;
pub open spec fn line(t: Target) -> Seq<char> { match t.query { Some(q) => t.path + "?"@ + q, None => t.path } }
impl Uri {
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == self@.path { unimplemented!() }
    #[verifier::external_body] pub fn query(&self) -> (r: Option<&str>) ensures match r { Some(t) => self@.query == Some(t@), None => self@.query is None } { unimplemented!() }
}
#[verifier::external_body] pub fn uri_(t: &str) -> (r: Result<Uri>) ensures match r { Ok(u) => target_of(t@) == Some(u@), Err(_) => target_of(t@) is None } { unimplemented!() }
pub struct Body { pub bytes: Bytes }
pub struct Bytes { pub v: Vec<u8> }
impl Body { #[verifier::external_body] pub fn empty() -> (r: Body) ensures r.bytes.v@.len() == 0 { unimplemented!() } #[verifier::external_body] pub fn default() -> (r: Body) ensures r.bytes.v@.len() == 0 { unimplemented!() } }
pub uninterp spec fn utf8(t: Seq<char>) -> Seq<u8>;
#[verifier::external_body] pub fn body_(t: &str) -> (r: Body) ensures r.bytes.v@ == utf8(t@) { unimplemented!() }
pub struct Request { pub uri: Uri, pub headers: HeaderMap, pub method: Method, pub body: Body }
pub type Asked = Request;
pub struct Head { pub uri: Uri, pub headers: HeaderMap, pub method: Method }
impl Request {
    pub fn uri(&self) -> (r: &Uri) ensures *r == self.uri { &self.uri }
    pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.headers { &self.headers }
    pub fn method(&self) -> (r: &Method) ensures *r == self.method { &self.method }
    pub fn into_parts(self) -> (r: (Parts, Body)) ensures r.0.headers == self.headers, r.0.method == self.method, r.1 == self.body, r.0.uri == self.uri { (Parts { headers: self.headers, method: self.method, uri: self.uri }, self.body) }
    pub fn from_parts(p: Parts, b: Body) -> (r: Request) ensures r == (Request { uri: p.uri, headers: p.headers, method: p.method, body: b }) { Request { uri: p.uri, headers: p.headers, method: p.method, body: b } }
}
#[verifier::external_body] pub fn read_(b: Body) -> (r: Result<Bytes>) ensures r matches Ok(v) ==> v == b.bytes { unimplemented!() }
pub fn is_options_(m: &Method) -> (r: bool) ensures r == (*m is OPTIONS) { match m { Method::OPTIONS => true, _ => false } }
pub struct Response { pub status: u16, pub headers: HeaderMap, pub body: Body }
impl Response {
    #[verifier::external_body] pub fn new(b: Body) -> (r: Response) ensures r.status == 200, r.headers@ == Map::<Seq<char>, Seq<Seq<char>>>::empty(), r.body == b { unimplemented!() }
    #[verifier::external_body] pub fn made_(status: u16, b: Body) -> (r: Result<Response>) ensures r is Ok, r->Ok_0.status == status, r->Ok_0.headers@ == Map::<Seq<char>, Seq<Seq<char>>>::empty(), r->Ok_0.body == b { unimplemented!() }
    #[verifier::external_body] pub fn json_(status: u16, b: Body) -> (r: Result<Response>) ensures r is Ok, r->Ok_0.status == status, r->Ok_0.headers@ == Map::<Seq<char>, Seq<Seq<char>>>::empty().insert("content-type"@, seq!["application/json"@]), r->Ok_0.body == b { unimplemented!() }
    pub fn headers_mut(&mut self) -> (r: &mut HeaderMap) ensures *r == old(self).headers, *final(self) == (Response { headers: *final(r), ..*old(self) }) { &mut self.headers }
    pub fn set_headers_(&mut self, h: HeaderMap) ensures *final(self) == (Response { headers: h, ..*old(self) }) { self.headers = h; }
}
// ---- text
#[verifier::external_body] pub fn eq_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn strip_<'a>(a: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(t) => p@.len() <= a@.len() && a@.take(p@.len() as int) == p@ && t@ == a@.skip(p@.len() as int), None => !(p@.len() <= a@.len() && a@.take(p@.len() as int) == p@) } { unimplemented!() }
#[verifier::external_body] pub fn starts_(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn with_query_(a: &str, q: &str) -> (r: String) ensures r@ == a@ + "?"@ + q@ { unimplemented!() }
#[verifier::external_body] pub fn or_str_<'a>(a: Option<&'a str>, b: &'a str) -> (r: &'a str) ensures r@ == (match a { Some(x) => x@, None => b@ }) { unimplemented!() }
// ---- the server
pub struct AppContext { pub blueprint: Blueprint, pub endpoints: Endpoints, pub schema: Schema, pub runtime: TargetRuntime, pub rest: Rest }
pub struct Blueprint { pub server: Server, pub upstream: Upstream, pub telemetry: Telemetry }
pub struct Telemetry { pub export: Option<TelemetryExporter> }
pub enum TelemetryExporter { Stdout, Otlp, Prometheus(PrometheusExporter), Apollo }
pub struct PrometheusExporter { pub path: String, pub rest: Rest }
pub struct Upstream { pub allowed_headers: Names, pub rest: Rest }
pub struct Server { pub routes: Routes, pub cors: Option<Cors>, pub response_headers: HeaderMap, pub enable_cache_control_header: bool, pub enable_showcase: bool, pub settings: Settings }
#[verifier::external_body] pub struct Rest { _p: () }
#[verifier::external_body] pub struct Names { _p: () }
#[verifier::external_body] pub struct Endpoints { _p: () }
#[verifier::external_body] pub struct Schema { _p: () }
#[verifier::external_body] pub struct TargetRuntime { _p: () }
#[verifier::external_body] pub struct RequestCounter { _p: () }
impl TargetRuntime { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl RequestCounter { #[verifier::external_body] pub fn set_http_route(&mut self, t: &str) { unimplemented!() } }
pub struct Routes { pub status_: String, pub graphql_: String }
impl Routes { pub fn status(&self) -> (r: &String) ensures *r == self.status_ { &self.status_ } pub fn graphql(&self) -> (r: &String) ensures *r == self.graphql_ { &self.graphql_ } }
// ---- what is asked of the engine, and what it answers
pub trait DeserializeOwned { }
pub trait GraphQLRequestLike: Sized { fn operation_id(&self, h: &HeaderMap) -> (r: OperationId) ensures r == id_of(*self, h@); }
#[verifier::external_body] pub struct OperationId { _p: () }
// under contract in C29's unit
pub uninterp spec fn id_of<T>(t: T, h: Held) -> OperationId;
// a request as JSON
pub uninterp spec fn read_as<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body] pub fn parse_<T>(b: &Bytes) -> (r: Result<T>) ensures match r { Ok(t) => read_as::<T>(b.v@) == Some(t), Err(_) => read_as::<T>(b.v@) is None } { unimplemented!() }
pub uninterp spec fn json_text(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn query_json(t: Seq<char>) -> Seq<u8>;
#[verifier::external_body] pub fn text_of_(b: &Bytes) -> (r: Result<String>) ensures match r { Ok(t) => json_text(b.v@) == Some(t@), Err(_) => json_text(b.v@) is None } { unimplemented!() }
#[verifier::external_body] pub fn lossy_(b: &Bytes) -> (r: String) ensures r@ == lossy(b.v@) { unimplemented!() }
#[verifier::external_body] pub fn or_<F: Fn(Error) -> String>(o: Result<String>, f: F) -> (r: String) requires forall|e: Error| #[trigger] f.requires((e,)) ensures match o { Ok(t) => r == t, Err(e) => f.ensures((e,), r) } { unimplemented!() }
#[verifier::external_body] pub fn query_json_(t: &String) -> (r: Result<Bytes>) ensures r matches Ok(b) ==> b.v@ == query_json(t@) { unimplemented!() }
// what the client passes on (under contract in the unit upstream_request)
pub uninterp spec fn passing(h: HeaderMap, n: Names) -> Held;
#[verifier::external_body] pub fn create_allowed_headers(h: &HeaderMap, n: &Names) -> (r: HeaderMap) ensures r@ == passing(*h, *n) { unimplemented!() }
// the context of a request, as it is before anything is answered for it
pub uninterp spec fn fresh(app: AppContext, allowed: Held) -> RequestContext;
// an answer of the engine to a request, with what it leaves in the context
pub uninterp spec fn ran<T>(app: AppContext, t: T, id: OperationId, before: RequestContext, after: RequestContext, out: JITBatchResponse) -> bool;
#[verifier::external_body] pub fn run_<T>(app: &AppContext, t: T, id: OperationId, c: &mut RequestContext) -> (r: GraphQLArcResponse) ensures ran(*app, t, id, *old(c), *final(c), r.response), r.cache_control is None, same_settings(*old(c), *final(c)) { unimplemented!() }
// what is set up for a request stays, while it's answered
pub open spec fn same_settings(a: RequestContext, b: RequestContext) -> bool { a.server == b.server }
#[verifier::external_body] pub struct Partial { _p: () }
#[verifier::external_body] pub struct GraphQLRequest { _p: () }
#[verifier::external_body] pub struct GraphQLResponse { _p: () }
// under contract in C08's units
pub uninterp spec fn matched(e: Endpoints, t: Target, m: Method) -> Option<Partial>;
pub uninterp spec fn full(p: Partial, b: Body) -> Option<GraphQLRequest>;
impl Endpoints { #[verifier::external_body] pub fn matches(&self, q: &Request) -> (r: Option<Partial>) ensures r == matched(*self, q.uri@, q.method) { unimplemented!() } }
impl Partial { #[verifier::external_body] pub fn into_request(self, q: Request) -> (r: Result<GraphQLRequest>) ensures match r { Ok(g) => full(self, q.body) == Some(g), Err(_) => full(self, q.body) is None } { unimplemented!() } }
pub uninterp spec fn ran_rest(app: AppContext, t: GraphQLRequest, before: RequestContext, after: RequestContext, out: GraphQLResponse) -> bool;
#[verifier::external_body] pub fn run_rest_(app: &AppContext, t: GraphQLRequest, c: &mut RequestContext) -> (r: GraphQLResponse) ensures ran_rest(*app, t, *old(c), *final(c), r), same_settings(*old(c), *final(c)) { unimplemented!() }
pub uninterp spec fn with_caching(out: GraphQLResponse, on: bool, age: i32, public: bool) -> GraphQLResponse;
pub uninterp spec fn rest_reply(out: GraphQLResponse) -> Option<Response>;
impl GraphQLResponse {
    #[verifier::external_body] pub fn set_cache_control(self, on: bool, age: i32, public: bool) -> (r: Self) ensures r == with_caching(self, on, age, public) { unimplemented!() }
    #[verifier::external_body] pub fn into_rest_response(self) -> (r: Result<Response>) ensures match r { Ok(a) => rest_reply(self) == Some(a), Err(_) => rest_reply(self) is None } { unimplemented!() }
}
pub uninterp spec fn refusal(r: Response) -> bool;
#[verifier::external_body] pub fn refused_(e: &Error) -> (r: Result<Response>) ensures r matches Ok(a) ==> refusal(a) { unimplemented!() }
pub uninterp spec fn metrics(p: PrometheusExporter, r: Response) -> bool;
#[verifier::external_body] pub fn prometheus_metrics(p: &PrometheusExporter) -> (r: Result<Response>) ensures r matches Ok(a) ==> metrics(*p, a) { unimplemented!() }
pub uninterp spec fn showcased<T>(u: Target, t: TargetRuntime, fs: bool, r: core::result::Result<AppContext, Response>) -> bool;
#[verifier::external_body] pub fn showcase_<T>(q: &Request, t: TargetRuntime, fs: bool) -> (r: Result<core::result::Result<AppContext, Response>>) ensures r matches Ok(a) ==> showcased::<T>(q.uri@, t, fs, a) { unimplemented!() }
#[verifier::external_body] pub fn counter_() -> RequestCounter { unimplemented!() }
#[verifier::external_body] pub fn fold_<B, F: Fn(B, &AnyResponse) -> B>(v: &Vec<AnyResponse>, init: B, f: F) -> (r: B) requires forall|b: B, t: &AnyResponse| #[trigger] f.requires((b, t)) ensures exists|a: Seq<B>| #[trigger] path_of(v@, a) && folded(f, v@, init, a) && r == a.last() { unimplemented!() }
pub open spec fn path_of<B>(s: Seq<AnyResponse>, a: Seq<B>) -> bool { a.len() == s.len() + 1 }
pub open spec fn folded<B, F: Fn(B, &AnyResponse) -> B>(f: F, s: Seq<AnyResponse>, init: B, a: Seq<B>) -> bool { a.len() == s.len() + 1 && a[0] == init && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> f.ensures((a[i], &s[i]), a[i + 1]) }
#[verifier::external_body] pub fn some_and_<'a, F: Fn(&'a str) -> bool>(o: Option<&'a str>, f: F) -> (r: bool) requires o is Some ==> f.requires((o->0,)) ensures match o { Some(t) => f.ensures((t,), r), None => !r } { unimplemented!() }
#[verifier::external_body] pub fn all_<F: Fn(&AnyResponse) -> bool>(v: &Vec<AnyResponse>, f: F) -> (r: bool) requires forall|t: &AnyResponse| #[trigger] f.requires((t,)) ensures r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), true), !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), false) { unimplemented!() }
pub enum JITBatchResponse { Single(AnyResponse), Batch(Vec<AnyResponse>) }
pub struct AnyResponse { pub body: Bytes, pub cache_control: CacheControl, pub is_ok: bool }
//@ text src/core/async_graphql_hyper.rs /pub struct GraphQLArcResponse\{response:JITBatchResponse<Vec<u8>>,cache_control:Option<CacheControl>,?\}/
pub struct GraphQLArcResponse { pub response: JITBatchResponse, pub cache_control: Option<CacheControl> }
} // verus!
}
use m_route::*;
//@ rewrite /&Arc<AppContext>/ => &AppContext
//@ rewrite /&Arc<RequestContext>/ => &mut RequestContext
//@ rewrite /: Arc<AppContext>/ => : AppContext
//@ rewrite /Response<Body>/ => Response
//@ rewrite /Request<Body>/ => Request
//@ rewrite /anyhow::Result/ => Result
//@ rewrite /Arc::new\(create_request_context\(([^()]*(?:\(\)[^()]*)*)\)\)/ => create_request_context(\1)
//@ rewrite /let req_ctx = create_request_context/ => let mut req_ctx = create_request_context
pub mod m_reply {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
// ---- the reply of an answer
pub open spec fn fine(b: JITBatchResponse) -> bool { match b { JITBatchResponse::Single(s) => s.is_ok, JITBatchResponse::Batch(v) => forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).is_ok } }
pub open spec fn one(r: AnyResponse, c: Option<CacheControl>) -> CacheControl { match c { Some(x) => x, None => r.cache_control } }
pub open spec fn merged(a: CacheControl, b: CacheControl) -> CacheControl { CacheControl { public: a.public && b.public, max_age: joint_age(a.max_age, b.max_age) } }
pub open spec fn merged_all(v: Seq<AnyResponse>, c: Option<CacheControl>) -> CacheControl decreases v.len() { if v.len() == 0 { CacheControl { public: true, max_age: 0 } } else { merged(merged_all(v.drop_last(), c), one(v.last(), c)) } }
pub open spec fn cached(b: JITBatchResponse, c: Option<CacheControl>) -> CacheControl { match b { JITBatchResponse::Single(s) => one(s, c), JITBatchResponse::Batch(v) => merged_all(v@, c) } }
pub open spec fn opt_cc(c: Option<&CacheControl>) -> Option<CacheControl> { match c { Some(x) => Some(*x), None => None } }
pub open spec fn steps(v: Seq<AnyResponse>, c: Option<CacheControl>, a: Seq<CacheControl>) -> bool { a.len() == v.len() + 1 && a[0] == (CacheControl { public: true, max_age: 0 }) && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> a[i + 1] == merged(a[i], one(v[i], c)) }
pub proof fn lemma_steps(v: Seq<AnyResponse>, c: Option<CacheControl>, a: Seq<CacheControl>) requires steps(v, c, a) ensures a.last() == merged_all(v, c) decreases v.len()
{ if v.len() > 0 { let n = v.len() - 1; assert(v[n] == v.last()); assert forall|i: int| #![trigger v.drop_last()[i]] 0 <= i < n implies a.drop_last()[i + 1] == merged(a.drop_last()[i], one(v.drop_last()[i], c)) by { assert(v[i] == v.drop_last()[i]); } lemma_steps(v.drop_last(), c, a.drop_last()); assert(a.drop_last().last() == a[n]); } }
pub proof fn lemma_folds(v: Seq<AnyResponse>, c: Option<CacheControl>) ensures forall|a: Seq<CacheControl>| #[trigger] path_of(v, a) ==> (steps(v, c, a) ==> a.last() == merged_all(v, c))
{ assert forall|a: Seq<CacheControl>| #[trigger] path_of(v, a) implies (steps(v, c, a) ==> a.last() == merged_all(v, c)) by { if steps(v, c, a) { lemma_steps(v, c, a); } } }
impl JITBatchResponse {
//@ fn src/core/jit/response.rs :: impl<Body> BatchResponse<Body> :: fn is_ok
//@   opt /BatchResponse::/ => JITBatchResponse::
//@   opt /b\.iter\(\)\.all\(/ => all_(b, 
//@   closure 1 |$0: &AnyResponse| -> (o: bool) ensures o == $0.is_ok
//@   spec ensures r == fine(*self)
//@ fn src/core/jit/response.rs :: impl<Body> BatchResponse<Body> :: fn cache_control
//@   opt /BatchResponse::/ => JITBatchResponse::
//@   opt /cache_control\.unwrap_or\(&resp\.cache_control\)\.clone\(\)/ => or_cc_(cache_control, &resp.cache_control)
//@   opt /responses\.iter\(\)\.fold\(/ => fold_(responses, 
//@   closure 1 |$0: CacheControl, $1: &AnyResponse| -> (o: CacheControl) ensures o == merged($0, one(*$1, opt_cc(cache_control)))
//@   start proof { if let JITBatchResponse::Batch(v) = self { lemma_folds(v@, opt_cc(cache_control)); } }
//@   spec ensures r == cached(*self, opt_cc(cache_control))
}
pub fn or_cc_(c: Option<&CacheControl>, d: &CacheControl) -> (r: CacheControl) ensures r == (match c { Some(x) => *x, None => *d }) { match c { Some(x) => x.clone_(), None => d.clone_() } }
pub uninterp spec fn body_of(b: JITBatchResponse) -> Body;
pub open spec fn reply_headers(b: JITBatchResponse, c: Option<CacheControl>) -> Held { let h = Map::<Seq<char>, Seq<Seq<char>>>::empty().insert("content-type"@, seq!["application/json"@]); let t = caching(cached(b, c)); if fine(b) && t.len() > 0 { h.insert("cache-control"@, seq![t]) } else { h } }
impl GraphQLArcResponse {
    #[verifier::external_body] pub fn default_body(&self) -> (r: Result<Body>) ensures r matches Ok(b) ==> b == body_of(self.response) { unimplemented!() }
//@ fn src/core/async_graphql_hyper.rs :: impl GraphQLArcResponse :: fn set_cache_control
//@   opt /enable_cache_header\.then_some\(/ => then_some_(enable_cache_header, 
//@   spec ensures r.response == self.response, r.cache_control == (if enable_cache_header { Some(CacheControl { max_age: max_age, public: public }) } else { None })
//@ fn src/core/async_graphql_hyper.rs :: impl GraphQLArcResponse :: fn build_response vis=pub
//@   opt /status: StatusCode/ => status: u16
//@   opt /(?s)Response::builder\(\)\s*\.status\(status\)\s*\.header\(CONTENT_TYPE, APPLICATION_JSON\.as_ref\(\)\)\s*\.body\(body\)/ => Response::json_(status, body)
//@   opt /self\.cache_control\.as_ref\(\)/ => as_ref_(&self.cache_control)
//@   opt /insert\(\s*CACHE_CONTROL,/ => insert(&name_("cache-control"),
//@   spec ensures r matches Ok(a) ==> a.status == status && a.body == body && a.headers@ == reply_headers(self.response, self.cache_control)
//@ fn src/core/async_graphql_hyper.rs :: impl GraphQLArcResponse :: fn into_response
//@   opt /hyper::Body/ => Body
//@   opt /Result<Response<Body>>/ => Result<Response>
//@   opt /StatusCode::OK/ => 200
//@   spec ensures r matches Ok(a) ==> a.status == 200 && a.body == body_of(self.response) && a.headers@ == reply_headers(self.response, self.cache_control)
}
pub fn as_ref_(c: &Option<CacheControl>) -> (r: Option<&CacheControl>) ensures opt_cc(r) == *c { match c { Some(x) => Some(x), None => None } }
// ---- on top of it: the server's own headers, the cookies and the chosen headers of the answers it is made from
pub open spec fn final_headers(app: AppContext, c: RequestContext, h: Held) -> Held {
    let a = over(h, app.blueprint.server.response_headers@); let b = match c.cookie_headers { Some(k) => over(a, k@), None => a };
    if c.server.experimental_headers.names().len() > 0 { laid(b, c.x_response_headers.entries(), c.x_response_headers.entries().len() as int) } else { b }
}
//@ fn src/core/http/request_handler.rs :: fn update_response_headers
//@   opt /let cookie_headers = cookie_headers\.lock\(\)\.unwrap\(\);/ => 
//@   opt /cookie_headers\.deref\(\)\.clone\(\)/ => cookie_headers.clone()
//@   start proof { assert(forall|h: Held| #[trigger] over(h, Map::empty()) =~= h); }
//@   spec ensures final(resp).headers@ == final_headers(*app_ctx, *req_ctx, old(resp).headers@), final(resp).status == old(resp).status, final(resp).body == old(resp).body
pub open spec fn caching_of(app: AppContext, c: RequestContext) -> Option<CacheControl> { if app.blueprint.server.enable_cache_control_header { Some(CacheControl { max_age: match c.min_max_age { Some(n) => n, None => 0 }, public: match c.cache_public { Some(p) => p, None => true } }) } else { None } }
pub open spec fn replied(app: AppContext, c: RequestContext, out: JITBatchResponse, a: Response) -> bool { a.status == 200 && a.body == body_of(out) && a.headers@ == final_headers(app, c, reply_headers(out, caching_of(app, c))) }
pub open spec fn executed<T>(app: AppContext, t: T, h: Held, before: RequestContext, a: Response) -> bool { exists|after: RequestContext, out: JITBatchResponse| #[trigger] ran(app, t, id_of(t, h), before, after, out) && replied(app, after, out, a) }
//@ fn src/core/http/request_handler.rs :: fn execute_query async=drop vis=pub
//@   opt /let exec = JITExecutor::new\(app_ctx\.clone\(\), req_ctx\.clone\(\), operation_id\);/ => let exec = operation_id;
//@   opt /request\s*\.execute_with_jit\(exec\)/ => run_(app_ctx, request, exec, req_ctx)
//@   tail proof { if ret_ is Ok { assert(exists|out: JITBatchResponse| #[trigger] ran(*app_ctx, request, id_of(request, req.headers@), *old(req_ctx), *req_ctx, out) && replied(*app_ctx, *req_ctx, out, ret_->Ok_0)); } }
//@   spec ensures r matches Ok(a) ==> executed(*app_ctx, request, req.headers@, *old(req_ctx), a)
//@ fn src/core/http/request_handler.rs :: fn create_request_context vis=pub
//@   opt /RequestContext::from\(app_ctx\)\.allowed_headers\(allowed_headers\)/ => context_(app_ctx, allowed_headers)
//@   spec ensures r == fresh(*app_ctx, passing(req.headers, app_ctx.blueprint.upstream.allowed_headers))
#[verifier::external_body] pub fn context_(app: &AppContext, allowed: HeaderMap) -> (r: RequestContext) ensures r == fresh(*app, allowed@) { unimplemented!() }
pub open spec fn asked_bytes(q: Request) -> Seq<u8> { let b = q.body.bytes.v@; if q.headers@.contains_key("content-type"@) && q.headers@["content-type"@][0] == "application/graphql"@ { query_json(match json_text(b) { Some(t) => t, None => lossy(b) }) } else { b } }
pub open spec fn graphql_served<T>(app: AppContext, q: Request, a: Response) -> bool { match read_as::<T>(asked_bytes(q)) { Some(t) => executed(app, t, q.headers@, fresh(app, passing(q.headers, app.blueprint.upstream.allowed_headers)), a), None => refusal(a) } }
//@ fn src/core/http/request_handler.rs :: fn graphql_request async=drop
//@   opt /&req_ctx, request/ => &mut req_ctx, request
//@   opt /hyper::body::to_bytes\(body\)/ => read_(body)
//@   opt /(?s)req\.headers\.get\("content-type"\)\s*== Some\(&HeaderValue::from_str\("application\/graphql"\)\?\)/ => header_is_(&req.headers, "content-type", "application/graphql")
//@   opt /(?s)serde_json::from_slice::<String>\(&bytes\)\s*\.unwrap_or_else\(/ => or_(text_of_(&bytes), 
//@   opt /String::from_utf8_lossy\(&bytes\)\.into_owned\(\)/ => lossy_(&bytes)
//@   closure 1 |e_: Error| -> (s: String) ensures s@ == lossy(bytes.v@)
//@   opt /Bytes::from\(serde_json::to_vec\(&serde_json::json!\(\{ "query": query \}\)\)\?\)/ => query_json_(&query)?
//@   opt /serde_json::from_slice::<T>/ => parse_::<T>
//@   opt /(?s)tracing::error!\(.*?\);/ => 
//@   opt /(?s)let mut response = async_graphql::Response::default\(\);\s*let server_error =.*?;\s*response\.errors = vec!\[server_error\];/ => 
//@   opt /GraphQLResponse::from\(response\)\.into_response\(\)/ => refused_(&err)
//@   spec ensures r matches Ok(a) ==> graphql_served::<T>(*app_ctx, req, a)
} // verus!
}
pub use m_reply::*;
pub mod m_serve {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
// ---- what is served at an address
//@ text src/core/http/request_handler.rs /API_URL_PREFIX:&str="\/api"/
//@ text src/core/http/mod.rs /TAILCALL_HTTPS_ORIGIN:HeaderValue=HeaderValue::from_static\("https:\/\/tailcall\.run"\)/
//@ text src/core/http/mod.rs /TAILCALL_HTTP_ORIGIN:HeaderValue=HeaderValue::from_static\("http:\/\/tailcall\.run"\)/
pub open spec fn api(p: Seq<char>) -> bool { p.len() > 4 && p.take(4) == "/api"@ && p[4] == '/' }
pub open spec fn below(p: Seq<char>) -> Seq<char> { if p.len() >= 4 && p.take(4) == "/api"@ { p.skip(4) } else { p } }
pub open spec fn nothing(a: Response) -> bool { a.status == 404 && a.headers@ == Map::<Seq<char>, Seq<Seq<char>>>::empty() && a.body.bytes.v@.len() == 0 }
//@ fn src/core/http/request_handler.rs :: fn not_found vis=pub
//@   opt /(?s)Response::builder\(\)\s*\.status\(StatusCode::NOT_FOUND\)\s*\.body\(Body::empty\(\)\)/ => Response::made_(404, Body::empty())
//@   spec ensures r is Ok && nothing(r->Ok_0)
//@ fn src/core/http/request_handler.rs :: fn is_api_path vis=pub
//@   opt /(?s)path\.strip_prefix\(API_URL_PREFIX\)\s*\.is_some_and\(/ => some_and_(strip_(path, "/api"), 
//@   opt /rest\.starts_with\('\/'\)/ => starts_(rest, '/')
//@   closure 1 |$0: &str| -> (o: bool) ensures o == ($0@.len() > 0 && $0@[0] == '/')
//@   start proof { reveal_strlit("/api"); }
//@   spec ensures r == api(path@)
//@ fn src/core/http/request_handler.rs :: fn strip_api_prefix vis=pub
//@   opt /path\.strip_prefix\(API_URL_PREFIX\)\.unwrap_or\(path\)/ => or_str_(strip_(path, "/api"), path)
//@   opt /format!\("\{path\}\?\{query\}"\)/ => with_query_(path, query)
//@   opt /path\.to_string\(\)/ => text_(path)
//@   start proof { reveal_strlit("/api"); }
//@   spec ensures r@ == line(Target { path: below(uri@.path), query: uri@.query })
// an endpoint is found by the path below /api, with the query
pub open spec fn rest_target(q: Request) -> Option<Target> { target_of(line(Target { path: below(q.uri@.path), query: q.uri@.query })) }
pub open spec fn rest_ran(app: AppContext, g: GraphQLRequest, before: RequestContext, a: Response) -> bool { exists|after: RequestContext, out: GraphQLResponse| #[trigger] ran_rest(app, g, before, after, out) && { let d = rest_reply(with_caching(out, app.blueprint.server.enable_cache_control_header, match after.min_max_age { Some(n) => n, None => 0 }, match after.cache_public { Some(p) => p, None => true })); d is Some && a.status == d->0.status && a.body == d->0.body && a.headers@ == final_headers(app, after, d->0.headers@) } }
pub open spec fn rest_served(app: AppContext, q: Request, a: Response) -> bool { rest_target(q) is Some && match matched(app.endpoints, rest_target(q)->0, q.method) { Some(p) => full(p, q.body) is Some && rest_ran(app, full(p, q.body)->0, fresh(app, passing(q.headers, app.blueprint.upstream.allowed_headers)), a), None => nothing(a) } }
//@ fn src/core/http/request_handler.rs :: fn handle_rest_apis async=drop vis=pub
//@   opt /\*request\.uri_mut\(\) = (strip_api_prefix\(request\.uri\(\)\))\.parse\(\)\?;/ => let uri = uri_(\1.as_str())?; request.uri = uri;
//@   opt /create_request_context\(&request, app_ctx\.as_ref\(\)\)/ => create_request_context(&request, &app_ctx)
//@   opt /(?s)let http_route = format!\([^;]*\);/ => 
//@   opt /req_counter\.set_http_route\(&http_route\);/ => 
//@   opt /(?s)let span = tracing::info_span!\(.*?\n\s*\);/ => 
//@   opt /return async \{/ => return {
//@   opt /(?s)\}\s*\.instrument\(span\)\s*\.await;/ => };
//@   opt /(?s)\}\s*\.instrument\(span\)\s*;/ => };
//@   opt /(?s)graphql_request\s*\.data\(req_ctx\.clone\(\)\)\s*\.execute\(&app_ctx\.schema\)/ => run_rest_(&app_ctx, graphql_request, &mut req_ctx)
//@   spec ensures r matches Ok(a) ==> rest_served(app_ctx, request, a)
pub open spec fn showcase<T>(app: AppContext, q: Request, a: Response) -> bool { exists|x: core::result::Result<AppContext, Response>| #[trigger] showcased::<T>(q.uri@, app.runtime, false, x) && match x { Ok(other) => graphql_served::<T>(other, q, a), Err(e) => a == e } }
pub open spec fn ready(a: Response) -> bool { a.status == 200 && a.headers@ == Map::<Seq<char>, Seq<Seq<char>>>::empty().insert("content-type"@, seq!["application/json"@]) && a.body == ready_body() }
pub uninterp spec fn ready_body() -> Body;
#[verifier::external_body] pub fn ready_() -> (r: Body) ensures r == ready_body() { unimplemented!() }
pub open spec fn served<T>(app: AppContext, q: Request, a: Response) -> bool {
    let s = app.blueprint.server; let p = q.uri@.path;
    if api(p) { rest_served(app, q, a) } else { match q.method {
        Method::POST => if p == s.routes.graphql_@ { graphql_served::<T>(app, q, a) } else if s.enable_showcase && p == "/showcase/graphql"@ { showcase::<T>(app, q, a) } else { nothing(a) },
        Method::GET => if p == s.routes.status_@ { ready(a) } else { match app.blueprint.telemetry.export { Some(TelemetryExporter::Prometheus(x)) => if p == x.path@ { metrics(x, a) } else { nothing(a) }, _ => nothing(a) } },
        _ => nothing(a),
    } }
}
//@ fn src/core/http/request_handler.rs :: fn handle_request_inner async=drop vis=pub
//@   opt /req\.uri\(\)\.path\(\) == (\w+_endpoint)\b/ => eq_(req.uri().path(), \1.as_str())
//@   opt /req\.uri\(\)\.path\(\) == ("[^"]*")/ => eq_(req.uri().path(), \1)
//@   opt /req\.uri\(\)\.path\(\) == prometheus\.path/ => eq_(req.uri().path(), prometheus.path.as_str())
//@   opt /showcase::create_app_ctx::<T>/ => showcase_::<T>
//@   opt /graphql_request::<T>\(req, &Arc::new\(app_ctx\), req_counter\)/ => graphql_request::<T>(req, &app_ctx, req_counter)
//@   opt /(?s)Response::builder\(\)\s*\.status\(StatusCode::OK\)\s*\.header\(CONTENT_TYPE, "application\/json"\)\s*\.body\(Body::from\(r#"\{"message": "ready"\}"#\)\)/ => Response::json_(200, ready_())
//@   spec ensures r matches Ok(a) ==> served::<T>(app_ctx, req, a)
} // verus!
}
pub use m_serve::*;
pub mod m_cross {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
// ---- what a browser is told
pub open spec fn none() -> Held { Map::empty() }
pub open spec fn origin_in(h: Held) -> Option<Seq<char>> { if h.contains_key("origin"@) { Some(h["origin"@][0]) } else { None } }
pub open spec fn shared(c: Cors, q: Request) -> Held { added(added(added(none(), origin_of(c, origin_in(q.headers@))), credentials(c)), private_network(c, q.headers@)) }
pub open spec fn preflight(c: Cors, q: Request, a: Response) -> bool { a.status == 200 && a.body.bytes.v@.len() == 0 && exists|v: Pair| #[trigger] vary_said(c, v) && a.headers@ == added(added(added(added(shared(c, q), v), named("access-control-allow-methods"@, c.allow_methods)), named("access-control-allow-headers"@, c.allow_headers)), named("access-control-max-age"@, c.max_age)) }
pub open spec fn told<T>(app: AppContext, c: Cors, q: Request, a: Response) -> bool { exists|v: Pair, b: Response| #[trigger] vary_said(c, v) && #[trigger] served::<T>(app, q, b) && a.status == b.status && a.body == b.body && a.headers@ == over(added(b.headers@, v), added(shared(c, q), named("access-control-expose-headers"@, c.expose_headers))) }
pub open spec fn crossed<T>(app: AppContext, q: Request, a: Response) -> bool { let c = app.blueprint.server.cors->0; if q.method is OPTIONS { preflight(c, q, a) } else { told::<T>(app, c, q, a) } }
// an origin that isn't let in is not told that it is
pub proof fn lemma_not_let_in(c: Cors, q: Request) requires origin_of(c, origin_in(q.headers@)) is None ensures !shared(c, q).contains_key("access-control-allow-origin"@)
{ reveal_strlit("access-control-allow-origin"); reveal_strlit("access-control-allow-credentials"); reveal_strlit("access-control-allow-private-network"); assert("access-control-allow-origin"@.len() != "access-control-allow-credentials"@.len()); assert("access-control-allow-origin"@.len() != "access-control-allow-private-network"@.len()); }
pub proof fn lemma_names() ensures "access-control-allow-origin"@ != "vary"@, "access-control-allow-credentials"@ != "vary"@, "access-control-allow-private-network"@ != "vary"@, "access-control-expose-headers"@ != "vary"@
{ reveal_strlit("vary"); reveal_strlit("access-control-allow-origin"); reveal_strlit("access-control-allow-credentials"); reveal_strlit("access-control-allow-private-network"); reveal_strlit("access-control-expose-headers"); assert("vary"@.len() == 4); assert("access-control-allow-origin"@.len() > 4); assert("access-control-allow-credentials"@.len() > 4); assert("access-control-allow-private-network"@.len() > 4); assert("access-control-expose-headers"@.len() > 4); }
pub proof fn lemma_vary(s: Held, v: Pair, e: Pair) requires !s.contains_key("vary"@), v matches Some((k, _)) ==> k == "vary"@, e matches Some((k, _)) ==> k != "vary"@
    ensures added(added(s, v), e).remove("vary"@) =~= added(s, e), v is None ==> !added(added(s, v), e).contains_key("vary"@), v is Some ==> added(added(s, v), e).contains_key("vary"@) && added(added(s, v), e)["vary"@] == seq![(v->0).1]
{ assert(added(s, e).remove("vary"@) =~= added(s, e)); }
pub open spec fn varied(s: Held, v: Pair, e: Pair) -> bool { !s.contains_key("vary"@) && (v matches Some((k, _)) ==> k == "vary"@) && (e matches Some((k, _)) ==> k != "vary"@) }
pub proof fn lemma_vary_all() ensures forall|s: Held, v: Pair, e: Pair| #![trigger added(added(s, v), e)] varied(s, v, e) ==> added(added(s, v), e).remove("vary"@) == added(s, e) && (v is None ==> !added(added(s, v), e).contains_key("vary"@)) && (v is Some ==> added(added(s, v), e).contains_key("vary"@) && added(added(s, v), e)["vary"@] == seq![(v->0).1])
{ assert forall|s: Held, v: Pair, e: Pair| #![trigger added(added(s, v), e)] varied(s, v, e) implies added(added(s, v), e).remove("vary"@) == added(s, e) && (v is None ==> !added(added(s, v), e).contains_key("vary"@)) && (v is Some ==> added(added(s, v), e).contains_key("vary"@) && added(added(s, v), e)["vary"@] == seq![(v->0).1]) by { lemma_vary(s, v, e); } }
//@ fn src/core/http/request_handler.rs :: fn handle_request_with_cors async=drop vis=pub
//@   opt /parts\.headers\.get\(&header::ORIGIN\)/ => parts.headers.get(&name_("origin"))
//@   opt /headers\.extend\(cors\./ => headers.add_(cors.
//@   opt /parts\.method == Method::OPTIONS/ => is_options_(&parts.method)
//@   opt /std::mem::swap\(response\.headers_mut\(\), &mut headers\);/ => response.set_headers_(headers);
//@   opt /headers\.remove\(header::VARY\)/ => headers.take_(&name_("vary"))
//@   opt /response_headers\.append\(header::VARY, vary\)/ => response_headers.append(&name_("vary"), vary)
//@   opt /headers\.drain\(\)/ => headers
//@   start proof { lemma_names(); lemma_vary_all(); }
//@   spec requires app_ctx.blueprint.server.cors is Some ensures r matches Ok(a) ==> crossed::<T>(app_ctx, req, a)
//@ fn src/core/http/request_handler.rs :: fn handle_origin_tailcall async=drop vis=pub
//@   opt /method == Method::OPTIONS/ => is_options_(method)
//@   opt /header::ACCESS_CONTROL_ALLOW_ORIGIN/ => &name_("access-control-allow-origin")
//@   opt /header::ACCESS_CONTROL_ALLOW_METHODS/ => &name_("access-control-allow-methods")
//@   opt /header::ACCESS_CONTROL_ALLOW_HEADERS/ => &name_("access-control-allow-headers")
//@   spec ensures r matches Ok(a) ==> playground::<T>(app_ctx, req, a)
pub open spec fn playground<T>(app: AppContext, q: Request, a: Response) -> bool {
    let o = "access-control-allow-origin"@; let t = seq!["https://tailcall.run"@];
    if q.method is OPTIONS { a.status == 200 && a.body.bytes.v@.len() == 0 && a.headers@ == none().insert(o, t).insert("access-control-allow-methods"@, seq!["GET, POST, OPTIONS"@]).insert("access-control-allow-headers"@, seq!["*"@]) }
    else { exists|b: Response| #[trigger] served::<T>(app, q, b) && a.status == b.status && a.body == b.body && a.headers@ == b.headers@.insert(o, t) }
}
pub open spec fn handled<T>(app: AppContext, q: Request, a: Response) -> bool {
    if app.blueprint.server.cors is Some { crossed::<T>(app, q, a) }
    else if origin_in(q.headers@) == Some("https://tailcall.run"@) || origin_in(q.headers@) == Some("http://tailcall.run"@) { playground::<T>(app, q, a) }
    else { served::<T>(app, q, a) }
}
//@ fn src/core/http/request_handler.rs :: fn handle_request async=drop
//@   opt /telemetry::propagate_context\(&req\);/ => 
//@   opt /RequestCounter::new\(&app_ctx\.blueprint\.telemetry, &req\)/ => counter_()
//@   opt /req\.headers\(\)\.get\(&header::ORIGIN\)/ => req.headers().get(&name_("origin"))
//@   opt /origin == TAILCALL_HTTPS_ORIGIN/ => origin.is_(&HeaderValue::from_static("https://tailcall.run"))
//@   opt /origin == TAILCALL_HTTP_ORIGIN/ => origin.is_(&HeaderValue::from_static("http://tailcall.run"))
//@   opt /req_counter\.update\(&response\);/ => 
//@   opt /(?s)if let Ok\(response\) = &response \{\s*let status = get_response_status_code.*?\n    \};?/ => 
//@   spec ensures r matches Ok(a) ==> handled::<T>(app_ctx, req, a)
} // verus!
}
fn main() {}
