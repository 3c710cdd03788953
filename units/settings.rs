#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
//@ include prelude/string.rs
//@ include prelude/from_str.rs
pub mod num_cpus { use vstd::prelude::*; verus! {
// the number of cores of the machine
pub uninterp spec fn cores() -> usize;
#[verifier::external_body] pub fn get() -> (r: usize) ensures r == cores() { unimplemented!() }
} }
use num_cpus::cores;
pub mod header { use vstd::prelude::*; verus! {
pub struct HeaderName(pub u8);
pub const ORIGIN: HeaderName = HeaderName(0);
pub const ACCESS_CONTROL_REQUEST_METHOD: HeaderName = HeaderName(1);
pub const ACCESS_CONTROL_REQUEST_HEADERS: HeaderName = HeaderName(2);
impl HeaderName { #[verifier::external_body] pub fn to_string(&self) -> (r: String)
    ensures self.0 == 0 ==> r@ == "origin"@, self.0 == 1 ==> r@ == "access-control-request-method"@, self.0 == 2 ==> r@ == "access-control-request-headers"@ { unimplemented!() } }
} }
pub mod m_set { use vstd::prelude::*; verus! {
// a set of texts, sorted
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct BTreeSet<A> { _k: core::marker::PhantomData<A> }
impl View for BTreeSet<String> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
pub broadcast axiom fn axiom_set_ext(a: BTreeSet<String>, b: BTreeSet<String>) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub uninterp spec fn empty_set() -> BTreeSet<String>;
pub broadcast axiom fn axiom_empty_set() ensures (#[trigger] empty_set())@ == Set::<Seq<char>>::empty();
impl BTreeSet<String> { #[verifier::external_body] pub fn new() -> (r: Self) ensures r == empty_set() { unimplemented!() } }
} }
pub use m_set::*;
verus! {
broadcast use {axiom_string_ext, axiom_empty_set};
pub trait Dflt: Sized { spec fn is_dflt(self) -> bool; fn default() -> (r: Self) ensures r.is_dflt(); }
pub trait OptX<T: Dflt> { fn or_default_(self) -> T; }
impl<T: Dflt> OptX<T> for Option<T> { fn or_default_(self) -> (r: T) ensures self is Some ==> r == self->0, self is None ==> r.is_dflt() { match self { Some(x) => x, None => T::default() } } }
impl Dflt for bool { open spec fn is_dflt(self) -> bool { self == false } fn default() -> bool { false } }
impl Dflt for BTreeSet<String> { open spec fn is_dflt(self) -> bool { self == empty_set() } fn default() -> Self { BTreeSet::new() } }
impl<A> Clone for BTreeSet<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// a map between texts; collecting pairs into it keeps each key's last value
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl View for BTreeMap<String, String> { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
pub open spec fn put_all(s: Seq<(String, String)>) -> Map<Seq<char>, Seq<char>> decreases s.len() { if s.len() == 0 { Map::empty() } else { put_all(s.drop_last()).insert(s.last().0@, s.last().1@) } }
pub trait CollectX: Iterator<Item = (String, String)> + Sized { fn collect_map_(self) -> (r: BTreeMap<String, String>) requires self.obeys_prophetic_iter_laws() ensures self.will_return_none(), forall|s: Seq<KeyValue>| #[trigger] text_pairs(s) =~= self.remaining() ==> r@ == put_all(text_pairs(s)); }
impl<I: Iterator<Item = (String, String)>> CollectX for I { #[verifier::external_body] fn collect_map_(self) -> (r: BTreeMap<String, String>) { unimplemented!() } }
pub open spec fn text_pairs(s: Seq<KeyValue>) -> Seq<(String, String)> { s.map_values(|x: KeyValue| (x.key, x.value)) }

#[derive(Clone, Copy)]
//@ item src/core/config/directives/server.rs :: enum HttpVersion
//@ item src/core/config/key_values.rs :: struct KeyValue
impl Clone for KeyValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ item src/core/config/directives/server.rs :: struct ScriptOptions
//@ item src/core/config/directives/server.rs :: struct Routes
impl Clone for Routes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Method { _k: u8 }
//@ item src/core/config/cors.rs :: struct Cors
impl Clone for Cors { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ item src/core/config/headers.rs :: struct Headers
//@ item src/core/config/directives/server.rs :: struct Server
//@ item src/core/config/directives/upstream.rs :: struct Batch
impl Clone for Batch { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ item src/core/config/directives/upstream.rs :: struct Proxy
//@ item src/core/config/directives/upstream.rs :: struct Upstream
//@ item src/core/config/directives/upstream.rs :: const DEFAULT_MAX_SIZE
//@ item src/core/config/directives/discriminate.rs :: struct Discriminate

// ---- what the documentation of the settings says
pub open spec fn or<A>(a: Option<A>, d: A) -> A { match a { Some(x) => x, None => d } }
pub open spec fn or_text(a: Option<String>, d: Seq<char>) -> Seq<char> { match a { Some(x) => x@, None => d } }

//@ rewrite /\.unwrap_or_default\(\)/ => .or_default_()

impl Headers {
//@ fn src/core/config/headers.rs :: impl Headers :: fn enable_cache_control
//@   spec ensures r == or(self.cache_control, false)
//@ fn src/core/config/headers.rs :: impl Headers :: fn set_cookies
//@   spec ensures r == or(self.set_cookies, false)
//@ fn src/core/config/headers.rs :: impl Headers :: fn get_cors
//@   spec ensures r == self.cors
}
impl Dflt for Routes { open spec fn is_dflt(self) -> bool { self.status@ == "/status"@ && self.graphql@ == "/graphql"@ }
//@ fn src/core/config/directives/server.rs :: impl Default for Routes :: fn default vis=none
//@   start proof { reveal_strlit("/status"); reveal_strlit("/graphql"); axiom_from_str("/status"); axiom_from_str("/graphql"); }
}
impl Server {
//@ fn src/core/config/directives/server.rs :: impl Server :: fn enable_apollo_tracing
//@   spec ensures r == or(self.apollo_tracing, false)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_global_response_timeout
//@   spec ensures r == or(self.global_response_timeout, 0)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_workers
//@   spec ensures r == or(self.workers, cores())
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_port
//@   spec ensures r == or(self.port, 8000)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn enable_http_validation
//@   spec ensures r == or(self.response_validation, false)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn enable_cache_control
//@   spec ensures r == (self.headers is Some && or(self.headers->0.cache_control, false))
//@   closure 1 |$0: &Headers| -> (x: bool) ensures x == or($0.cache_control, false)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn enable_set_cookies
//@   spec ensures r == (self.headers is Some && or(self.headers->0.set_cookies, false))
//@   closure 1 |$0: &Headers| -> (x: bool) ensures x == or($0.set_cookies, false)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn enable_introspection
//@   spec ensures r == or(self.introspection, true)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn enable_query_validation
//@   spec ensures r == or(self.query_validation, false)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn enable_batch_requests
//@   spec ensures r == or(self.batch_requests, false)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn enable_showcase
//@   spec ensures r == or(self.showcase, false)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_hostname
//@   spec ensures r@ == or_text(self.hostname, "127.0.0.1"@)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_vars
//@   opt /\.collect(::<[^()]*>)?\(\)/ => .collect_map_()
//@   spec ensures r@ == put_all(text_pairs(self.vars@))
//@   closure 1 |$0: &KeyValue| -> (p: (String, String)) ensures p == ($0.key, $0.value)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_response_headers
//@   tail proof { if self.headers is Some { assert(ret_@ =~= text_pairs(self.headers->0.custom@)); } else { assert(ret_@ =~= Seq::empty()); } }
//@   spec ensures r@ == (if self.headers is Some { text_pairs(self.headers->0.custom@) } else { Seq::empty() })
//@   closure 1 |$0: &Headers| -> (x: Vec<KeyValue>) ensures x@ == $0.custom@
//@   closure 2 |$0: Vec<KeyValue>| -> (x: Vec<(String, String)>) ensures x@.len() == $0@.len(), forall|i: int| 0 <= i < x@.len() ==> #[trigger] x@[i] == ($0@[i].key, $0@[i].value)
//@   closure 3 |$0: &KeyValue| -> (p: (String, String)) ensures p == ($0.key, $0.value)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_experimental_headers
//@   spec ensures r@ == (if self.headers is Some && self.headers->0.experimental is Some { self.headers->0.experimental->0@ } else { Set::empty() })
//@   closure 1 |$0: &Headers| -> (x: BTreeSet<String>) ensures x@ == (if $0.experimental is Some { $0.experimental->0@ } else { Set::empty() })
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_routes
//@   spec ensures self.routes is Some ==> r == self.routes->0, self.routes is None ==> r.status@ == "/status"@ && r.graphql@ == "/graphql"@
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_version
//@   spec ensures r == or(self.version, HttpVersion::HTTP1)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_pipeline_flush
//@   spec ensures r == or(self.pipeline_flush, true)
//@ fn src/core/config/directives/server.rs :: impl Server :: fn get_enable_federation
//@   spec ensures r == or(self.enable_federation, false)
}
impl Dflt for Batch { open spec fn is_dflt(self) -> bool { self.max_size == Some(100usize) && self.delay == 0 && self.headers@ == Set::<Seq<char>>::empty() }
//@ fn src/core/config/directives/upstream.rs :: impl Default for Batch :: fn default vis=none
//@   start proof { broadcast use axiom_empty_set; assert(empty_set()@ == Set::<Seq<char>>::empty()); }
}
impl Upstream {
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_pool_idle_timeout
//@   spec ensures r == or(self.pool_idle_timeout, 60)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_pool_max_idle_per_host
//@   spec ensures r == or(self.pool_max_idle_per_host, 60)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_keep_alive_interval
//@   spec ensures r == or(self.keep_alive_interval, 60)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_keep_alive_timeout
//@   spec ensures r == or(self.keep_alive_timeout, 60)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_keep_alive_while_idle
//@   spec ensures r == or(self.keep_alive_while_idle, false)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_connect_timeout
//@   spec ensures r == or(self.connect_timeout, 60)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_timeout
//@   spec ensures r == or(self.timeout, 60)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_tcp_keep_alive
//@   spec ensures r == or(self.tcp_keep_alive, 5)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_http_cache_size
//@   spec ensures r == or(self.http_cache, 0)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_http_2_only
//@   spec ensures r == or(self.http2_only, false)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_verify_ssl
//@   spec ensures r == or(self.verify_ssl, true)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_user_agent
//@   spec ensures r@ == or_text(self.user_agent, "Tailcall/1.0"@)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_allowed_headers
//@   spec ensures r@ == (if self.allowed_headers is Some { self.allowed_headers->0@ } else { Set::empty() })
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_delay
//@   spec ensures r == (if self.batch is Some { self.batch->0.delay } else { 0 })
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_max_size
//@   spec ensures r == (if self.batch is Some { or(self.batch->0.max_size, 100) } else { 100 })
//@   closure 1 |$0: &Batch| -> (x: usize) ensures x == or($0.max_size, 100)
//@ fn src/core/config/directives/upstream.rs :: impl Upstream :: fn get_on_request
//@   spec ensures r == self.on_request
}
impl Discriminate {
//@ fn src/core/config/directives/discriminate.rs :: impl Discriminate :: fn get_field
//@   spec ensures r@ == or_text(self.field, "type"@)
}
// a text given as anything that turns into one
pub uninterp spec fn text_of<T>(t: T) -> String;
#[verifier::external_body] pub fn into_<T: Into<String>>(t: T) -> (r: String) ensures r == text_of(t) { unimplemented!() }
impl Routes {
//@ fn src/core/config/directives/server.rs :: impl Routes :: fn with_status
//@   opt /\b(\w+)\.into\(\)/ => into_(\1)
//@   spec ensures r.status == text_of(status), r.graphql == self.graphql
//@ fn src/core/config/directives/server.rs :: impl Routes :: fn with_graphql
//@   opt /\b(\w+)\.into\(\)/ => into_(\1)
//@   spec ensures r.graphql == text_of(graphql), r.status == self.status
}
//@ fn src/core/config/directives/server.rs :: fn default_status
//@   start proof { reveal_strlit("/status"); axiom_from_str("/status"); }
//@   spec ensures r@ == "/status"@
//@ fn src/core/config/directives/server.rs :: fn default_graphql
//@   start proof { reveal_strlit("/graphql"); axiom_from_str("/graphql"); }
//@   spec ensures r@ == "/graphql"@
//@ item src/core/mod.rs :: const DEFAULT_VERIFY_SSL
//@ fn src/core/mod.rs :: fn default_verify_ssl
//@   sub /const fn/ => fn
//@   spec ensures r == Some(true)
//@ fn src/core/mod.rs :: fn verify_ssl_is_default
//@   spec ensures r == or(*val, true)
//@ fn src/core/config/cors.rs :: fn preflight_request_headers
//@   spec ensures r@.len() == 3, r@[0]@ == "origin"@, r@[1]@ == "access-control-request-method"@, r@[2]@ == "access-control-request-headers"@
} // verus!
fn main() {}
