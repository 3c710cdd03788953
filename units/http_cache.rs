#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
pub mod m_dep {
// Assumed shapes of http-cache-reqwest, http-cache-semantics and moka, as far as used here.
use vstd::prelude::*;
verus! {
#[verifier::external_body] pub struct HttpResponse { _p: () }
#[verifier::external_body] pub struct CachePolicy { _p: () }
impl HttpResponse { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl CachePolicy { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// what is done to the cache, in order
pub enum Ev<V> { Saw(Seq<char>, Option<V>), Put(Seq<char>, V), Dropped(Seq<char>), Cleared, Settled }
#[verifier::reject_recursive_types(V)]
pub struct World<V> { pub log: Ghost<Seq<Ev<V>>> }
pub trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct Cache<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<V> Cache<String, V> {
    pub uninterp spec fn room(&self) -> int;
    pub uninterp spec fn lru(&self) -> bool;
    #[verifier::external_body] pub fn get<Q: Text + ?Sized>(&self, w: &mut World<V>, k: &Q) -> (r: Option<V>) ensures final(w).log@ == old(w).log@.push(Ev::Saw(k.text(), r)) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: Text + ?Sized>(&self, w: &mut World<V>, k: &Q) -> (r: bool) ensures exists|x: Option<V>| final(w).log@ == old(w).log@.push(Ev::Saw(k.text(), x)) && r == (x is Some) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, w: &mut World<V>, k: String, v: V) ensures final(w).log@ == old(w).log@.push(Ev::Put(k@, v)) { unimplemented!() }
    #[verifier::external_body] pub fn invalidate<Q: Text + ?Sized>(&self, w: &mut World<V>, k: &Q) ensures final(w).log@ == old(w).log@.push(Ev::Dropped(k.text())) { unimplemented!() }
    #[verifier::external_body] pub fn invalidate_all(&self, w: &mut World<V>) ensures final(w).log@ == old(w).log@.push(Ev::Cleared) { unimplemented!() }
    #[verifier::external_body] pub fn run_pending_tasks(&self, w: &mut World<V>) ensures final(w).log@ == old(w).log@.push(Ev::Settled) { unimplemented!() }
    #[verifier::external_body] pub fn builder() -> (r: Builder<V>) ensures r.room() is None, !r.lru() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Builder<V> { _k: core::marker::PhantomData<V> }
#[verifier::external_body] pub struct EvictionPolicy { _p: () }
impl EvictionPolicy { pub uninterp spec fn is_lru(&self) -> bool; #[verifier::external_body] pub fn lru() -> (r: Self) ensures r.is_lru() { unimplemented!() } #[verifier::external_body] pub fn tiny_lfu() -> (r: Self) ensures !r.is_lru() { unimplemented!() } }
impl<V> Builder<V> {
    pub uninterp spec fn room(&self) -> Option<int>;
    pub uninterp spec fn lru(&self) -> bool;
    #[verifier::external_body] pub fn eviction_policy(self, p: EvictionPolicy) -> (r: Self) ensures r.room() == self.room(), r.lru() == p.is_lru() { unimplemented!() }
    #[verifier::external_body] pub fn max_capacity(self, n: u64) -> (r: Self) ensures r.room() == Some(n as int), r.lru() == self.lru() { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Cache<String, V>) ensures self.room() is Some ==> r.room() == self.room()->0, r.lru() == self.lru() { unimplemented!() }
}
#[verifier::external_body] pub struct BoxError { _p: () }
pub type Result<A> = core::result::Result<A, BoxError>;
} // verus!
}
use std::sync::Arc;
use m_dep::*;
verus! {
//@ item tailcall-http-cache/src/cache.rs :: struct HttpCacheManager
//@ item tailcall-http-cache/src/cache.rs :: struct Store
// what was done to the cache itself, apart from letting it settle
pub open spec fn done<V>(l: Seq<Ev<V>>) -> Seq<Ev<V>> decreases l.len() { if l.len() == 0 { l } else if l.last() is Settled { done(l.drop_last()) } else { done(l.drop_last()).push(l.last()) } }
pub broadcast proof fn lemma_done<V>(l: Seq<Ev<V>>, e: Ev<V>) ensures done(#[trigger] l.push(e)) == (if e is Settled { done(l) } else { done(l).push(e) }) { assert(l.push(e).drop_last() =~= l); }
impl HttpCacheManager {
//@ fn tailcall-http-cache/src/cache.rs :: impl HttpCacheManager :: fn new
//@   spec ensures r.cache.room() == cache_size, r.cache.lru()
//@ fn tailcall-http-cache/src/cache.rs :: impl Default for HttpCacheManager :: fn default vis=pub
//@   spec ensures r.cache.room() > 0, r.cache.lru()
//@ fn tailcall-http-cache/src/cache.rs :: impl HttpCacheManager :: fn clear async=drop
//@   sub /clear\(&self\)/ => clear(&self, w: &mut World<Store>)
//@   opt /\.(invalidate_all|run_pending_tasks)\(\)/ => .\1(w)
//@   start broadcast use lemma_done;
//@   spec ensures r is Ok, done(final(w).log@) == done(old(w).log@).push(Ev::Cleared), final(w).log@.last() is Settled
//@ fn tailcall-http-cache/src/cache.rs :: impl CacheManager for HttpCacheManager :: fn get async=drop vis=pub
//@   sub /cache_key: &str\)/ => cache_key: &str, w: &mut World<Store>)
//@   opt /\.(get|contains_key|invalidate)\(/ => .\1(w, 
//@   opt /\.run_pending_tasks\(\)/ => .run_pending_tasks(w)
//@   start broadcast use lemma_done;
//@   spec ensures match r { Ok(x) => exists|s: Option<Store>| done(final(w).log@) == done(old(w).log@).push(Ev::Saw(cache_key@, s)) && x == (match s { Some(s) => Some((s.response, s.policy)), None => None }), Err(_) => false }
//@ fn tailcall-http-cache/src/cache.rs :: impl CacheManager for HttpCacheManager :: fn put async=drop vis=pub
//@   sub /policy: CachePolicy,?\s*\)/ => policy: CachePolicy, w: &mut World<Store>)
//@   opt /\.insert\(/ => .insert(w, 
//@   opt /\.run_pending_tasks\(\)/ => .run_pending_tasks(w)
//@   start broadcast use lemma_done;
//@   spec ensures r is Ok && r->Ok_0 == response, done(final(w).log@) == done(old(w).log@).push(Ev::Put(cache_key@, Store { response, policy })), final(w).log@.last() is Settled
//@ fn tailcall-http-cache/src/cache.rs :: impl CacheManager for HttpCacheManager :: fn delete async=drop vis=pub
//@   sub /cache_key: &str\)/ => cache_key: &str, w: &mut World<Store>)
//@   opt /\.(get|contains_key|invalidate)\(/ => .\1(w, 
//@   opt /\.run_pending_tasks\(\)/ => .run_pending_tasks(w)
//@   start broadcast use lemma_done;
//@   spec ensures r is Ok, done(final(w).log@) == done(old(w).log@).push(Ev::Dropped(cache_key@)), final(w).log@.last() is Settled
}
} // verus!
fn main() {}
