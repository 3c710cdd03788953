#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
verus! {
// Values: clones are equal.
pub trait Value: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
pub trait OptRef<V> { fn cloned_(self) -> Option<V>; }
impl<V: Value> OptRef<V> for Option<&V> { fn cloned_(self) -> (r: Option<V>) ensures r == (match self { Some(v) => Some(*v), None => None }) { match self { Some(v) => Some(v.clone()), None => None } } }
// ---- what a caller does to the shared state, in order
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub enum Ev<K, V> {
    // looked for the key: what the table held for it then, its time not being up
    Saw(K, Option<V>),
    // put a value, to stay that many milliseconds
    Put(K, V, int),
    // added to a counter; read a counter
    Added(int, int), Loaded(int, int),
}
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct World<K, V> { pub log: Ghost<Seq<Ev<K, V>>> }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { _p: () }
impl Duration {
    pub uninterp spec fn ms(&self) -> int;
    #[verifier::external_body] pub fn from_millis(n: u64) -> (r: Self) ensures r.ms() == n { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(n: u64) -> (r: Self) ensures r.ms() == 1000 * n { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NonZeroU64 { _p: () }
impl NonZeroU64 { pub uninterp spec fn v(&self) -> u64; #[verifier::external_body] pub fn get(self) -> (r: u64) ensures r == self.v(), r > 0 { unimplemented!() } }
#[derive(Clone, Copy)] pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
// a counter is known by its number; it never comes near the end of the machine's numbers
#[verifier::external_body] pub struct AtomicUsize { _p: () }
impl AtomicUsize {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn start(&self) -> int;
    #[verifier::external_body] pub fn new(n: usize) -> (r: Self) ensures r.start() == n { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add<K, V>(&self, w: &mut World<K, V>, n: usize, o: Ordering) -> (r: usize) ensures final(w).log@ == old(w).log@.push(Ev::Added(self.id(), n as int)) { unimplemented!() }
    #[verifier::external_body] pub fn load<K, V>(&self, w: &mut World<K, V>, o: Ordering) -> (r: usize) ensures r < usize::MAX / 2, final(w).log@ == old(w).log@.push(Ev::Loaded(self.id(), r as int)) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct TtlCache<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<K, V> TtlCache<K, V> {
    pub uninterp spec fn capacity_(&self) -> int;
    pub uninterp spec fn void(&self) -> bool;
    #[verifier::external_body] pub fn new(n: usize) -> (r: Self) ensures r.capacity_() == n, r.void() { unimplemented!() }
    #[verifier::external_body] pub fn get<'a>(&'a self, w: &mut World<K, V>, k: &K) -> (r: Option<&'a V>) ensures final(w).log@ == old(w).log@.push(Ev::Saw(*k, match r { Some(v) => Some(*v), None => None })) { unimplemented!() }
    // a look that is none: presence asked for apart from the value
    #[verifier::external_body] pub fn contains_key(&self, w: &mut World<K, V>, k: &K) -> (r: bool) ensures exists|x: Option<V>| final(w).log@ == old(w).log@.push(Ev::Saw(*k, x)) && r == (x is Some) { unimplemented!() }
    // (through the write lock)
    #[verifier::external_body] pub fn insert(&self, w: &mut World<K, V>, k: K, v: V, d: Duration) -> (r: Option<V>) ensures final(w).log@ == old(w).log@.push(Ev::Put(k, v, d.ms())) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct RwLock<T> { _k: core::marker::PhantomData<T> }
impl<T> RwLock<T> {
    pub uninterp spec fn inner(&self) -> T;
    #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r.inner() == t { unimplemented!() }
    #[verifier::external_body] pub fn read_(&self) -> (r: &T) { unimplemented!() }
    #[verifier::external_body] pub fn write_(&self) -> (r: &T) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Arc<T> { _k: core::marker::PhantomData<T> }
impl<T> Arc<T> {
    pub uninterp spec fn inner(&self) -> T;
    #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r.inner() == t { unimplemented!() }
}
impl<T> Arc<RwLock<T>> {
    #[verifier::external_body] pub fn read_(&self) -> (r: &T) { unimplemented!() }
    #[verifier::external_body] pub fn write_(&self) -> (r: &T) { unimplemented!() }
}
pub type Result<A> = core::result::Result<A, Error>;
#[verifier::external_body] pub struct Error { _p: () }
#[verifier::external_body] pub struct Share { _p: () }
impl Share { pub uninterp spec fn of(&self) -> (int, int); }
// the quotient of two counts as a float
#[verifier::external_body] pub fn ratio_(a: usize, b: usize) -> (r: Share) requires b > 0 ensures r.of() == (a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn drop_<T>(t: T) { unimplemented!() }
// both counts were read, and this is their share
pub open spec fn share<K, V>(h: Ev<K, V>, m: Ev<K, V>, c: &InMemoryCache<K, V>, r: Option<Share>) -> bool {
    h->Loaded_0 == c.hits.id() && m->Loaded_0 == c.miss.id() && (match r { Some(q) => h->Loaded_1 + m->Loaded_1 > 0 && q.of() == (h->Loaded_1, h->Loaded_1 + m->Loaded_1), None => h->Loaded_1 + m->Loaded_1 <= 0 })
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ item src/core/cache/cache.rs :: struct InMemoryCache
//@   opt /K: Hash \+ Eq/ => K
impl<K, V: Value> InMemoryCache<K, V> {
    pub open spec fn empty(&self, room: int) -> bool { self.data.inner().inner().void() && self.data.inner().inner().capacity_() == room && self.hits.start() == 0 && self.miss.start() == 0 }
//@ fn src/core/cache/cache.rs :: impl<K: Hash + Eq, V: Clone> InMemoryCache<K, V> :: fn new
//@   spec ensures r.empty(capacity as int)
//@ fn src/core/cache/cache.rs :: impl<K: Hash + Eq, V: Clone> Default for InMemoryCache<K, V> :: fn default vis=pub
//@   spec ensures r.empty(100000)
//@ fn src/core/cache/cache.rs :: impl<K: Hash + Eq + Send + Sync, V: Clone + Send + Sync> crate::core::Cache for InMemoryCache<K, V> :: fn set async=drop vis=pub
//@   opt /\.(read|write)\(\)\.unwrap\(\)/ => .\1_()
//@   opt /\.insert\(/ => .insert(w, 
//@   sub /ttl: NonZeroU64\) ->/ => ttl: NonZeroU64, w: &mut World<K, V>) ->
//@   spec ensures r is Ok, final(w).log@ == old(w).log@.push(Ev::Put(key, value, ttl.v() as int))
//@ fn src/core/cache/cache.rs :: impl<K: Hash + Eq + Send + Sync, V: Clone + Send + Sync> crate::core::Cache for InMemoryCache<K, V> :: fn get async=drop vis=pub
//@   sub /key: &'a K\) -> Result<Option<Self::Value>>/ => key: &'a K, w: &mut World<K, V>) -> Result<Option<V>>
//@   opt /\.(read|write)\(\)\.unwrap\(\)/ => .\1_()
//@   opt /\.(get|contains_key)\(/ => .\1(w, 
//@   opt /\.fetch_add\(/ => .fetch_add(w, 
//@   opt /\.cloned\(\)/ => .cloned_()
//@   spec ensures match r { Ok(x) => final(w).log@ == old(w).log@.push(Ev::Saw(*key, x)).push(Ev::Added(if x is Some { self.hits.id() } else { self.miss.id() }, 1)), Err(_) => false }
//@ fn src/core/cache/cache.rs :: impl<K: Hash + Eq + Send + Sync, V: Clone + Send + Sync> crate::core::Cache for InMemoryCache<K, V> :: fn hit_rate vis=pub
//@   sub /hit_rate\(&self\) -> Option<f64>/ => hit_rate(&self, w: &mut World<K, V>) -> Option<Share>
//@   opt /\.(read|write)\(\)\.unwrap\(\)/ => .\1_()
//@   opt /\.load\(/ => .load(w, 
//@   opt /\bdrop\(/ => drop_(
//@   opt /\b(\w+) as f64 \/ \((\w+ \+ \w+)\) as f64/ => ratio_(\1, \2)
//@   opt /\b(\w+) as f64 \/ \b(\w+) as f64/ => ratio_(\1, \2)
//@   spec ensures final(w).log@.len() == old(w).log@.len() + 2, forall|i: int| 0 <= i < old(w).log@.len() ==> final(w).log@[i] == old(w).log@[i],
//@   | ({ let x = final(w).log@[final(w).log@.len() - 2]; let y = final(w).log@[final(w).log@.len() - 1]; x is Loaded && y is Loaded && (share(x, y, self, r) || share(y, x, self, r)) })
}
} // verus!
fn main() {}
