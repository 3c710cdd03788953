#![allow(unused)]
use vstd::prelude::*;
use core::marker::PhantomData;
//@ include prelude/string.rs
verus! {
// Keys, values and errors: equality is equality of values, clones are equal.
pub trait Key: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
pub trait Value: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
// std's HashMap and HashSet
pub struct RandomState;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct HashMap<K, V, S = RandomState> { _k: core::marker::PhantomData<(K, V, S)> }
impl<K, V, S> View for HashMap<K, V, S> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}
impl<K, V, S> HashMap<K, V, S> {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: Entries<'_, K, V>) ensures r.are(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && self@[*k] == *v, None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), match r { Some(x) => old(self)@.contains_key(*k) && old(self)@[*k] == x, None => !old(self)@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn extend<I: Pairs<K, V>>(&mut self, i: I) ensures final(self)@ == old(self)@.union_prefer_right(i.pairs()) { unimplemented!() }
    #[verifier::external_body] pub fn entries_(&self) -> (r: Vec<(&K, &V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1, forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k { unimplemented!() }
}
// the entries of a map, each once, in any order
pub struct Entries<'a, K, V> { pub v: Vec<(&'a K, &'a V)> }
pub struct Made<K, V> { pub v: Vec<(K, V)> }
pub open spec fn entries<K, V>(e: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
}
pub open spec fn pairs_<'a, K, V>(e: Seq<(&'a K, &'a V)>) -> Seq<(K, V)> { e.map_values(|p: (&'a K, &'a V)| (*p.0, *p.1)) }
impl<'a, K, V> Entries<'a, K, V> {
    pub open spec fn are(&self, m: Map<K, V>) -> bool { entries(pairs_(self.v@), m) }
    #[verifier::external_body] pub fn map<F: Fn((&'a K, &'a V)) -> (K, V)>(self, f: F) -> (r: Made<K, V>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> f.requires((#[trigger] self.v@[i],))
        ensures r.v@.len() == self.v@.len(), forall|i: int| 0 <= i < self.v@.len() ==> f.ensures((#[trigger] self.v@[i],), r.v@[i]) { unimplemented!() }
}
impl<K, V> Made<K, V> { #[verifier::external_body] pub fn collect(self) -> (r: HashMap<K, V>) ensures forall|m: Map<K, V>| #[trigger] entries(self.v@, m) ==> r@ == m { unimplemented!() } }
pub fn empty_<'a, K, V>() -> (r: Entries<'a, K, V>) ensures r.are(Map::<K, V>::empty()) { Entries { v: Vec::new() } }
// what can be put into a map at once: another map, or one pair or none
pub trait Pairs<K, V> { spec fn pairs(&self) -> Map<K, V>; }
impl<K, V> Pairs<K, V> for HashMap<K, V> { open spec fn pairs(&self) -> Map<K, V> { self@ } }
impl<K, V> Pairs<K, V> for Option<(K, V)> { open spec fn pairs(&self) -> Map<K, V> { match self { Some(p) => Map::<K, V>::empty().insert(p.0, p.1), None => Map::<K, V>::empty() } } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { _k: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), (r == 0) == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: HashSet<K>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn items_(&self) -> (r: Vec<&K>) ensures r@.map_values(|k: &K| *k).to_set() == self@, r@.no_duplicates() { unimplemented!() }
    // each once, in any order
    #[verifier::external_body] pub fn list_(self) -> (r: Vec<K>) ensures r@.to_set() == self@, r@.no_duplicates() { unimplemented!() }
    #[verifier::external_body] pub fn of_(v: Vec<K>) -> (r: Self) ensures r@ == v@.to_set() { unimplemented!() }
}
impl<K> Clone for HashSet<K> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> { pub open spec fn it(self) -> T { match self { Cow::Borrowed(t) => *t, Cow::Owned(t) => t } } }
impl<'a, T> Cow<'a, T> { #[verifier::external_body] pub fn into_owned(self) -> (r: T) ensures r == self.it() { unimplemented!() } }
// ---- caches and loaders, as this module declares them
pub trait CacheStorage: Sized {
    type Key: Key;
    type Value: Value;
    // what it holds; it may forget, unless it says it never does
    spec fn held(&self) -> Map<Self::Key, Self::Value>;
    spec fn exact(&self) -> bool;
    fn get(&mut self, key: &Self::Key) -> (r: Option<&Self::Value>) ensures final(self).held() == old(self).held(), final(self).exact() == old(self).exact(), match r { Some(v) => old(self).held().contains_key(*key) && old(self).held()[*key] == *v, None => !old(self).held().contains_key(*key) };
    fn insert(&mut self, key: Cow<'_, Self::Key>, val: Cow<'_, Self::Value>) ensures final(self).exact() == old(self).exact(), within(final(self).held(), old(self).held().insert(key.it(), val.it())), old(self).exact() ==> final(self).held() == old(self).held().insert(key.it(), val.it());
    fn remove(&mut self, key: &Self::Key) ensures final(self).exact() == old(self).exact(), final(self).held() == old(self).held().remove(*key);
    fn clear(&mut self) ensures final(self).exact() == old(self).exact(), final(self).held() == Map::<Self::Key, Self::Value>::empty();
    fn iter(&self) -> (r: Entries<'_, Self::Key, Self::Value>) ensures r.are(self.held());
}
pub open spec fn within<K, V>(a: Map<K, V>, b: Map<K, V>) -> bool { forall|k: K| #[trigger] a.contains_key(k) ==> b.contains_key(k) && a[k] == b[k] }
pub trait CacheFactory<K: Key, V: Value> { type Storage: CacheStorage<Key = K, Value = V>; fn create(&self) -> (r: Self::Storage) ensures r.held() == Map::<K, V>::empty(); }
// a loader is asked for a list of keys; what it says is up to it
pub trait Loader<K: Key>: Sized { type Value: Value; type Error: Value; }
// ---- oneshot channels, the timer, the runtime
pub type Ch = int;
pub mod oneshot {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Sender<V> { _k: core::marker::PhantomData<V> }
    #[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Receiver<V> { _k: core::marker::PhantomData<V> }
    impl<V> Sender<V> { pub uninterp spec fn ch(&self) -> int; }
    impl<V> Receiver<V> { pub uninterp spec fn ch(&self) -> int; }
    #[verifier::external_body] pub fn channel<V>() -> (r: (Sender<V>, Receiver<V>)) ensures r.0.ch() == r.1.ch() { unimplemented!() }
    }
}
pub struct Duration { pub millis: u64 }
impl Copy for Duration {}
impl Clone for Duration { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Duration { #[verifier::external_body] pub const fn from_millis(m: u64) -> (r: Self) ensures r.millis == m { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Arc<T> { _k: core::marker::PhantomData<T> }
impl<T> Arc<T> {
    #[verifier::external_body] pub fn get_(&self) -> (r: &T) ensures *r == self.inner() { unimplemented!() }
    pub uninterp spec fn inner(&self) -> T;
    #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r.inner() == t { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Mutex<T> { _k: core::marker::PhantomData<T> }
impl<T> Mutex<T> { pub uninterp spec fn inner(&self) -> T; #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r.inner() == t { unimplemented!() } }
#[verifier::external_body] pub struct AtomicBool { _p: () }
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
impl AtomicBool {
    pub uninterp spec fn is(&self) -> bool;
    #[verifier::external_body] pub fn new(b: bool) -> (r: Self) ensures r.is() == b { unimplemented!() }
}
//@ rewrite /K: Send \+ Sync \+ (Hash \+ Eq|Eq \+ Hash) \+ Clone \+ 'static|K: Send \+ Sync \+ Eq \+ Clone \+ Hash \+ 'static/ => K: Key
//@ rewrite / = NoCache,/ => ,
//@ rewrite /\bfalse\.into\(\)/ => AtomicBool::new(false)
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
//@ item src/core/data_loader/data_loader.rs :: struct ResSender
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
//@ item src/core/data_loader/data_loader.rs :: struct Requests
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
pub enum Action<K: Key, T: Loader<K>> { ImmediateLoad(KeysAndSender<K, T>), StartFetch, Delay }
//@ item src/core/data_loader/data_loader.rs :: type KeysAndSender
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
//@ item src/core/data_loader/data_loader.rs :: struct DataLoaderInner
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
//@ item src/core/data_loader/data_loader.rs :: struct DataLoader
// ---- who waits for what, and the batch that collects
pub struct Wait<K, V> { pub keys: Set<K>, pub cached: Map<K, V>, pub ch: Ch }
pub struct St<K, V> { pub keys: Set<K>, pub waits: Seq<Wait<K, V>>, pub held: Map<K, V>, pub exact: bool, pub off: bool }
pub open spec fn waits<K: Key, T: Loader<K>>(p: Seq<(HashSet<K>, ResSender<K, T>)>) -> Seq<Wait<K, T::Value>> { p.map_values(|x: (HashSet<K>, ResSender<K, T>)| Wait { keys: x.0@, cached: x.1.use_cache_values@, ch: x.1.tx.ch() }) }
pub open spec fn of<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>>(q: Requests<K, T, C>) -> St<K, T::Value> { St { keys: q.keys@, waits: waits::<K, T>(q.pending@), held: q.cache_storage.held(), exact: q.cache_storage.exact(), off: q.disable_cache } }
// every key that waits is asked for by someone, and whoever waits waits for keys of the batch
pub open spec fn inv<K, V>(s: St<K, V>) -> bool {
    &&& forall|k: K| #[trigger] s.keys.contains(k) ==> exists|i: int| 0 <= i < s.waits.len() && (#[trigger] s.waits[i]).keys.contains(k)
    &&& forall|i: int| 0 <= i < s.waits.len() ==> (#[trigger] s.waits[i]).keys.subset_of(s.keys) && s.waits[i].keys != Set::<K>::empty() && s.waits[i].cached.dom().disjoint(s.waits[i].keys)
}
// ---- what is done and seen, in order
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
pub enum Ev<K, V, E> {
    // held the lock: the state before and after
    Section(St<K, V>, St<K, V>),
    Waited(Duration),
    // asked the loader for these keys, and its answer
    Asked(Seq<K>, Result<Map<K, V>, E>),
    Sent(Ch, Result<Map<K, V>, E>),
    Got(Ch, Result<Map<K, V>, E>),
    // caching for all is off now, or on
    Off(bool),
}
pub open spec fn seen<K, V, E>(r: Result<HashMap<K, V>, E>) -> Result<Map<K, V>, E> { match r { Ok(m) => Ok(m@), Err(e) => Err(e) } }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
pub struct World<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>> { pub requests: Requests<K, T, C>, pub log: Ghost<Seq<Ev<K, T::Value, T::Error>>> }
impl<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>> World<K, T, C> {
    pub open spec fn st(&self) -> St<K, T::Value> { of::<K, T, C>(self.requests) }
    // between two looks others may have changed the state in any way that keeps its invariant
    #[verifier::external_body]
    pub fn lock_(&mut self) -> (g: &mut Requests<K, T, C>)
        requires inv(old(self).st())
        ensures inv(of::<K, T, C>(*g)), final(self).requests == *final(g), final(self).log@ == old(self).log@.push(Ev::Section(of::<K, T, C>(*g), of::<K, T, C>(*final(g)))) { unimplemented!() }
    #[verifier::external_body]
    pub fn wait_(&mut self, d: Duration) ensures final(self).requests == old(self).requests, final(self).log@ == old(self).log@.push(Ev::Waited(d)) { unimplemented!() }
    #[verifier::external_body]
    pub fn ask_(&mut self, keys: &Vec<K>) -> (r: Result<HashMap<K, T::Value>, T::Error>) ensures final(self).requests == old(self).requests, final(self).log@ == old(self).log@.push(Ev::Asked(keys@, seen(r))) { unimplemented!() }
}
impl<V, E> oneshot::Sender<Result<V, E>> {
    #[verifier::external_body]
    pub fn send<K: Key, T: Loader<K, Error = E>, C: CacheFactory<K, T::Value>>(self, w: &mut World<K, T, C>, v: Result<HashMap<K, T::Value>, E>) -> (r: Result<(), Result<HashMap<K, T::Value>, E>>) ensures final(w).requests == old(w).requests, final(w).log@ == old(w).log@.push(Ev::Sent(self.ch(), seen(v))) { unimplemented!() }
}
impl<K: Key, V: Value, E> oneshot::Receiver<Result<HashMap<K, V>, E>> {
    #[verifier::external_body]
    pub fn got_<T: Loader<K, Value = V, Error = E>, C: CacheFactory<K, V>>(self, w: &mut World<K, T, C>) -> (r: Result<HashMap<K, V>, E>) ensures final(w).requests == old(w).requests, final(w).log@ == old(w).log@.push(Ev::Got(self.ch(), seen(r))), final(w).log@.drop_last() == old(w).log@ { unimplemented!() }
}
// the moment a load begins: is caching off for all?
#[verifier::external_body] pub struct Now { _p: () }
impl Now { pub uninterp spec fn off(&self, b: AtomicBool) -> bool; }
impl AtomicBool { #[verifier::external_body] pub fn store<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>>(&self, w: &mut World<K, T, C>, b: bool) ensures final(w).requests == old(w).requests, final(w).log@ == old(w).log@.push(Ev::Off(b)) { unimplemented!() } }
impl AtomicBool { #[verifier::external_body] pub fn load(&self, now: &Now) -> (r: bool) ensures r == now.off(*self) { unimplemented!() } }
#[verifier::external_body] pub fn take_<T: Taken>(t: &mut T) -> (r: T) ensures r == *old(t), final(t).nothing() { unimplemented!() }
pub trait Taken { spec fn nothing(&self) -> bool; }
impl<K> Taken for HashSet<K> { open spec fn nothing(&self) -> bool { self@ == Set::<K>::empty() } }
impl<X> Taken for Vec<X> { open spec fn nothing(&self) -> bool { self@ == Seq::<X>::empty() } }
// ---- the parts
pub open spec fn emptied<K, V>(s: St<K, V>) -> St<K, V> { St { keys: Set::empty(), waits: Seq::empty(), ..s } }
pub open spec fn job<K: Key, T: Loader<K>>(j: KeysAndSender<K, T>, s: St<K, T::Value>) -> bool { j.0@ == s.keys && waits::<K, T>(j.1@) == s.waits }
//@ rewrite /std::mem::take\(/ => take_(
impl<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>> Requests<K, T, C> {
//@ fn src/core/data_loader/data_loader.rs :: impl<K: Send + Sync + Hash + Eq + Clone + 'static, T: Loader<K>, C: CacheFactory<K, T::Value>> Requests<K, T, C> :: fn new
//@   opt /Default::default\(\)/ => HashSet::default()
//@   spec ensures of::<K, T, C>(r) == (St { keys: Set::<K>::empty(), waits: Seq::<Wait<K, T::Value>>::empty(), held: Map::<K, T::Value>::empty(), exact: of::<K, T, C>(r).exact, off: false }), inv(of::<K, T, C>(r))
//@   tail proof { assert(of::<K, T, C>(ret_).waits =~= Seq::empty()); }
//@ fn src/core/data_loader/data_loader.rs :: impl<K: Send + Sync + Hash + Eq + Clone + 'static, T: Loader<K>, C: CacheFactory<K, T::Value>> Requests<K, T, C> :: fn take
//@   spec ensures job::<K, T>(r, of::<K, T, C>(*old(self))), of::<K, T, C>(*final(self)) == emptied(of::<K, T, C>(*old(self)))
//@   tail proof { assert(of::<K, T, C>(*self).waits =~= Seq::empty()); }
}
// the answer to one caller: what was cached for it, and what was loaded for its own keys
pub open spec fn answer<K, V>(x: Wait<K, V>, loaded: Map<K, V>) -> Map<K, V> { x.cached.union_prefer_right(loaded.restrict(x.keys)) }
pub open spec fn told<K, V, E>(ws: Seq<Wait<K, V>>, a: Result<Map<K, V>, E>) -> Seq<Ev<K, V, E>> {
    Seq::new(ws.len(), |i: int| Ev::Sent(ws[i].ch, match a { Ok(m) => Ok(answer(ws[i], m)), Err(e) => Err(e) }))
}
// what was loaded is in the cache, unless caching is off
pub open spec fn after_load<K, V>(off: bool, a: St<K, V>, m: Map<K, V>, b: St<K, V>) -> bool {
    if off || a.off { b == a } else { b == (St { held: b.held, ..a }) && within(b.held, a.held.union_prefer_right(m)) && (a.exact ==> b.held == a.held.union_prefer_right(m)) }
}
// one batch: its keys are asked for, each once; then everyone who waits is told
pub open spec fn loaded<K, V, E>(off: bool, keys: Set<K>, waits: Seq<Wait<K, V>>, l: Seq<Ev<K, V, E>>) -> bool {
    &&& l.len() > 0 && l[0] is Asked && (l[0]->Asked_0).no_duplicates() && (l[0]->Asked_0).to_set() == keys
    &&& match l[0]->Asked_1 {
        Ok(m) => l.len() == waits.len() + 2 && l[1] is Section && after_load(off, l[1]->Section_0, m, l[1]->Section_1) && l.skip(2) == told::<K, V, E>(waits, Ok(m)),
        Err(e) => l.skip(1) == told::<K, V, E>(waits, Err(e)),
    }
}
pub open spec fn grew<X>(a: Seq<X>, b: Seq<X>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn firsts<K, V>(e: Seq<(&K, &V)>, n: int) -> Set<K> { e.take(n).map_values(|p: (&K, &V)| *p.0).to_set() }
pub open spec fn derefs_<K>(s: Seq<&K>) -> Seq<K> { s.map_values(|k: &K| *k) }
pub broadcast proof fn lemma_inv<K, V>(a: St<K, V>, b: St<K, V>) requires #[trigger] inv(a), a.keys == b.keys, a.waits == b.waits ensures #[trigger] inv(b) {}
pub proof fn lemma_put<K, V>(last: Map<K, V>, m: Map<K, V>, d: Set<K>, k: K)
    ensures m.contains_key(k) ==> last.union_prefer_right(m.restrict(d)).insert(k, m[k]) == last.union_prefer_right(m.restrict(d.insert(k))), !m.contains_key(k) ==> last.union_prefer_right(m.restrict(d)) == last.union_prefer_right(m.restrict(d.insert(k)))
{
    if m.contains_key(k) { assert(last.union_prefer_right(m.restrict(d)).insert(k, m[k]) =~= last.union_prefer_right(m.restrict(d.insert(k)))); }
    else { assert(m.restrict(d) =~= m.restrict(d.insert(k))); }
}
pub proof fn lemma_firsts<K, V>(e: Seq<(&K, &V)>, i: int) requires 0 <= i < e.len() ensures firsts(e, i + 1) == firsts(e, i).insert(*e[i].0)
{ lemma_add(e.map_values(|p: (&K, &V)| *p.0), i); assert(e.take(i + 1).map_values(|p: (&K, &V)| *p.0) =~= e.map_values(|p: (&K, &V)| *p.0).take(i + 1)); assert(e.take(i).map_values(|p: (&K, &V)| *p.0) =~= e.map_values(|p: (&K, &V)| *p.0).take(i)); }
pub proof fn lemma_add<K>(s: Seq<K>, i: int) requires 0 <= i < s.len() ensures s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i])
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert forall|k: K| s.take(i + 1).to_set().contains(k) == #[trigger] s.take(i).to_set().insert(s[i]).contains(k) by {
        if s.take(i).contains(k) { let j = choose|j: int| 0 <= j < s.take(i).len() && #[trigger] s.take(i)[j] == k; assert(s.take(i + 1)[j] == k); }
        assert(s.take(i + 1)[i] == s[i]);
        if s.take(i + 1).contains(k) { let j = choose|j: int| 0 <= j < s.take(i + 1).len() && #[trigger] s.take(i + 1)[j] == k; if j < i { assert(s.take(i)[j] == k); } }
    }
    assert(s.take(i + 1).to_set() =~= s.take(i).to_set().insert(s[i]));
}
impl<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>> Arc<DataLoaderInner<K, T, C>> {
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoaderInner<K, T, C> :: fn do_load async=drop
//@   attr #[verifier::loop_isolation(false)]
//@   opt /\n    where\s*K: Key,\s*T: Loader<K>,/ => 
//@   sub /\(keys, senders\): KeysAndSender<K, T>\)/ => job_: KeysAndSender<K, T>, w: &mut World<K, T, C>)
//@   sub /self\.requests\.lock\(\)\.unwrap\(\)/ => w.lock_()
//@   sub /self\.loader\.load\(/ => w.ask_(
//@   opt /\.into_iter\(\)\.collect::<Vec<_>>\(\)/ => .list_()
//@   opt /\.send\(/ => .send(w, 
//@   opt /\bfor \((\w+), (\w+)\) in &values\b/ => let ents_ = values.entries_(); let ghost e_ = ents_@; for (\1, \2) in ents_
//@   opt /\bfor (\w+) in &keys\b/ => let its_ = keys.items_(); let ghost k_ = derefs_(its_@); for \1 in its_
//@   spec requires inv(old(w).st())
//@   | ensures loaded(disable_cache, job_.0@, waits::<K, T>(job_.1@), final(w).log@.skip(old(w).log@.len() as int)), inv(final(w).st()), grew(old(w).log@, final(w).log@)
//@   start let (keys, senders) = job_; let ghost off0 = disable_cache; let ghost l0 = w.log@; let ghost ws = waits::<K, T>(senders@);
//@   closure 1 |$0: &T::Value| -> (p: (K, T::Value)) ensures p == (*key, *$0)
//@   before 1 let ghost last0 = requests.cache_storage.held(); let ghost r0 = *requests; let ghost m = values@; proof { assert(last0.union_prefer_right(m.restrict(Set::<K>::empty())) =~= last0); }
//@   loop 1 it=it invariant requests.keys == r0.keys, requests.pending == r0.pending, requests.disable_cache == r0.disable_cache, it.seq() == e_, requests.cache_storage.exact() == r0.cache_storage.exact(), within(requests.cache_storage.held(), last0.union_prefer_right(m.restrict(firsts(e_, it.index() as int)))), r0.cache_storage.exact() ==> requests.cache_storage.held() == last0.union_prefer_right(m.restrict(firsts(e_, it.index() as int))),
//@   loopstart 1 proof { let e = e_[it.index() as int]; lemma_firsts(e_, it.index() as int); lemma_put(last0, m, firsts(e_, it.index() as int), *e.0); }
//@   after 1 proof { assert(e_.take(e_.len() as int) =~= e_); assert(m.dom().subset_of(firsts(e_, e_.len() as int))) by { assert forall|k: K| m.dom().contains(k) implies firsts(e_, e_.len() as int).contains(k) by { let i = choose|i: int| 0 <= i < e_.len() && *(#[trigger] e_[i]).0 == k; assert(e_.take(e_.len() as int).map_values(|p: (&K, &T::Value)| *p.0)[i] == k); } } assert(m.restrict(firsts(e_, e_.len() as int)) =~= m); }
//@   before 2 let ghost m = values@; let ghost base = w.log@; proof { assert(base.len() == l0.len() + 2); let a = base[l0.len() as int + 1]->Section_0; let b = w.st(); lemma_inv(a, b); assert(after_load(off0, a, m, b)); assert(told::<K, T::Value, T::Error>(ws, Ok(m)).take(0) =~= Seq::empty()); assert(base + Seq::<Ev<K, T::Value, T::Error>>::empty() =~= base); }
//@   loop 2 it=it2 invariant it2.seq() == senders@, w.log@ == base + told::<K, T::Value, T::Error>(ws, Ok(m)).take(it2.index() as int), inv(w.st()),
//@   before 3 let ghost cached = res@; proof { let x = senders@[it2.index() as int]; assert(cached =~= x.1.use_cache_values@); assert(k_.take(0).to_set() =~= Set::<K>::empty()); assert(cached.union_prefer_right(m.restrict(Set::<K>::empty())) =~= cached); }
//@   loopstart 3 let ghost r3 = res@;
//@   loopend 3 proof { let i = it3.index() as int; lemma_add(k_, i); lemma_put(cached, m, k_.take(i).to_set(), *key); if m.contains_key(*key) { assert(res@ =~= r3.insert(*key, m[*key])); } else { assert(res@ =~= r3); } }
//@   after 3 proof { assert(k_.take(k_.len() as int) =~= k_); let x = senders@[it2.index() as int]; assert(res@ =~= x.1.use_cache_values@.union_prefer_right(m.restrict(x.0@))); }
//@   loop 3 it=it3 invariant res@ == cached.union_prefer_right(m.restrict(k_.take(it3.index() as int).to_set())), k_ == derefs_(it3.seq()),
//@   before 4 let ghost base = w.log@; proof { assert(told::<K, T::Value, T::Error>(ws, Err(err)).take(0) =~= Seq::empty()); assert(base + Seq::<Ev<K, T::Value, T::Error>>::empty() =~= base); }
//@   after 2 proof { assert(told::<K, T::Value, T::Error>(ws, Ok(m)).take(ws.len() as int) =~= told::<K, T::Value, T::Error>(ws, Ok(m))); assert(w.log@.take(l0.len() as int) =~= l0); assert(w.log@.skip(l0.len() as int).skip(2) =~= told::<K, T::Value, T::Error>(ws, Ok(m))); }
//@   after 4 proof { assert(told::<K, T::Value, T::Error>(ws, Err(err)).take(ws.len() as int) =~= told::<K, T::Value, T::Error>(ws, Err(err))); assert(w.log@.take(l0.len() as int) =~= l0); assert(w.log@.skip(l0.len() as int).skip(1) =~= told::<K, T::Value, T::Error>(ws, Err(err))); }
//@   loopend 2 proof { let i = it2.index() as int; let t = told::<K, T::Value, T::Error>(ws, Ok(m)); assert(t.take(i + 1) =~= t.take(i).push(t[i])); assert(ws[i] == Wait::<K, T::Value> { keys: senders@[i].0@, cached: senders@[i].1.use_cache_values@, ch: senders@[i].1.tx.ch() }); assert(w.log@ =~= base + t.take(i + 1)); }
//@   loopend 4 proof { let i = it4.index() as int; let t = told::<K, T::Value, T::Error>(ws, Err(err)); assert(t.take(i + 1) =~= t.take(i).push(t[i])); assert(ws[i] == Wait::<K, T::Value> { keys: senders@[i].0@, cached: senders@[i].1.use_cache_values@, ch: senders@[i].1.tx.ch() }); assert(w.log@ =~= base + t.take(i + 1)); }
//@   loop 4 it=it4 invariant it4.seq() == senders@, w.log@ == base + told::<K, T::Value, T::Error>(ws, Err(err)).take(it4.index() as int), inv(w.st()),
}
// ---- loading
// which of the keys are in the cache now, and which have to be loaded
pub open spec fn asks<K, V, E>(off: bool, keys: Set<K>, held: Map<K, V>, l: Seq<Ev<K, V, E>>) -> Wait<K, V> {
    let ch = if l.len() > 0 && l.last() is Got { l.last()->Got_0 } else { 0 };
    if off { Wait { keys, cached: Map::empty(), ch } } else { Wait { keys: keys.difference(held.dom()), cached: held.restrict(keys), ch } }
}
pub open spec fn joined<K, V>(s: St<K, V>, x: Wait<K, V>) -> St<K, V> { St { keys: s.keys + x.keys, waits: s.waits.push(x), ..s } }
pub open spec fn fetched<K, V, E>(off: bool, delay: Duration, l: Seq<Ev<K, V, E>>) -> bool {
    &&& l.len() >= 2 && l[0] == Ev::<K, V, E>::Waited(delay) && l[1] is Section && l[1]->Section_1 == emptied(l[1]->Section_0)
    &&& if l[1]->Section_0.keys == Set::<K>::empty() { l.len() == 2 } else { loaded(off, l[1]->Section_0.keys, l[1]->Section_0.waits, l.skip(2)) }
}
pub open spec fn answered<K, V, E>(off: bool, max: int, delay: Duration, keys: Set<K>, r: Result<Map<K, V>, E>, l: Seq<Ev<K, V, E>>) -> bool {
    &&& l.len() > 0 && l[0] is Section
    &&& ({ let s = l[0]->Section_0; let t = l[0]->Section_1; let n = l.len() - 1; let x = asks(off || s.off, keys, s.held, l);
        if x.keys =~= Set::<K>::empty() { t == s && n == 0 && r is Ok && r->Ok_0 =~= x.cached } else {
            let all = joined(s, x);
            &&& n > 0 && l[n] == Ev::<K, V, E>::Got(x.ch, r)
            // enough keys: the batch is loaded at once
            &&& if all.keys.len() >= max { t == emptied(all) && loaded(off, all.keys, all.waits, l.subrange(1, n)) }
            // the first keys of a batch: it is loaded after the delay
            else if s.keys == Set::<K>::empty() { t == all && fetched(off, delay, l.subrange(1, n)) }
            // somebody else has that on the way
            else { t == all && n == 1 }
        }
    })
}
// a batch that took in one more caller
pub open spec fn joins<K, V>(a: St<K, V>, b: St<K, V>) -> bool { b.waits.len() > 0 && b.waits.drop_last() == a.waits && b.keys == a.keys + b.waits.last().keys && b.waits.last().keys != Set::<K>::empty() && b.waits.last().cached.dom().disjoint(b.waits.last().keys) }
pub broadcast proof fn lemma_joins<K, V>(a: St<K, V>, b: St<K, V>) requires #[trigger] inv(a), joins(a, b) ensures #[trigger] inv(b)
{
    let n = b.waits.len() - 1;
    assert forall|k: K| #[trigger] b.keys.contains(k) implies exists|i: int| 0 <= i < b.waits.len() && (#[trigger] b.waits[i]).keys.contains(k) by {
        if a.keys.contains(k) { let i = choose|i: int| 0 <= i < a.waits.len() && (#[trigger] a.waits[i]).keys.contains(k); assert(b.waits[i].keys.contains(k)); } else { assert(b.waits[n].keys.contains(k)); }
    }
    assert forall|i: int| 0 <= i < b.waits.len() implies (#[trigger] b.waits[i]).keys.subset_of(b.keys) && b.waits[i].keys != Set::<K>::empty() && b.waits[i].cached.dom().disjoint(b.waits[i].keys) by { if i < n { assert(b.waits[i] == a.waits[i]); } }
}
pub broadcast proof fn lemma_waits<K: Key, T: Loader<K>>(p: Seq<(HashSet<K>, ResSender<K, T>)>, y: (HashSet<K>, ResSender<K, T>)) ensures #[trigger] waits::<K, T>(p.push(y)) == waits::<K, T>(p).push(Wait { keys: y.0@, cached: y.1.use_cache_values@, ch: y.1.tx.ch() }), waits::<K, T>(p.push(y)).drop_last() == waits::<K, T>(p)
{ assert(waits::<K, T>(p.push(y)) =~= waits::<K, T>(p).push(Wait { keys: y.0@, cached: y.1.use_cache_values@, ch: y.1.tx.ch() })); assert(waits::<K, T>(p.push(y)).drop_last() =~= waits::<K, T>(p)); }
impl Delay { pub fn new(d: Duration) -> (r: Duration) ensures r == d { d } }
pub struct Delay;
pub fn once_<K>(k: K) -> (r: Vec<K>) ensures r@ == seq![k] { let mut v = Vec::new(); v.push(k); v }
pub fn spawned_(u: ()) {}
impl<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>> DataLoader<K, T, C> {
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn load_many async=drop
//@   attr #[verifier::loop_isolation(false)]
//@   sub /fn load_many<I>\(&self, keys: I\) -> Result<HashMap<K, T::Value>, T::Error>\s*where\s*K: Key,\s*I: IntoIterator<Item = K>,\s*T: Loader<K>,/ => fn load_many(&self, keys: Vec<K>, w: &mut World<K, T, C>, now: &Now) -> Result<HashMap<K, T::Value>, T::Error>
//@   sub /enum Action<.*?\n        \}\n/ => 
//@   sub /\bself\.inner\.requests\.lock\(\)\.unwrap\(\)/ => w.lock_()
//@   opt /\binner\.requests\.lock\(\)\.unwrap\(\)/ => w.lock_()
//@   opt /\.load\(Ordering::\w+\)/ => .load(now)
//@   opt /\bkeys\.into_iter\(\)\.collect\(\)/ => HashSet::of_(keys)
//@   opt /\basync move \{/ => {
//@   opt /\bDefault::default\(\)/ => HashMap::default()
//@   opt /tokio::spawn\(Box::pin\((\w+)\)\);\s*async_std::task::spawn_local\(Box::pin\(\w+\)\);/ => spawned_(\1);
//@   opt /Delay::new\(([^()]*)\)\.await;/ => w.wait_(\1);
//@   opt /\.do_load\(disable_cache, keys\)/ => .do_load(disable_cache, keys, w)
//@   opt /\brx\.await\.unwrap\(\)/ => rx.got_(w)
//@   spec requires inv(old(w).st())
//@   | ensures inv(final(w).st()), answered(now.off(self.disable_cache), self.max_batch_size as int, self.delay, keys@.to_set(), seen(r), final(w).log@.skip(old(w).log@.len() as int))
//@   start broadcast use {lemma_joins, lemma_waits}; let ghost ks = keys@; let ghost l0 = w.log@;
//@   before 1 let ghost r0 = *requests; proof { assert(ks.take(0).to_set() =~= Set::<K>::empty()); }
//@   loop 1 it=it invariant requests.keys == r0.keys, requests.pending == r0.pending, requests.disable_cache == r0.disable_cache, requests.cache_storage.held() == r0.cache_storage.held(), requests.cache_storage.exact() == r0.cache_storage.exact(), it.seq() == ks, use_cache_values@ == r0.cache_storage.held().restrict(ks.take(it.index() as int).to_set()), keys_set@ == ks.take(it.index() as int).to_set().difference(r0.cache_storage.held().dom()),
//@   loopstart 1 let ghost u1 = use_cache_values@; let ghost n1 = keys_set@;
//@   loopend 1 proof { let i = it.index() as int; let d = ks.take(i).to_set(); let h = r0.cache_storage.held(); lemma_add(ks, i); if h.contains_key(ks[i]) { assert(use_cache_values@ =~= h.restrict(d.insert(ks[i]))); assert(keys_set@ =~= d.insert(ks[i]).difference(h.dom())); } else { assert(h.restrict(d.insert(ks[i])) =~= h.restrict(d)); assert(keys_set@ =~= d.insert(ks[i]).difference(h.dom())); } }
//@   after 1 proof { assert(ks.take(ks.len() as int) =~= ks); }
//@   tail proof { let n = w.log@.len() - 1; let a = l0.len() as int; let m = w.log@.drop_last(); assert(w.log@[a] is Section); assert(w.log@.skip(a).subrange(1, n - a) =~= m.skip(a + 1)); if n >= a + 3 { assert(m.skip(a + 1).skip(2) =~= m.skip(a + 3)); } }
}

// one turn with the lock, which changes the state in this way only
pub open spec fn turn<K, V, E>(a: Seq<Ev<K, V, E>>, b: Seq<Ev<K, V, E>>) -> bool { b.len() == a.len() + 1 && b.drop_last() == a && b.last() is Section }
pub open spec fn fed<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { m } else { fed(m, s.drop_last()).insert(s.last().0, s.last().1) } }
impl<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>> DataLoader<K, T, C> {
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn load_one async=drop
//@   opt /\n    where\s*K: Key,\s*(?:I: IntoIterator<Item = \(K, T::Value\)>,\s*)?T: Loader<K>,/ => 
//@   sub /key: K\)/ => key: K, w: &mut World<K, T, C>, now: &Now)
//@   opt /std::iter::once\(/ => once_(
//@   opt /\.load_many\((.*?)\)\.await\?/ => .load_many(\1, w, now)?
//@   spec requires inv(old(w).st())
//@   | ensures inv(final(w).st()), exists|m: Result<Map<K, T::Value>, T::Error>| #[trigger] answered(now.off(self.disable_cache), self.max_batch_size as int, self.delay, set![key], m, final(w).log@.skip(old(w).log@.len() as int)) && match m { Err(e) => r == Err::<Option<T::Value>, T::Error>(e), Ok(v) => r is Ok && match r->Ok_0 { Some(x) => v.contains_key(key) && v[key] == x, None => !v.contains_key(key) } }
//@   start proof { assert(seq![key].to_set() =~= set![key]) by { assert(seq![key][0] == key); } }
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn feed_many async=drop
//@   attr #[verifier::loop_isolation(false)]
//@   sub /fn feed_many<I>\(&self, values: I\)/ => fn feed_many(&self, values: Vec<(K, T::Value)>, w: &mut World<K, T, C>)
//@   opt /\n    where\s*K: Key,\s*(?:I: IntoIterator<Item = \(K, T::Value\)>,\s*)?T: Loader<K>,/ => 
//@   opt /\bself\.inner\.requests\.lock\(\)\.unwrap\(\)/ => w.lock_()
//@   spec requires inv(old(w).st())
//@   | ensures inv(final(w).st()), turn(old(w).log@, final(w).log@), ({ let a = final(w).log@.last()->Section_0; let b = final(w).log@.last()->Section_1; b == (St { held: b.held, ..a }) && within(b.held, fed(a.held, values@)) && (a.exact ==> b.held == fed(a.held, values@)) })
//@   start broadcast use lemma_inv; let ghost vs = values@; let ghost l0 = w.log@;
//@   before 1 let ghost r0 = *requests; proof { assert(vs.take(0) =~= Seq::empty()); }
//@   loop 1 it=it invariant it.seq() == vs, requests.keys == r0.keys, requests.pending == r0.pending, requests.disable_cache == r0.disable_cache, requests.cache_storage.exact() == r0.cache_storage.exact(), within(requests.cache_storage.held(), fed(r0.cache_storage.held(), vs.take(it.index() as int))), r0.cache_storage.exact() ==> requests.cache_storage.held() == fed(r0.cache_storage.held(), vs.take(it.index() as int)),
//@   loopstart 1 proof { let i = it.index() as int; assert(vs.take(i + 1).drop_last() =~= vs.take(i)); assert(vs.take(i + 1).last() == vs[i]); }
//@   after 1 proof { assert(vs.take(vs.len() as int) =~= vs); assert(w.log@.drop_last() =~= l0); }
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn feed_one async=drop
//@   opt /\n    where\s*K: Key,\s*(?:I: IntoIterator<Item = \(K, T::Value\)>,\s*)?T: Loader<K>,/ => 
//@   sub /value: T::Value\)/ => value: T::Value, w: &mut World<K, T, C>)
//@   opt /std::iter::once\(/ => once_(
//@   opt /\.feed_many\((.*?)\)\.await/ => .feed_many(\1, w)
//@   spec requires inv(old(w).st())
//@   | ensures inv(final(w).st()), turn(old(w).log@, final(w).log@), ({ let a = final(w).log@.last()->Section_0; let b = final(w).log@.last()->Section_1; b == (St { held: b.held, ..a }) && within(b.held, a.held.insert(key, value)) && (a.exact ==> b.held == a.held.insert(key, value)) })
//@   start proof { reveal_with_fuel(fed, 2); assert(seq![(key, value)].drop_last() =~= Seq::empty()); assert(forall|m: Map<K, T::Value>| #[trigger] fed(m, seq![(key, value)]) == m.insert(key, value)); }
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn clear
//@   opt /\n    where\s*K: Key,\s*(?:I: IntoIterator<Item = \(K, T::Value\)>,\s*)?T: Loader<K>,/ => 
//@   opt /\bself\.inner\.requests\.lock\(\)\.unwrap\(\)/ => w.lock_()
//@   sub /\(&self\)/ => (&self, w: &mut World<K, T, C>)
//@   opt /let _tid = TypeId::of::<K>\(\);/ => 
//@   spec requires inv(old(w).st())
//@   | ensures inv(final(w).st()), turn(old(w).log@, final(w).log@), final(w).log@.last()->Section_1 == (St { held: Map::<K, T::Value>::empty(), ..final(w).log@.last()->Section_0 })
//@   start broadcast use lemma_inv; let ghost l0 = w.log@;
//@   end proof { assert(w.log@.drop_last() =~= l0); }
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn get_cached_values
//@   opt /\n    where\s*K: Key,\s*(?:I: IntoIterator<Item = \(K, T::Value\)>,\s*)?T: Loader<K>,/ => 
//@   opt /\bself\.inner\.requests\.lock\(\)\.unwrap\(\)/ => w.lock_()
//@   sub /\(&self\)/ => (&self, w: &mut World<K, T, C>)
//@   opt /let _tid = TypeId::of::<K>\(\);/ => 
//@   opt /requests\s*\.cache_storage\s*\.iter\(\)\s*(\.map\(.*\))\s*\.collect\(\)/ => let ents_ = requests.cache_storage.iter(); let ghost e_ = ents_.v@; let made_ = ents_\1; assert(made_.v@ =~= pairs_(e_)); made_.collect()
//@   closurelet 1 |a0: (&K, &T::Value)| -> (p: (K, T::Value)) ensures p == (*a0.0, *a0.1)
//@   spec requires inv(old(w).st())
//@   | ensures inv(final(w).st()), turn(old(w).log@, final(w).log@), final(w).log@.last()->Section_1 == final(w).log@.last()->Section_0, r@ == final(w).log@.last()->Section_0.held
//@   start broadcast use lemma_inv; let ghost l0 = w.log@;
//@   tail proof { assert(w.log@.drop_last() =~= l0); }
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn enable_cache
//@   opt /\n    where\s*K: Key,\s*(?:I: IntoIterator<Item = \(K, T::Value\)>,\s*)?T: Loader<K>,/ => 
//@   opt /\bself\.inner\.requests\.lock\(\)\.unwrap\(\)/ => w.lock_()
//@   sub /enable: bool\)/ => enable: bool, w: &mut World<K, T, C>)
//@   spec requires inv(old(w).st())
//@   | ensures inv(final(w).st()), turn(old(w).log@, final(w).log@), final(w).log@.last()->Section_1 == (St { off: !enable, ..final(w).log@.last()->Section_0 })
//@   start broadcast use lemma_inv; let ghost l0 = w.log@;
//@   end proof { assert(w.log@.drop_last() =~= l0); }
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn enable_all_cache
//@   sub /enable: bool\)/ => enable: bool, w: &mut World<K, T, C>)
//@   opt /self\.disable_cache\.store\((.*?), Ordering::\w+\)/ => self.disable_cache.store(w, \1)
//@   spec requires inv(old(w).st())
//@   | ensures inv(final(w).st()), final(w).log@ == old(w).log@.push(Ev::Off(!enable))
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn delay
//@   spec ensures r == (DataLoader { delay: delay, ..self })
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn max_batch_size
//@   spec ensures r == (DataLoader { max_batch_size: max_batch_size, ..self })
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn loader
//@   opt /&self\.inner\.loader/ => &self.inner.get_().loader
//@   spec ensures *r == self.inner.inner().loader
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T, C> DataLoader<K, T, C> :: fn with_cache
//@   spec ensures fresh_(r, loader)
}
pub open spec fn fresh_<K: Key, T: Loader<K>, C: CacheFactory<K, T::Value>>(d: DataLoader<K, T, C>, l: T) -> bool { d.inner.inner().loader == l && d.delay.millis == 1 && d.max_batch_size == 1000 && !d.disable_cache.is() && ({ let s = of::<K, T, C>(d.inner.inner().requests.inner()); s == emptied(St { held: Map::<K, T::Value>::empty(), off: false, ..s }) && inv(s) }) }
impl<K: Key, T: Loader<K>> DataLoader<K, T, NoCache> {
//@ fn src/core/data_loader/data_loader.rs :: impl<K, T> DataLoader<K, T, NoCache> :: fn new
//@   spec ensures fresh_(r, loader)
}
// ---- the caches
//@ rewrite /Option<&V>/ => Option<&V>
//@ item src/core/data_loader/cache.rs :: struct NoCache
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ item src/core/data_loader/cache.rs :: struct NoCacheImpl
impl<K: Key, V: Value> CacheFactory<K, V> for NoCache {
    type Storage = NoCacheImpl<K, V>;
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheFactory<K, V> for NoCache :: fn create vis=none
}
impl<K: Key, V: Value> CacheStorage for NoCacheImpl<K, V> {
    type Key = K;
    type Value = V;
    open spec fn held(&self) -> Map<K, V> { Map::empty() }
    open spec fn exact(&self) -> bool { false }
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for NoCacheImpl<K, V> :: fn get vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for NoCacheImpl<K, V> :: fn insert vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for NoCacheImpl<K, V> :: fn remove vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for NoCacheImpl<K, V> :: fn clear vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for NoCacheImpl<K, V> :: fn iter vis=none
//@   sub /Box<dyn Iterator<Item = \(&'_ Self::Key, &'_ Self::Value\)> \+ '_>/ => Entries<'_, K, V>
//@   opt /Box::new\(std::iter::empty\(\)\)/ => empty_()
}
#[verifier::reject_recursive_types(S)]
//@ item src/core/data_loader/cache.rs :: struct HashMapCache
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
//@ item src/core/data_loader/cache.rs :: struct HashMapCacheImpl
impl HashMapCache<RandomState> {
//@ fn src/core/data_loader/cache.rs :: impl Default for HashMapCache<RandomState> :: fn default
}
impl<K: Key, V: Value, S> CacheFactory<K, V> for HashMapCache<S> {
    type Storage = HashMapCacheImpl<K, V, S>;
//@ fn src/core/data_loader/cache.rs :: impl<K, V, S: Send + Sync + BuildHasher + Default + 'static> CacheFactory<K, V> for HashMapCache<S> :: fn create vis=none
}
impl<K: Key, V: Value, S> CacheStorage for HashMapCacheImpl<K, V, S> {
    type Key = K;
    type Value = V;
    open spec fn held(&self) -> Map<K, V> { self.0@ }
    open spec fn exact(&self) -> bool { true }
//@ fn src/core/data_loader/cache.rs :: impl<K, V, S> CacheStorage for HashMapCacheImpl<K, V, S> :: fn get vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V, S> CacheStorage for HashMapCacheImpl<K, V, S> :: fn insert vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V, S> CacheStorage for HashMapCacheImpl<K, V, S> :: fn remove vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V, S> CacheStorage for HashMapCacheImpl<K, V, S> :: fn clear vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V, S> CacheStorage for HashMapCacheImpl<K, V, S> :: fn iter vis=none
//@   sub /Box<dyn Iterator<Item = \(&'_ Self::Key, &'_ Self::Value\)> \+ '_>/ => Entries<'_, K, V>
//@   opt /Box::new\((self\.0\.iter\(\))\)/ => \1
}
pub mod lru {
    use super::*;
    verus! {
    // may forget its oldest entries to make room
    #[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
    pub struct LruCache<K, V> { _k: core::marker::PhantomData<(K, V)> }
    impl<K, V> View for LruCache<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
    impl<K, V> LruCache<K, V> {
        #[verifier::external_body] pub fn new(cap: NonZeroUsize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn get(&mut self, k: &K) -> (r: Option<&V>) ensures final(self)@ == old(self)@, match r { Some(v) => old(self)@.contains_key(*k) && old(self)@[*k] == *v, None => !old(self)@.contains_key(*k) } { unimplemented!() }
        #[verifier::external_body] pub fn put(&mut self, k: K, v: V) -> (r: Option<V>) ensures within(final(self)@, old(self)@.insert(k, v)), final(self)@.contains_key(k) { unimplemented!() }
        #[verifier::external_body] pub fn pop(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
        #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn iter(&self) -> (r: Entries<'_, K, V>) ensures r.are(self@) { unimplemented!() }
    }
    }
}
pub struct NonZeroUsize { pub n: usize }
impl NonZeroUsize { pub fn new(n: usize) -> (r: Option<NonZeroUsize>) ensures r == if n == 0 { None::<NonZeroUsize> } else { Some(NonZeroUsize { n }) } { if n == 0 { None } else { Some(NonZeroUsize { n }) } } }
//@ item src/core/data_loader/cache.rs :: struct LruCache
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ item src/core/data_loader/cache.rs :: struct LruCacheImpl
impl<K: Key, V: Value> CacheStorage for LruCacheImpl<K, V> {
    type Key = K;
    type Value = V;
    open spec fn held(&self) -> Map<K, V> { self.0@ }
    open spec fn exact(&self) -> bool { false }
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for LruCacheImpl<K, V> :: fn get vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for LruCacheImpl<K, V> :: fn insert vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for LruCacheImpl<K, V> :: fn remove vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for LruCacheImpl<K, V> :: fn clear vis=none
//@ fn src/core/data_loader/cache.rs :: impl<K, V> CacheStorage for LruCacheImpl<K, V> :: fn iter vis=none
//@   sub /Box<dyn Iterator<Item = \(&'_ Self::Key, &'_ Self::Value\)> \+ '_>/ => Entries<'_, K, V>
//@   opt /Box::new\((self\.0\.iter\(\))\)/ => \1
}
}
fn main() {}
