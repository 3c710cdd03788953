#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
verus! {
// Keys and values: equality is equality of values, clones are equal.
pub trait Key: Sized { fn clone(&self) -> (r: Self) ensures r == *self; fn to_owned(&self) -> (r: Self) ensures r == *self; }
pub trait Value: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<V: Value, E: Value> Value for Result<V, E> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
// std's HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && self@[*k] == *v, None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), match r { Some(x) => old(self)@.contains_key(k) && old(self)@[k] == x, None => !old(self)@.contains_key(k) } { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), match r { Some(x) => old(self)@.contains_key(*k) && old(self)@[*k] == x, None => !old(self)@.contains_key(*k) } { unimplemented!() }
}
// a channel is known by its number; a weak handle is upgraded exactly while the channel lives
pub type Ch = int;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Weak<T> { _k: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { _k: core::marker::PhantomData<T> }
pub mod broadcast {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Sender<V> { _k: core::marker::PhantomData<V> }
    #[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Receiver<V> { _k: core::marker::PhantomData<V> }
    impl<V> Sender<V> { pub uninterp spec fn ch(&self) -> int; pub uninterp spec fn room(&self) -> int; }
    impl<V> Receiver<V> { pub uninterp spec fn ch(&self) -> int; }
    }
}
impl<V> Weak<broadcast::Sender<V>> {
    pub open spec fn ch(&self) -> Ch { self.inner().ch() }
    #[verifier::external_body] pub fn upgrade(&self, now: &Now) -> (r: Option<Arc<broadcast::Sender<V>>>) ensures match r { Some(a) => now.lives(self.ch()) && a.ch() == self.ch(), None => !now.lives(self.ch()) } { unimplemented!() }
    #[verifier::external_body] pub fn strong_count(&self, now: &Now) -> (r: usize) ensures (r > 0) == now.lives(self.ch()) { unimplemented!() }
}
impl<T> Arc<T> {
    pub uninterp spec fn inner(&self) -> T;
    #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r.inner() == t { unimplemented!() }
    #[verifier::external_body] pub fn downgrade(a: &Self) -> (r: Weak<T>) ensures r.inner() == a.inner() { unimplemented!() }
}
impl<T> Weak<T> { pub uninterp spec fn inner(&self) -> T; }
impl<V> Arc<broadcast::Sender<V>> {
    pub open spec fn ch(&self) -> Ch { self.inner().ch() }
    #[verifier::external_body] pub fn subscribe(&self) -> (r: broadcast::Receiver<V>) ensures r.ch() == self.ch() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Mutex<T> { _k: core::marker::PhantomData<T> }
impl<T> Mutex<T> { pub uninterp spec fn inner(&self) -> T; #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r.inner() == t { unimplemented!() } }
// which channels live at the moment a step is taken
#[verifier::external_body] pub struct Now { _p: () }
impl Now {
    pub uninterp spec fn lives(&self, c: Ch) -> bool;
    // a channel nobody has seen yet
    pub uninterp spec fn fresh(&self, c: Ch) -> bool;
}
#[verifier::external_body] pub fn channel_<V>(size: usize, now: &Now) -> (r: (broadcast::Sender<V>, broadcast::Receiver<V>)) requires size > 0 ensures now.fresh(r.0.ch()), r.0.room() == size, r.1.ch() == r.0.ch() { unimplemented!() }
// ---- what a caller does and sees, in order
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Ev<K, V> {
    // took the lock; the table then, and the moment
    Locked(Map<K, State<V>>, Now),
    // ran the operation, with that result
    Ran(V),
    // told everyone waiting on the channel
    Sent(Ch, V),
    // waited on the channel: the result, or word that its owner is gone
    Heard(Ch, Option<V>),
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct World<K, V> { pub table: HashMap<K, State<V>>, pub log: Ghost<Seq<Ev<K, V>>> }
impl<K, V> World<K, V> {
    // between two looks at the table others may have changed it (but not a live entry of this caller's own)
    #[verifier::external_body]
    pub fn lock_(&mut self, now: &Now) -> (g: &mut HashMap<K, State<V>>)
        ensures final(self).table == *final(g), final(self).log@ == old(self).log@.push(Ev::Locked((*g)@, *now)) { unimplemented!() }
}
impl<V> broadcast::Receiver<V> {
    #[verifier::external_body]
    pub fn recv<K>(&mut self, w: &mut World<K, V>) -> (r: Result<V, RecvError>)
        ensures final(self).ch() == old(self).ch(), final(w).log@ == old(w).log@.push(Ev::Heard(old(self).ch(), match r { Ok(v) => Some(v), Err(_) => None })) { unimplemented!() }
}
pub enum RecvError { Closed, Lagged(u64) }
impl<V> Arc<broadcast::Sender<V>> {
    #[verifier::external_body]
    pub fn send<K>(&self, w: &mut World<K, V>, v: V) -> (r: Result<usize, V>)
        ensures final(w).log@ == old(w).log@.push(Ev::Sent(self.ch(), v)), final(w).table == old(w).table { unimplemented!() }
}
// the operation: it can run once
pub trait Op<V>: Sized {
    spec fn result(self) -> V;
    fn run_<K>(self, w: &mut World<K, V>) -> (r: V) ensures r == self.result(), final(w).log@ == old(w).log@.push(Ev::Ran(r));
}
#[verifier::reject_recursive_types(Key)]
#[verifier::reject_recursive_types(Value)]
//@ item src/core/data_loader/dedupe.rs :: struct Dedupe
#[verifier::reject_recursive_types(Value)]
//@ item src/core/data_loader/dedupe.rs :: enum State
#[verifier::reject_recursive_types(Value)]
//@ item src/core/data_loader/dedupe.rs :: enum Step
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
//@ item src/core/data_loader/dedupe.rs :: struct DedupeResult
// is somebody running the operation of this key?
pub open spec fn running<K, V>(t: Map<K, State<V>>, k: K, now: Now) -> Option<Ch> { if t.contains_key(k) && t[k] is Pending && now.lives(t[k]->Pending_0.ch()) { Some(t[k]->Pending_0.ch()) } else { None } }
pub open spec fn stored<K, V>(t: Map<K, State<V>>, k: K) -> Option<V> { if t.contains_key(k) && t[k] is Ready { Some(t[k]->Ready_0) } else { None } }
#[verifier::external_body] pub fn now_() -> Now { unimplemented!() }
pub open spec fn seen<K, V>(e: Ev<K, V>) -> Map<K, State<V>> { e->Locked_0 }
// looked, found the operation running, waited, and heard that its owner is gone: n times
pub open spec fn retried<K, V>(l: Seq<Ev<K, V>>, k: K, n: nat) -> bool {
    2 * n <= l.len() && forall|i: int| #![trigger l[2 * i]] 0 <= i < n ==> l[2 * i] is Locked && running(l[2 * i]->Locked_0, k, l[2 * i]->Locked_1) is Some && l[2 * i + 1] == Ev::<K, V>::Heard(running(l[2 * i]->Locked_0, k, l[2 * i]->Locked_1)->0, None)
}
pub proof fn lemma_kept<K, V>(f: Seq<Ev<K, V>>, l: Seq<Ev<K, V>>, k: K, n: nat) requires retried(l, k, n), f.len() >= 2 * n, f.take(2 * n as int) == l.take(2 * n as int) ensures retried(f, k, n)
{
    assert forall|i: int| #![trigger f[2 * i]] 0 <= i < n implies f[2 * i] == l[2 * i] && f[2 * i + 1] == l[2 * i + 1] by { let m = 2 * n as int; assert(0 <= 2 * i && 2 * i + 1 < m); assert(f.take(m)[2 * i] == f[2 * i]); assert(l.take(m)[2 * i] == l[2 * i]); assert(f.take(m)[2 * i + 1] == f[2 * i + 1]); assert(l.take(m)[2 * i + 1] == l[2 * i + 1]); }
}
pub proof fn lemma_retried<K, V>(f: Seq<Ev<K, V>>, l: Seq<Ev<K, V>>, k: K, n: nat)
    requires retried(l, k, n), l.len() == 2 * n, f.len() == 2 * n + 2, f.take(2 * n as int) == l, f[2 * n as int] is Locked, running(f[2 * n as int]->Locked_0, k, f[2 * n as int]->Locked_1) is Some, f[(2 * n + 1) as int] == Ev::<K, V>::Heard(running(f[2 * n as int]->Locked_0, k, f[2 * n as int]->Locked_1)->0, None)
    ensures retried(f, k, n + 1)
{ assert(l.take(2 * n as int) =~= l); lemma_kept(f, l, k, n); }
// how it ends
pub open spec fn settled<K, V>(persist: bool, l: Seq<Ev<K, V>>, k: K, run: V, r: V, t: Map<K, State<V>>) -> bool {
    &&& l.len() > 0 && l[0] is Locked
    &&& match stored(l[0]->Locked_0, k) {
        // the result was kept: it is given, nothing runs, nothing changes
        Some(v) => l.len() == 1 && r == v && t == l[0]->Locked_0,
        None => match running(l[0]->Locked_0, k, l[0]->Locked_1) {
            // somebody is at it: the result is theirs
            Some(ch) => l.len() == 2 && l[1] == Ev::<K, V>::Heard(ch, Some(r)),
            // nobody is: it runs here, once; the result goes to everyone who waits, and is kept or the entry dropped
            None => l.len() == 4 && r == run && l[1] == Ev::<K, V>::Ran(run) && exists|ch: Ch, m: int| #![trigger l[m], l[0]->Locked_1.fresh(ch)] {
                &&& l[0]->Locked_1.fresh(ch)
                &&& (m == 2 && l[3] == Ev::<K, V>::Sent(ch, run) || m == 3 && l[2] == Ev::<K, V>::Sent(ch, run))
                &&& l[m] is Locked
                &&& t == if persist { (l[m]->Locked_0).insert(k, State::Ready(run)) } else { (l[m]->Locked_0).remove(k) }
            },
        },
    }
}
impl<K: Key, V: Value> Dedupe<K, V> {
//@ fn src/core/data_loader/dedupe.rs :: impl<K: Key, V: Value> Dedupe<K, V> :: fn new
//@   spec ensures r.size == size, r.persist == persist, r.cache.inner().inner()@ == Map::<K, State<V>>::empty()
//@ fn src/core/data_loader/dedupe.rs :: impl<K: Key, V: Value> Dedupe<K, V> :: fn step
//@   sub /self\.cache\.lock\(\)\.unwrap\(\)/ => w.lock_(now)
//@   sub /\.upgrade\(\)/ => .upgrade(now)
//@   sub /fn step\(&self, key: &K\)/ => fn step(&self, key: &K, w: &mut World<K, V>, now: &Now)
//@   opt /broadcast::channel\(([^()]*)\)/ => channel_::<V>(\1, now)
//@   spec requires self.size > 0
//@   | ensures final(w).log@ == old(w).log@.push(Ev::Locked(final(w).log@.last()->Locked_0, *now)),
//@   | ({ let t = final(w).log@.last()->Locked_0; match r {
//@   |     Step::Return(v) => stored(t, *key) == Some(v) && final(w).table@ == t,
//@   |     Step::Await(rx) => running(t, *key, *now) == Some(rx.ch()) && final(w).table@ == t,
//@   |     Step::Init(tx) => stored(t, *key) is None && running(t, *key, *now) is None && now.fresh(tx.ch()) && tx.inner().room() == self.size && final(w).table@ == t.insert(*key, final(w).table@[*key]) && final(w).table@[*key] is Pending && final(w).table@[*key]->Pending_0.ch() == tx.ch(),
//@   | } })
//@ fn src/core/data_loader/dedupe.rs :: impl<K: Key, V: Value> Dedupe<K, V> :: fn dedupe async=drop
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   attr #[verifier::loop_isolation(false)]
//@   sub /self\.cache\.lock\(\)\.unwrap\(\)/ => w.lock_(&now_())
//@   sub /fn dedupe<'a, Fn, Fut>\(&'a self, key: &'a K, or_else: Fn\) -> V\s*where\s*Fn: FnOnce\(\) -> Fut,\s*Fut: Future<Output = V>,/ => fn dedupe<'a, O: Op<V>>(&'a self, key: &'a K, or_else: O, w: &mut World<K, V>) -> V
//@   sub /self\.step\(key\)/ => self.step(key, w, &now_())
//@   sub /\bor_else\(\)/ => or_else.run_(w)
//@   sub /\.recv\(\)/ => .recv(w)
//@   opt /\.send\(/ => .send(w, 
//@   spec requires self.size > 0
//@   | ensures exists|n: nat| #[trigger] retried(final(w).log@.skip(old(w).log@.len() as int), *key, n) && settled(self.persist, final(w).log@.skip((old(w).log@.len() + 2 * n) as int), *key, or_else.result(), r, final(w).table@)
//@   opt /\bcontinue;/ => { proof { assert(w.log@.skip(l0.len() as int).take(2 * n as int) =~= l1); lemma_retried(w.log@.skip(l0.len() as int), l1, *key, n); n = n + 1; } continue; }
//@   opt /\b(return|break) (\w+);/ => { proof { let f = w.log@.skip(l0.len() as int); assert(f.take(2 * n as int) =~= l1.take(2 * n as int)); lemma_kept(f, l1, *key, n); assert(f.skip(2 * n as int) =~= w.log@.skip((l0.len() + 2 * n) as int)); assert(settled(self.persist, w.log@.skip((l0.len() + 2 * n) as int), *key, run0, \2, w.table@)); } \1 \2; }
//@   start let ghost l0 = w.log@; let ghost run0 = or_else.result(); let ghost mut n: nat = 0; let ghost mut l1: Seq<Ev<K, V>> = Seq::empty();
//@   loop 1 invariant l0 == old(w).log@, run0 == or_else.result(), l0.len() + 2 * n == w.log@.len(), l0 == w.log@.take(l0.len() as int), retried(w.log@.skip(l0.len() as int), *key, n),
//@   loopstart 1 proof { l1 = w.log@.skip(l0.len() as int); }
}
impl<K: Key, V: Value, E: Value> DedupeResult<K, V, E> {
//@ fn src/core/data_loader/dedupe.rs :: impl<K: Key, V: Value, E: Value> DedupeResult<K, V, E> :: fn new
//@   spec ensures r.0.size > 0, r.0.persist == persist, r.0.cache.inner().inner()@ == Map::<K, State<Result<V, E>>>::empty()
//@ fn src/core/data_loader/dedupe.rs :: impl<K: Key, V: Value, E: Value> DedupeResult<K, V, E> :: fn dedupe async=drop
//@   sub /fn dedupe<'a, Fn, Fut>\(&'a self, key: &'a K, or_else: Fn\) -> Result<V, E>\s*where\s*Fn: FnOnce\(\) -> Fut,\s*Fut: Future<Output = Result<V, E>>,/ => fn dedupe<'a, O: Op<Result<V, E>>>(&'a self, key: &'a K, or_else: O, w: &mut World<K, Result<V, E>>) -> Result<V, E>
//@   sub /\.dedupe\(key, or_else\)/ => .dedupe(key, or_else, w)
//@   spec requires self.0.size > 0
//@   | ensures exists|n: nat| #[trigger] retried(final(w).log@.skip(old(w).log@.len() as int), *key, n) && settled(self.0.persist, final(w).log@.skip((old(w).log@.len() + 2 * n) as int), *key, or_else.result(), r, final(w).table@)
}
}
fn main() {}
