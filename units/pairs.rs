#![allow(unused)]
use vstd::prelude::*;
verus! {
// Keys: equality is equality of values, clones are equal.
pub trait Key: Sized { fn clone(&self) -> (r: Self) ensures r == *self; fn to_owned(&self) -> (r: Self) ensures r == *self; }
// std's HashMap and HashSet
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && self@[*k] == *v, None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), match r { Some(x) => old(self)@.contains_key(k) && old(self)@[k] == x, None => !old(self)@.contains_key(k) } { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), match r { Some(x) => old(self)@.contains_key(*k) && old(self)@[*k] == x, None => !old(self)@.contains_key(*k) } { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { _k: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> HashSet<K> {
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
}
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(V)]
//@ item src/core/config/transformer/merge_types/pair_map.rs :: struct PairMap
#[verifier::reject_recursive_types(A)]
//@ item src/core/config/transformer/merge_types/pair_set.rs :: struct PairSet
impl<A: Key, V> PairMap<A, V> {
    // what is known of a pair: what was said of it in this order, else in the other
    pub open spec fn known(&self, a: A, b: A) -> Option<V> {
        if self.map@.contains_key((a, b)) { Some(self.map@[(a, b)]) } else if self.map@.contains_key((b, a)) { Some(self.map@[(b, a)]) } else { None }
    }
//@ fn src/core/config/transformer/merge_types/pair_map.rs :: impl<A: PartialEq + Hash + Eq + Clone, V> PairMap<A, V> :: fn add
//@   spec ensures final(self).known(a1, a2) == Some(value), final(self).known(a2, a1) is Some, !old(self).map@.contains_key((a2, a1)) ==> final(self).known(a2, a1) == Some(value),
//@   | forall|x: A, y: A| (x, y) != (a1, a2) && (y, x) != (a1, a2) ==> #[trigger] final(self).known(x, y) == old(self).known(x, y)
//@ fn src/core/config/transformer/merge_types/pair_map.rs :: impl<A: PartialEq + Hash + Eq + Clone, V> PairMap<A, V> :: fn get
//@   spec ensures match r { Some(v) => self.known(*a1, *a2) == Some(*v), None => self.known(*a1, *a2) is None }
}
impl<A: Key> PairSet<A> {
    // a pair is held in whichever order it was put
    pub open spec fn holds(&self, a: A, b: A) -> bool { self.visited@.contains((a, b)) || self.visited@.contains((b, a)) }
//@ fn src/core/config/transformer/merge_types/pair_set.rs :: impl<A: PartialEq + Hash + Eq + Clone> PairSet<A> :: fn insert
//@   spec ensures final(self).holds(a1, a2), final(self).holds(a2, a1), forall|x: A, y: A| (x, y) != (a1, a2) && (y, x) != (a1, a2) ==> #[trigger] final(self).holds(x, y) == old(self).holds(x, y)
//@ fn src/core/config/transformer/merge_types/pair_set.rs :: impl<A: PartialEq + Hash + Eq + Clone> PairSet<A> :: fn contains
//@   spec ensures r == self.holds(*a1, *a2)
}
pub mod m_lift {
use vstd::prelude::*;
verus! {
//@ item src/core/lift.rs :: struct Lift
impl<A> Lift<A> {
    pub closed spec fn held(&self) -> A { self.0 }
//@ fn src/core/lift.rs :: impl<A> Lift<A> :: fn take
//@   spec ensures r == self.held()
//@ fn src/core/lift.rs :: impl<A> Deref for Lift<A> :: fn deref vis=pub
//@   opt /Self::Target/ => A
//@   spec ensures *r == self.held()
//@ fn src/core/lift.rs :: impl<A> From<A> for Lift<A> :: fn from vis=pub
//@   spec ensures r.held() == a
}
pub trait CanLift: Sized { fn lift(self) -> (r: Lift<Self>) ensures r.held() == self; }
impl<A> CanLift for A {
//@ fn src/core/lift.rs :: impl<A> CanLift for A :: fn lift vis=none
}
}
}
pub mod m_variance {
use vstd::prelude::*;
verus! {
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(E)] pub struct Valid<A, E> { _p: core::marker::PhantomData<(A, E)> }
impl<A, E> Valid<A, E> { pub uninterp spec fn ok(&self) -> Option<A>; #[verifier::external_body] pub fn succeed(a: A) -> (r: Self) ensures r.ok() == Some(a) { unimplemented!() } }
pub trait Primitive: Sized {}
pub trait MergeRight: Sized { spec fn merged(self, other: Self) -> Self; fn merge_right(self, other: Self) -> (r: Self) ensures r == self.merged(other); }
impl<A: Primitive> MergeRight for A {
    open spec fn merged(self, other: Self) -> Self { other }
//@ fn src/core/primitive.rs :: impl<A: Primitive> MergeRight for A :: fn merge_right vis=none
}
pub trait Invariant: Sized { fn unify(self, other: Self) -> (r: Valid<Self, String>) ensures r.ok() == Some(other); }
impl<A: Primitive + Sized> Invariant for A {
//@ fn src/core/variance.rs :: impl<A: Primitive + Sized> Invariant for A :: fn unify vis=none
}
}
}
} // verus!
fn main() {}
