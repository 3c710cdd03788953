// Assumed contract of $MAP (std or indexmap): a finite map from keys to values.
// $KEEP: keys keep their insertion order (indexmap).
// Keys that `Eq`/`Ord` call equal are taken to be equal in specifications.
pub mod $MOD {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use super::Lookup;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct $MAP<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for $MAP<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> $MAP<K, V> {
    // iteration order: a fixed permutation of the keys
    pub uninterp spec fn order(&self) -> Seq<K>;
    pub open spec fn order_ok(&self) -> bool {
        &&& self.order().no_duplicates()
        &&& self.order().len() == self@.len()
        &&& forall|k: K| self@.dom().contains(k) <==> self.order().contains(k)
    }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty(), r.order() == Seq::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty(), r.order() == Seq::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), final(self).order_ok(),
            $KEEP ==> final(self).order() == (if old(self)@.dom().contains(k) { old(self).order() } else { old(self).order().push(k) }),
            r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Lookup<K> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q.key()), final(self).order_ok(),
            r == (if old(self)@.dom().contains(q.key()) { Some(old(self)@[q.key()]) } else { None::<V> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Lookup<K> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(q.key()) { Some(&self@[q.key()]) } else { None::<&V> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: Lookup<K> + ?Sized>(&mut self, q: &Q) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(q.key()),
            r is None ==> final(self)@ == old(self)@,
            final(self).order() == old(self).order(),
            r is Some ==> *r->0 == old(self)@[q.key()] && final(self)@ == old(self)@.insert(q.key(), *final(r->0)), { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Lookup<K> + ?Sized>(&self, q: &Q) -> (r: bool)
        ensures r == self@.dom().contains(q.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), r == (self@ =~= Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, other: Self)
        ensures final(self)@ == old(self)@.union_prefer_right(other@), final(self).order_ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.dom().contains(k) && *e.slot == old(self)@[k]
                && final(self)@ == old(self)@.insert(k, *final(e.slot)) && final(self).order() == old(self).order(),
            Entry::Vacant(e) => !old(self)@.dom().contains(k) && e.key == k && *e.map == *old(self) && *final(self) == *final(e.map),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Iter<'_, K, V>) ensures iter_of(r.rem(), *self) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
#[verifier::reject_recursive_types(K)]
pub struct OccupiedEntry<'a, K, V> { pub key: K, pub slot: &'a mut V }
#[verifier::reject_recursive_types(K)]
pub struct VacantEntry<'a, K, V> { pub key: K, pub map: &'a mut $MAP<K, V> }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> (r: &V) ensures *r == *old(self.slot) { &*self.slot }
    pub fn get_mut(&mut self) -> (r: &mut V)
        ensures *r == *old(self).slot, *final(r) == *final(self).slot, *final(final(self).slot) == *final(old(self).slot), final(self).key == old(self).key { &mut *self.slot }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
            $KEEP ==> final(self.map).order() == old(self.map).order().push(self.key) { unimplemented!() }
}
pub broadcast axiom fn axiom_order<K, V>(m: $MAP<K, V>)
    ensures (#[trigger] m.order()).no_duplicates(), m.order().len() == m@.len(),
        forall|k: K| m@.dom().contains(k) <==> #[trigger] m.order().contains(k);

// a value stored in a map is structurally smaller than the map
pub broadcast axiom fn axiom_map_decreases<K, V>(m: $MAP<K, V>, k: K)
    requires m@.dom().contains(k)
    ensures (decreases_to!(m => #[trigger] m@[k]));

pub open spec fn into_of<K, V>(s: Seq<(K, V)>, m: $MAP<K, V>) -> bool {
    &&& s.len() == m.order().len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == m.order()[i] && s[i].1 == m@[s[i].0]
}
pub open spec fn iter_of<K, V>(s: Seq<(&K, &V)>, m: $MAP<K, V>) -> bool {
    &&& s.len() == m.order().len()
    &&& forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).0 == m.order()[i] && *s[i].1 == m@[*s[i].0]
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IntoIter<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<K, V> IntoIter<K, V> { pub uninterp spec fn rem(&self) -> Seq<(K, V)>; }
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    #[verifier::external_body]
    fn next(&mut self) -> Option<(K, V)> { unimplemented!() }
}
impl<K, V> IteratorSpecImpl for IntoIter<K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<(K, V)> { self.rem() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.rem().len()) }
    open spec fn peek(&self, i: int) -> Option<(K, V)> { if 0 <= i < self.rem().len() { Some(self.rem()[i]) } else { None } }
}
impl<K, V> IntoIterator for $MAP<K, V> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<K, V>) ensures into_of(r.rem(), self) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Iter<'a, K, V> { _k: core::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> Iter<'a, K, V> { pub uninterp spec fn rem(&self) -> Seq<(&'a K, &'a V)>; }
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    #[verifier::external_body]
    fn next(&mut self) -> Option<(&'a K, &'a V)> { unimplemented!() }
}
impl<'a, K, V> IteratorSpecImpl for Iter<'a, K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<(&'a K, &'a V)> { self.rem() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.rem().len()) }
    open spec fn peek(&self, i: int) -> Option<(&'a K, &'a V)> { if 0 <= i < self.rem().len() { Some(self.rem()[i]) } else { None } }
}
} // verus!
} // mod
