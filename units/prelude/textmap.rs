// Assumed contract of $MAP: a finite map whose keys are texts.
pub mod $MOD {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use super::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct $MAP<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for $MAP<K, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
pub broadcast axiom fn axiom_map_decreases<K, V>(m: $MAP<K, V>, k: Seq<char>)
    requires m@.dom().contains(k)
    ensures (decreases_to!(m => #[trigger] m@[k]));
pub open spec fn pairs<K: KeyText, V>(s: Seq<(K, V)>) -> Map<Seq<char>, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { pairs(s.drop_last()).insert(s.last().0.key_text(), s.last().1) }
}
impl<K: KeyText, V> $MAP<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_iter<I: Iterator<Item = (K, V)>>(i: I) -> (r: Self) requires i.obeys_prophetic_iter_laws() ensures i.will_return_none(), r@ == pairs(i.remaining()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.key_text(), v) { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: KeyText + ?Sized>(&self, q: &Q) -> (r: Option<&V>) ensures r == (if self@.dom().contains(q.key_text()) { Some(&self@[q.key_text()]) } else { None::<&V> }) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<Q: KeyText + ?Sized>(&mut self, q: &Q) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(q.key_text()), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *r->0 == old(self)@[q.key_text()] && final(self)@ == old(self)@.insert(q.key_text(), *final(r->0)) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: KeyText + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.dom().contains(q.key_text()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Seq<char>, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: $MAPIter<'_, K, V>) ensures texts_once(r.rem()), ref_pairs(r.rem()) == self@ { unimplemented!() }
}
pub open spec fn ref_pairs<'a, K: KeyText, V>(s: Seq<(&'a K, &'a V)>) -> Map<Seq<char>, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { ref_pairs(s.drop_last()).insert(s.last().0.key_text(), *s.last().1) }
}
pub open spec fn texts_once<'a, K: KeyText, V>(s: Seq<(&'a K, &'a V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.key_text() != (#[trigger] s[j]).0.key_text() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct $MAPIter<'a, K, V> { _k: core::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> $MAPIter<'a, K, V> { pub uninterp spec fn rem(&self) -> Seq<(&'a K, &'a V)>; }
impl<'a, K, V> Iterator for $MAPIter<'a, K, V> {
    type Item = (&'a K, &'a V);
    #[verifier::external_body]
    fn next(&mut self) -> Option<(&'a K, &'a V)> { unimplemented!() }
}
impl<'a, K, V> IteratorSpecImpl for $MAPIter<'a, K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<(&'a K, &'a V)> { self.rem() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.rem().len()) }
    open spec fn peek(&self, i: int) -> Option<(&'a K, &'a V)> { if 0 <= i < self.rem().len() { Some(self.rem()[i]) } else { None } }
}
// the object as a JSON value
pub open spec fn map_jv<V: HasJv>(m: Map<Seq<char>, V>) -> JV { JV::Obj(Map::new(m.dom(), |k: Seq<char>| m[k].jv())) }
} // verus!
} // mod
