// Assumed contract of std's iterator adaptors over a finite sequence of items (each is the adaptor's documentation):
// `It` is the sequence of the items still to come.
pub mod p_iter {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
verus! {
// the items marked to be kept
pub open spec fn kept<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let k = kept(s.drop_last(), keep.drop_last()); if keep.last() { k.push(s.last()) } else { k } }
}
pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let k = somes(s.drop_last()); match s.last() { Some(x) => k.push(x), None => k } } }
pub open spec fn keeps<T, F: Fn(&T) -> bool>(f: F, s: Seq<T>, k: Seq<bool>) -> bool { k.len() == s.len() && forall|i: int| #![trigger k[i]] 0 <= i < s.len() ==> f.ensures((&s[i],), k[i]) }
pub open spec fn gives<T, U, F: Fn(T) -> U>(f: F, s: Seq<T>, u: Seq<U>) -> bool { u.len() == s.len() && forall|i: int| #![trigger u[i]] 0 <= i < s.len() ==> f.ensures((s[i],), u[i]) }
pub open spec fn found<T>(s: Seq<T>, k: Seq<bool>, r: Option<T>) -> bool { match r { Some(x) => exists|i: int| 0 <= i < k.len() && #[trigger] k[i] && x == s[i] && (forall|j: int| 0 <= j < i ==> !#[trigger] k[j]), None => forall|j: int| 0 <= j < k.len() ==> !#[trigger] k[j] } }
pub open spec fn seqs<T>(s: Seq<It<T>>) -> Seq<Seq<T>> { s.map_values(|x: It<T>| x@) }
pub open spec fn refs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct It<T> { _p: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> It<T> {
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)) ensures gives(f, self@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)) ensures exists|k: Seq<bool>| #[trigger] keeps(f, self@, k) && r@ == kept(self@, k) { unimplemented!() }
    #[verifier::external_body] pub fn flat_map<U, F: Fn(T) -> It<U>>(self, f: F) -> (r: It<U>) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)) ensures exists|p: Seq<It<U>>| #[trigger] gives(f, self@, p) && r@ == flat(seqs(p)) { unimplemented!() }
    #[verifier::external_body] pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)) ensures exists|p: Seq<Option<U>>| #[trigger] gives(f, self@, p) && r@ == somes(p) { unimplemented!() }
    #[verifier::external_body] pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],))
        ensures exists|k: Seq<bool>| #[trigger] keeps(f, self@, k) && found(self@, k, r) { unimplemented!() }
    #[verifier::external_body] pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures exists|k: Seq<bool>| #[trigger] gives(f, self@, k) && r == (exists|i: int| 0 <= i < k.len() && #[trigger] k[i]) { unimplemented!() }
    #[verifier::external_body] pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures exists|k: Seq<bool>| #[trigger] gives(f, self@, k) && r == (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i]) { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, o: It<T>) -> (r: It<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn vec_(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T> Iterator for It<T> { type Item = T; #[verifier::external_body] fn next(&mut self) -> Option<T> { unimplemented!() } }
impl<T> IteratorSpecImpl for It<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<T> { self@ }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self@.len()) }
    open spec fn peek(&self, i: int) -> Option<T> { if 0 <= i < self@.len() { Some(self@[i]) } else { None } }
}
pub trait Walk<T> { spec fn items(&self) -> Seq<T>; fn it_(&self) -> (r: It<&T>) ensures refs(r@) == self.items(), r@.len() == self.items().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.items()[i]; }
impl<T> Walk<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it_(&self) -> It<&T> { unimplemented!() } }
impl<T> Walk<T> for [T] { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it_(&self) -> It<&T> { unimplemented!() } }
pub trait WalkOwn<T> { fn into_it_(self) -> It<T>; }
impl<T> WalkOwn<T> for Vec<T> { #[verifier::external_body] fn into_it_(self) -> (r: It<T>) ensures r@ == self@ { unimplemented!() } }
// what a predicate that depends on the item alone keeps
pub open spec fn only<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let k = only(s.drop_last(), p); if p(s.last()) { k.push(s.last()) } else { k } } }
pub proof fn lemma_only<T>(s: Seq<T>, keep: Seq<bool>, p: spec_fn(T) -> bool)
    requires s.len() == keep.len(), forall|i: int| 0 <= i < s.len() ==> keep[i] == p(#[trigger] s[i])
    ensures kept(s, keep) == only(s, p)
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies keep.drop_last()[i] == p(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); } lemma_only(s.drop_last(), keep.drop_last(), p); assert(s[s.len() - 1] == s.last()); } }
} // verus!
}
pub use p_iter::*;
