// Assumed shape of http's header maps, as far as used here.
pub mod p_headers {
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct Error { _p: () }
// ---- headers: the values held by each name
pub type Held = Map<Seq<char>, Seq<Seq<char>>>;
#[verifier::external_body] pub struct HeaderName { _p: () }
impl View for HeaderName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct HeaderValue { _p: () }
impl View for HeaderValue { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// the characters a value may have
pub uninterp spec fn sayable(t: Seq<char>) -> bool;
#[verifier::external_body] pub struct HeaderMap { _p: () }
impl View for HeaderMap { type V = Held; uninterp spec fn view(&self) -> Held; }
impl HeaderValue {
    #[verifier::external_body] pub fn from_str(t: &str) -> (r: core::result::Result<HeaderValue, Error>) ensures match r { Ok(v) => sayable(t@) && v@ == t@, Err(_) => !sayable(t@) } { unimplemented!() }
    #[verifier::external_body] pub fn from_static(t: &str) -> (r: HeaderValue) ensures r@ == t@ { unimplemented!() }
}
pub open spec fn over(a: Held, b: Held) -> Held { a.union_prefer_right(b) }
#[verifier::external_body] pub fn content_type_() -> (r: HeaderName) ensures r@ == "content-type"@ { unimplemented!() }
impl HeaderMap {
    #[verifier::external_body] pub fn new() -> (r: HeaderMap) ensures r@ == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &HeaderName, v: HeaderValue) ensures final(self)@ == old(self)@.insert(k@, seq![v@]) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Seq<char>, Seq<Seq<char>>>::empty()) { unimplemented!() }
    // HeaderMap::extend takes the place of what is there by the same name
    #[verifier::external_body] pub fn extend(&mut self, o: HeaderMap) ensures final(self)@ == over(old(self)@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: HeaderMap) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone_from(&mut self, o: &HeaderMap) ensures final(self)@ == o@ { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, k: &HeaderName, v: HeaderValue) ensures final(self)@ == old(self)@.insert(k@, if old(self)@.contains_key(k@) { old(self)@[k@].push(v@) } else { seq![v@] }) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &HeaderName) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &HeaderName) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
}
// the pairs in the order they are iterated in
impl HeaderMap { pub uninterp spec fn entries(&self) -> Seq<(Seq<char>, Seq<char>)>; #[verifier::external_body] pub fn iter(&self) -> (r: It<(&HeaderName, &HeaderValue)>) ensures r@.len() == self.entries().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.entries()[i].0 && r@[i].1@ == self.entries()[i].1 { unimplemented!() } }
} // verus!
}
pub use p_headers::*;
