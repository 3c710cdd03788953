// Assumed contract of tailcall-valid's Valid: a value, or the causes why there is none.
pub mod p_valid {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(E)]
pub struct Valid<A, E> { _p: core::marker::PhantomData<(A, E)> }
impl<A, E> Valid<A, E> {
    pub uninterp spec fn ok(&self) -> Option<A>;
    #[verifier::external_body] pub fn succeed(a: A) -> (r: Self) ensures r.ok() == Some(a) { unimplemented!() }
    #[verifier::external_body] pub fn fail(e: E) -> (r: Self) ensures r.ok() is None { unimplemented!() }
    #[verifier::external_body] pub fn map<B, F: FnOnce(A) -> B>(self, f: F) -> (r: Valid<B, E>)
        requires self.ok() is Some ==> f.requires((self.ok()->0,))
        ensures match self.ok() { Some(a) => r.ok() is Some && f.ensures((a,), r.ok()->0), None => r.ok() is None } { unimplemented!() }
    #[verifier::external_body] pub fn and_then<B, F: FnOnce(A) -> Valid<B, E>>(self, f: F) -> (r: Valid<B, E>)
        requires self.ok() is Some ==> f.requires((self.ok()->0,))
        ensures match self.ok() { Some(a) => exists|q: Valid<B, E>| f.ensures((a,), q) && r.ok() == q.ok(), None => r.ok() is None } { unimplemented!() }
}
} // verus!
}
pub use p_valid::*;
