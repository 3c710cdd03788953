pub mod m_valid {
// Assumed contract of tailcall-valid's Valid: a value, or the causes why there is none, in order.
use vstd::prelude::*;
verus! {
#[verifier::external_body] #[verifier::accept_recursive_types(E)] pub struct Cause<E> { _p: core::marker::PhantomData<E> }
pub enum Out<A, E> { Good(A), Bad(Seq<Cause<E>>) }
pub uninterp spec fn cause<E>(e: E) -> Cause<E>;
pub uninterp spec fn traced1<E>(c: Cause<E>, m: Seq<char>) -> Cause<E>;
pub open spec fn traced<E>(c: Seq<Cause<E>>, m: Seq<char>) -> Seq<Cause<E>> { c.map_values(|x: Cause<E>| traced1(x, m)) }
#[verifier::external_body] #[verifier::reject_recursive_types(E)] pub struct ValidationError<E> { _p: core::marker::PhantomData<E> }
impl<E> ValidationError<E> {
    pub uninterp spec fn causes(&self) -> Seq<Cause<E>>;
    #[verifier::external_body] pub fn new(e: E) -> (r: Self) ensures r.causes() == seq![cause(e)] { unimplemented!() }
    #[verifier::external_body] pub fn trace(self, m: &str) -> (r: Self) ensures r.causes() == traced(self.causes(), m@) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(E)] pub struct Valid<A, E> { _p: core::marker::PhantomData<(A, E)> }
pub open spec fn out_of<A, E>(r: Result<A, ValidationError<E>>) -> Out<A, E> { match r { Ok(a) => Out::Good(a), Err(e) => Out::Bad(e.causes()) } }
// everything good: the values in order; else all causes, in order
pub open spec fn bads<A, E>(s: Seq<Out<A, E>>) -> Seq<Cause<E>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { bads(s.drop_last()) + (match s.last() { Out::Good(_) => Seq::empty(), Out::Bad(c) => c }) } }
pub open spec fn no_bad<A, E>(s: Seq<Out<A, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Good }
pub open spec fn values<A, E>(s: Seq<Out<A, E>>) -> Seq<A> { s.map_values(|o: Out<A, E>| o->Good_0) }
pub open spec fn gathered<A, E>(s: Seq<Out<A, E>>, r: Out<Vec<A>, E>) -> bool { if no_bad(s) { r is Good && r->Good_0@ == values(s) } else { r == Out::<Vec<A>, E>::Bad(bads(s)) } }
pub open spec fn answers<T, A, E, F: Fn(T) -> Valid<A, E>>(f: F, v: Seq<T>, s: Seq<Out<A, E>>) -> bool { s.len() == v.len() && forall|i: int| #![trigger s[i]] 0 <= i < v.len() ==> exists|q: Valid<A, E>| #[trigger] f.ensures((v[i],), q) && q.out() == s[i] }
impl<A, E> Valid<A, E> {
    pub uninterp spec fn out(&self) -> Out<A, E>;
    #[verifier::external_body] pub fn succeed(a: A) -> (r: Self) ensures r.out() == Out::<A, E>::Good(a) { unimplemented!() }
    #[verifier::external_body] pub fn fail(e: E) -> (r: Self) ensures r.out() == Out::<A, E>::Bad(seq![cause(e)]) { unimplemented!() }
    #[verifier::external_body] pub fn from_validation_err(e: ValidationError<E>) -> (r: Self) ensures r.out() == Out::<A, E>::Bad(e.causes()) { unimplemented!() }
    #[verifier::external_body] pub fn from(x: Result<A, ValidationError<E>>) -> (r: Self) ensures r.out() == out_of(x) { unimplemented!() }
    #[verifier::external_body] pub fn to_result(self) -> (r: Result<A, ValidationError<E>>) ensures out_of(r) == self.out() { unimplemented!() }
    #[verifier::external_body] pub fn trace(self, m: &str) -> (r: Self) ensures r.out() == (match self.out() { Out::Good(a) => Out::Good(a), Out::Bad(c) => Out::<A, E>::Bad(traced(c, m@)) }) { unimplemented!() }
    #[verifier::external_body] pub fn map<B, F: FnOnce(A) -> B>(self, f: F) -> (r: Valid<B, E>)
        requires self.out() is Good ==> f.requires((self.out()->Good_0,))
        ensures match self.out() { Out::Good(a) => r.out() is Good && f.ensures((a,), r.out()->Good_0), Out::Bad(c) => r.out() == Out::<B, E>::Bad(c) } { unimplemented!() }
    #[verifier::external_body] pub fn and_then<B, F: FnOnce(A) -> Valid<B, E>>(self, f: F) -> (r: Valid<B, E>)
        requires self.out() is Good ==> f.requires((self.out()->Good_0,))
        ensures match self.out() { Out::Good(a) => f.ensures((a,), r), Out::Bad(c) => r.out() == Out::<B, E>::Bad(c) } { unimplemented!() }
    // both, or the causes of both
    #[verifier::external_body] pub fn zip<B>(self, o: Valid<B, E>) -> (r: Valid<(A, B), E>)
        ensures r.out() == (match (self.out(), o.out()) { (Out::Good(a), Out::Good(b)) => Out::Good((a, b)), (Out::Bad(c), Out::Good(_)) => Out::Bad(c), (Out::Good(_), Out::Bad(d)) => Out::Bad(d), (Out::Bad(c), Out::Bad(d)) => Out::<(A, B), E>::Bad(c + d) }) { unimplemented!() }
    // each item in turn, all of them
    #[verifier::external_body] pub fn from_iter_<T, F: Fn(T) -> Valid<A, E>>(v: Vec<T>, f: F) -> (r: Valid<Vec<A>, E>)
        requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
        ensures exists|s: Seq<Out<A, E>>| #[trigger] answers(f, v@, s) && gathered(s, r.out()) { unimplemented!() }
}
pub trait IntoValid<A, E> { fn into_valid_(self) -> Valid<A, E>; }
impl<A, E> IntoValid<A, E> for Result<A, ValidationError<E>> { fn into_valid_(self) -> (r: Valid<A, E>) ensures r.out() == out_of(self) { Valid::from(self) } }
} // verus!
}
pub use m_valid::*;
