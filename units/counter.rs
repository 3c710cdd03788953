#![allow(unused)]
use vstd::prelude::*;
verus! {
// numbers: `+` and one
pub trait Num: Sized + Copy { spec fn unit() -> Self; spec fn sum(a: Self, b: Self) -> Self; fn one() -> (r: Self) ensures r == Self::unit(); fn plus_(self, b: Self) -> (r: Self) ensures r == Self::sum(self, b); }
pub open spec fn next_<A: Num>(a: A) -> A { A::sum(a, A::unit()) }
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct Cell<A> { _k: core::marker::PhantomData<A> }
impl<A: Copy> Cell<A> {
    pub uninterp spec fn v(&self) -> A;
    #[verifier::external_body] pub fn new(a: A) -> (r: Self) ensures r.v() == a { unimplemented!() }
    #[verifier::external_body] pub fn get(&self) -> (r: A) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, a: A) ensures final(self).v() == a { unimplemented!() }
    #[verifier::external_body] pub fn replace(&mut self, a: A) -> (r: A) ensures final(self).v() == a, r == old(self).v() { unimplemented!() }
}
// between two locks others may have counted: nothing is known of the number then
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct Mutex<A> { _k: core::marker::PhantomData<A> }
// one use of the lock: the number found, the number left
pub ghost struct Use<A> { pub found: A, pub left: A }
impl<A> Mutex<A> {
    pub uninterp spec fn uses(&self) -> Seq<Use<A>>;
    #[verifier::external_body] pub fn lock_(&mut self) -> (r: &mut A) ensures final(self).uses() == old(self).uses().push(Use { found: *r, left: *final(r) }) { unimplemented!() }
}
#[verifier::reject_recursive_types(A)]
//@ item src/core/counter.rs :: struct Counter
#[verifier::reject_recursive_types(A)]
//@ item src/core/counter.rs :: struct AtomicCounter
impl<A: Copy + Num> Counter<A> {
//@ fn src/core/counter.rs :: impl<A> Counter<A> :: fn new
//@   spec ensures r.0.v() == start
//@ fn src/core/counter.rs :: impl<A: Copy + num::Num> Count for Counter<A> :: fn next vis=pub
//@   sub /next\(&self\)/ => next(&mut self)
//@   opt /(\*?\w+(?:\.\w+)*(?:\(\))?) \+ A::one\(\)/ => (\1).plus_(A::one())
//@   spec ensures r == old(self).0.v(), final(self).0.v() == next_(old(self).0.v())
}
impl<A: Copy + Num> AtomicCounter<A> {
//@ fn src/core/counter.rs :: impl<A: Copy + num::Num> Count for AtomicCounter<A> :: fn next vis=pub
//@   sub /next\(&self\)/ => next(&mut self)
//@   opt /\.lock\(\)\.unwrap\(\)/ => .lock_()
//@   opt /(\*?\w+(?:\.\w+)*(?:\(\))?) \+ A::one\(\)/ => (\1).plus_(A::one())
//@   spec ensures final(self).0.uses().len() == old(self).0.uses().len() + 1, ({ let u = final(self).0.uses().last(); u.left == next_(u.found) && r == u.left })
}
} // verus!
fn main() {}
