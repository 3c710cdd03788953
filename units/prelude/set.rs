pub mod $MOD {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct $SET<K> { _k: core::marker::PhantomData<K> }
impl<K> View for $SET<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> $SET<K> {
    #[verifier::external_body]
    pub fn extend(&mut self, other: Self)
        ensures final(self)@ == old(self)@.union(other@) { unimplemented!() }
}
} // verus!
} // mod
