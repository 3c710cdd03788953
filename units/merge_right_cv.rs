#![feature(allocator_api)]
#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/lookup.rs
pub mod indexmap { use super::Lookup;
//@ include prelude/map.rs MAP=IndexMap MOD=map KEEP=true
pub use map::IndexMap; }
//@ include prelude/const_value.rs
use indexmap::IndexMap;
verus! {
broadcast use indexmap::map::axiom_map_decreases;
// Contracts of MergeRight for Vec<A> and IndexMap<K, V>, discharged for every A, K, V in
// unit merge_right, instantiated here at the element type (Verus rejects the
// cyclic trait dictionary that the generic impl would need).
impl VecMerge for Vec<CV> {
    #[verifier::external_body]
    fn merge_right(self, other: Self) -> (r: Self) ensures r@ == self@ + other@ { unimplemented!() }
}
impl IndexMap<Name, CV> {
    #[verifier::external_body]
    pub fn merge_right(self, other: Self) -> (r: Self) ensures om_merged(self@, other@, r@) { unimplemented!() }
}
pub trait VecMerge: Sized { fn merge_right(self, other: Self) -> Self; }
pub open spec fn om_merged(x: Map<Name, CV>, y: Map<Name, CV>, z: Map<Name, CV>) -> bool {
    &&& forall|k: Name| #[trigger] z.dom().contains(k) <==> x.dom().contains(k) || y.dom().contains(k)
    &&& forall|k: Name| #[trigger] z.dom().contains(k) ==>
                if x.dom().contains(k) && y.dom().contains(k) { cv_merged(x[k], y[k], z[k]) }
                else if x.dom().contains(k) { z[k] == x[k] } else { z[k] == y[k] }
}
pub trait MergeRight: Sized {
    spec fn merged(self, other: Self, r: Self) -> bool;
    fn merge_right(self, other: Self) -> (r: Self)
        ensures Self::merged(self, other, r);
}

// GraphQL values: lists concatenate, anything else is appended to a left list,
// objects merge per key, otherwise the right value wins.
pub open spec fn cv_merged(a: CV, b: CV, r: CV) -> bool
    decreases a
{
    match (a, b) {
        (CV::List(x), CV::List(y)) => r is List && r->List_0@ == x@ + y@,
        (CV::List(x), y) => r is List && r->List_0@ == x@.push(y),
        (CV::Object(x), CV::Object(y)) => r is Object && ({
            let z = r->Object_0@;
            &&& forall|k: Name| #[trigger] z.dom().contains(k) <==> x@.dom().contains(k) || y@.dom().contains(k)
            &&& forall|k: Name| #[trigger] z.dom().contains(k) ==>
                if x@.dom().contains(k) && y@.dom().contains(k) { x@.dom().contains(k) && cv_merged(x@[k], y@[k], z[k]) }
                else if x@.dom().contains(k) { z[k] == x@[k] } else { z[k] == y@[k] }
        }),
        (_, y) => r == y,
    }
}
use async_graphql_value::Name;
use async_graphql_value::ConstValue as CV;
impl MergeRight for async_graphql_value::ConstValue {
    open spec fn merged(self, other: Self, r: Self) -> bool { cv_merged(self, other, r) }
//@ fn src/core/merge_right.rs :: impl MergeRight for async_graphql_value::ConstValue :: fn merge_right vis=none
}

}
fn main() {}
