#![feature(allocator_api)]
#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/lookup.rs
//@ include prelude/map.rs MAP=HashMap MOD=m_hash KEEP=false
//@ include prelude/map.rs MAP=BTreeMap MOD=m_btree KEEP=false
pub mod indexmap { use super::Lookup;
//@ include prelude/map.rs MAP=IndexMap MOD=map KEEP=true
pub use map::IndexMap; }
//@ include prelude/set.rs SET=HashSet MOD=s_hash
//@ include prelude/set.rs SET=BTreeSet MOD=s_btree
use m_hash::HashMap; use m_btree::BTreeMap; use indexmap::IndexMap; use s_hash::HashSet; use s_btree::BTreeSet;
verus! {
pub assume_specification<T, A: core::alloc::Allocator, I: IntoIterator<Item = T>> [<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut Vec<T, A>, w: I)
    ensures extended(old(v)@, w, final(v)@);
pub assume_specification<T: Default> [core::mem::take] (d: &mut T) -> (r: T) ensures r == *old(d);
pub uninterp spec fn extended<T, I>(v: Seq<T>, w: I, r: Seq<T>) -> bool;
pub broadcast axiom fn axiom_extend_vec<T>(v: Seq<T>, w: Vec<T>, r: Seq<T>)
    ensures #[trigger] extended(v, w, r) == (r == v + w@);

//@ text src/core/merge_right.rs /pub trait MergeRight\{fn merge_right\(self,other:Self\)->Self;\}/
pub trait MergeRight: Sized {
    // the relation of the property: `r` is what merging `other` over `self` must give
    spec fn merged(self, other: Self, r: Self) -> bool;
    fn merge_right(self, other: Self) -> (r: Self)
        ensures Self::merged(self, other, r);
}
// per key: both sides -> merged, one side -> that side's value, none -> absent
pub open spec fn map_merged<K, V: MergeRight>(a: Map<K, V>, b: Map<K, V>, r: Map<K, V>) -> bool {
    &&& forall|k: K| #[trigger] r.dom().contains(k) <==> a.dom().contains(k) || b.dom().contains(k)
    &&& forall|k: K| #[trigger] r.dom().contains(k) ==> entry_merged(a, b, k, r[k])
}
pub open spec fn entry_merged<K, V: MergeRight>(a: Map<K, V>, b: Map<K, V>, k: K, v: V) -> bool {
    if a.dom().contains(k) && b.dom().contains(k) { V::merged(a[k], b[k], v) }
    else if a.dom().contains(k) { v == a[k] }
    else { v == b[k] }
}
// loop state: keys order[..n] of b are merged in
pub open spec fn map_partial<K, V: MergeRight>(a: Map<K, V>, b: Map<K, V>, order: Seq<K>, n: int, r: Map<K, V>) -> bool {
    &&& forall|k: K| #[trigger] r.dom().contains(k) <==> a.dom().contains(k) || order.take(n).contains(k)
    &&& forall|k: K| #[trigger] r.dom().contains(k) ==> if order.take(n).contains(k) { entry_merged(a, b, k, r[k]) } else { r[k] == a[k] }
}
pub proof fn lemma_step<K, V: MergeRight>(a: Map<K, V>, b: Map<K, V>, order: Seq<K>, n: int, r: Map<K, V>, r2: Map<K, V>, v: V)
    requires map_partial(a, b, order, n, r), 0 <= n < order.len(), order.no_duplicates(), b.dom().contains(order[n]),
        r2 == r.insert(order[n], v) || r2 == r.remove(order[n]).insert(order[n], v), entry_merged(a, b, order[n], v),
    ensures map_partial(a, b, order, n + 1, r2),
{
    assert(order.take(n + 1) =~= order.take(n).push(order[n]));
    assert forall|k: K| order.take(n + 1).contains(k) <==> order.take(n).contains(k) || k == order[n] by {
        if order.take(n).contains(k) { let i = choose|i: int| 0 <= i < n && order.take(n)[i] == k; assert(order.take(n + 1)[i] == k); }
        if k == order[n] { assert(order.take(n + 1)[n] == k); }
    }
    let x = order[n];
    assert forall|k: K| #[trigger] r2.dom().contains(k) <==> a.dom().contains(k) || order.take(n + 1).contains(k) by {
        assert(r.dom().contains(k) <==> a.dom().contains(k) || order.take(n).contains(k));
    }
    assert forall|k: K| #[trigger] r2.dom().contains(k) implies (if order.take(n + 1).contains(k) { entry_merged(a, b, k, r2[k]) } else { r2[k] == a[k] }) by {
        assert(order.take(n + 1).contains(k) <==> order.take(n).contains(k) || k == x);
        if k != x { assert(r.dom().contains(k)); assert(r2[k] == r[k]); }
        else { assert(order.take(n + 1)[n] == x); assert(r2[k] == v); }
    }
}
pub proof fn lemma_fresh<K>(order: Seq<K>, n: int)
    requires order.no_duplicates(), 0 <= n < order.len()
    ensures !order.take(n).contains(order[n])
{}

pub trait Primitive {}
impl<A: Primitive> MergeRight for A {
    open spec fn merged(self, other: Self, r: Self) -> bool { r == other }
//@ fn src/core/primitive.rs :: impl<A: Primitive> MergeRight for A :: fn merge_right vis=none
}
impl<A: MergeRight> MergeRight for Option<A> {
    open spec fn merged(self, other: Self, r: Self) -> bool {
        match (self, other) {
            (Some(a), Some(b)) => r is Some && A::merged(a, b, r->0),
            (None, b) => r == b,
            (a, None) => r == a,
        }
    }
//@ fn src/core/merge_right.rs :: impl<A: MergeRight> MergeRight for Option<A> :: fn merge_right vis=none
}
impl<A> MergeRight for Vec<A> {
    open spec fn merged(self, other: Self, r: Self) -> bool { r@ == self@ + other@ }
//@ fn src/core/merge_right.rs :: impl<A> MergeRight for Vec<A> :: fn merge_right vis=none
//@   start broadcast use axiom_extend_vec;
}
impl<V> MergeRight for BTreeSet<V> {
    open spec fn merged(self, other: Self, r: Self) -> bool { r@ == self@.union(other@) }
//@ fn src/core/merge_right.rs :: impl<V> MergeRight for BTreeSet<V> :: fn merge_right vis=none
}
impl<V> MergeRight for HashSet<V> {
    open spec fn merged(self, other: Self, r: Self) -> bool { r@ == self@.union(other@) }
//@ fn src/core/merge_right.rs :: impl<V> MergeRight for HashSet<V> :: fn merge_right vis=none
}
impl<K, V: MergeRight> MergeRight for BTreeMap<K, V> {
    open spec fn merged(self, other: Self, r: Self) -> bool { map_merged(self@, other@, r@) }
//@ fn src/core/merge_right.rs :: impl<K, V> MergeRight for BTreeMap<K, V> :: fn merge_right vis=none
//@   loop 1 it=it invariant map_partial(self@, other@, other.order(), it.index() as int, this_@), m_btree::into_of(it.seq(), other),
//@   loopstart 1 broadcast use m_btree::axiom_order; let ghost n = it.index() as int; let ghost before = this_@; proof { lemma_fresh(other.order(), n); assert(it.seq()[n].0 == other.order()[n]); assert(other.order().contains(other.order()[n])); }
//@   loopend 1 proof { lemma_step(self@, other@, other.order(), n, before, this_@, this_@[other.order()[n]]); }
//@   after 1 proof { broadcast use m_btree::axiom_order; assert(other.order().take(other.order().len() as int) =~= other.order()); }
}
impl<K, V: MergeRight> MergeRight for HashMap<K, V> {
    open spec fn merged(self, other: Self, r: Self) -> bool { map_merged(self@, other@, r@) }
//@ fn src/core/merge_right.rs :: impl<K, V> MergeRight for HashMap<K, V> :: fn merge_right vis=none
//@   loop 1 it=it invariant map_partial(self@, other@, other.order(), it.index() as int, this_@), m_hash::into_of(it.seq(), other),
//@   loopstart 1 broadcast use m_hash::axiom_order; let ghost n = it.index() as int; let ghost before = this_@; proof { lemma_fresh(other.order(), n); assert(it.seq()[n].0 == other.order()[n]); assert(other.order().contains(other.order()[n])); }
//@   loopend 1 proof { lemma_step(self@, other@, other.order(), n, before, this_@, this_@[other.order()[n]]); }
//@   after 1 proof { broadcast use m_hash::axiom_order; assert(other.order().take(other.order().len() as int) =~= other.order()); }
}
// insertion order: the left keys where they were, then the keys only the right has, in its order
pub open spec fn order_merged<K>(a: Seq<K>, b: Seq<K>, n: int) -> Seq<K>
    decreases n
{
    if n <= 0 || n > b.len() { a } else {
        let p = order_merged(a, b, n - 1);
        if a.contains(b[n - 1]) { p } else { p.push(b[n - 1]) }
    }
}
impl<K, V: MergeRight + Default> MergeRight for IndexMap<K, V> {
    open spec fn merged(self, other: Self, r: Self) -> bool {
        &&& map_merged(self@, other@, r@)
        &&& r.order() == order_merged(self.order(), other.order(), other.order().len() as int)
    }
//@ fn src/core/merge_right.rs :: impl<K, V> MergeRight for IndexMap<K, V> :: fn merge_right vis=none
//@   loop 1 it=it invariant map_partial(self@, other@, other.order(), it.index() as int, this_@), indexmap::map::into_of(it.seq(), other), this_.order() == order_merged(self.order(), other.order(), it.index() as int),
//@   loopstart 1 broadcast use indexmap::map::axiom_order; let ghost n = it.index() as int; let ghost before = this_@; proof { lemma_fresh(other.order(), n); assert(it.seq()[n].0 == other.order()[n]); assert(other.order().contains(other.order()[n])); assert(self.order().contains(other.order()[n]) <==> self@.dom().contains(other.order()[n])); }
//@   loopend 1 proof { lemma_step(self@, other@, other.order(), n, before, this_@, this_@[other.order()[n]]); }
//@   after 1 proof { broadcast use indexmap::map::axiom_order; assert(other.order().take(other.order().len() as int) =~= other.order()); }
}
}
fn main() {}
