#![feature(allocator_api)]
#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/lookup.rs
//@ include prelude/map.rs MAP=Mapping_ MOD=m_yaml KEEP=false
pub mod serde_yaml_ng {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
verus! {
// Assumed shape of the dependency's type (serde_yaml_ng 0.10): its public variants.
#[verifier::external_body] pub struct Number { _p: () }
#[verifier::external_body] pub struct Tag { _p: () }
pub struct TaggedValue { pub tag: Tag, pub value: Value }
#[verifier::external_body] pub struct Mapping { _p: () }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Sequence(Vec<Value>), Mapping(Mapping), Tagged(Box<TaggedValue>) }
impl View for Mapping { type V = Map<Value, Value>; uninterp spec fn view(&self) -> Map<Value, Value>; }
impl Mapping {
    pub uninterp spec fn order(&self) -> Seq<Value>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: Value, v: Value) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Value) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<Value> }) { unimplemented!() }
}
pub broadcast axiom fn axiom_order(m: Mapping)
    ensures (#[trigger] m.order()).no_duplicates(), m.order().len() == m@.len(),
        forall|k: Value| m@.dom().contains(k) <==> #[trigger] m.order().contains(k);
pub broadcast axiom fn axiom_map_decreases(v: Value, k: Value)
    requires v is Mapping, v->Mapping_0@.dom().contains(k)
    ensures (decreases_to!(v => #[trigger] v->Mapping_0@[k]));
#[verifier::external_body]
pub struct IntoIter { _k: () }
impl IntoIter { pub uninterp spec fn rem(&self) -> Seq<(Value, Value)>; }
impl Iterator for IntoIter {
    type Item = (Value, Value);
    #[verifier::external_body]
    fn next(&mut self) -> Option<(Value, Value)> { unimplemented!() }
}
impl IteratorSpecImpl for IntoIter {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<(Value, Value)> { self.rem() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.rem().len()) }
    open spec fn peek(&self, i: int) -> Option<(Value, Value)> { if 0 <= i < self.rem().len() { Some(self.rem()[i]) } else { None } }
}
pub open spec fn into_of(s: Seq<(Value, Value)>, m: Mapping) -> bool {
    &&& s.len() == m.order().len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == m.order()[i] && s[i].1 == m@[s[i].0]
}
impl IntoIterator for Mapping {
    type Item = (Value, Value);
    type IntoIter = IntoIter;
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter) ensures into_of(r.rem(), self) { unimplemented!() }
}

} // verus!
}
use serde_yaml_ng::*;
use vstd::std_specs::iter::*;
verus! {
impl PartialEq for Tag {
    #[verifier::external_body]
    fn eq(&self, o: &Tag) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Tag {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Tag) -> bool { *self == *o }
}
pub assume_specification<T, A: core::alloc::Allocator, I: IntoIterator<Item = T>> [<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut Vec<T, A>, w: I)
    ensures extended(old(v)@, w, final(v)@);
pub uninterp spec fn extended<T, I>(v: Seq<T>, w: I, r: Seq<T>) -> bool;
pub broadcast axiom fn axiom_extend_vec<T>(v: Seq<T>, w: Vec<T>, r: Seq<T>)
    ensures #[trigger] extended(v, w, r) == (r == v + w@);
// YAML values (@link data, telemetry headers, ...): scalars are replaced, sequences
// concatenate and absorb, mappings merge per key, a mapping merged with a sequence joins it,
// tagged values merge when the tags agree.
pub open spec fn y_merged(a: Value, b: Value, r: Value) -> bool
    decreases a
{
    match a {
        Value::Null | Value::Bool(_) | Value::Number(_) | Value::String(_) => r == b,
        Value::Sequence(x) => r is Sequence && r->Sequence_0@ == (match b { Value::Sequence(y) => x@ + y@, y => x@.push(y) }),
        Value::Mapping(x) => match b {
            Value::Mapping(y) => r is Mapping && ({
                let z = r->Mapping_0@;
                &&& forall|k: Value| #[trigger] z.dom().contains(k) <==> x@.dom().contains(k) || y@.dom().contains(k)
                &&& forall|k: Value| #[trigger] z.dom().contains(k) ==>
                    if x@.dom().contains(k) && y@.dom().contains(k) { x@.dom().contains(k) && y_merged(x@[k], y@[k], z[k]) }
                    else if x@.dom().contains(k) { z[k] == x@[k] } else { z[k] == y@[k] }
            }),
            Value::Sequence(y) => r is Sequence && r->Sequence_0@ == y@.push(a),
            y => r == y,
        },
        Value::Tagged(x) => match b {
            Value::Tagged(y) => if x.tag == y.tag { r is Tagged && r->Tagged_0.tag == x.tag && y_merged(x.value, y.value, r->Tagged_0.value) } else { r == b },
            y => r == y,
        },
    }
}
broadcast use axiom_map_decreases;

pub open spec fn ent(x: Map<Value, Value>, y: Map<Value, Value>, k: Value, v: Value) -> bool {
    if x.dom().contains(k) && y.dom().contains(k) { y_merged(x[k], y[k], v) }
    else if x.dom().contains(k) { v == x[k] } else { v == y[k] }
}
pub open spec fn map_partial(a: Map<Value, Value>, b: Map<Value, Value>, order: Seq<Value>, n: int, r: Map<Value, Value>) -> bool {
    &&& forall|k: Value| #[trigger] r.dom().contains(k) <==> a.dom().contains(k) || order.take(n).contains(k)
    &&& forall|k: Value| #[trigger] r.dom().contains(k) ==> if order.take(n).contains(k) { ent(a, b, k, r[k]) } else { r[k] == a[k] }
}
pub proof fn lemma_step(a: Map<Value, Value>, b: Map<Value, Value>, order: Seq<Value>, n: int, r: Map<Value, Value>, r2: Map<Value, Value>, v: Value)
    requires map_partial(a, b, order, n, r), 0 <= n < order.len(), order.no_duplicates(), b.dom().contains(order[n]),
        r2 == r.insert(order[n], v) || r2 == r.remove(order[n]).insert(order[n], v), ent(a, b, order[n], v),
    ensures map_partial(a, b, order, n + 1, r2),
{
    assert(order.take(n + 1) =~= order.take(n).push(order[n]));
    assert forall|k: Value| order.take(n + 1).contains(k) <==> order.take(n).contains(k) || k == order[n] by {
        if order.take(n).contains(k) { let i = choose|i: int| 0 <= i < n && order.take(n)[i] == k; assert(order.take(n + 1)[i] == k); }
        if k == order[n] { assert(order.take(n + 1)[n] == k); }
    }
    let x = order[n];
    assert forall|k: Value| #[trigger] r2.dom().contains(k) <==> a.dom().contains(k) || order.take(n + 1).contains(k) by {
        assert(r.dom().contains(k) <==> a.dom().contains(k) || order.take(n).contains(k));
    }
    assert forall|k: Value| #[trigger] r2.dom().contains(k) implies (if order.take(n + 1).contains(k) { ent(a, b, k, r2[k]) } else { r2[k] == a[k] }) by {
        assert(order.take(n + 1).contains(k) <==> order.take(n).contains(k) || k == x);
        if k != x { assert(r.dom().contains(k)); assert(r2[k] == r[k]); }
        else { assert(order.take(n + 1)[n] == x); assert(r2[k] == v); }
    }
}
pub trait MergeRight: Sized {
    spec fn merged(self, other: Self, r: Self) -> bool;
    fn merge_right(self, other: Self) -> (r: Self)
        ensures Self::merged(self, other, r);
}
impl MergeRight for serde_yaml_ng::Value {
    open spec fn merged(self, other: Self, r: Self) -> bool { y_merged(self, other, r) }
//@ fn src/core/merge_right.rs :: impl MergeRight for serde_yaml_ng::Value :: fn merge_right vis=none
//@   spec decreases self
//@   start broadcast use axiom_extend_vec; broadcast use axiom_map_decreases;
//@   before 1 let ghost lhs0 = lhs; let ghost rhs0 = rhs;
//@   loop 1 it=it invariant map_partial(lhs0@, rhs0@, rhs0.order(), it.index() as int, lhs@), into_of(it.seq(), rhs0), self == Value::Mapping(lhs0),
//@   loopstart 1 broadcast use axiom_order; broadcast use axiom_map_decreases; let ghost n = it.index() as int; let ghost before = lhs@; proof { assert(self->Mapping_0@ == lhs0@); assert(it.seq()[n].0 == rhs0.order()[n]); assert(rhs0.order().contains(rhs0.order()[n])); }
//@   loopend 1 proof { lemma_step(lhs0@, rhs0@, rhs0.order(), n, before, lhs@, lhs@[rhs0.order()[n]]); }
//@   after 1 proof { broadcast use axiom_order; assert(rhs0.order().take(rhs0.order().len() as int) =~= rhs0.order()); }
}
}
fn main() {}
