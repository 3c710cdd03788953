pub mod async_graphql_value {
// Assumed shape of async-graphql-value's $T (7).
use vstd::prelude::*;
use super::*;
use super::m_map::{axiom_map_decreases, IndexMap};
verus! {
broadcast use {axiom_map_decreases};
#[verifier::external_body] pub struct Name { _p: () }
impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Name {
    #[verifier::external_body] pub fn new(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl KeyText for Name { open spec fn key_text(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub struct Opaque { _p: () }
pub enum $T { Null, Number(Number), String(String), Boolean(bool), Enum(Name), List(Vec<$T>), Object(IndexMap<Name, $T>), $OTHER(Opaque) }
impl Default for $T { fn default() -> (r: Self) ensures r is Null { $T::Null } }
pub open spec fn value_jv(v: $T) -> JV decreases v {
    match v {
        $T::Null => JV::Null, $T::Boolean(b) => JV::Bool(b), $T::Number(n) => JV::Num(n.v()), $T::String(s) => JV::Str(s@), $T::Enum(s) => JV::Enum(s@),
        $T::List(a) => JV::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { value_jv(a@[i]) } else { JV::Null })),
        $T::Object(m) => JV::Obj(Map::new(m@.dom(), |k: Seq<char>| if m@.dom().contains(k) { value_jv(m@[k]) } else { JV::Null })),
        _ => JV::Other(0),
    }
}
impl HasJv for $T { open spec fn jv(&self) -> JV { value_jv(*self) } }
impl HasJv for IndexMap<Name, $T> { open spec fn jv(&self) -> JV { super::m_map::map_jv(self@) } }
pub broadcast proof fn arr_jv(v: $T) requires v is List ensures (#[trigger] v.jv()) == JV::Arr(jv_arr(v->List_0@)) { assert(v.jv()->Arr_0 =~= jv_arr(v->List_0@)); }
pub broadcast proof fn obj_jv(v: $T) requires v is Object ensures (#[trigger] v.jv()) == v->Object_0.jv() { assert(v.jv()->Obj_0 =~= v->Object_0.jv()->Obj_0); }
} // verus!
}
