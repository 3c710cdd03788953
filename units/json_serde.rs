#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/jv.rs
//@ include prelude/jsonlike.rs
//@ include prelude/keytext.rs
//@ include prelude/lookup.rs
//@ include prelude/map.rs MAP=HashMap MOD=m_hash KEEP=false
//@ include prelude/groupby.rs
//@ include prelude/groupby_stub.rs
//@ include prelude/textmap.rs MAP=JMap MOD=m_map
pub mod serde_json {
// Assumed shape of serde_json's Value (1.0), and its accessors.
use vstd::prelude::*;
use super::*;
use super::m_map::axiom_map_decreases;
verus! {
broadcast use {axiom_map_decreases};
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(super::m_map::JMap<String, Value>) }
pub open spec fn value_jv(v: Value) -> JV decreases v {
    match v {
        Value::Null => JV::Null, Value::Bool(b) => JV::Bool(b), Value::Number(n) => JV::Num(n.v()), Value::String(s) => JV::Str(s@),
        Value::Array(a) => JV::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { value_jv(a@[i]) } else { JV::Null })),
        Value::Object(m) => JV::Obj(Map::new(m@.dom(), |k: Seq<char>| if m@.dom().contains(k) { value_jv(m@[k]) } else { JV::Null })),
    }
}
impl HasJv for Value { open spec fn jv(&self) -> JV { value_jv(*self) } }
impl HasJv for super::m_map::JMap<String, Value> { open spec fn jv(&self) -> JV { super::m_map::map_jv(self@) } }
// the type's own accessors
impl Value {
    #[verifier::external_body] pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures match *self { Value::Array(a) => r == Some(&a), _ => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn as_object(&self) -> (r: Option<&super::m_map::JMap<String, Value>>) ensures match *self { Value::Object(a) => r == Some(&a), _ => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn as_array_mut(&mut self) -> (r: Option<&mut Vec<Value>>)
        ensures match *old(self) { Value::Array(a) => r is Some && *r->0 == a && *final(self) == Value::Array(*final(r->0)), _ => r is None && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn as_object_mut(&mut self) -> (r: Option<&mut super::m_map::JMap<String, Value>>)
        ensures match *old(self) { Value::Object(a) => r is Some && *r->0 == a && *final(self) == Value::Object(*final(r->0)), _ => r is None && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&str>) ensures match *self { Value::String(s) => r is Some && r->0@ == s@, _ => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == num_i64(self.jv()) { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == num_u64(self.jv()) { unimplemented!() }
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures r == num_f64(self.jv()) { unimplemented!() }
    #[verifier::external_body] pub fn as_bool(&self) -> (r: Option<bool>) ensures match *self { Value::Bool(b) => r == Some(b), _ => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self is Null) { unimplemented!() }
}
pub broadcast proof fn arr_jv(v: Value) requires v is Array ensures (#[trigger] v.jv()) == JV::Arr(jv_arr(v->Array_0@)) { assert(v.jv()->Arr_0 =~= jv_arr(v->Array_0@)); }
pub broadcast proof fn obj_jv(v: Value) requires v is Object ensures (#[trigger] v.jv()) == v->Object_0.jv() { assert(v.jv()->Obj_0 =~= v->Object_0.jv()->Obj_0); }
} // verus!
}
pub mod map_impl {
use vstd::prelude::*;
use super::*;
use super::m_map::*;
use super::serde_json::Value;
verus! {
broadcast use {axiom_string_ext, serde_json::arr_jv, serde_json::obj_jv};
//@ rewrite /(serde_json::)?\bMap::/ => JMap::
//@ rewrite /\bserde_json::Map\b/ => JMap
//@ rewrite /\bSelf::Value\b/ => Value
pub proof fn lemma_fields<'a>(s: Seq<(&'a str, Value)>, q: Seq<(String, Value)>)
    requires q.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]).0@ == s[i].0@ && q[i].1 == s[i].1
    ensures map_jv(pairs(q)) == JV::Obj(fields(s))
    decreases s.len()
{
    if s.len() > 0 { lemma_fields(s.drop_last(), q.drop_last()); }
    assert(map_jv(pairs(q))->Obj_0 =~= fields(s));
}
pub open spec fn same_pairs<'a>(s: Seq<(&'a str, Value)>, m: Map<Seq<char>, Value>) -> bool { exists|q: Seq<(String, Value)>| m == #[trigger] pairs(q) && q.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]).0@ == s[i].0@ && q[i].1 == s[i].1 }
proof fn lemma_from_vec<'a>(s: Seq<(&'a str, Value)>, m: Map<Seq<char>, Value>)
    requires same_pairs(s, m)
    ensures map_jv(m) == JV::Obj(fields(s))
{ let q = choose|q: Seq<(String, Value)>| m == #[trigger] pairs(q) && q.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]).0@ == s[i].0@ && q[i].1 == s[i].1; lemma_fields(s, q); }
// as a free function: Verus does not follow iterator adaptors inside a trait's impl
//@ fn src/core/json/serde.rs :: impl<'obj> JsonObjectLike<'obj> for serde_json::Map<String, Value> :: fn from_vec name=map_from_vec
//@   sub /fn from_vec\(/ => fn from_vec<'obj>(
//@   sub /-> Self/ => -> JMap<String, Value>
//@   spec ensures r.jv() == JV::Obj(fields(v@))
//@   closurelet 1 |a0: (&'obj str, Value)| -> (p: (String, Value)) ensures p.0@ == a0.0@, p.1 == a0.1
//@   tail proof { lemma_from_vec(v@, ret_@); }
impl<'obj> JsonObjectLike<'obj> for JMap<String, Value> {
    type Value = Value;
//@ fns src/core/json/serde.rs :: impl<'obj> JsonObjectLike<'obj> for serde_json::Map<String, Value> vis=none skip=from_vec,insert_key,iter
//@   start proof { assert(map_jv(Map::<Seq<char>, Value>::empty())->Obj_0 =~= Map::empty()); }
//@ fn src/core/json/serde.rs :: impl<'obj> JsonObjectLike<'obj> for serde_json::Map<String, Value> :: fn insert_key vis=none
//@   end proof { assert(final(self).jv()->Obj_0 =~= old(self).jv()->Obj_0.insert(key@, value.jv())); }
    // proved above, as map_from_vec
    #[verifier::external_body]
    fn from_vec(v: Vec<(&'obj str, Value)>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn iter<'slf>(&'slf self) -> (r: ObjIter<'slf, Value>) { unimplemented!() }
}
//@ rewrite /AsRef<str>/ => AsText
//@ rewrite /\.parse::<usize>\(\)\.ok\(\)/ => .parse_ok_()
//@ rewrite /token\.as_ref\(\)\.parse_ok_\(\)/ => parse_usize_ok(token.as_ref())
//@ rewrite /Cow<'json, str>/ => Cow<'json>
//@ rewrite /Self::JsonObject\b/ => JMap<String, Value>
impl<'json> JsonLike<'json> for Value {
    type JsonObject = JMap<String, Value>;
    proof fn lemma_num(&self) { match *self { Value::Number(n) => axiom_number(n), _ => {} } }
//@ fns src/core/json/serde.rs :: impl<'json> JsonLike<'json> for Value vis=none skip=group_by,get_path
//@ fn src/core/json/serde.rs :: impl<'json> JsonLike<'json> for Value :: fn get_path vis=none
//@   loop 1 it=it invariant get_path(val.jv(), texts(path@).skip(it.index() as int)) == get_path(self.jv(), texts(path@)), it.seq() == path@.map_values(|t: T| &t),
//@   start proof { assert(texts(path@).skip(0) =~= texts(path@)); }
//@   loopstart 1 proof { let n = it.index() as int; let q = texts(path@).skip(n); assert(q.skip(1) =~= texts(path@).skip(n + 1)); assert(q[0] == path@[n].text()); assert(*token == path@[n]); }
//@   after 1 proof { assert(texts(path@).skip(path@.len() as int) =~= Seq::empty()); }
}
impl Value {
//@ rewrite /super::g/ => g
//@ fn src/core/json/serde.rs :: impl<'json> JsonLike<'json> for Value :: fn group_by
//@   spec ensures grouped(gather(self.jv(), path@), r@)
//@   tail proof { }
}
} // verus!
}
fn main() {}
