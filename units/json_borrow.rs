#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/jv.rs
//@ include prelude/jsonlike.rs
//@ include prelude/keytext.rs
//@ include prelude/lookup.rs
//@ include prelude/map.rs MAP=HashMap MOD=m_hash KEEP=false
//@ include prelude/groupby.rs
//@ include prelude/groupby_stub.rs
//@ include prelude/textmap.rs MAP=JMap MOD=m_map
pub mod serde_json_borrow {
// Assumed shape of serde_json_borrow's Value (0.7), and its accessors.
use vstd::prelude::*;
use super::*;
use super::m_map::{axiom_map_decreases, JMap};
verus! {
broadcast use {axiom_map_decreases};
// an object; a name occurs once (the parser keeps repeated names, outside the contract)
pub type ObjectAsVec<'a> = JMap<&'a str, Value<'a>>;
#[verifier::external_body] pub struct BNumber { _p: () }
impl BNumber { pub uninterp spec fn v(&self) -> NumV; }
pub broadcast axiom fn axiom_bnumber(n: BNumber) ensures (match #[trigger] n.v() { NumV::Int(i) => i64::MIN <= i <= u64::MAX, NumV::Float(_) => true });
impl Clone for BNumber { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BNumber {}
// From<u64>, From<i64> and From<f64>; the i64 one is for negative numbers ("always less than zero")
pub trait IntoNum { spec fn as_num(&self) -> Option<NumV>; fn into_num(self) -> (r: BNumber) requires self.as_num() is Some ensures r.v() == self.as_num()->0; }
impl IntoNum for u64 { open spec fn as_num(&self) -> Option<NumV> { Some(NumV::Int(*self as int)) } #[verifier::external_body] fn into_num(self) -> BNumber { unimplemented!() } }
impl IntoNum for i64 { open spec fn as_num(&self) -> Option<NumV> { if *self < 0 { Some(NumV::Int(*self as int)) } else { None } } #[verifier::external_body] fn into_num(self) -> BNumber { unimplemented!() } }
impl IntoNum for f64 { open spec fn as_num(&self) -> Option<NumV> { Some(NumV::Float(*self)) } #[verifier::external_body] fn into_num(self) -> BNumber { unimplemented!() } }
// From<serde_json_borrow::Number> for serde_json::Number
#[verifier::external_body] pub fn to_serde(n: BNumber) -> (r: Number) ensures r.v() == n.v() { unimplemented!() }
pub enum Value<'a> { Null, Bool(bool), Number(BNumber), Str(Cow<'a>), Array(Vec<Value<'a>>), Object(JMap<&'a str, Value<'a>>) }
pub open spec fn value_jv(v: Value) -> JV decreases v {
    match v {
        Value::Null => JV::Null, Value::Bool(b) => JV::Bool(b), Value::Number(n) => JV::Num(n.v()), Value::Str(s) => JV::Str(s@),
        Value::Array(a) => JV::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { value_jv(a@[i]) } else { JV::Null })),
        Value::Object(m) => JV::Obj(Map::new(m@.dom(), |k: Seq<char>| if m@.dom().contains(k) { value_jv(m@[k]) } else { JV::Null })),
    }
}
impl<'a> HasJv for Value<'a> { open spec fn jv(&self) -> JV { value_jv(*self) } }
impl<'a> HasJv for JMap<&'a str, Value<'a>> { open spec fn jv(&self) -> JV { super::m_map::map_jv(self@) } }
impl<'a> Value<'a> {
    #[verifier::external_body] pub fn as_object(&self) -> (r: Option<&ObjectAsVec<'a>>) ensures match *self { Value::Object(a) => r == Some(&a), _ => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&str>) ensures match *self { Value::Str(s) => r is Some && r->0@ == s@, _ => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == num_i64(self.jv()) { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == num_u64(self.jv()) { unimplemented!() }
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures r == num_f64(self.jv()) { unimplemented!() }
    #[verifier::external_body] pub fn as_bool(&self) -> (r: Option<bool>) ensures match *self { Value::Bool(b) => r == Some(b), _ => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self is Null) { unimplemented!() }
}
pub proof fn lemma_from_pairs<'a>(s: Seq<(&'a str, Value<'a>)>)
    ensures super::m_map::map_jv(super::m_map::pairs(s)) == JV::Obj(fields(s))
    decreases s.len()
{
    if s.len() > 0 { lemma_from_pairs(s.drop_last()); }
    assert(super::m_map::map_jv(super::m_map::pairs(s))->Obj_0 =~= fields(s));
}
// ObjectAsVec::from(Vec) takes the pairs as they are; with names once, that is the map of them
#[verifier::external_body] pub fn object_from<'a>(v: Vec<(&'a str, Value<'a>)>) -> (r: ObjectAsVec<'a>) requires names_once(v@) ensures r@ == super::m_map::pairs(v@) { unimplemented!() }
pub broadcast proof fn arr_jv(v: Value) requires v is Array ensures (#[trigger] v.jv()) == JV::Arr(jv_arr(v->Array_0@)) { assert(v.jv()->Arr_0 =~= jv_arr(v->Array_0@)); }
pub broadcast proof fn obj_jv(v: Value) requires v is Object ensures (#[trigger] v.jv()) == v->Object_0.jv() { assert(v.jv()->Obj_0 =~= v->Object_0.jv()->Obj_0); }
} // verus!
}
pub mod map_impl {
use vstd::prelude::*;
use super::*;
use super::m_map::*;
use super::serde_json_borrow::*;
verus! {
broadcast use {axiom_string_ext, arr_jv, obj_jv, axiom_bnumber, axiom_number};
//@ rewrite /\bSelf::Value\b/ => Value<'ctx>
//@ rewrite /ObjectAsVec::from\(Vec::with_capacity\(n\)\)/ => ObjectAsVec::with_capacity(n)
//@ rewrite /ObjectAsVec::from\(v\)/ => object_from(v)
//@ rewrite /\bself\.insert\(key, value\)/ => self.insert(key, value)
impl<'ctx> JsonObjectLike<'ctx> for ObjectAsVec<'ctx> {
    type Value = Value<'ctx>;
//@ fns src/core/json/borrow.rs :: impl<'ctx> JsonObjectLike<'ctx> for ObjectAsVec<'ctx> vis=none skip=from_vec,insert_key,iter
//@   start proof { assert(map_jv(Map::<Seq<char>, Value>::empty())->Obj_0 =~= Map::empty()); }
//@ fn src/core/json/borrow.rs :: impl<'ctx> JsonObjectLike<'ctx> for ObjectAsVec<'ctx> :: fn insert_key vis=none
//@   end proof { assert(final(self).jv()->Obj_0 =~= old(self).jv()->Obj_0.insert(key@, value.jv())); }
//@ fn src/core/json/borrow.rs :: impl<'ctx> JsonObjectLike<'ctx> for ObjectAsVec<'ctx> :: fn from_vec vis=none
//@   start proof { lemma_from_pairs(v@); }
    #[verifier::external_body]
    fn iter<'slf>(&'slf self) -> (r: ObjIter<'slf, Value<'ctx>>) { unimplemented!() }
}
//@ rewrite /AsRef<str>/ => AsText
//@ rewrite /token\.as_ref\(\)\.parse::<usize>\(\)\.ok\(\)/ => parse_usize_ok(token.as_ref())
//@ rewrite /Cow<'ctx, str>/ => Cow<'ctx>
//@ rewrite /Self::JsonObject\b/ => ObjectAsVec<'ctx>
//@ rewrite /\(\*number\)\.into\(\)/ => to_serde(*number)
//@ rewrite /Value::Number\(n\.into\(\)\)/ => Value::Number(n.into_num())
//@ rewrite /Value::Str\(s\.into\(\)\)/ => Value::Str(Cow::from_ref(s))
//@ rewrite /std::collections::HashMap/ => HashMap
impl<'ctx> JsonLike<'ctx> for Value<'ctx> {
    type JsonObject = ObjectAsVec<'ctx>;
    proof fn lemma_num(&self) { match *self { Value::Number(n) => axiom_bnumber(n), _ => {} } }
//@ fns src/core/json/borrow.rs :: impl<'ctx> JsonLike<'ctx> for Value<'ctx> vis=none skip=group_by,get_path
//@ fn src/core/json/borrow.rs :: impl<'ctx> JsonLike<'ctx> for Value<'ctx> :: fn get_path vis=none
//@   loop 1 it=it invariant get_path(val.jv(), texts(path@).skip(it.index() as int)) == get_path(self.jv(), texts(path@)), it.seq() == path@.map_values(|t: T| &t),
//@   start proof { assert(texts(path@).skip(0) =~= texts(path@)); }
//@   loopstart 1 proof { let n = it.index() as int; let q = texts(path@).skip(n); assert(q.skip(1) =~= texts(path@).skip(n + 1)); assert(q[0] == path@[n].text()); assert(*token == path@[n]); }
//@   after 1 proof { assert(texts(path@).skip(path@.len() as int) =~= Seq::empty()); }
}
impl<'ctx> Value<'ctx> {
//@ fn src/core/json/borrow.rs :: impl<'ctx> JsonLike<'ctx> for Value<'ctx> :: fn group_by
//@   spec ensures grouped(gather(self.jv(), path@), r@)
}
} // verus!
}
fn main() {}
