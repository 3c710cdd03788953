// Contract of the JSON traits (src/core/json/json_like.rs), stated once for every
// representation. The signatures are those of the real traits; `iter` returns a
// named iterator in place of `impl Iterator`.
pub mod p_jsonlike {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use super::*;
verus! {
// serde_json::Number
#[verifier::external_body] pub struct Number { _p: () }
impl Number { pub uninterp spec fn v(&self) -> NumV; }
pub broadcast axiom fn axiom_number(n: Number) ensures (match #[trigger] n.v() { NumV::Int(i) => i64::MIN <= i <= u64::MAX, NumV::Float(_) => true });
pub enum JsonPrimitive<'a> { Null, Bool(bool), Str(&'a str), Number(Number) }
pub open spec fn prim_jv(p: JsonPrimitive) -> JV {
    match p { JsonPrimitive::Null => JV::Null, JsonPrimitive::Bool(b) => JV::Bool(b), JsonPrimitive::Str(s) => JV::Str(s@), JsonPrimitive::Number(n) => JV::Num(n.v()) }
}
pub open spec fn is_prim(v: JV) -> bool { !(v is Arr || v is Obj || v is Other) }
// a primitive as it is copied: an enum value becomes its name
pub open spec fn plain(v: JV) -> JV { match v { JV::Enum(s) => JV::Str(s), _ => v } }
pub open spec fn opt_arr<T: HasJv>(o: Option<Vec<T>>, v: JV) -> bool { match v { JV::Arr(s) => o is Some && jv_arr(o->0@) == s, _ => o is None } }
pub open spec fn opt_obj<T: HasJv>(o: Option<T>, v: JV) -> bool { match v { JV::Obj(s) => o is Some && o->0.jv() == v, _ => o is None } }
pub open spec fn opt_ref<T>(o: Option<&T>) -> Option<T> { match o { Some(t) => Some(*t), None => None } }
// the pairs of a list of fields as an object: the last value of a name counts
pub open spec fn fields<'a, T: HasJv>(s: Seq<(&'a str, T)>) -> Map<Seq<char>, JV> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { fields(s.drop_last()).insert(s.last().0@, s.last().1.jv()) }
}
pub open spec fn get_path(v: JV, path: Seq<Seq<char>>) -> Option<JV> decreases path.len() {
    if path.len() == 0 { Some(v) } else {
        match v {
            JV::Arr(s) => match parse_usize(path[0]) { Some(i) => if i < s.len() { get_path(s[i as int], path.skip(1)) } else { None }, None => None },
            JV::Obj(m) => if m.dom().contains(path[0]) { get_path(m[path[0]], path.skip(1)) } else { None },
            _ => None,
        }
    }
}
pub uninterp spec fn parse_usize(s: Seq<char>) -> Option<usize>;
// `s.parse::<usize>().ok()`
#[verifier::external_body] pub fn parse_usize_ok(s: &str) -> (r: Option<usize>) ensures r == parse_usize(s@) { unimplemented!() }
// AsRef<str>
pub trait AsText { spec fn text(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.text(); }
pub open spec fn texts<T: AsText>(s: Seq<T>) -> Seq<Seq<char>> { s.map_values(|t: T| t.text()) }
pub assume_specification [<String as core::convert::AsRef<str>>::as_ref] (s: &String) -> (r: &str) ensures r@ == s@;
// Cow<str>
#[verifier::external_body] pub struct Cow<'a> { _p: &'a () }
impl<'a> View for Cow<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Cow<'a> {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn from_ref(s: &'a str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
}
impl Number {
    // serde_json::Number
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == num_i64(JV::Num(self.v())) { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == num_u64(JV::Num(self.v())) { unimplemented!() }
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures r == num_f64(JV::Num(self.v())) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait JsonObjectLike<'obj>: Sized + HasJv {
    type Value: HasJv;
    fn new() -> (r: Self) ensures r.jv() == JV::Obj(Map::<Seq<char>, JV>::empty());
    fn is_empty(&self) -> (r: bool) ensures r == (self.jv()->Obj_0 =~= Map::<Seq<char>, JV>::empty());
    fn len(&self) -> (r: usize);
    fn with_capacity(n: usize) -> (r: Self) ensures r.jv() == JV::Obj(Map::<Seq<char>, JV>::empty());
    fn from_vec(v: Vec<(&'obj str, Self::Value)>) -> (r: Self) requires names_once(v@) ensures r.jv() == JV::Obj(fields(v@));
    fn get_key(&self, key: &str) -> (r: Option<&Self::Value>) ensures opt_jv(r) == jv_get(self.jv(), key@);
    fn insert_key(&mut self, key: &'obj str, value: Self::Value) ensures final(self).jv() == JV::Obj(old(self).jv()->Obj_0.insert(key@, value.jv()));
    fn iter<'slf>(&'slf self) -> (r: ObjIter<'slf, Self::Value>) ensures self.jv() is Obj, names_once(r.rem()), ref_fields(r.rem()) == self.jv()->Obj_0;
}
// no name twice (a list with a name twice is outside the contract: one representation keeps both)
pub open spec fn names_once<'a, T>(s: Seq<(&'a str, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@ }
pub open spec fn ref_fields<'a, T: HasJv>(s: Seq<(&'a str, &'a T)>) -> Map<Seq<char>, JV> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { ref_fields(s.drop_last()).insert(s.last().0@, (*s.last().1).jv()) }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct ObjIter<'a, V> { _k: core::marker::PhantomData<&'a V> }
impl<'a, V> ObjIter<'a, V> { pub uninterp spec fn rem(&self) -> Seq<(&'a str, &'a V)>; }
impl<'a, V> Iterator for ObjIter<'a, V> {
    type Item = (&'a str, &'a V);
    #[verifier::external_body]
    fn next(&mut self) -> Option<(&'a str, &'a V)> { unimplemented!() }
}
impl<'a, V> IteratorSpecImpl for ObjIter<'a, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<(&'a str, &'a V)> { self.rem() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.rem().len()) }
    open spec fn peek(&self, i: int) -> Option<(&'a str, &'a V)> { if 0 <= i < self.rem().len() { Some(self.rem()[i]) } else { None } }
}
// every JSON number is an i64, a u64 or a float
pub open spec fn json_num(v: JV) -> bool { match v { JV::Num(NumV::Int(i)) => i64::MIN <= i <= u64::MAX, _ => true } }
pub trait JsonLike<'json>: Sized + HasJv {
    proof fn lemma_num(&self) ensures json_num(self.jv());
    type JsonObject: JsonObjectLike<'json, Value = Self>;
    fn null() -> (r: Self) ensures r.jv() == JV::Null;
    fn object(obj: Self::JsonObject) -> (r: Self) ensures r.jv() == obj.jv();
    fn array(arr: Vec<Self>) -> (r: Self) ensures r.jv() == JV::Arr(jv_arr(arr@));
    fn string(s: Cow<'json>) -> (r: Self) ensures r.jv() == JV::Str(s@);
    fn from_primitive(x: JsonPrimitive<'json>) -> (r: Self) ensures r.jv() == prim_jv(x);
    fn as_primitive<'a>(&'a self) -> (r: Option<JsonPrimitive<'a>>)
        ensures r is Some <==> is_prim(self.jv()), r is Some ==> prim_jv(r->0) == plain(self.jv());
    fn as_array(&self) -> (r: Option<&Vec<Self>>) ensures opt_arr(opt_ref(r), self.jv());
    fn as_array_mut(&mut self) -> (r: Option<&mut Vec<Self>>)
        ensures match old(self).jv() { JV::Arr(s) => r is Some && jv_arr((*r->0)@) == s && final(self).jv() == JV::Arr(jv_arr(final(r->0)@)), _ => r is None && *final(self) == *old(self) };
    fn into_array(self) -> (r: Option<Vec<Self>>) ensures opt_arr(r, self.jv());
    fn as_object(&self) -> (r: Option<&Self::JsonObject>) ensures opt_obj(opt_ref(r), self.jv());
    fn as_object_mut(&mut self) -> (r: Option<&mut Self::JsonObject>)
        ensures match old(self).jv() { JV::Obj(_) => r is Some && (*r->0).jv() == old(self).jv() && final(self).jv() == (*final(r->0)).jv(), _ => r is None && *final(self) == *old(self) };
    fn into_object(self) -> (r: Option<Self::JsonObject>) ensures opt_obj(r, self.jv());
    fn as_str(&self) -> (r: Option<&str>) ensures match self.jv() { JV::Str(s) => r is Some && r->0@ == s, _ => r is None };
    fn as_i64(&self) -> (r: Option<i64>) ensures r == num_i64(self.jv());
    fn as_u64(&self) -> (r: Option<u64>) ensures r == num_u64(self.jv());
    fn as_f64(&self) -> (r: Option<f64>) ensures r == num_f64(self.jv());
    fn as_bool(&self) -> (r: Option<bool>) ensures match self.jv() { JV::Bool(b) => r == Some(b), _ => r is None };
    fn is_null(&self) -> (r: bool) ensures r == (self.jv() is Null);
    fn get_path<T: AsText>(&'json self, path: &[T]) -> (r: Option<&'json Self>) ensures opt_jv(r) == get_path(self.jv(), texts(path@));
    fn get_key(&'json self, path: &str) -> (r: Option<&'json Self>) ensures opt_jv(r) == jv_get(self.jv(), path@);
}
} // verus!
}
pub use p_jsonlike::*;
