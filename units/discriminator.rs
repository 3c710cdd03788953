#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/jv.rs
//@ include prelude/jsonlike.rs
//@ include prelude/keytext.rs
//@ include prelude/valid.rs
//@ include prelude/textmap.rs MAP=IndexMap MOD=m_map
//@ include prelude/gql_value.rs T=Value OTHER=Binary
pub mod p_disc {
use vstd::prelude::*;
use super::*;
use super::m_map::*;
use super::async_graphql_value::*;
verus! {
// anyhow::Error; the text of an error is not specified
#[verifier::external_body] pub struct Error { _p: () }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub fn bail_<T>() -> (r: Result<T>) ensures r is Err { unimplemented!() }
// std BTreeSet of texts
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { _k: core::marker::PhantomData<K> }
impl<K> View for BTreeSet<K> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl BTreeSet<String> { #[verifier::external_body] pub fn contains(&self, k: &String) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() } }
impl Name { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
impl<'a> Cow<'a> { #[verifier::external_body] pub fn from_string(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() } }
impl<V> IndexMap<Name, V> {
    // the first entry; for a single entry, that entry
    #[verifier::external_body] pub fn first(&self) -> (r: Option<(&Name, &V)>)
        ensures self@.len() > 0 ==> r is Some && self@.dom().contains((r->0).0@) && *(r->0).1 == self@[(r->0).0@] { unimplemented!() }
    // `into_iter().next()`
    #[verifier::external_body] pub fn into_first(self) -> (r: Option<(Name, V)>)
        ensures self@.len() > 0 ==> r is Some && self@.dom().contains((r->0).0@) && (r->0).1 == self@[(r->0).0@] { unimplemented!() }
}
// the JSON view of Value: its contracts are proved on src/core/json/graphql.rs by the unit json_const (async_graphql::Value is ConstValue)
impl<'obj> JsonObjectLike<'obj> for IndexMap<Name, Value> {
    type Value = Value;
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn with_capacity(n: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn from_vec(v: Vec<(&'obj str, Value)>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn get_key(&self, key: &str) -> (r: Option<&Value>) { unimplemented!() }
    #[verifier::external_body] fn insert_key(&mut self, key: &'obj str, value: Value) { unimplemented!() }
    #[verifier::external_body] fn iter<'slf>(&'slf self) -> (r: ObjIter<'slf, Value>) { unimplemented!() }
}
impl<'json> JsonLike<'json> for Value {
    type JsonObject = IndexMap<Name, Value>;
    axiom fn lemma_num(&self);
    #[verifier::external_body] fn null() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn object(obj: Self::JsonObject) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn array(arr: Vec<Self>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn string(s: Cow<'json>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn from_primitive(x: JsonPrimitive<'json>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn as_primitive<'a>(&'a self) -> (r: Option<JsonPrimitive<'a>>) { unimplemented!() }
    #[verifier::external_body] fn as_array(&self) -> (r: Option<&Vec<Self>>) { unimplemented!() }
    #[verifier::external_body] fn as_array_mut(&mut self) -> (r: Option<&mut Vec<Self>>) { unimplemented!() }
    #[verifier::external_body] fn into_array(self) -> (r: Option<Vec<Self>>) { unimplemented!() }
    #[verifier::external_body] fn as_object(&self) -> (r: Option<&Self::JsonObject>) { unimplemented!() }
    #[verifier::external_body] fn as_object_mut(&mut self) -> (r: Option<&mut Self::JsonObject>) { unimplemented!() }
    #[verifier::external_body] fn into_object(self) -> (r: Option<Self::JsonObject>) { unimplemented!() }
    #[verifier::external_body] fn as_str(&self) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn as_i64(&self) -> (r: Option<i64>) { unimplemented!() }
    #[verifier::external_body] fn as_u64(&self) -> (r: Option<u64>) { unimplemented!() }
    #[verifier::external_body] fn as_f64(&self) -> (r: Option<f64>) { unimplemented!() }
    #[verifier::external_body] fn as_bool(&self) -> (r: Option<bool>) { unimplemented!() }
    #[verifier::external_body] fn is_null(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn get_path<T: AsText>(&'json self, path: &[T]) -> (r: Option<&'json Self>) { unimplemented!() }
    #[verifier::external_body] fn get_key(&'json self, path: &str) -> (r: Option<&'json Self>) { unimplemented!() }
}
} // verus!
}
use p_disc::*;
use m_map::*;
use async_graphql_value::*;
verus! {
broadcast use {axiom_string_ext, arr_jv, obj_jv};

// ---- what the property says
pub open spec fn mark() -> Seq<char> { "__typename"@ }
pub open spec fn typed(v: JV) -> Option<Seq<char>> { match jv_get(v, mark()) { Some(JV::Str(s)) => Some(s), _ => None } }
// null stays null, an object gets the mark, nothing else can be marked
pub open spec fn with_type(v: JV, t: Seq<char>) -> Option<JV> {
    match v { JV::Null => Some(v), JV::Obj(m) => Some(JV::Obj(m.insert(mark(), JV::Str(t)))), _ => None }
}
pub enum Rule { Keyed(Set<Seq<char>>), Field(Set<Seq<char>>, Seq<char>) }
// the only member of the object names the type and is the value
pub open spec fn keyed(types: Set<Seq<char>>, v: JV) -> Option<Seq<char>> {
    match v { JV::Obj(m) => if m.len() == 1 && types.contains(m.dom().choose()) { Some(m.dom().choose()) } else { None }, _ => None }
}
pub open spec fn field(types: Set<Seq<char>>, f: Seq<char>, v: JV) -> Option<Seq<char>> {
    match jv_get(v, f) { Some(JV::Str(s)) => if types.contains(s) { Some(s) } else { None }, _ => None }
}
pub open spec fn one(d: Rule, v: JV) -> Option<JV> {
    match d {
        Rule::Keyed(types) => match keyed(types, v) { Some(t) => with_type(v->Obj_0[t], t), None => None },
        Rule::Field(types, f) => match field(types, f, v) { Some(t) => with_type(v, t), None => None },
    }
}
pub open spec fn resolved(d: Rule, v: JV) -> Option<JV> decreases v {
    if typed(v) is Some { Some(v) } else {
        match v {
            JV::Null => Some(v),
            JV::Arr(s) => if forall|i: int| 0 <= i < s.len() ==> resolved(d, #[trigger] s[i]) is Some { Some(JV::Arr(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { resolved(d, s[i])->0 } else { JV::Null }))) } else { None },
            JV::Obj(_) => one(d, v),
            _ => None,
        }
    }
}
pub open spec fn is_jv(r: Result<Value>, o: Option<JV>) -> bool { match r { Ok(v) => o == Some(v.jv()), Err(_) => o is None } }
pub open spec fn is_text(r: Result<String>, o: Option<Seq<char>>) -> bool { match r { Ok(s) => o == Some(s@), Err(_) => o is None } }

pub proof fn lemma_single(m: Map<Seq<char>, JV>, k: Seq<char>) requires m.len() == 1, m.dom().contains(k) ensures m.dom().choose() == k
{ vstd::set_lib::lemma_set_empty_equivalency_len(m.dom()); let c = m.dom().choose(); assert(m.dom().contains(c)); if c != k { vstd::set_lib::lemma_len_subset(set![c, k], m.dom()); } }

pub broadcast proof fn obj_any(m: IndexMap<Name, Value>) ensures #[trigger] m.jv() is Obj, m.jv()->Obj_0.dom() == m@.dom(), forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> m.jv()->Obj_0[k] == m@[k].jv() { lemma_obj(m); }
pub proof fn lemma_obj(m: IndexMap<Name, Value>)
    ensures m.jv() is Obj, m.jv()->Obj_0.dom() == m@.dom(), m.jv()->Obj_0.len() == m@.len(), forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> m.jv()->Obj_0[k] == m@[k].jv(),
        m@.len() == 1 ==> forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> m.jv()->Obj_0.dom().choose() == k,
{
    assert(m.jv()->Obj_0.dom() =~= m@.dom());
    if m@.len() == 1 { assert forall|k: Seq<char>| #[trigger] m@.dom().contains(k) implies m.jv()->Obj_0.dom().choose() == k by { lemma_single(m.jv()->Obj_0, k); } }
}

//@ rewrite /bail!\((?:[^()"]|"(?:[^"\\]|\\.)*")*\)/ => return bail_()
//@ rewrite /let types: Vec<_> = self\.types\.clone\(\)\.into_iter\(\)\.collect\(\);/ =>
//@ rewrite /Result<\(\), Self::Error>/ => Result<()>
//@ rewrite /type_name\.into\(\)/ => Cow::from_string(type_name)
//@ rewrite /\bT::string\b/ => Value::string
//@ rewrite /&'json mut self/ => &mut self
//@ rewrite /&'json self/ => &self
//@ rewrite /&'json str/ => &str
//@ rewrite /\.into_iter\(\)\s*\.next\(\)/ => .into_first()
//@ rewrite /format!\((?:[^()"]|"(?:[^"\\]|\\.)*")*\)/ => err_text_()
#[verifier::external_body] pub fn err_text_() -> (r: String) { unimplemented!() }
//@ item src/core/ir/discriminator.rs :: const TYPENAME_FIELD
//@   sub /: &str/ => : &'static str
impl Value {
//@ fn src/core/ir/discriminator.rs :: impl<'json, T> TypedValue<'json> for T :: fn get_type_name
//@   spec ensures match r { Some(s) => typed(self.jv()) == Some(s@), None => typed(self.jv()) is None }
//@   closure 1 |obj: &IndexMap<Name, Value>| -> (o: Option<&Value>) ensures opt_jv(o) == jv_get(obj.jv(), mark())
//@   closure 2 |val: &Value| -> (o: Option<&str>) ensures match val.jv() { JV::Str(s) => o is Some && o->0@ == s, _ => o is None }
//@ fn src/core/ir/discriminator.rs :: impl<'json, T> TypedValue<'json> for T :: fn set_type_name
//@   spec ensures match r { Ok(_) => with_type(old(self).jv(), type_name@) == Some(final(self).jv()), Err(_) => with_type(old(self).jv(), type_name@) is None }
}
//@ item src/core/ir/discriminator/keyed_discriminator.rs :: struct KeyedDiscriminator
//@ item src/core/ir/discriminator/type_field_discriminator.rs :: struct TypeFieldDiscriminator
//@ item src/core/ir/discriminator.rs :: enum Discriminator
impl KeyedDiscriminator {
    pub closed spec fn rule(&self) -> Rule { Rule::Keyed(self.types@) }
//@ fn src/core/ir/discriminator/keyed_discriminator.rs :: impl KeyedDiscriminator :: fn new
//@   spec ensures r.ok() is Some, r.ok()->0.rule() == Rule::Keyed(types@)
//@ fn src/core/ir/discriminator/keyed_discriminator.rs :: impl KeyedDiscriminator :: fn resolve_type
//@   spec ensures value.jv() is Null || is_text(r, keyed(self.types@, value.jv()))
//@   start proof { if value is Object { lemma_obj(value->Object_0); } }
//@ fn src/core/ir/discriminator/keyed_discriminator.rs :: impl KeyedDiscriminator :: fn resolve_and_set_type
//@   spec requires value.jv() is Obj
//@   | ensures is_jv(r, one(self.rule(), value.jv()))
//@   start proof { if value is Object { lemma_obj(value->Object_0); } }
}
impl TypeFieldDiscriminator {
    pub closed spec fn rule(&self) -> Rule { Rule::Field(self.types@, self.typename_field@) }
//@ fn src/core/ir/discriminator/type_field_discriminator.rs :: impl TypeFieldDiscriminator :: fn new
//@   spec ensures r.ok() is Some, r.ok()->0.rule() == Rule::Field(types@, typename_field@)
//@ fn src/core/ir/discriminator/type_field_discriminator.rs :: impl TypeFieldDiscriminator :: fn resolve_type
//@   spec ensures value.jv() is Null || is_text(r, field(self.types@, self.typename_field@, value.jv()))
//@   opt /Ok\(type_name\.to_string\(\)\)/ => Ok(type_name.clone())
//@   start proof { broadcast use obj_any; if value is Object { lemma_obj(value->Object_0); } }
//@ fn src/core/ir/discriminator/type_field_discriminator.rs :: impl TypeFieldDiscriminator :: fn resolve_and_set_type
//@   spec requires value.jv() is Obj
//@   | ensures is_jv(r, one(self.rule(), value.jv()))
//@   start proof { if value is Object { lemma_obj(value->Object_0); } }
}
impl Discriminator {
    pub closed spec fn rule(&self) -> Rule { match self { Discriminator::Keyed(k) => k.rule(), Discriminator::TypeField(t) => t.rule() } }
//@ fn src/core/ir/discriminator.rs :: impl Discriminator :: fn new
//@   opt /\.map\(Self::(\w+)\)/ => .map(|d_| -> (q: Self) ensures q == Self::\1(d_) { Self::\1(d_) })
//@   spec ensures match typename_field {
//@   |    Some(f) => if f@.len() == 0 { r.ok() is None } else { r.ok() is Some && r.ok()->0.rule() == Rule::Field(types@, f@) },
//@   |    None => r.ok() is Some && r.ok()->0.rule() == Rule::Keyed(types@) }
//@ fn src/core/ir/discriminator.rs :: impl Discriminator :: fn resolve_type
//@   attr #[verifier::loop_isolation(false)]
//@   opt /arr\.into_iter\(\)\.map\(\|(\w+)\| self\.resolve_type\(\w+\)\)\.collect::<Result<Vec<_>>>\(\)\?/ => { let mut v_: Vec<Value> = Vec::new(); for \1 in arr.into_iter() { match self.resolve_type(\1) { Ok(x_) => v_.push(x_), Err(e_) => return Err(e_), } } v_ }
//@   spec ensures is_jv(r, resolved(self.rule(), value.jv()))
//@   | decreases value.jv()
//@   start let ghost v0 = value.jv();
//@   loop 1 it=it invariant v0 is Arr, v0->Arr_0 == jv_arr(it.seq()), v_@.len() == it.index(), forall|i: int| 0 <= i < v_@.len() ==> resolved(self.rule(), #[trigger] v0->Arr_0[i]) == Some(v_@[i].jv()),
//@   loopstart 1 proof { let s = v0->Arr_0; assert(s[it.index() as int] == it.seq()[it.index() as int].jv()); assert(decreases_to!(v0 => s)); assert(decreases_to!(s => s[it.index() as int])); }
//@   after 1 proof { assert(v_@.len() == v0->Arr_0.len()); assert(typed(v0) is None); assert(resolved(self.rule(), v0) is Some); assert(resolved(self.rule(), v0)->0->Arr_0 =~= jv_arr(v_@)); }
}
} // verus!
fn main() {}
