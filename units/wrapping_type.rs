#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
use std::ops::Deref;
pub mod async_graphql {
use vstd::prelude::*;
verus! {
// Assumed shape of async-graphql's types.
#[verifier::external_body] pub struct Name { _p: () }
impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Name {
    #[verifier::external_body] pub fn new(s: &String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub mod types {
use super::*;
pub struct Type { pub base: BaseType, pub nullable: bool }
pub enum BaseType { Named(Name), List(Box<Type>) }
}
pub mod dynamic {
use super::*;
#[verifier::external_body] pub struct CowStr { _p: () }
impl View for CowStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub fn cow(s: String) -> (r: CowStr) ensures r@ == s@ { unimplemented!() }
pub enum TypeRef { Named(CowStr), NonNull(Box<TypeRef>), List(Box<TypeRef>) }
}
} // verus!
}
use async_graphql::types as async_graphql_types;
use async_graphql::Name;
verus! {
broadcast use axiom_string_ext;
//@ item src/core/wrapping_type.rs :: enum Type
// the sequence of wrappers from the outside in (is it a list, is it required), and the name at its core
pub open spec fn name_of(t: Type) -> Seq<char> decreases t { match t { Type::Named { name, .. } => name@, Type::List { of_type, .. } => name_of(*of_type) } }
pub open spec fn nn(t: Type) -> bool { match t { Type::Named { non_null, .. } => non_null, Type::List { non_null, .. } => non_null } }
pub open spec fn layers(t: Type) -> Seq<bool> decreases t { match t { Type::Named { non_null, .. } => seq![non_null], Type::List { non_null, of_type } => seq![non_null] + layers(*of_type) } }
pub open spec fn core_of(t: Type) -> Type decreases t { match t { Type::Named { .. } => t, Type::List { of_type, .. } => core_of(*of_type) } }
// only the outermost "required" flag differs
pub open spec fn with_nn(t: Type, b: bool) -> Type { match t { Type::Named { name, .. } => Type::Named { name, non_null: b }, Type::List { of_type, .. } => Type::List { of_type, non_null: b } } }
pub open spec fn renamed(t: Type, n: String) -> Type decreases t { match t { Type::Named { non_null, .. } => Type::Named { name: n, non_null }, Type::List { non_null, of_type } => Type::List { of_type: Box::new(renamed(*of_type, n)), non_null } } }
// the same type in async-graphql's two notations
pub open spec fn as_ast(t: Type, a: async_graphql_types::Type) -> bool decreases t {
    a.nullable == !nn(t) && match t {
        Type::Named { name, .. } => a.base is Named && a.base->Named_0@ == name@,
        Type::List { of_type, .. } => a.base is List && as_ast(*of_type, *a.base->List_0),
    }
}
pub open spec fn as_ref_bare(t: Type, a: async_graphql::dynamic::TypeRef) -> bool decreases t, 0nat {
    match t {
        Type::Named { name, .. } => a is Named && a->Named_0@ == name@,
        Type::List { of_type, .. } => a is List && as_ref(*of_type, *a->List_0),
    }
}
pub open spec fn as_ref(t: Type, a: async_graphql::dynamic::TypeRef) -> bool decreases t, 1nat {
    if nn(t) { a is NonNull && as_ref_bare(t, *a->NonNull_0) } else { as_ref_bare(t, a) }
}
// what each notation says pins the type down
pub proof fn lemma_ast_exact(t: Type, u: Type, a: async_graphql_types::Type)
    requires as_ast(t, a), as_ast(u, a)
    ensures t == u
    decreases t
{
    match t {
        Type::Named { name, .. } => { match u { Type::Named { name: n2, .. } => { assert(name == n2); } _ => {} } }
        Type::List { of_type, .. } => { match u { Type::List { of_type: o2, .. } => { lemma_ast_exact(*of_type, *o2, *a.base->List_0); } _ => {} } }
    }
}
pub proof fn lemma_renamed(t: Type, n: String)
    ensures name_of(renamed(t, n)) == n@, layers(renamed(t, n)) == layers(t)
    decreases t
{ match t { Type::List { of_type, .. } => lemma_renamed(*of_type, n), _ => {} } }
impl Type {
//@ fn src/core/wrapping_type.rs :: impl Type :: fn name
//@   spec ensures r@ == name_of(*self) decreases self
//@ fn src/core/wrapping_type.rs :: impl Type :: fn is_nullable
//@   spec ensures r == !nn(*self)
//@ fn src/core/wrapping_type.rs :: impl Type :: fn is_list
//@   spec ensures r == (self is List)
//@ fn src/core/wrapping_type.rs :: impl Type :: fn into_required
//@   spec ensures r == with_nn(self, true)
//@ fn src/core/wrapping_type.rs :: impl Type :: fn into_nullable
//@   spec ensures r == with_nn(self, false)
//@ fn src/core/wrapping_type.rs :: impl Type :: fn into_list
//@   spec ensures r == (Type::List { of_type: Box::new(self), non_null: false })
//@ fn src/core/wrapping_type.rs :: impl Type :: fn into_single
//@   spec ensures r == core_of(self), r is Named, r.name_is(name_of(self)) decreases self
//@ fn src/core/wrapping_type.rs :: impl Type :: fn with_name
//@   spec ensures r == renamed(self, name) decreases self
    pub open spec fn name_is(self, n: Seq<char>) -> bool { name_of(self) == n }
}
impl Default for Type {
//@ fn src/core/wrapping_type.rs :: impl Default for Type :: fn default vis=none
//@   spec ensures r is Named, r->Named_name@ == "JSON"@, !nn(r)
//@   start proof { reveal_strlit("JSON"); }
}
// the three conversions, as functions: `From` impls recurse through `.into()`
//@ fn src/core/wrapping_type.rs :: impl From<String> for Type :: fn from name=from_string
//@   spec ensures r == (Type::Named { name: value, non_null: false })
//@   sub /-> Self/ => -> Type
//@   opt /Self::/ => Type::
//@ fn src/core/wrapping_type.rs :: impl From<&async_graphql_types::Type> for Type :: fn from name=from_ast
//@   spec ensures as_ast(r, *value) decreases *value
//@   sub /-> Self/ => -> Type
//@   sub /Self::/ => Type::
//@   sub /type_\.as_ref\(\)\.into\(\)/ => from_ast(&**type_)
//@ fn src/core/wrapping_type.rs :: impl From<&Type> for async_graphql_types::Type :: fn from name=to_ast
//@   spec ensures as_ast(*value, r) decreases *value
//@   sub /-> Self/ => -> async_graphql_types::Type
//@   opt /async_graphql_types::Type::from\(of_type\.deref\(\)\)/ => to_ast(&**of_type)
//@ fn src/core/wrapping_type.rs :: impl From<&Type> for async_graphql::dynamic::TypeRef :: fn from name=to_ref
//@   spec ensures as_ref(*value, r) decreases *value
//@   sub /-> Self/ => -> async_graphql::dynamic::TypeRef
//@   sub /name\.to_owned\(\)\.into\(\)/ => async_graphql::dynamic::cow(name.to_owned())
//@   opt /async_graphql::dynamic::TypeRef::from\(of_type\.deref\(\)\)/ => to_ref(&**of_type)
}
fn main() {}
