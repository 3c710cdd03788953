// Assumed shape of the dependency's type (async-graphql-value 7): its public variants.
pub mod async_graphql_value {
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct Number { _p: () }
#[verifier::external_body] pub struct Bytes { _p: () }
#[verifier::external_body] pub struct Name { _p: () }
pub enum ConstValue {
    Null,
    Number(Number),
    String(String),
    Boolean(bool),
    Binary(Bytes),
    Enum(Name),
    List(Vec<ConstValue>),
    Object(indexmap::IndexMap<Name, ConstValue>),
}
impl Default for ConstValue {
    fn default() -> (r: Self) ensures r is Null { ConstValue::Null }
}
} // verus!
} // mod
