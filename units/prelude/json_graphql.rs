//@ include gql_value.rs T=$T OTHER=$OTHER
pub mod map_impl {
use vstd::prelude::*;
use super::*;
use super::m_map::*;
use super::async_graphql_value::*;
verus! {
broadcast use {axiom_string_ext, arr_jv, obj_jv, axiom_number};
pub proof fn lemma_fields<'a>(s: Seq<(&'a str, $T)>, q: Seq<(Name, $T)>)
    requires q.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]).0@ == s[i].0@ && q[i].1 == s[i].1
    ensures map_jv(pairs(q)) == JV::Obj(fields(s))
    decreases s.len()
{
    if s.len() > 0 { lemma_fields(s.drop_last(), q.drop_last()); }
    assert(map_jv(pairs(q))->Obj_0 =~= fields(s));
}
pub open spec fn same_pairs<'a>(s: Seq<(&'a str, $T)>, m: Map<Seq<char>, $T>) -> bool { exists|q: Seq<(Name, $T)>| m == #[trigger] pairs(q) && q.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]).0@ == s[i].0@ && q[i].1 == s[i].1 }
proof fn lemma_from_vec<'a>(s: Seq<(&'a str, $T)>, m: Map<Seq<char>, $T>)
    requires same_pairs(s, m)
    ensures map_jv(m) == JV::Obj(fields(s))
{ let q = choose|q: Seq<(Name, $T)>| m == #[trigger] pairs(q) && q.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] q[i]).0@ == s[i].0@ && q[i].1 == s[i].1; lemma_fields(s, q); }
//@ rewrite /\bSelf::Value\b/ => $T
//@ fn src/core/json/graphql.rs :: impl<'obj, Value: JsonLike<'obj>> JsonObjectLike<'obj> for IndexMap<Name, Value> :: fn from_vec name=map_from_vec
//@   sub /fn from_vec\(/ => fn from_vec<'obj>(
//@   sub /-> Self/ => -> IndexMap<Name, $T>
//@   spec ensures r.jv() == JV::Obj(fields(v@))
//@   closurelet 1 |a0: (&'obj str, $T)| -> (p: (Name, $T)) ensures p.0@ == a0.0@, p.1 == a0.1
//@   tail proof { lemma_from_vec(v@, ret_@); }
impl<'obj> JsonObjectLike<'obj> for IndexMap<Name, $T> {
    type Value = $T;
//@ fns src/core/json/graphql.rs :: impl<'obj, Value: JsonLike<'obj>> JsonObjectLike<'obj> for IndexMap<Name, Value> vis=none skip=from_vec,insert_key,iter
//@   start proof { assert(map_jv(Map::<Seq<char>, $T>::empty())->Obj_0 =~= Map::empty()); }
//@ fn src/core/json/graphql.rs :: impl<'obj, Value: JsonLike<'obj>> JsonObjectLike<'obj> for IndexMap<Name, Value> :: fn insert_key vis=none
//@   end proof { assert(final(self).jv()->Obj_0 =~= old(self).jv()->Obj_0.insert(key@, value.jv())); }
    // proved above, as map_from_vec
    #[verifier::external_body]
    fn from_vec(v: Vec<(&'obj str, $T)>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn iter<'slf>(&'slf self) -> (r: ObjIter<'slf, $T>) { unimplemented!() }
}
//@ rewrite /AsRef<str>/ => AsText
//@ rewrite /token\.as_ref\(\)\.parse::<usize>\(\)\.ok\(\)/ => parse_usize_ok(token.as_ref())
//@ rewrite /Cow<'json, str>/ => Cow<'json>
//@ rewrite /Self::JsonObject\b/ => IndexMap<Name, $T>
//@ rewrite /async_graphql::Name/ => Name
impl<'json> JsonLike<'json> for $T {
    type JsonObject = IndexMap<Name, $T>;
    proof fn lemma_num(&self) { match *self { $T::Number(n) => axiom_number(n), _ => {} } }
//@ fns src/core/json/graphql.rs :: impl<'json> JsonLike<'json> for $T vis=none skip=group_by,get_path
//@ fn src/core/json/graphql.rs :: impl<'json> JsonLike<'json> for $T :: fn get_path vis=none
//@   loop 1 it=it invariant get_path(val.jv(), texts(path@).skip(it.index() as int)) == get_path(self.jv(), texts(path@)), it.seq() == path@.map_values(|t: T| &t),
//@   start proof { assert(texts(path@).skip(0) =~= texts(path@)); }
//@   loopstart 1 proof { let n = it.index() as int; let q = texts(path@).skip(n); assert(q.skip(1) =~= texts(path@).skip(n + 1)); assert(q[0] == path@[n].text()); assert(*token == path@[n]); }
//@   after 1 proof { assert(texts(path@).skip(path@.len() as int) =~= Seq::empty()); }
}
impl $T {
//@ fn src/core/json/graphql.rs :: impl<'json> JsonLike<'json> for $T :: fn group_by
//@   spec ensures grouped(gather(self.jv(), path@), r@)
}
} // verus!
}
fn main() {}
