#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/jv.rs
//@ include prelude/jsonlike.rs
verus! {
broadcast use {axiom_string_ext, axiom_number};
// a value as it reads in the other representation: the same JSON value; an enum becomes its name
pub open spec fn copy(v: JV) -> JV decreases v {
    match v {
        JV::Enum(s) => JV::Str(s),
        JV::Arr(s) => JV::Arr(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { copy(s[i]) } else { JV::Null })),
        JV::Obj(m) => JV::Obj(Map::new(m.dom(), |k: Seq<char>| if m.dom().contains(k) { copy(m[k]) } else { JV::Null })),
        _ => v,
    }
}
// without enums it is the very same value
pub open spec fn plain_json(v: JV) -> bool decreases v {
    match v {
        JV::Enum(_) => false, JV::Other(_) => false,
        JV::Arr(s) => forall|i: int| 0 <= i < s.len() ==> plain_json(#[trigger] s[i]),
        JV::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> plain_json(m[k]),
        _ => true,
    }
}
pub proof fn lemma_copy_same(v: JV) requires plain_json(v) ensures copy(v) == v decreases v {
    match v {
        JV::Arr(s) => {
            assert forall|i: int| 0 <= i < s.len() implies copy(#[trigger] s[i]) == s[i] by { lemma_copy_same(s[i]); }
            assert(copy(v)->Arr_0 =~= s);
        }
        JV::Obj(m) => {
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies copy(m[k]) == m[k] by { lemma_copy_same(m[k]); }
            assert(copy(v)->Obj_0 =~= m);
        }
        _ => {}
    }
}
// binary data and GraphQL variables are no JSON: nothing is said about copying them
pub open spec fn no_other(v: JV) -> bool decreases v {
    match v {
        JV::Other(_) => false,
        JV::Arr(s) => forall|i: int| 0 <= i < s.len() ==> no_other(#[trigger] s[i]),
        JV::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> no_other(m[k]),
        _ => true,
    }
}
pub proof fn lemma_ref_fields<'a, T: HasJv>(s: Seq<(&'a str, &'a T)>, i: int)
    requires names_once(s), 0 <= i < s.len()
    ensures ref_fields(s).dom().contains(s[i].0@), ref_fields(s)[s[i].0@] == (*s[i].1).jv()
    decreases s.len()
{
    if i < s.len() - 1 { let d = s.drop_last(); assert(d[i] == s[i]); assert forall|a: int, b: int| 0 <= a < b < d.len() implies (#[trigger] d[a]).0@ != (#[trigger] d[b]).0@ by { assert(s[a].0@ != s[b].0@); } lemma_ref_fields(d, i); assert(s[i].0@ != s[s.len() - 1].0@); }
}
// the fields built so far are the copies of the fields seen so far
pub open spec fn copied<'a, S: HasJv, T: HasJv>(out: Seq<(&'a str, S)>, src: Seq<(&'a str, &'a T)>, n: int) -> bool {
    out.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] out[i]).0 == src[i].0 && out[i].1.jv() == copy((*src[i].1).jv())
}
pub proof fn lemma_copied<'a, S: HasJv, T: HasJv>(out: Seq<(&'a str, S)>, src: Seq<(&'a str, &'a T)>)
    requires copied(out, src, src.len() as int)
    ensures JV::Obj(fields(out)) == copy(JV::Obj(ref_fields(src)))
    decreases src.len()
{
    if src.len() > 0 {
        let (o, s) = (out.drop_last(), src.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] o[i]).0 == s[i].0 && o[i].1.jv() == copy((*s[i].1).jv()) by { assert(o[i] == out[i]); }
        lemma_copied(o, s);
        assert(out[out.len() - 1].0 == src[src.len() - 1].0);
        assert(fields(o) == copy(JV::Obj(ref_fields(s)))->Obj_0);
        assert(fields(out) =~= copy(JV::Obj(ref_fields(src)))->Obj_0);
    } else {
        assert(fields(out) =~= copy(JV::Obj(ref_fields(src)))->Obj_0);
    }
}
pub open spec fn done<'a, S: HasJv, T: HasJv>(out: Seq<(&'a str, S)>, v: JV) -> bool { exists|src: Seq<(&'a str, &'a T)>| #[trigger] copied(out, src, src.len() as int) && names_once(src) && JV::Obj(ref_fields(src)) == v }
pub proof fn lemma_done<'a, S: HasJv, T: HasJv>(out: Seq<(&'a str, S)>, v: JV)
    requires done::<S, T>(out, v)
    ensures JV::Obj(fields(out)) == copy(v), names_once(out)
{
    let src = choose|src: Seq<(&'a str, &'a T)>| #[trigger] copied(out, src, src.len() as int) && names_once(src) && JV::Obj(ref_fields(src)) == v;
    lemma_copied(out, src);
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies (#[trigger] out[i]).0@ != (#[trigger] out[j]).0@ by { assert(src[i].0@ != src[j].0@); }
}
//@ fn src/core/json/json_like.rs :: trait JsonLike :: fn clone_from
//@   attr #[verifier::loop_isolation(false)]
//@   sub /fn clone_from<T>/ => fn clone_from<'json, S: JsonLike<'json>, T>
//@   sub /-> Self/ => -> S
//@   opt /T::JsonObject: JsonObjectLike<'json, Value = T>,/ =>
//@   opt /arr\.iter\(\)\.map\(Self::clone_from\)\.collect\(\)/ => { let mut v_: Vec<S> = Vec::new(); for x in arr.iter() { v_.push(Self::clone_from(x)); } v_ }
//@   opt /Self::clone_from/ => clone_from::<S, T>
//@   opt /Self::/ => S::
//@   spec requires no_other(other.jv())
//@   | ensures r.jv() == copy(other.jv())
//@   | decreases other.jv()
//@   loop 1 it=it invariant obj.jv() is Obj, names_once(it.seq()), ref_fields(it.seq()) == obj.jv()->Obj_0, copied(fields@, it.seq(), it.index() as int),
//@   loopstart 1 proof { lemma_ref_fields(it.seq(), it.index() as int); assert(other.jv()->Obj_0.dom().contains(elem_.0@)); assert(decreases_to!(other.jv() => other.jv()->Obj_0)); assert(decreases_to!(other.jv() => other.jv()->Obj_0[elem_.0@])); }
//@   after 1 proof { lemma_done::<S, T>(fields@, other.jv()); }
//@   loop 2 it=jt invariant jt.seq() == arr@.map_values(|t: T| &t), v_@.len() == jt.index(), forall|i: int| 0 <= i < v_@.len() ==> (#[trigger] v_@[i]).jv() == copy(arr@[i].jv()),
//@   loopstart 2 proof { let s = other.jv()->Arr_0; assert(s == jv_arr(arr@)); assert(s[jt.index() as int] == (*x).jv()); assert(decreases_to!(other.jv() => s)); assert(decreases_to!(s => s[jt.index() as int])); assert(no_other(s[jt.index() as int])); }
//@   after 2 proof { assert(copy(other.jv())->Arr_0 =~= jv_arr(v_@)); }
}
fn main() {}
