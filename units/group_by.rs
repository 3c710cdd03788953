#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/lookup.rs
//@ include prelude/map.rs MAP=HashMap MOD=m_hash KEEP=false
//@ include prelude/jv.rs
//@ include prelude/jsonlike.rs
//@ include prelude/groupby.rs
//@ include prelude/from_str.rs
use m_hash::HashMap;
verus! {
broadcast use {axiom_string_ext, axiom_string_of, axiom_i64_text, axiom_u64_text, axiom_f64_text, axiom_from_str};
//@ fn src/core/json/mod.rs :: fn gather_path_matches
//@   attr #[verifier::loop_isolation(false)]
//@   spec ensures jv2(r@) == jv2(vector@) + gather(root.jv(), path@)
//@   | decreases path@.len(), root.jv()
//@   start let ghost root0 = root; let ghost vec0 = vector; proof { assert(jv2(vector@) + Seq::<(JV, JV)>::empty() =~= jv2(vector@)); }
//@   loop 1 it=it invariant root0.jv() is Arr, root0.jv()->Arr_0 == jv_arr(it.seq().map_values(|x: &J| *x)), jv2(vector@) =~= jv2(vec0@) + gather_arr(root0.jv(), path@, it.index() as nat),
//@   loopstart 1 proof { let sq = root0.jv()->Arr_0; assert(sq[it.index() as int] == (*it.seq()[it.index() as int]).jv()); assert(decreases_to!(root0.jv() => sq)); assert(decreases_to!(sq => sq[it.index() as int])); assert(decreases_to!(root0.jv() => sq[it.index() as int])); }
//@   after 1 proof { }

pub open spec fn num_text<T>(r: Option<T>, f: spec_fn(T) -> Seq<char>) -> Option<Seq<char>> { match r { Some(x) => Some(f(x)), None => None } }
pub proof fn lemma_group_step(src: Seq<(JV, JV)>, n: int, t: Seq<char>)
    requires 0 <= n < src.len()
    ensures group(src.take(n + 1), t) == (if key_text(src[n].0) == Some(t) { group(src.take(n), t).push(src[n].1) } else { group(src.take(n), t) })
{
    assert(src.take(n + 1).drop_last() =~= src.take(n));
    assert(src.take(n + 1).last() == src[n]);
}
pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

//@ fn src/core/json/mod.rs :: fn group_by_key
//@   spec ensures grouped(jv2(src@), r@)
//@   start let ghost src0 = jv2(src@);
//@   closure 1 |$0: &str| -> (s: String) ensures s@ == $0@
//@   closure 2 || -> (o: Option<String>) ensures opt_text(o) == num_text(num_i64(key.jv()), |i: i64| int_text(i as int))
//@   closure 3 |$0: i64| -> (s: String) ensures s@ == int_text($0 as int)
//@   closure 4 || -> (o: Option<String>) ensures opt_text(o) == num_text(num_u64(key.jv()), |i: u64| int_text(i as int))
//@   closure 5 |$0: u64| -> (s: String) ensures s@ == int_text($0 as int)
//@   closure 6 || -> (o: Option<String>) ensures opt_text(o) == num_text(num_f64(key.jv()), |f: f64| float_text(f))
//@   closure 7 |$0: f64| -> (s: String) ensures s@ == float_text($0)
//@   loop 1 it=it invariant src0 == jv2(it.seq()), grouped(src0.take(it.index() as int), map@),
//@   loopstart 1 let ghost n = it.index() as int; let ghost before = map@; proof { assert(src0[n] == (it.seq()[n].0.jv(), it.seq()[n].1.jv())); it.seq()[n].0.lemma_num(); }
//@   loopend 1 proof {
//@   |    let s = src0.take(n); let s2 = src0.take(n + 1);
//@   |    assert forall|t: Seq<char>| #[trigger] group(s2, t) == (if key_text(src0[n].0) == Some(t) { group(s, t).push(src0[n].1) } else { group(s, t) }) by { lemma_group_step(src0, n, t); }
//@   |    assert forall|t: String| #[trigger] map@.dom().contains(t) <==> group(s2, t@).len() > 0 by { assert(before.dom().contains(t) <==> group(s, t@).len() > 0); }
//@   |    assert forall|t: String| #[trigger] map@.dom().contains(t) implies jv1(map@[t]@) == group(s2, t@) by { assert(before.dom().contains(t) <==> group(s, t@).len() > 0); assert(jv1(map@[t]@) =~= group(s2, t@)); }
//@   | }
//@   after 1 proof { assert(src0.take(src0.len() as int) =~= src0); }

// what to group by, as configured: the path into the response and the name of the key
//@ item src/core/config/group_by.rs :: struct GroupBy
//@ item src/core/config/group_by.rs :: const ID
//@   sub /: &str/ => : &'static str
pub open spec fn txt(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
impl GroupBy {
    pub open spec fn path_of(self) -> Seq<Seq<char>> { if self.path@.len() == 0 { seq!["id"@] } else { txt(self.path@) } }
    pub open spec fn key_of(self) -> Seq<char> { match self.key { Some(k) => k@, None => self.path_of().last() } }
//@ fn src/core/config/group_by.rs :: impl GroupBy :: fn new
//@   spec ensures r.path == path, r.key == key
//@ fn src/core/config/group_by.rs :: impl GroupBy :: fn path
//@   spec ensures txt(r@) =~= self.path_of()
//@   start proof { from_str_ok(); }
//@ fn src/core/config/group_by.rs :: impl GroupBy :: fn key
//@   spec ensures r@ == self.key_of()
}
impl Default for GroupBy {
//@ fn src/core/config/group_by.rs :: impl Default for GroupBy :: fn default vis=none
//@   spec ensures r.path_of() =~= seq!["id"@], r.key_of() == "id"@
}
}
fn main() {}
