#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/lookup.rs
//@ include prelude/map.rs MAP=BTreeMap MOD=m_btree KEEP=false
use m_btree::BTreeMap;
verus! {
broadcast use axiom_string_ext;
//@ item src/core/config/key_values.rs :: struct KeyValue
// what the last pair of `v` with key `k` says
pub open spec fn last_val(v: Seq<KeyValue>, k: String) -> Option<String>
    decreases v.len()
{
    if v.len() == 0 { None } else if v.last().key == k { Some(v.last().value) } else { last_val(v.drop_last(), k) }
}
pub open spec fn kv_wanted(a: Seq<KeyValue>, b: Seq<KeyValue>, k: String) -> Option<String> {
    match last_val(b, k) { Some(v) => Some(v), None => last_val(a, k) }
}
pub open spec fn map_is(m: Map<String, String>, a: Seq<KeyValue>, b: Seq<KeyValue>) -> bool {
    forall|k: String| (#[trigger] m.dom().contains(k) <==> kv_wanted(a, b, k) is Some) && (m.dom().contains(k) ==> kv_wanted(a, b, k) == Some(m[k]))
}
// one pair per key that either side has; the right side's value, else the left's
pub open spec fn kvs_merged(a: Seq<KeyValue>, b: Seq<KeyValue>, r: Seq<KeyValue>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i].key != r[j].key
    &&& forall|i: int| 0 <= i < r.len() ==> kv_wanted(a, b, (#[trigger] r[i]).key) == Some(r[i].value)
    &&& forall|k: String| #[trigger] kv_wanted(a, b, k) is Some ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).key == k
}
pub proof fn lemma_last(v: Seq<KeyValue>, n: int, k: String)
    requires 0 <= n < v.len()
    ensures last_val(v.take(n + 1), k) == (if v[n].key == k { Some(v[n].value) } else { last_val(v.take(n), k) })
{ assert(v.take(n + 1).drop_last() =~= v.take(n)); assert(v.take(n + 1).last() == v[n]); }

//@ fn src/core/config/key_values.rs :: fn merge_key_value_vecs
//@   spec ensures kvs_merged(current@, other@, r@)
//@   closure 1 |pair: (String, String)| -> (kv: KeyValue) ensures kv.key == pair.0, kv.value == pair.1
//@   loop 1 it=it invariant it.seq().map_values(|x: &KeyValue| *x) =~= current@, map_is(res@, current@.take(it.index() as int), Seq::<KeyValue>::empty()),
//@   loopstart 1 proof { let n = it.index() as int; assert(*it.seq()[n] == it.seq().map_values(|x: &KeyValue| *x)[n]); assert forall|k: String| true implies #[trigger] last_val(current@.take(n + 1), k) == (if current@[n].key == k { Some(current@[n].value) } else { last_val(current@.take(n), k) }) by { lemma_last(current@, n, k); } }
//@   after 1 proof { assert(current@.take(current@.len() as int) =~= current@); assert(other@.take(0) =~= Seq::<KeyValue>::empty()); }
//@   loop 2 it=it invariant it.seq().map_values(|x: &KeyValue| *x) =~= other@, map_is(res@, current@, other@.take(it.index() as int)),
//@   loopstart 2 proof { let n = it.index() as int; assert(*it.seq()[n] == it.seq().map_values(|x: &KeyValue| *x)[n]); assert forall|k: String| true implies #[trigger] last_val(other@.take(n + 1), k) == (if other@[n].key == k { Some(other@[n].value) } else { last_val(other@.take(n), k) }) by { lemma_last(other@, n, k); } }
//@   after 2 proof { assert(other@.take(other@.len() as int) =~= other@); broadcast use m_btree::axiom_order; assert forall|k: String| #[trigger] kv_wanted(current@, other@, k) is Some implies res.order().contains(k) by { assert(res@.dom().contains(k)); } }
//@   tail proof { broadcast use m_btree::axiom_order; assert forall|i: int| 0 <= i < ret_@.len() implies (#[trigger] ret_@[i]).key == res.order()[i] && ret_@[i].value == res@[res.order()[i]] by {}
//@   |   assert forall|i: int, j: int| 0 <= i < j < ret_@.len() implies ret_@[i].key != ret_@[j].key by { }
//@   |   assert forall|i: int| 0 <= i < ret_@.len() implies kv_wanted(current@, other@, (#[trigger] ret_@[i]).key) == Some(ret_@[i].value) by { assert(res.order().contains(res.order()[i])); assert(res@.dom().contains(res.order()[i])); }
//@   |   assert forall|k: String| #[trigger] kv_wanted(current@, other@, k) is Some implies exists|i: int| 0 <= i < ret_@.len() && (#[trigger] ret_@[i]).key == k by { assert(res@.dom().contains(k)); assert(res.order().contains(k)); let i = choose|i: int| 0 <= i < res.order().len() && res.order()[i] == k; assert(ret_@[i].key == k); }
//@   | }
//@   sub /KeyValue \{ key: k, value: v \}/ => { let (k, v) = pair; KeyValue { key: k, value: v } }

//@ fn src/core/config/directives/server.rs :: fn merge_right_vars
//@   spec ensures kvs_merged(left@, right@, r@)
}
fn main() {}
