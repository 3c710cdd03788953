// Contracts proved in the unit group_by.
use m_hash::HashMap;
verus! {
#[verifier::external_body]
pub fn gather_path_matches<'json, J: JsonLike<'json>>(root: &'json J, path: &[String], vector: Vec<(&'json J, &'json J)>) -> (r: Vec<(&'json J, &'json J)>)
    ensures jv2(r@) == jv2(vector@) + gather(root.jv(), path@)
{ unimplemented!() }
#[verifier::external_body]
pub fn group_by_key<'json, J: JsonLike<'json>>(src: Vec<(&'json J, &'json J)>) -> (r: HashMap<String, Vec<&'json J>>)
    ensures grouped(jv2(src@), r@)
{ unimplemented!() }
pub broadcast proof fn lemma_no_prefix(a: Seq<(JV, JV)>) ensures #[trigger] (Seq::<(JV, JV)>::empty() + a) == a { assert(Seq::<(JV, JV)>::empty() + a =~= a); }
} // verus!
