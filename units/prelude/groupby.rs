// What grouping a response means (specifications only).
pub mod p_groupby {
use vstd::prelude::*;
use super::*;
use super::m_hash::HashMap;
verus! {
pub uninterp spec fn int_text(i: int) -> Seq<char>;
pub uninterp spec fn float_text(f: f64) -> Seq<char>;
// Display of integers is exact: different integers read differently
pub axiom fn axiom_int_text(a: int, b: int) ensures int_text(a) == int_text(b) ==> a == b;
pub broadcast axiom fn axiom_i64_text(a: i64, s: String) ensures (#[trigger] vstd::string::to_string_from_display_ensures::<i64>(&a, s)) ==> s@ == int_text(a as int);
pub broadcast axiom fn axiom_u64_text(a: u64, s: String) ensures (#[trigger] vstd::string::to_string_from_display_ensures::<u64>(&a, s)) ==> s@ == int_text(a as int);
pub broadcast axiom fn axiom_f64_text(a: f64, s: String) ensures (#[trigger] vstd::string::to_string_from_display_ensures::<f64>(&a, s)) ==> s@ == float_text(a);

// what is found at `path` below `v`: (the value there, the object that holds it),
// arrays on the way are searched element by element, in order
pub open spec fn gather(v: JV, path: Seq<String>) -> Seq<(JV, JV)>
    decreases path.len(), v, (match v { JV::Arr(s) => s.len() + 1, _ => 0nat })
{
    match v {
        JV::Arr(s) => gather_arr(v, path, s.len()),
        _ => if path.len() == 0 { Seq::empty() } else {
            match jv_get(v, path[0]@) {
                None => Seq::empty(),
                Some(x) => if path.len() == 1 { seq![(x, v)] } else { gather(x, path.skip(1)) },
            }
        },
    }
}
pub open spec fn gather_arr(v: JV, path: Seq<String>, n: nat) -> Seq<(JV, JV)>
    decreases path.len(), v, n
{
    match v {
        JV::Arr(s) => if n == 0 || n > s.len() { Seq::empty() } else { gather_arr(v, path, (n - 1) as nat) + gather(s[n - 1], path) },
        _ => Seq::empty(),
    }
}
pub open spec fn jv2<'a, J: HasJv>(s: Seq<(&'a J, &'a J)>) -> Seq<(JV, JV)> { s.map_values(|t: (&J, &J)| (t.0.jv(), t.1.jv())) }
// the text a key value goes by: its string, or the exact decimal text of its number
pub open spec fn key_text(k: JV) -> Option<Seq<char>> {
    match k { JV::Str(s) => Some(s), JV::Num(NumV::Int(i)) => Some(int_text(i)), JV::Num(NumV::Float(f)) => Some(float_text(f)), _ => None }
}
// the values of the pairs whose key reads `t`, in order
pub open spec fn group(src: Seq<(JV, JV)>, t: Seq<char>) -> Seq<JV>
    decreases src.len()
{
    if src.len() == 0 { Seq::empty() } else {
        let g = group(src.drop_last(), t);
        if key_text(src.last().0) == Some(t) { g.push(src.last().1) } else { g }
    }
}
pub open spec fn jv1<'a, J: HasJv>(s: Seq<&'a J>) -> Seq<JV> { s.map_values(|t: &J| t.jv()) }
pub open spec fn grouped<'a, J: HasJv>(src: Seq<(JV, JV)>, m: Map<String, Vec<&'a J>>) -> bool {
    &&& forall|t: String| #[trigger] m.dom().contains(t) <==> group(src, t@).len() > 0
    &&& forall|t: String| #[trigger] m.dom().contains(t) ==> jv1(m[t]@) == group(src, t@)
}

} // verus!
}
pub use p_groupby::*;
