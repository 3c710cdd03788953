pub mod p_jv {
use vstd::prelude::*;
verus! {
// JSON values, as specifications see them. Numbers are opaque, compared by their value.
// Enum and Other (binary data, variables) occur in GraphQL values only.
pub enum JV { Null, Bool(bool), Str(Seq<char>), Num(NumV), Arr(Seq<JV>), Obj(Map<Seq<char>, JV>), Enum(Seq<char>), Other(int) }
// a JSON number: an integer that fits i64 or u64, or a float (given by its bits)
pub enum NumV { Int(int), Float(f64) }
pub open spec fn jv_arr<T: HasJv>(s: Seq<T>) -> Seq<JV> { s.map_values(|t: T| t.jv()) }
pub trait HasJv: Sized { spec fn jv(&self) -> JV; }
pub open spec fn jv_get(v: JV, k: Seq<char>) -> Option<JV> {
    match v { JV::Obj(m) => if m.dom().contains(k) { Some(m[k]) } else { None }, _ => None }
}
pub open spec fn opt_jv<T: HasJv>(o: Option<&T>) -> Option<JV> { match o { Some(t) => Some(t.jv()), None => None } }
pub open spec fn num_i64(v: JV) -> Option<i64> { match v { JV::Num(NumV::Int(i)) => if i64::MIN <= i <= i64::MAX { Some(i as i64) } else { None }, _ => None } }
pub open spec fn num_u64(v: JV) -> Option<u64> { match v { JV::Num(NumV::Int(i)) => if 0 <= i <= u64::MAX { Some(i as u64) } else { None }, _ => None } }
pub uninterp spec fn int_to_f64(i: int) -> f64;
pub open spec fn num_f64(v: JV) -> Option<f64> { match v { JV::Num(NumV::Int(i)) => Some(int_to_f64(i)), JV::Num(NumV::Float(f)) => Some(f), _ => None } }
} // verus!
} // mod
pub use p_jv::*;
