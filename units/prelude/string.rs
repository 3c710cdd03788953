//@ include std.rs
pub mod p_string {
use vstd::prelude::*;
verus! {
// A String's identity, in specifications, is the sequence of its characters
// (capacity and address are not observable through `==`, Hash or Ord).
pub broadcast axiom fn axiom_string_ext(a: String, b: String)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b;
} // verus!
} // mod
pub use p_string::*;
