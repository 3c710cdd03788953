pub mod p_lookup {
use vstd::prelude::*;
verus! {
// what a borrowed key stands for: `map.get("x")` looks up the String "x"
pub trait Lookup<K> { spec fn key(&self) -> K; }
impl<K> Lookup<K> for K { open spec fn key(&self) -> K { *self } }
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn axiom_string_of(s: Seq<char>) ensures #[trigger] string_of(s)@ == s;
impl Lookup<String> for str { open spec fn key(&self) -> String { string_of(self@) } }
} // verus!
} // mod
pub use p_lookup::*;
