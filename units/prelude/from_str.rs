pub mod p_from_str { use vstd::prelude::*; use vstd::std_specs::convert::FromSpec;
verus! {
// String::from(&str) and (&str).into() copy the text
pub broadcast axiom fn axiom_from_str(s: &str) ensures <String as FromSpec<&str>>::obeys_from_spec(), (#[trigger] <String as FromSpec<&str>>::from_spec(s))@ == s@;
pub proof fn from_str_ok() ensures <String as FromSpec<&str>>::obeys_from_spec() { axiom_from_str("") }
} // verus!
}
pub use p_from_str::*;
