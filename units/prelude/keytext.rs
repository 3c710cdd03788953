pub mod p_keytext {
use vstd::prelude::*;
verus! {
// the text of a key: String, str and names
pub trait KeyText { spec fn key_text(&self) -> Seq<char>; }
impl KeyText for String { open spec fn key_text(&self) -> Seq<char> { self@ } }
impl KeyText for str { open spec fn key_text(&self) -> Seq<char> { self@ } }
impl<'a> KeyText for &'a str { open spec fn key_text(&self) -> Seq<char> { (*self)@ } }
} // verus!
}
pub use p_keytext::*;
