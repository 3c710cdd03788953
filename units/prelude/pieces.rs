// Assumed contract of str::split(char) and of a filter over its pieces; str::strip_prefix(char).
pub mod p_pieces {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
verus! {
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
// the texts between the separators
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else if s.last() == c { pieces(s.drop_last(), c).push(Seq::empty()) }
    else { let p = pieces(s.drop_last(), c); p.drop_last().push(p.last().push(s.last())) }
}
// the items marked to be kept
pub open spec fn kept<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let k = kept(s.drop_last(), keep.drop_last()); if keep.last() { k.push(s.last()) } else { k } }
}
pub open spec fn nonempty(s: Seq<Seq<char>>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let k = nonempty(s.drop_last()); if s.last().len() > 0 { k.push(s.last()) } else { k } }
}
pub open spec fn txts(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub broadcast proof fn lemma_kept(s: Seq<&str>, keep: Seq<bool>)
    requires s.len() == keep.len(), forall|i: int| 0 <= i < s.len() ==> keep[i] == (#[trigger] s[i]@.len() > 0)
    ensures txts(#[trigger] kept(s, keep)) == nonempty(txts(s))
    decreases s.len()
{
    if s.len() > 0 {
        let (s1, k1) = (s.drop_last(), keep.drop_last());
        assert forall|i: int| 0 <= i < s1.len() implies k1[i] == (#[trigger] s1[i]@.len() > 0) by { assert(s[i] == s1[i]); }
        lemma_kept(s1, k1);
        assert(txts(s).drop_last() =~= txts(s1));
        assert(keep.last() == (s[s.len() - 1]@.len() > 0));
        assert(txts(kept(s, keep)) =~= nonempty(txts(s)));
    } else { assert(txts(kept(s, keep)) =~= nonempty(txts(s))); }
}
#[verifier::external_body] pub struct Pieces<'a> { _p: core::marker::PhantomData<&'a str> }
impl<'a> Pieces<'a> {
    pub uninterp spec fn rem(&self) -> Seq<&'a str>;
    #[verifier::external_body] pub fn filter<F: Fn(&&'a str) -> bool>(self, f: F) -> (r: Pieces<'a>)
        requires forall|x: &&'a str| f.requires((x,))
        ensures exists|keep: Seq<bool>| keep.len() == self.rem().len() && (forall|i: int| 0 <= i < keep.len() ==> f.ensures((&#[trigger] self.rem()[i],), keep[i])) && r.rem() == #[trigger] kept(self.rem(), keep) { unimplemented!() }
}
impl<'a> Iterator for Pieces<'a> { type Item = &'a str; #[verifier::external_body] fn next(&mut self) -> Option<&'a str> { unimplemented!() } }
impl<'a> IteratorSpecImpl for Pieces<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<&'a str> { self.rem() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.rem().len()) }
    open spec fn peek(&self, i: int) -> Option<&'a str> { if 0 <= i < self.rem().len() { Some(self.rem()[i]) } else { None } }
}
#[verifier::external_body] pub fn split_<'a>(s: &'a str, c: char) -> (r: Pieces<'a>) ensures txts(r.rem()) == pieces(s@, c) { unimplemented!() }
#[verifier::external_body] pub fn strip_prefix_<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    ensures match r { Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.skip(1), None => !(s@.len() > 0 && s@[0] == c) } { unimplemented!() }
pub trait AsText { spec fn text(&self) -> Seq<char>; }
impl AsText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl AsText for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a, T: AsText + ?Sized> AsText for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
// `==` of texts, owned or borrowed
#[verifier::external_body] pub fn text_eq_<A: AsText, B: AsText>(a: A, b: B) -> (r: bool) ensures r == (a.text() == b.text()) { unimplemented!() }
} // verus!
}
pub use p_pieces::*;
