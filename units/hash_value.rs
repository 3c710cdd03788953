#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
pub mod m_dep {
// Assumed shapes of async-graphql-value 7, indexmap and std's Hash, as far as used here.
use vstd::prelude::*;
verus! {
#[verifier::external_body] pub struct Number { _p: () }
impl View for Number { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body] pub struct Bytes { _p: () }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct Name { _p: () }
impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
pub enum ConstValue { Null, Number(Number), String(String), Boolean(bool), Binary(Bytes), Enum(Name), List(Vec<ConstValue>), Object(IndexMap<Name, ConstValue>) }
// the value itself: objects are maps, whatever the order of their fields; an enum value equals the text of its name
// (and a Name, an Arc<str>, feeds a hasher what its text does)
pub enum Val { Null, Num(int), Str(Seq<char>), Bool(bool), Bin(Seq<u8>), List(Seq<Val>), Obj(Map<Seq<char>, Val>) }
pub uninterp spec fn fields(m: IndexMap<Name, ConstValue>) -> Map<Seq<char>, Val>;
pub uninterp spec fn read(v: ConstValue) -> Val;
pub open spec fn vals(s: Seq<ConstValue>) -> Seq<Val> { s.map_values(|v: ConstValue| read(v)) }
// (the model of an object's fields is that of its values, by induction: given)
pub broadcast axiom fn axiom_val(v: ConstValue) ensures #[trigger] read(v) == (match v {
    ConstValue::Null => Val::Null, ConstValue::Number(n) => Val::Num(n@), ConstValue::String(s) => Val::Str(s@), ConstValue::Boolean(b) => Val::Bool(b), ConstValue::Binary(b) => Val::Bin(b@), ConstValue::Enum(n) => Val::Str(n@),
    ConstValue::List(l) => Val::List(vals(l@)), ConstValue::Object(m) => Val::Obj(fields(m)) });
// the names of a set of fields, sorted
pub uninterp spec fn sorted(s: Set<Seq<char>>) -> Seq<Seq<char>>;
pub open spec fn names(v: Seq<(&Name, &ConstValue)>) -> Seq<Seq<char>> { v.map_values(|p: (&Name, &ConstValue)| p.0@) }
// the very fields of that object, in that order
pub open spec fn of(v: Seq<(&Name, &ConstValue)>, m: Map<Seq<char>, Val>) -> bool { forall|i: int| 0 <= i < v.len() ==> m.dom().contains((#[trigger] v[i]).0@) && read(*v[i].1) == m[v[i].0@] }
pub open spec fn all_of(v: Seq<(&Name, &ConstValue)>, m: Map<Seq<char>, Val>) -> bool { of(v, m) && names(v).to_set() == m.dom() && names(v).no_duplicates() }
impl IndexMap<Name, ConstValue> {
    // iter().collect()
    #[verifier::external_body] pub fn entries_(&self) -> (r: Vec<(&Name, &ConstValue)>) ensures all_of(r@, fields(*self)) { unimplemented!() }
}
#[derive(Clone, Copy)] pub enum Order { Less, Equal, Greater }
pub uninterp spec fn order(a: Seq<char>, b: Seq<char>) -> Order;
pub open spec fn by_name<'a, F: Fn(&(&'a Name, &'a ConstValue), &(&'a Name, &'a ConstValue)) -> Order>(f: F) -> bool {
    forall|a: (&'a Name, &'a ConstValue), b: (&'a Name, &'a ConstValue), o: Order| #[trigger] f.ensures((&a, &b), o) ==> o == order(a.0@, b.0@)
}
pub trait SortBy<'a> { fn sort_by_<F: Fn(&(&'a Name, &'a ConstValue), &(&'a Name, &'a ConstValue)) -> Order>(&mut self, f: F); }
impl<'a> SortBy<'a> for Vec<(&'a Name, &'a ConstValue)> {
    // sorting by name: the same fields in the order of their names, which depends on the names alone
    #[verifier::external_body] fn sort_by_<F: Fn(&(&'a Name, &'a ConstValue), &(&'a Name, &'a ConstValue)) -> Order>(&mut self, f: F)
        ensures forall|m: Map<Seq<char>, Val>| #[trigger] all_of(old(self)@, m) ==> all_of(final(self)@, m), by_name(f) && names(old(self)@).no_duplicates() ==> names(final(self)@) == sorted(names(old(self)@).to_set())
    { unimplemented!() }
}
impl Name { #[verifier::external_body] pub fn cmp(&self, o: &Name) -> (r: Order) ensures r == order(self@, o@) { unimplemented!() } }
impl Number { #[verifier::external_body] pub fn cmp_(&self) { unimplemented!() } }
// what a Hasher is fed
pub enum Piece { Num(int), Text(Seq<char>), Bool(bool), Bytes(Seq<u8>) }
pub trait Hasher { spec fn log(&self) -> Seq<Piece>; }
pub trait Hash { spec fn piece(&self) -> Piece; fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).log() == old(state).log().push(self.piece()); }
impl Hash for Number { open spec fn piece(&self) -> Piece { Piece::Num(self@) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for String { open spec fn piece(&self) -> Piece { Piece::Text(self@) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for Name { open spec fn piece(&self) -> Piece { Piece::Text(self@) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for bool { open spec fn piece(&self) -> Piece { Piece::Bool(*self) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for Bytes { open spec fn piece(&self) -> Piece { Piece::Bytes(self@) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
// `==` of async-graphql's values compares what they hold
#[verifier::external_body] pub fn same_(a: &ConstValue, b: &ConstValue) -> (r: bool) ensures r == (read(*a) == read(*b)) { unimplemented!() }
} // verus!
}
use m_dep::*;
verus! {
broadcast use axiom_val;
// what a value feeds to the hasher: a function of the value, so that equal values have equal hashes
pub open spec fn fed(v: Val) -> Seq<Piece> decreases v, 0nat {
    match v {
        Val::Null => Seq::empty(), Val::Num(n) => seq![Piece::Num(n)], Val::Str(s) => seq![Piece::Text(s)], Val::Bool(b) => seq![Piece::Bool(b)], Val::Bin(b) => seq![Piece::Bytes(b)],
        Val::List(s) => fed_items(s, s.len()),
        Val::Obj(m) => fed_fields(m, sorted(m.dom()), sorted(m.dom()).len()),
    }
}
pub open spec fn fed_items(s: Seq<Val>, n: nat) -> Seq<Piece> decreases s, n { if n == 0 || n > s.len() { Seq::empty() } else { fed_items(s, (n - 1) as nat) + fed(s[n - 1]) } }
pub open spec fn fed_fields(m: Map<Seq<char>, Val>, ks: Seq<Seq<char>>, n: nat) -> Seq<Piece> decreases m, n {
    if n == 0 || n > ks.len() || !m.dom().contains(ks[n - 1]) { Seq::empty() } else { fed_fields(m, ks, (n - 1) as nat).push(Piece::Text(ks[n - 1])) + fed(m[ks[n - 1]]) }
}
//@ item src/core/helpers/value.rs :: struct HashableConstValue
//@ rewrite /\b(\w+)\.iter\(\)\.for_each\(\|(\w+)\| (\w+\([^()]*\))\)/ => for \2 in \1.iter() { \3; }
//@ rewrite /\b(\w+)\.iter\(\)\.for_each\(\|(\w+)\| \{([^{}]*)\}\)/ => for \2 in \1.iter() { \3 }
//@ rewrite /\b(\w+)\.iter\(\)\.for_each\(\|\((\w+), (\w+)\)\| \{([^{}]*)\}\)/ => for (\2, \3) in \1.iter() { \4 }
//@ rewrite /: Vec<_> = (\w+)\.iter\(\)\.collect\(\)/ => = \1.entries_()
//@ rewrite /\b(\w+)\.iter\(\)\.collect::<Vec<_>>\(\)/ => \1.entries_()
//@ rewrite /\.sort(_unstable)?_by\(/ => .sort_by_(
impl HashableConstValue {
//@ fn src/core/helpers/value.rs :: impl Hash for HashableConstValue :: fn hash
//@   sub /\bhash\(&self\.0, state\)/ => hash_value(&self.0, state)
//@   spec ensures final(state).log() == old(state).log() + fed(read(self.0))
//@ fn src/core/helpers/value.rs :: impl PartialEq for HashableConstValue :: fn eq name=eq_
//@   opt /self\.0 == other\.0/ => same_(&self.0, &other.0)
//@   spec ensures r == (read(self.0) == read(other.0))
}
//@ fn src/core/helpers/value.rs :: fn hash name=hash_value
//@   opt /(?<![\w.])hash\((\w+|&?\w+\.\w+), state\)/ => hash_value(\1, state)
//@   attr #[verifier::loop_isolation(false)]
//@   spec ensures final(state).log() =~= old(state).log() + fed(read(*const_value)) decreases read(*const_value)
//@   start let ghost l0 = state.log();
//@   closurelet 1 |a0: &(&Name, &ConstValue), a1: &(&Name, &ConstValue)| -> (o: Order) ensures o == order((*a0).0@, (*a1).0@)
//@   loop 1 it=it invariant read(*const_value) is List ==> it.seq() == list@.map_values(|t: ConstValue| &t) && state.log() =~= l0 + fed_items(vals(list@), it.index() as nat),
//@   loopstart 1 proof { if *const_value is List { let l = const_value->List_0@; assert(vals(l)[it.index() as int] == read(l[it.index() as int])); assert(read(*const_value)->List_0 == vals(l) && decreases_to!(read(*const_value) => read(*const_value)->List_0)); } }
//@   loop 2 it=it invariant it.seq() == tmp_list@.map_values(|t: (&Name, &ConstValue)| &t), state.log() =~= l0 + fed_fields(fields(*object), names(tmp_list@), it.index() as nat),
//@   loopstart 2 let ghost i = it.index() as int; proof { if *const_value is Object { let m = fields(const_value->Object_0); assert(read(*const_value)->Obj_0 == m && decreases_to!(read(*const_value) => read(*const_value)->Obj_0)); assert(all_of(tmp_list@, m)); assert(names(tmp_list@)[i] == tmp_list@[i].0@); assert(m.dom().contains(tmp_list@[i].0@)); assert(read(*tmp_list@[i].1) == m[tmp_list@[i].0@]); } }
//@   before 2 proof { assert(all_of(tmp_list@, fields(*object))); assert(names(tmp_list@) == sorted(fields(*object).dom())); }
} // verus!
fn main() {}
