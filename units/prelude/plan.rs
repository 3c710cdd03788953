pub mod m_json {
// Assumed contract of JsonLike and TypedValue over a value's content (the implementations are under contract in the
// units json_const, json_serde, json_borrow, json_list): `Value` is what resolvers give, `Output` what is answered.
use vstd::prelude::*;
use super::*;
verus! {
pub enum J { Null, Text(Seq<char>), Other(int), Arr(Seq<J>), Obj(Seq<(Seq<char>, J)>) }
pub open spec fn at(o: Seq<(Seq<char>, J)>, k: Seq<char>) -> Option<J> decreases o.len() { if o.len() == 0 { None } else if o[0].0 == k { Some(o[0].1) } else { at(o.skip(1), k) } }
pub open spec fn known(o: Seq<(Seq<char>, J)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k }
// an entry is put behind the others, or in place of the one of its name
pub open spec fn put(o: Seq<(Seq<char>, J)>, k: Seq<char>, v: J) -> Seq<(Seq<char>, J)> decreases o.len() { if o.len() == 0 { seq![(k, v)] } else if o[0].0 == k { seq![(k, v)] + o.skip(1) } else { seq![o[0]] + put(o.skip(1), k, v) } }
// the type a value says it is of
pub uninterp spec fn type_said(j: J) -> Option<Seq<char>>;
#[verifier::external_body] pub struct Value { _p: () }
impl Value {
    pub uninterp spec fn j(&self) -> J;
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self.j() == J::Null) { unimplemented!() }
    #[verifier::external_body] pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures match r { Some(a) => self.j() is Arr && a@.len() == self.j()->Arr_0.len() && forall|i: int| #![trigger a@[i]] #![trigger self.j()->Arr_0[i]] 0 <= i < a@.len() ==> a@[i].j() == self.j()->Arr_0[i], None => !(self.j() is Arr) } { unimplemented!() }
    #[verifier::external_body] pub fn as_object(&self) -> (r: Option<&Object>) ensures match r { Some(o) => self.j() == J::Obj(o@), None => !(self.j() is Obj) } { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => self.j() == J::Text(s@), None => !(self.j() is Text) } { unimplemented!() }
    #[verifier::external_body] pub fn get_type_name(&self) -> (r: Option<&str>) ensures match r { Some(s) => type_said(self.j()) == Some(s@), None => type_said(self.j()) is None } { unimplemented!() }
}
#[verifier::external_body] pub struct Object { _p: () }
impl View for Object { type V = Seq<(Seq<char>, J)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, J)>; }
impl Object {
    #[verifier::external_body] pub fn get_key(&self, k: &str) -> (r: Option<&Value>) ensures match r { Some(v) => at(self@, k@) == Some(v.j()), None => at(self@, k@) is None } { unimplemented!() }
}
#[verifier::external_body] pub struct Output { _p: () }
impl Output {
    pub uninterp spec fn j(&self) -> J;
    #[verifier::external_body] pub fn null() -> (r: Self) ensures r.j() == J::Null { unimplemented!() }
    #[verifier::external_body] pub fn string(s: &str) -> (r: Self) ensures r.j() == J::Text(s@) { unimplemented!() }
    #[verifier::external_body] pub fn clone_from(v: &Value) -> (r: Self) ensures r.j() == v.j() { unimplemented!() }
    #[verifier::external_body] pub fn array(v: Vec<Output>) -> (r: Self) ensures r.j() == J::Arr(js(v@)) { unimplemented!() }
    #[verifier::external_body] pub fn object(v: OutObject) -> (r: Self) ensures r.j() == J::Obj(v@) { unimplemented!() }
}
pub open spec fn js(v: Seq<Output>) -> Seq<J> { v.map_values(|o: Output| o.j()) }
pub open spec fn ents(v: Seq<(&str, Output)>) -> Seq<(Seq<char>, J)> { v.map_values(|e: (&str, Output)| (e.0@, e.1.j())) }
#[verifier::external_body] pub struct OutObject { _p: () }
impl View for OutObject { type V = Seq<(Seq<char>, J)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, J)>; }
impl OutObject {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<(Seq<char>, J)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_vec(v: Vec<(&str, Output)>) -> (r: Self) ensures r@ == ents(v@) { unimplemented!() }
    #[verifier::external_body] pub fn insert_key(&mut self, k: &str, v: Output) ensures final(self)@ == put(old(self)@, k@, v.j()) { unimplemented!() }
}
// Cow of std
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a> Cow<'a, String> {
    pub open spec fn text(&self) -> Seq<char> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.text() == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body] pub fn same_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn owned_(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
// an item of a list; a list that is too short is a panic
#[verifier::external_body] pub fn item_(a: &Vec<Value>, i: usize) -> (r: &Value) ensures i < a@.len() && *r == a@[i as int] { unimplemented!() }
} // verus!
}
use m_json::*;
pub mod m_plan {
// Assumed shape of a plan, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct Error { _p: () }
impl Error { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum ValidationError { ScalarInvalid { type_of: String }, EnumInvalid { type_of: String }, ValueRequired }
impl ValidationError { #[verifier::external_body] pub fn into_(self) -> Error { unimplemented!() } }
#[verifier::external_body] pub struct Scalar { _p: () }
impl Scalar {
    pub uninterp spec fn allows(&self, j: J) -> bool;
    // proved in the unit scalar
    #[verifier::external_body] pub fn validate(&self, v: &Value) -> (r: bool) ensures r == self.allows(v.j()) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Pos { pub line: usize, pub column: usize }
#[verifier::external_body] pub struct Index { _p: () }
impl Index {
    // proved in the unit select
    pub uninterp spec fn enum_has(&self, t: Seq<char>, v: Seq<char>) -> bool;
    pub uninterp spec fn implements(&self, t: Seq<char>, i: Seq<char>) -> bool;
    #[verifier::external_body] pub fn validate_enum_value(&self, t: &str, v: &str) -> (r: bool) ensures r == self.enum_has(t@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn is_type_implements(&self, t: &str, i: &str) -> (r: bool) ensures r == self.implements(t@, i@) { unimplemented!() }
}
#[verifier::external_body] pub struct IR { _p: () }
pub struct FieldId(pub usize);
impl FieldId { pub fn as_usize(&self) -> (r: usize) ensures r == self.0 { self.0 } }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Variables<V> { _p: core::marker::PhantomData<V> }
pub struct Requirement { pub expected: bool }
pub struct Field<Input> { pub id: FieldId, pub name: String, pub output_name: String, pub type_of: Type, pub type_condition: Option<String>, pub alternatives: Vec<Vec<Requirement>>, pub selection: Vec<Field<Input>>, pub pos: Pos, pub is_enum: bool, pub scalar: Option<Scalar>, pub ir: Option<IR>, pub arg: Option<Input> }
impl<Input> Field<Input> {
    // proved in the unit select
    pub uninterp spec fn skipped(&self, v: Variables<Value>) -> bool;
    #[verifier::external_body] pub fn skip(&self, v: &Variables<Value>) -> (r: bool) ensures r == self.skipped(*v) { unimplemented!() }
}
pub struct OperationPlan<Input> { pub root_name: String, pub index: Index, pub selection: Vec<Field<Input>> }
} // verus!
}
use m_plan::*;
use std::collections::HashMap;
verus! {
broadcast use {axiom_string_ext, vstd::std_specs::hash::group_hash_axioms};
//@ item src/core/wrapping_type.rs :: enum Type
pub open spec fn name_of(t: Type) -> Seq<char> decreases t { match t { Type::Named { name, .. } => name@, Type::List { of_type, .. } => name_of(*of_type) } }
pub open spec fn opt(t: Type) -> bool { match t { Type::Named { non_null, .. } => !non_null, Type::List { non_null, .. } => !non_null } }
impl Type {
//@ fn src/core/wrapping_type.rs :: impl Type :: fn name
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures r@ == name_of(*self)
//@ fn src/core/wrapping_type.rs :: impl Type :: fn is_nullable
//@   spec ensures r == opt(*self)
//@ fn src/core/wrapping_type.rs :: impl Type :: fn is_list
//@   spec ensures r == (*self is List)
}
//@ item src/core/jit/model.rs :: enum PathSegment
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@ item src/core/jit/model.rs :: struct Positioned
//@   opt /#\[derive\([^\]]*\)\]/ => 
impl<Value> Positioned<Value> {
//@ fn src/core/jit/model.rs :: impl<Value> Positioned<Value> :: fn new
//@   spec ensures r.value == value, r.pos == pos, r.path@ =~= Seq::empty()
}
impl Positioned<Error> {
//@ fn src/core/jit/model.rs :: impl<Value> Positioned<Value> where Value: Clone, :: fn with_path
//@   spec ensures r.value == old(self).value, r.pos == old(self).pos, r.path == path, *final(self) == *old(self)
}
pub struct DataPath(pub Vec<usize>);
impl DataPath {
//@ fn src/core/jit/store.rs :: impl DataPath :: fn new
//@   spec ensures r.0@ =~= Seq::empty()
//@ fn src/core/jit/store.rs :: impl DataPath :: fn with_index
//@   spec ensures r.0@ == self.0@.push(index)
//@ fn src/core/jit/store.rs :: impl DataPath :: fn as_slice
//@   spec ensures r@ == self.0@
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.0@ == self.0@ { unimplemented!() }
}
// ---- what the property says
pub enum P { F(Seq<char>), I(int) }
pub open spec fn seg(p: PathSegment) -> P { match p { PathSegment::Field(c) => P::F(c.text()), PathSegment::Index(i) => P::I(i as int) } }
pub open spec fn place(p: Seq<PathSegment>) -> Seq<P> { p.map_values(|s: PathSegment| seg(s)) }
//@ item src/core/jit/store.rs :: struct Store
//@   opt /#\[derive\([^\]]*\)\]/ => 
impl<Data> Store<Data> {
    pub open spec fn got(&self, id: usize) -> Option<Data> { if self.data@.contains_key(id) { Some(self.data@[id]) } else { None } }
//@ fn src/core/jit/store.rs :: impl<Data> Store<Data> :: fn new
//@   spec ensures forall|i: usize| r.got(i) is None
//@ fn src/core/jit/store.rs :: impl<Data> Store<Data> :: fn set_data
//@   spec ensures forall|i: usize| #[trigger] final(self).got(i) == (if i == field_id.0 { Some(data) } else { old(self).got(i) })
//@ fn src/core/jit/store.rs :: impl<Data> Store<Data> :: fn set
//@   spec ensures forall|i: usize| #[trigger] final(self).got(i) == (if i == field_id.0 { Some(data) } else { old(self).got(i) })
//@ fn src/core/jit/store.rs :: impl<Data> Store<Data> :: fn get
//@   spec ensures match r { Some(d) => self.got(field_id.0) == Some(*d), None => self.got(field_id.0) is None }
}
pub struct Synth<'a> { pub plan: &'a OperationPlan<Value>, pub store: Store<Result<Value, Positioned<Error>>>, pub variables: Variables<Value> }
// every value, or every item of a list, is one that is allowed
pub open spec fn leaf_ok(t: Type, v: J, p: spec_fn(J) -> bool) -> bool decreases t {
    match t {
        Type::List { of_type, .. } if v is Arr => forall|i: int| 0 <= i < v->Arr_0.len() ==> (if (#[trigger] v->Arr_0[i]) == J::Null { opt(*of_type) } else { leaf_ok(*of_type, v->Arr_0[i], p) }),
        _ => p(v),
    }
}
pub open spec fn scalar_p(c: Scalar) -> spec_fn(J) -> bool { |j: J| c.allows(j) }
pub open spec fn enum_p(s: Synth, node: Field<Value>) -> spec_fn(J) -> bool { |j: J| j is Text && s.plan.index.enum_has(name_of(node.type_of), j->Text_0) }
// the field is one of the type of the object
pub open spec fn part(s: Synth, c: Field<Value>, v: J) -> bool { match c.type_condition { Some(t) => match type_said(v) { Some(ty) => s.plan.index.implements(ty, t@), None => true }, None => true } }
pub open spec fn said(node: Field<Value>, v: J) -> Seq<char> { match type_said(v) { Some(t) => t, None => name_of(node.type_of) } }
// the value at a place of nested lists
pub open spec fn walk(v: J, dp: Seq<usize>, n: int) -> Option<J> decreases n {
    if n <= 0 { Some(v) } else { match walk(v, dp, n - 1) { Some(J::Arr(a)) => Some(a[dp[n - 1] as int]), _ => None } }
}
pub open spec fn absent(node: Field<Value>, root: Option<Seq<char>>) -> Option<J> {
    if root is Some && node.name@ == "__typename"@ { Some(J::Text(root->0)) } else if opt(node.type_of) { Some(J::Null) } else { None }
}
pub open spec fn item_type(t: Type) -> Type { match t { Type::List { of_type, .. } => *of_type, Type::Named { .. } => t } }
// the answer for a field: the value the resolver gave, or the one of the parent's value; None: the answer is an error
pub open spec fn child(s: Synth, node: Field<Value>, v: Option<J>, dp: Seq<usize>, root: Option<Seq<char>>) -> Option<J> decreases node, 1int, J::Null, 0int, 0int {
    match s.store.got(node.id.0) {
        Some(Err(_)) => None,
        Some(Ok(w)) => match walk(w.j(), dp, dp.len() as int) {
            None => Some(J::Null),
            Some(x) => if (node.type_of is List) != (x is Arr) { absent(node, None) } else { answer(s, node, node.type_of, x, dp) },
        },
        None => match v { Some(x) => answer(s, node, node.type_of, x, dp), None => absent(node, root) },
    }
}
pub open spec fn answer(s: Synth, node: Field<Value>, ty: Type, v: J, dp: Seq<usize>) -> Option<J> decreases node, 0int, v, 1int, 0int {
    if node.skipped(s.variables) { Some(J::Null) }
    else if v == J::Null { if opt(ty) { Some(J::Null) } else { None } }
    else if node.scalar is Some { if leaf_ok(ty, v, scalar_p(node.scalar->0)) { Some(v) } else { None } }
    else if node.is_enum { if leaf_ok(ty, v, enum_p(s, node)) { Some(v) } else { None } }
    else { match v {
        J::Obj(o) => match chosen(s, node, v, dp, node.selection@.len() as int) { Some(f) => Some(J::Obj(f)), None => None },
        J::Arr(a) => match items(s, node, ty, v, dp, a.len() as int) { Some(x) => Some(J::Arr(x)), None => None },
        _ => Some(v),
    } }
}
// exactly the selected fields of the object's type, in the order of the query and each name once
pub open spec fn chosen(s: Synth, node: Field<Value>, v: J, dp: Seq<usize>, n: int) -> Option<Seq<(Seq<char>, J)>> decreases node, 0int, v, 0int, n {
    if n <= 0 || n > node.selection@.len() || !(v is Obj) { Some(Seq::empty()) }
    else { match chosen(s, node, v, dp, n - 1) {
        None => None,
        Some(f) => {
            let c = node.selection@[n - 1];
            if !part(s, c, v) || c.skipped(s.variables) || known(f, c.output_name@) { Some(f) }
            else if c.name@ == "__typename"@ { Some(f.push((c.output_name@, J::Text(said(node, v))))) }
            else { match child(s, c, at(v->Obj_0, c.name@), dp, None) { None => None, Some(j) => Some(f.push((c.output_name@, j))) } }
        },
    } }
}
pub open spec fn items(s: Synth, node: Field<Value>, ty: Type, v: J, dp: Seq<usize>, n: int) -> Option<Seq<J>> decreases node, 0int, v, 0int, n {
    if n <= 0 || !(v is Arr) || n > v->Arr_0.len() { Some(Seq::empty()) }
    else { match items(s, node, ty, v, dp, n - 1) {
        None => None,
        Some(x) => match answer(s, node, item_type(ty), v->Arr_0[n - 1], dp.push((n - 1) as usize)) { None => None, Some(j) => Some(x.push(j)) },
    } }
}
pub open spec fn top(s: Synth, n: int) -> Option<Seq<(Seq<char>, J)>> decreases n {
    if n <= 0 { Some(Seq::empty()) }
    else { match top(s, n - 1) {
        None => None,
        Some(f) => { let c = s.plan.selection@[n - 1]; if c.skipped(s.variables) { Some(f) } else { match child(s, c, None, Seq::empty(), Some(s.plan.root_name@)) { None => None, Some(j) => Some(put(f, c.output_name@, j)) } } },
    } }
}
// the place an error names
pub open spec fn below(e: Positioned<Error>, p: Seq<PathSegment>) -> bool { p.len() <= e.path@.len() && place(p) == place(e.path@).take(p.len() as int) }
pub open spec fn told(s: Synth, e: Positioned<Error>) -> bool { exists|id: usize| #[trigger] s.store.got(id) == Some(Err::<Value, _>(e)) }
pub open spec fn each_<'a, F: Fn(&'a Value) -> bool>(f: F, a: Seq<Value>, k: Seq<bool>) -> bool { k.len() == a.len() && forall|i: int| #![trigger k[i]] #![trigger a[i]] 0 <= i < a.len() ==> f.ensures((&a[i],), k[i]) }
// Iterator::all over the items of a list
#[verifier::external_body] pub fn every_<'a, F: Fn(&'a Value) -> bool>(a: &'a Vec<Value>, f: F) -> (r: bool) requires forall|x: &'a Value| #[trigger] f.requires((x,))
    ensures exists|k: Seq<bool>| #[trigger] each_(f, a@, k) && r == (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i]) { unimplemented!() }
// Iterator::any over the entries of an object
pub open spec fn each2_<'a, F: Fn(&(&'a str, Output)) -> bool>(f: F, a: Seq<(&'a str, Output)>, k: Seq<bool>) -> bool { k.len() == a.len() && forall|i: int| #![trigger k[i]] #![trigger a[i]] 0 <= i < a.len() ==> f.ensures((&a[i],), k[i]) }
#[verifier::external_body] pub fn some_<'a, F: Fn(&(&'a str, Output)) -> bool>(a: &Vec<(&'a str, Output)>, f: F) -> (r: bool) requires forall|x: &(&'a str, Output)| #[trigger] f.requires((x,))
    ensures exists|k: Seq<bool>| #[trigger] each2_(f, a@, k) && r == (exists|i: int| 0 <= i < k.len() && #[trigger] k[i]) { unimplemented!() }
pub proof fn lemma_known(f: Seq<(&str, Output)>, n: Seq<char>)
    ensures known(ents(f), n) == (exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0@ == n)
{ if known(ents(f), n) { let i = choose|i: int| 0 <= i < ents(f).len() && (#[trigger] ents(f)[i]).0 == n; assert(f[i].0@ == n); } if exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0@ == n { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0@ == n; assert(ents(f)[i].0 == n); } }
#[verifier::external_body] pub fn clone_(e: &Positioned<Error>) -> (r: Positioned<Error>) ensures r == *e { unimplemented!() }
impl OperationPlan<Value> {
//@ fn src/core/jit/model.rs :: impl<Input> OperationPlan<Input> :: fn root_name
//@   spec ensures r@ == self.root_name@
//@ fn src/core/jit/model.rs :: impl<Input> OperationPlan<Input> :: fn field_validate_enum_value
//@   sub /Field<Input>/ => Field<Value>
//@   spec ensures r == self.index.enum_has(name_of(field.type_of), value@)
//@ fn src/core/jit/model.rs :: impl<Input> OperationPlan<Input> :: fn field_is_part_of_value
//@   sub /Field<Input>/ => Field<Value>
//@   sub /<'a, Output>/ => <'a>
//@   sub /Output: TypedValue<'a>,/ => 
//@   sub /&'a Output/ => &'a Value
//@   spec ensures r == match field.type_condition { Some(t) => match type_said(value.j()) { Some(ty) => self.index.implements(ty, t@), None => true }, None => true }
}
impl Field<Value> {
//@ fn src/core/jit/model.rs :: impl<Input> Field<Input> :: fn value_type
//@   sub /<'a, Output>/ => <'a>
//@   sub /Output: TypedValue<'a>,/ => 
//@   sub /&'a Output/ => &'a Value
//@   spec ensures r@ == said(*self, value.j())
//@ fn src/core/jit/model.rs :: impl<Input> Field<Input> :: fn iter
//@   sub /impl Iterator<Item = &Field<Input>>/ => It<&Field<Value>>
//@   opt /\.iter\(\)/ => .it_()
//@   spec ensures r@ == self.selection@.map_values(|c: Field<Value>| &c)
//@   tail proof { assert(ret_@ =~= self.selection@.map_values(|c: Field<Value>| &c)) by { assert forall|i: int| 0 <= i < ret_@.len() implies ret_@[i] == &(self.selection@[i]) by { assert(*(ret_@[i]) == self.selection@[i]); } } }
}
} // verus!
