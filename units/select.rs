#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
pub mod m_doc {
// Assumed shapes of async-graphql's documents and of the types of a blueprint, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub fn same_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn owned_(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
pub struct Name { pub text: String }
impl Name { pub fn as_str(&self) -> (r: &str) ensures r@ == self.text@ { self.text.as_str() } #[verifier::external_body] pub fn deref(&self) -> (r: &str) ensures r@ == self.text@ { unimplemented!() } }
pub struct Place { pub line: usize, pub column: usize }
#[derive(Clone, Copy)] pub struct Pos { pub line: usize, pub column: usize }
impl Place { #[verifier::external_body] pub fn into_(&self) -> Pos { unimplemented!() } }
pub struct Positioned<T> { pub node: T, pub pos: Place }
#[verifier::external_body] pub struct Number { _p: () }
pub enum Value { Boolean(bool), Variable(Name), Number(Number) }
pub struct Directive { pub name: Positioned<Name>, pub arguments: Vec<(Positioned<Name>, Positioned<Value>)> }
pub open spec fn arg_of(a: Seq<(Positioned<Name>, Positioned<Value>)>, n: Seq<char>) -> Option<Value> decreases a.len() { if a.len() == 0 { None } else if a[0].0.node.text@ == n { Some(a[0].1.node) } else { arg_of(a.skip(1), n) } }
impl Directive {
    #[verifier::external_body] pub fn get_argument(&self, n: &str) -> (r: Option<&Positioned<Value>>) ensures match r { Some(v) => arg_of(self.arguments@, n@) == Some(v.node), None => arg_of(self.arguments@, n@) is None } { unimplemented!() }
}
pub struct SelectionSet { pub items: Vec<Positioned<Selection>> }
pub struct GqlField { pub alias: Option<Positioned<Name>>, pub name: Positioned<Name>, pub directives: Vec<Positioned<Directive>>, pub selection_set: Positioned<SelectionSet> }
pub struct FragmentSpread { pub fragment_name: Positioned<Name>, pub directives: Vec<Positioned<Directive>> }
pub struct TypeCondition { pub on: Positioned<Name> }
pub struct InlineFragment { pub type_condition: Option<Positioned<TypeCondition>>, pub directives: Vec<Positioned<Directive>>, pub selection_set: Positioned<SelectionSet> }
pub enum Selection { Field(Positioned<GqlField>), FragmentSpread(Positioned<FragmentSpread>), InlineFragment(Positioned<InlineFragment>) }
pub struct FragmentDefinition { pub type_condition: Positioned<TypeCondition>, pub selection_set: Positioned<SelectionSet> }
#[verifier::external_body] pub struct Fragments<'b> { _p: core::marker::PhantomData<&'b u8> }
impl<'b> Fragments<'b> {
    pub uninterp spec fn defs(&self) -> Map<Seq<char>, FragmentDefinition>;
    #[verifier::external_body] pub fn get(&self, n: &str) -> (r: Option<&&'b FragmentDefinition>) ensures match r { Some(f) => self.defs().contains_key(n@) && **f == self.defs()[n@], None => !self.defs().contains_key(n@) } { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { _p: core::marker::PhantomData<T> }
impl BTreeSet<String> {
    pub uninterp spec fn has(&self, s: Seq<char>) -> bool;
    #[verifier::external_body] pub fn contains(&self, s: &str) -> (r: bool) ensures r == self.has(s@) { unimplemented!() }
}
// IndexMap by its entries, each key once
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct IndexMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
pub open spec fn refs2<'x, V>(s: Seq<(String, V)>) -> Seq<(&'x String, &'x V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
impl<V> IndexMap<String, V> {
    pub uninterp spec fn ents(&self) -> Seq<(String, V)>;
    pub open spec fn def(&self, k: Seq<char>) -> Option<V> { if exists|i: int| 0 <= i < self.ents().len() && (#[trigger] self.ents()[i]).0@ == k { Some(self.ents()[choose|i: int| 0 <= i < self.ents().len() && (#[trigger] self.ents()[i]).0@ == k].1) } else { None } }
    #[verifier::external_body] pub proof fn axiom_once(&self) ensures forall|i: int, j: int| 0 <= i < j < self.ents().len() ==> (#[trigger] self.ents()[i]).0@ != (#[trigger] self.ents()[j]).0@ { }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => self.def(k@) == Some(*v), None => self.def(k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: It<(&String, &V)>) ensures r@ == refs2(self.ents()) { unimplemented!() }
}
#[verifier::external_body] pub struct Rest_ { _p: () }
#[verifier::external_body] pub struct InputFieldDefinition { _p: () }
#[verifier::external_body] pub struct IR { _p: () }
pub struct FieldDefinition { pub resolver: Option<IR>, pub of_type: Rest_ }
#[verifier::external_body] pub struct SchemaDirective { _p: () }
#[verifier::external_body] pub struct InterfaceTypeDefinition { _p: () }
#[verifier::external_body] pub struct InputObjectTypeDefinition { _p: () }
#[verifier::external_body] pub struct ScalarTypeDefinition { _p: () }
// the variables of a request, as far as booleans matter
#[verifier::external_body] pub struct Variables { _p: () }
#[verifier::external_body] pub struct J { _p: () }
impl J { pub uninterp spec fn bool_(&self) -> Option<bool>; #[verifier::external_body] pub fn as_bool(&self) -> (r: Option<bool>) ensures r == self.bool_() { unimplemented!() } }
impl Variables {
    pub uninterp spec fn val(&self, n: Seq<char>) -> Option<J>;
    #[verifier::external_body] pub fn get(&self, n: &str) -> (r: Option<&J>) ensures match r { Some(v) => self.val(n@) == Some(*v), None => self.val(n@) is None } { unimplemented!() }
}
} // verus!
}
use m_doc::*;
verus! {
broadcast use axiom_string_ext;
//@ rewrite /pub\(crate\)/ => pub
//@ item src/core/blueprint/blueprint.rs :: struct ObjectTypeDefinition
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /Vec<Directive>/ => Vec<SchemaDirective>
//@ item src/core/blueprint/blueprint.rs :: struct EnumTypeDefinition
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /Vec<Directive>/ => Vec<SchemaDirective>
//@ item src/core/blueprint/blueprint.rs :: struct EnumValueDefinition
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /Vec<Directive>/ => Vec<SchemaDirective>
//@ item src/core/blueprint/blueprint.rs :: struct UnionTypeDefinition
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /Vec<Directive>/ => Vec<SchemaDirective>
//@ item src/core/blueprint/blueprint.rs :: enum Definition
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@ item src/core/blueprint/index.rs :: enum QueryField
//@   opt /#\[derive\([^\]]*\)\]/ => 
pub struct Index { pub map: IndexMap<String, (Definition, IndexMap<String, QueryField>)> }
// ---- types
pub open spec fn def_of(x: Index, t: Seq<char>) -> Option<Definition> { match x.map.def(t) { Some(d) => Some(d.0), None => None } }
pub open spec fn is_obj(x: Index, t: Seq<char>) -> bool { def_of(x, t) matches Some(Definition::Object(_)) }
// an object of type t is one of type c: it's the same type, an interface it implements or a union with it
pub open spec fn fits(x: Index, t: Seq<char>, c: Seq<char>) -> bool {
    t == c || match def_of(x, t) { Some(Definition::Object(o)) => o.implements.has(c) || match def_of(x, c) { Some(Definition::Union(u)) => u.types.has(t), _ => false }, _ => false }
}
// objects implement interfaces only
pub open spec fn wf(x: Index) -> bool { forall|t: Seq<char>, c: Seq<char>| #[trigger] fits(x, t, c) && is_obj(x, c) ==> t == c }
pub open spec fn enum_has(x: Index, t: Seq<char>, v: Seq<char>) -> bool { match def_of(x, t) { Some(Definition::Enum(e)) => exists|i: int| 0 <= i < e.enum_values@.len() && ((#[trigger] e.enum_values@[i]).name@ == v || e.enum_values@[i].alias.has(v)), _ => false } }
pub proof fn lemma_def(x: Index, i: int)
    requires 0 <= i < x.map.ents().len()
    ensures x.map.def(x.map.ents()[i].0@) == Some(x.map.ents()[i].1)
{ x.map.axiom_once(); let k = x.map.ents()[i].0@; let j = choose|j: int| 0 <= j < x.map.ents().len() && (#[trigger] x.map.ents()[j]).0@ == k; if i < j { assert(x.map.ents()[i].0@ != x.map.ents()[j].0@); } if j < i { assert(x.map.ents()[j].0@ != x.map.ents()[i].0@); } }
impl Index {
//@ fn src/core/blueprint/index.rs :: impl Index :: fn validate_enum_value
//@   closurelet /\( def , _ \)|^def$/ |a0: &(Definition, IndexMap<String, QueryField>)| -> (d: &Definition) ensures *d == a0.0
//@   closure /alias/ |$0: &EnumValueDefinition| -> (b: bool) ensures b == ($0.name@ == value@ || $0.alias.has(value@))
//@   opt /enum_\s*\.enum_values\s*\.iter\(\)\s*\.any\(/ => any_value_(&enum_.enum_values, 
//@   opt /v\.name == value/ => same_(&v.name, value)
//@   spec ensures r == enum_has(*self, type_name@, value@)
//@ fn src/core/blueprint/index.rs :: impl Index :: fn type_is_enum
//@   closurelet /^def$/ |a0: &(Definition, IndexMap<String, QueryField>)| -> (d: &Definition) ensures *d == a0.0
//@   spec ensures r == (def_of(*self, type_name@) matches Some(Definition::Enum(_)))
//@ fn src/core/blueprint/index.rs :: impl Index :: fn is_type_implements
//@   opt /type_name == type_or_interface/ => same_(type_name, type_or_interface)
//@   spec ensures r == fits(*self, type_name@, type_or_interface@)
}
pub open spec fn each_<F: Fn(&EnumValueDefinition) -> bool>(f: F, a: Seq<EnumValueDefinition>, k: Seq<bool>) -> bool { k.len() == a.len() && forall|i: int| #![trigger k[i]] #![trigger a[i]] 0 <= i < a.len() ==> f.ensures((&a[i],), k[i]) }
// Iterator::any over the values of an enum
#[verifier::external_body] pub fn any_value_<F: Fn(&EnumValueDefinition) -> bool>(a: &Vec<EnumValueDefinition>, f: F) -> (r: bool) requires forall|x: &EnumValueDefinition| #[trigger] f.requires((x,))
    ensures exists|k: Seq<bool>| #[trigger] each_(f, a@, k) && r == (exists|i: int| 0 <= i < k.len() && #[trigger] k[i]) { unimplemented!() }
// ---- conditions
//@ item src/core/jit/model.rs :: struct Variable
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@ item src/core/jit/model.rs :: struct Requirement
//@   opt /#\[derive\([^\]]*\)\]/ => 
impl Variable {
//@ fn src/core/jit/model.rs :: impl Variable :: fn new
//@   spec ensures r.0 == name
//@ fn src/core/jit/model.rs :: impl Variable :: fn as_str
//@   spec ensures r@ == self.0@
}
// what the variable is set to, if to a boolean
pub open spec fn says(v: Variables, n: Seq<char>) -> Option<bool> { match v.val(n) { Some(j) => j.bool_(), None => None } }
pub open spec fn is_met(r: Requirement, v: Variables) -> bool { match says(v, r.variable.0@) { Some(b) => b == r.expected, None => true } }
pub open spec fn met(r: Seq<Requirement>, v: Variables) -> bool { forall|i: int| 0 <= i < r.len() ==> is_met(#[trigger] r[i], v) }
pub open spec fn any_met(a: Seq<Vec<Requirement>>, v: Variables) -> bool { exists|i: int| 0 <= i < a.len() && met((#[trigger] a[i])@, v) }
pub struct Field { pub alternatives: Vec<Vec<Requirement>>, pub selection: Vec<Field>, pub rest: usize }
impl Requirement {
//@ fn src/core/jit/model.rs :: impl Requirement :: fn is_met
//@   sub /is_met<'json, Value: JsonLike<'json>>/ => is_met
//@   sub /Variables<Value>/ => Variables
//@   closure 1 |$0: &J| -> (b: Option<bool>) ensures b == $0.bool_()
//@   closure 2 |$0: bool| -> (b: bool) ensures b == ($0 == self.expected)
//@   spec ensures r == is_met(*self, *variables)
}
pub open spec fn each_r_<F: Fn(&Requirement) -> bool>(f: F, a: Seq<Requirement>, k: Seq<bool>) -> bool { k.len() == a.len() && forall|i: int| #![trigger k[i]] #![trigger a[i]] 0 <= i < a.len() ==> f.ensures((&a[i],), k[i]) }
// Iterator::all over requirements, Iterator::any over their alternatives
#[verifier::external_body] pub fn all_r_<F: Fn(&Requirement) -> bool>(a: &Vec<Requirement>, f: F) -> (r: bool) requires forall|x: &Requirement| #[trigger] f.requires((x,))
    ensures exists|k: Seq<bool>| #[trigger] each_r_(f, a@, k) && r == (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i]) { unimplemented!() }
pub open spec fn each_a_<F: Fn(&Vec<Requirement>) -> bool>(f: F, a: Seq<Vec<Requirement>>, k: Seq<bool>) -> bool { k.len() == a.len() && forall|i: int| #![trigger k[i]] #![trigger a[i]] 0 <= i < a.len() ==> f.ensures((&a[i],), k[i]) }
#[verifier::external_body] pub fn any_a_<F: Fn(&Vec<Requirement>) -> bool>(a: &Vec<Vec<Requirement>>, f: F) -> (r: bool) requires forall|x: &Vec<Requirement>| #[trigger] f.requires((x,))
    ensures exists|k: Seq<bool>| #[trigger] each_a_(f, a@, k) && r == (exists|i: int| 0 <= i < k.len() && #[trigger] k[i]) { unimplemented!() }
impl Field {
//@ fn src/core/jit/model.rs :: impl<Input> Field<Input> :: fn skip
//@   sub /skip<'json, Value: JsonLike<'json>>/ => skip
//@   sub /Variables<Value>/ => Variables
//@   sub /self\s*\.alternatives\s*\.iter\(\)\s*\.any\(/ => any_a_(&self.alternatives, 
//@   sub /requirements\.iter\(\)\.all\(/ => all_r_(requirements, 
//@   closure /all_r_/ |$0: &Vec<Requirement>| -> (b: bool) ensures b == met($0@, *variables)
//@   closure /^r \. is_met/ |$0: &Requirement| -> (b: bool) ensures b == is_met(*$0, *variables)
//@   spec ensures r == !any_met(self.alternatives@, *variables)
}
//@ item src/core/jit/builder.rs :: enum Condition
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@ item src/core/jit/builder.rs :: struct Conditions
// the condition that the directive of this name puts on a selection
pub open spec fn first_named(d: Seq<Positioned<Directive>>, n: Seq<char>) -> Option<Directive> decreases d.len() { if d.len() == 0 { None } else if d[0].node.name.node.text@ == n { Some(d[0].node) } else { first_named(d.skip(1), n) } }
pub enum C { T, F, V(Seq<char>) }
pub open spec fn given(d: Seq<Positioned<Directive>>, n: Seq<char>) -> Option<C> { match first_named(d, n) { Some(x) => match arg_of(x.arguments@, "if"@) { Some(Value::Boolean(b)) => Some(if b { C::T } else { C::F }), Some(Value::Variable(v)) => Some(C::V(v.text@)), _ => None }, None => None } }
pub open spec fn c_of(c: Condition) -> C { match c { Condition::True => C::T, Condition::False => C::F, Condition::Variable(v) => C::V(v.0@) } }
// a selection is part of the answer: neither skipped nor not included; unset variables don't prevent it
pub open spec fn taken(skip: C, include: C, v: Variables) -> bool { (match skip { C::T => false, C::F => true, C::V(n) => says(v, n) != Some(true) }) && (match include { C::T => true, C::F => false, C::V(n) => says(v, n) != Some(false) }) }
pub open spec fn selected(d: Seq<Positioned<Directive>>, v: Variables) -> bool { taken(match given(d, "skip"@) { Some(c) => c, None => C::F }, match given(d, "include"@) { Some(c) => c, None => C::T }, v) }
impl Conditions {
//@ fn src/core/jit/builder.rs :: impl Conditions :: fn is_const_skip
//@   spec ensures r == (self.skip is True || (self.skip is False && self.include is False))
//@ fn src/core/jit/builder.rs :: impl Conditions :: fn into_variables
//@   opt /self\.include == Condition::False/ => matches!(self.include, Condition::False)
//@   tail proof { let q = ret_->0@; assert forall|v: Variables| #[trigger] met(q, v) == taken(c_of(self.skip), c_of(self.include), v) by { if q.len() >= 1 { assert(met(q, v) ==> is_met(q[0], v)); } if q.len() >= 2 { assert(met(q, v) ==> is_met(q[1], v)); } } }
//@   spec ensures match r { None => forall|v: Variables| !#[trigger] taken(c_of(self.skip), c_of(self.include), v), Some(q) => forall|v: Variables| #[trigger] met(q@, v) == taken(c_of(self.skip), c_of(self.include), v) }
}
// Iterator::find over directives
#[verifier::external_body] pub fn find_<'x, F: Fn(&&'x Positioned<Directive>) -> bool>(a: &'x [Positioned<Directive>], f: F, n: Ghost<Seq<char>>) -> (r: Option<&'x Positioned<Directive>>)
    requires forall|x: &&Positioned<Directive>, b: bool| f.requires((x,)) && (#[trigger] f.ensures((x,), b) ==> b == (x.node.name.node.text@ == n@))
    ensures match r { Some(d) => first_named(a@, n@) == Some(d.node), None => first_named(a@, n@) is None } { unimplemented!() }
pub type ConditionalSet<'b> = (Vec<Requirement>, &'b SelectionSet);
pub struct Builder<'a> { pub index: &'a Index, pub rest: usize }
//@ fn src/core/jit/builder.rs :: impl<'a> Builder<'a> :: fn include :: fn get_condition
//@   closure /^& pos/ |$0: &Positioned<Value>| -> (n: &Value) ensures *n == $0.node
//@   opt /var\.deref\(\)\.to_owned\(\)/ => owned_(var.deref())
//@   spec ensures match r { Some(c) => Some(c_of(c)), None => None } == (match arg_of(dir.arguments@, "if"@) { Some(Value::Boolean(b)) => Some(if b { C::T } else { C::F }), Some(Value::Variable(v)) => Some(C::V(v.text@)), _ => None })
impl<'a> Builder<'a> {
//@ fn src/core/jit/builder.rs :: impl<'a> Builder<'a> :: fn include
//@   sub /fn get_condition.*?\n        \}\n/ => 
//@   opt /async_graphql::parser::types::/ => 
//@   opt /directives\s*\.iter\(\)\s*\.find\(\|(\w+)\| ([^|]*?) == ("\w+")\)/ => find_(directives, |\1| same_(\2, \3), Ghost(\3@))
//@   closure /same_ .* "skip"/ |$0: &&Positioned<Directive>| -> (b: bool) ensures b == ($0.node.name.node.text@ == "skip"@)
//@   closure /same_ .* "include"/ |$0: &&Positioned<Directive>| -> (b: bool) ensures b == ($0.node.name.node.text@ == "include"@)
//@   closure /^& d/ |$0: &Positioned<Directive>| -> (n: &Directive) ensures *n == $0.node
//@   spec ensures forall|v: Variables| #![trigger taken(c_of(r.skip), c_of(r.include), v)] #![trigger selected(directives@, v)] taken(c_of(r.skip), c_of(r.include), v) == selected(directives@, v)
}
// derived: the same variables, the same expected values
#[verifier::external_body] pub fn copy_(r: &Vec<Requirement>) -> (o: Vec<Requirement>) ensures o@ == r@ { unimplemented!() }
#[verifier::external_body] pub fn has_(a: &Vec<Vec<Requirement>>, r: &Vec<Requirement>) -> (b: bool) ensures b == exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i])@ == r@ { unimplemented!() }
#[verifier::external_body] pub fn copies_<'b>(a: &[ConditionalSet<'b>]) -> (o: Vec<ConditionalSet<'b>>) ensures o@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> (#[trigger] o@[i]).0@ == a@[i].0@ && o@[i].1 == a@[i].1 { unimplemented!() }
pub open spec fn covered(a: Seq<Vec<Requirement>>, r: Seq<Requirement>) -> bool { exists|j: int| 0 <= j < a.len() && (#[trigger] a[j])@ == r }
pub open spec fn comes_from(o: Seq<ConditionalSet>, r: Seq<Requirement>) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0@ == r }
pub open spec fn distinct_of(a: Seq<Vec<Requirement>>, o: Seq<ConditionalSet>) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> covered(a, (#[trigger] o[i]).0@)
    &&& forall|j: int| 0 <= j < a.len() ==> comes_from(o, (#[trigger] a[j])@)
}
pub proof fn lemma_step(a0: Seq<Vec<Requirement>>, a1: Seq<Vec<Requirement>>, o: Seq<ConditionalSet>, n: int)
    requires distinct_of(a0, o.take(n)), 0 <= n < o.len(), (a1 == a0 && exists|j: int| 0 <= j < a0.len() && (#[trigger] a0[j])@ == o[n].0@) || (exists|x: Vec<Requirement>| a1 == #[trigger] a0.push(x) && x@ == o[n].0@)
    ensures distinct_of(a1, o.take(n + 1))
{
    let p = o.take(n); let q = o.take(n + 1);
    assert forall|i: int| 0 <= i < q.len() implies covered(a1, (#[trigger] q[i]).0@) by {
        if i < n { assert(p[i] == q[i]); assert(covered(a0, p[i].0@)); let j = choose|j: int| 0 <= j < a0.len() && (#[trigger] a0[j])@ == p[i].0@; assert(a1[j]@ == q[i].0@); }
        else if a1 == a0 { let j = choose|j: int| 0 <= j < a0.len() && (#[trigger] a0[j])@ == o[n].0@; assert(a1[j]@ == q[i].0@); }
        else { assert(a1[a0.len() as int]@ == q[i].0@); }
    }
    assert forall|j: int| 0 <= j < a1.len() implies comes_from(q, (#[trigger] a1[j])@) by {
        if j < a0.len() { assert(a0[j]@ == a1[j]@); assert(comes_from(p, a0[j]@)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0@ == a0[j]@; assert(q[i] == p[i]); } else { assert(q[n] == o[n]); }
    }
}
pub proof fn lemma_split(a: Seq<Vec<Requirement>>, o: Seq<ConditionalSet>)
    requires distinct_of(a, o)
    ensures forall|v: Variables| #[trigger] any_met(a, v) == some_selected(o, v), a.len() == 1 ==> forall|i: int, v: Variables| 0 <= i < o.len() && any_met(a, v) ==> #[trigger] met(o[i].0@, v)
{
    assert forall|v: Variables| #[trigger] any_met(a, v) == some_selected(o, v) by {
        if any_met(a, v) { let j = choose|j: int| 0 <= j < a.len() && met((#[trigger] a[j])@, v); assert(comes_from(o, a[j]@)); let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0@ == a[j]@; assert(met(o[i].0@, v)); }
        if some_selected(o, v) { let i = choose|i: int| 0 <= i < o.len() && met((#[trigger] o[i]).0@, v); assert(covered(a, o[i].0@)); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j])@ == o[i].0@; assert(met(a[j]@, v)); }
    }
}
// some of the occurrences is selected
pub open spec fn some_selected(o: Seq<ConditionalSet>, v: Variables) -> bool { exists|i: int| 0 <= i < o.len() && met((#[trigger] o[i]).0@, v) }
impl<'a> Builder<'a> {
//@ fn src/core/jit/builder.rs :: impl<'a> Builder<'a> :: fn split_occurrences
//@   opt /!alternatives\.contains\((\w+)\)/ => !has_(&alternatives, \1)
//@   opt /alternatives\.push\((\w+)\.clone\(\)\)/ => alternatives.push(copy_(\1))
//@   opt /occurrences\.to_vec\(\)/ => copies_(occurrences)
//@   opt /occurrences\.iter\(\)/ => occurrences.it_()
//@   opt /\.collect\(\)/ => .vec_()
//@   closurelet 1 |a0: &ConditionalSet<'b>| -> (o: ConditionalSet<'b>) ensures o.0@.len() == 0, o.1 == a0.1
//@   loop 1 it=it invariant distinct_of(alternatives@, occurrences@.take(it.index() as int)), it.seq() == occurrences@.map_values(|o: ConditionalSet<'b>| &o)
//@   loopstart 1 let ghost a0 = alternatives@;
//@   loopend 1 proof { if alternatives@ != a0 { assert(alternatives@ == a0.push(alternatives@.last())); } lemma_step(a0, alternatives@, occurrences@, it.index() as int); }
//@   tail proof { assert(occurrences@.take(occurrences@.len() as int) =~= occurrences@); lemma_split(ret_.0@, occurrences@); assert forall|i: int, v: Variables| 0 <= i < occurrences@.len() && any_met(ret_.0@, v) implies met((#[trigger] ret_.1@[i]).0@, v) == #[trigger] met(occurrences@[i].0@, v) by { assert(met(occurrences@[i].0@, v) == met(occurrences@[i].0@, v)); } }
//@   spec ensures forall|v: Variables| #[trigger] any_met(r.0@, v) == some_selected(occurrences@, v),
//@   |    // below a field that is selected, each set counts exactly when it did there
//@   |    r.1@.len() == occurrences@.len(), forall|i: int| 0 <= i < occurrences@.len() ==> (#[trigger] r.1@[i]).1 == occurrences@[i].1,
//@   |    forall|i: int, v: Variables| 0 <= i < occurrences@.len() && any_met(r.0@, v) ==> met((#[trigger] r.1@[i]).0@, v) == #[trigger] met(occurrences@[i].0@, v)
}
// ---- types that satisfy a condition
pub type Entry = (Definition, IndexMap<String, QueryField>);
// Iterator::filter and partition by a predicate that depends on the item alone
#[verifier::external_body] pub fn keep_<T, F: Fn(&T) -> bool>(s: It<T>, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: It<T>) requires forall|x: &T, b: bool| f.requires((x,)) && (#[trigger] f.ensures((x,), b) ==> b == p@(*x)) ensures r@ == only(s@, p@) { unimplemented!() }
#[verifier::external_body] pub fn parts_<T, F: Fn(&T) -> bool>(s: Vec<T>, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: (Vec<T>, Vec<T>)) requires forall|x: &T, b: bool| f.requires((x,)) && (#[trigger] f.ensures((x,), b) ==> b == p@(*x)) ensures r.0@ == only(s@, p@), r.1@ == only(s@, |x: T| !(p@)(x)) { unimplemented!() }
#[verifier::external_body] pub fn any_t_<'x, F: Fn(&'x str) -> bool>(s: Vec<&'x str>, f: F, p: Ghost<spec_fn(Seq<char>) -> bool>) -> (r: bool) requires forall|x: &'x str, b: bool| f.requires((x,)) && (#[trigger] f.ensures((x,), b) ==> b == p@(x@)) ensures r == exists|i: int| 0 <= i < s@.len() && (p@)((#[trigger] s@[i])@) { unimplemented!() }
pub open spec fn possible_p<'x>(x: Index, c: Seq<char>) -> spec_fn((&'x String, &'x Entry)) -> bool { |e: (&'x String, &'x Entry)| e.1.0 is Object && fits(x, e.0@, c) }
pub open spec fn fits_p<'x>(x: Index, c: Seq<char>) -> spec_fn(&'x str) -> bool { |t: &'x str| fits(x, t@, c) }
pub open spec fn fits_q(x: Index, c: Seq<char>) -> spec_fn(Seq<char>) -> bool { |t: Seq<char>| fits(x, t, c) }
pub proof fn lemma_kept<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < only(s, p).len() ==> p(#[trigger] only(s, p)[i]) && s.contains(only(s, p)[i]), forall|j: int| 0 <= j < s.len() && p(#[trigger] s[j]) ==> only(s, p).contains(s[j])
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); lemma_kept(t, p); let o = only(t, p); let q = only(s, p);
        assert forall|i: int| 0 <= i < q.len() implies p(#[trigger] q[i]) && s.contains(q[i]) by { if i < o.len() { assert(q[i] == o[i]); assert(t.contains(o[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == o[i]; assert(s[j] == q[i]); } else { assert(s[s.len() - 1] == q[i]); } }
        assert forall|j: int| 0 <= j < s.len() && p(#[trigger] s[j]) implies q.contains(s[j]) by { if j < t.len() { assert(t[j] == s[j]); assert(o.contains(s[j])); let i = choose|i: int| 0 <= i < o.len() && o[i] == s[j]; assert(q[i] == s[j]); } else { assert(q[q.len() - 1] == s[j]); } }
    }
}
// the names of entries stay apart
pub proof fn lemma_apart<'x>(s: Seq<(&'x String, &'x Entry)>, p: spec_fn((&'x String, &'x Entry)) -> bool)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
    ensures forall|i: int, j: int| 0 <= i < j < only(s, p).len() ==> (#[trigger] only(s, p)[i]).0@ != (#[trigger] only(s, p)[j]).0@
    decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0@ != (#[trigger] t[j]).0@ by { assert(s[i].0@ != s[j].0@); } lemma_apart(t, p); lemma_kept(t, p); let o = only(t, p); let q = only(s, p);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0@ != (#[trigger] q[j]).0@ by { assert(q[i] == o[i]); if j < o.len() { assert(o[i].0@ != o[j].0@); } else { assert(t.contains(o[i])); let a = choose|a: int| 0 <= a < t.len() && t[a] == o[i]; assert(s[a].0@ != s[s.len() - 1].0@); } } } }
pub proof fn lemma_apart_t<'x>(s: Seq<&'x str>, p: spec_fn(&'x str) -> bool)
    requires apart(s)
    ensures apart(only(s, p))
    decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i])@ != (#[trigger] t[j])@ by { assert(s[i]@ != s[j]@); } lemma_apart_t(t, p); lemma_kept(t, p); let o = only(t, p); let q = only(s, p);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i])@ != (#[trigger] q[j])@ by { assert(q[i] == o[i]); if j < o.len() { assert(o[i]@ != o[j]@); } else { assert(t.contains(o[i])); let a = choose|a: int| 0 <= a < t.len() && t[a] == o[i]; assert(s[a]@ != s[s.len() - 1]@); } } } }
pub open spec fn apart(s: Seq<&str>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@ }
pub open spec fn named(s: Seq<&str>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == t }
// exactly the object types that satisfy the condition, each once
pub open spec fn possible(x: Index, c: Seq<char>, r: Seq<&str>) -> bool { apart(r) && (forall|i: int| 0 <= i < r.len() ==> is_obj(x, (#[trigger] r[i])@) && fits(x, r[i]@, c)) && forall|t: Seq<char>| is_obj(x, t) && #[trigger] fits(x, t, c) ==> named(r, t) }
pub proof fn lemma_possible(x: Index, c: Seq<char>, r: Seq<&str>)
    requires r.len() == only(refs2(x.map.ents()), possible_p(x, c)).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == only(refs2(x.map.ents()), possible_p(x, c))[i].0@
    ensures possible(x, c, r)
{
    let e = x.map.ents(); let s = refs2(e); let p = possible_p(x, c); let o = only(s, p);
    x.map.axiom_once();
    lemma_kept(s, p);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@ by { assert(e[i].0@ != e[j].0@); }
    lemma_apart(s, p);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i])@ != (#[trigger] r[j])@ by { assert(o[i].0@ != o[j].0@); }
    assert forall|i: int| 0 <= i < r.len() implies is_obj(x, (#[trigger] r[i])@) && fits(x, r[i]@, c) by { assert(p(o[i]) && s.contains(o[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == o[i]; lemma_def(x, j); assert(e[j].0@ == r[i]@); }
    assert forall|t: Seq<char>| is_obj(x, t) && #[trigger] fits(x, t, c) implies named(r, t) by {
        let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0@ == t; assert(0 <= j < e.len() && e[j].0@ == t); lemma_def(x, j); assert(p(s[j])); assert(o.contains(s[j])); let i = choose|i: int| 0 <= i < o.len() && o[i] == s[j]; assert(r[i]@ == t);
    }
}
impl Index {
//@ fn src/core/blueprint/index.rs :: impl Index :: fn get_possible_types
//@   sub /self\s*\.map\s*\.iter\(\)\s*\.filter\((.*?)\)\s*\.map\(/ => keep_(self.map.iter(), \1, Ghost(possible_p(*self, type_or_interface@))).map(
//@   opt /\.collect\(\)/ => .vec_()
//@   closurelet /matches/ |a0: &(&String, &Entry)| -> (b: bool) ensures b == possible_p(*self, type_or_interface@)(*a0)
//@   closurelet /as_str/ |a0: (&String, &Entry)| -> (n: &str) ensures n@ == a0.0@
//@   spec ensures possible(*self, type_or_interface@, r@)
//@   tail proof { lemma_possible(*self, type_or_interface@, ret_@); }
}
// a value of both types can be
pub open spec fn meet(x: Index, a: Seq<char>, b: Seq<char>) -> bool { exists|t: Seq<char>| is_obj(x, t) && #[trigger] fits(x, t, a) && fits(x, t, b) }
// the object type is one of those listed
pub open spec fn one_of(x: Index, t: Seq<char>, r: Seq<&str>, n: int) -> bool { exists|i: int| 0 <= i < n && i < r.len() && fits(x, t, (#[trigger] r[i])@) }
pub open spec fn at_most_one(x: Index, t: Seq<char>, r: Seq<&str>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> !(fits(x, t, (#[trigger] r[i])@) && fits(x, t, (#[trigger] r[j])@)) }
pub open spec fn narrowed(x: Index, enclosing: Seq<char>, tc: Seq<char>, ft: Seq<char>, r: Seq<&str>) -> bool {
    meet(x, enclosing, ft) ==> forall|t: Seq<char>| is_obj(x, t) ==> #[trigger] at_most_one(x, t, r) && one_of(x, t, r, r.len() as int) == (fits(x, t, tc) && fits(x, t, ft))
}
pub proof fn lemma_one(x: Index, r: Seq<&str>, a: Seq<char>, tc: Seq<char>, ft: Seq<char>)
    requires r.len() == 1, r[0]@ == a, forall|t: Seq<char>| is_obj(x, t) ==> fits(x, t, a) == (#[trigger] fits(x, t, tc) && fits(x, t, ft))
    ensures forall|t: Seq<char>| is_obj(x, t) ==> #[trigger] at_most_one(x, t, r) && one_of(x, t, r, 1) == (fits(x, t, tc) && fits(x, t, ft))
{ assert forall|t: Seq<char>| is_obj(x, t) implies #[trigger] at_most_one(x, t, r) && one_of(x, t, r, 1) == (fits(x, t, tc) && fits(x, t, ft)) by { assert(fits(x, t, a) == (fits(x, t, tc) && fits(x, t, ft))); if fits(x, t, a) { assert(fits(x, t, r[0]@)); } } }
pub proof fn lemma_narrow(x: Index, enclosing: Seq<char>, tc: Seq<char>, ft: Seq<char>, p: Seq<&str>, r: Seq<&str>, one: bool)
    requires wf(x), possible(x, ft, p),
        ({ let common = only(p, fits_p(x, tc)); let rest = only(p, |s: &str| !fits_p(x, tc)(s));
           if rest.len() == 0 || (common.len() == 0 && tc == enclosing) { r.len() == 1 && r[0]@ == ft } else { r == common } })
    ensures narrowed(x, enclosing, tc, ft, r)
{
    let q = fits_p(x, tc); let nq = |s: &str| !fits_p(x, tc)(s);
    lemma_kept(p, q); lemma_kept(p, nq);
    let common = only(p, q); let rest = only(p, nq);
    if meet(x, enclosing, ft) {
        if rest.len() == 0 {
            assert forall|t: Seq<char>| is_obj(x, t) implies fits(x, t, ft) == (#[trigger] fits(x, t, tc) && fits(x, t, ft)) by { if fits(x, t, ft) { assert(named(p, t)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@ == t; if !fits(x, t, tc) { assert(nq(p[i])); assert(rest.contains(p[i])); } } }
            lemma_one(x, r, ft, tc, ft);
        } else {
            if common.len() == 0 && tc == enclosing {
                let t = choose|t: Seq<char>| is_obj(x, t) && #[trigger] fits(x, t, enclosing) && fits(x, t, ft);
                assert(named(p, t)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@ == t; assert(q(p[i])); assert(common.contains(p[i])); assert(false);
            }
            lemma_apart_t(p, q);
            assert forall|t: Seq<char>| is_obj(x, t) implies #[trigger] at_most_one(x, t, r) && one_of(x, t, r, r.len() as int) == (fits(x, t, tc) && fits(x, t, ft)) by {
                assert forall|i: int| 0 <= i < r.len() && fits(x, t, (#[trigger] r[i])@) implies r[i]@ == t && fits(x, t, tc) && fits(x, t, ft) by { assert(p.contains(r[i])); let j = choose|j: int| 0 <= j < p.len() && p[j] == r[i]; assert(is_obj(x, p[j]@)); assert(q(r[i])); }
                if fits(x, t, tc) && fits(x, t, ft) { assert(named(p, t)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@ == t; assert(q(p[i])); assert(r.contains(p[i])); let j = choose|j: int| 0 <= j < r.len() && r[j] == p[i]; assert(fits(x, t, r[j]@)); }
            }
        }
    }
}
impl<'a> Builder<'a> {
//@ fn src/core/jit/builder.rs :: impl<'a> Builder<'a> :: fn overlap
//@   opt /self\s*\.index\s*\.get_possible_types\(left\)\s*\.into_iter\(\)\s*\.any\((.*)\)\s*\}$/ => any_t_(self.index.get_possible_types(left), \1, Ghost(fits_q(*self.index, right@))) }
//@   closure 1 |$0: &str| -> (b: bool) ensures b == fits(*self.index, $0@, right@)
//@   spec ensures r == meet(*self.index, left@, right@)
//@ fn src/core/jit/builder.rs :: impl<'a> Builder<'a> :: fn narrow
//@   sub /self\s*\.index\s*\.get_possible_types\(fragment_type\)\s*\.into_iter\(\)\s*\.partition\((.*?)\);/ => { let types_ = self.index.get_possible_types(fragment_type); proof { p_ = types_@; } parts_(types_, \1, Ghost(fits_p(*self.index, type_condition@))) };
//@   opt /type_condition == enclosing_type/ => same_(type_condition, enclosing_type)
//@   closure 1 |$0: &&'b str| -> (b: bool) ensures b == fits(*self.index, (*$0)@, type_condition@)
//@   start let ghost mut p_: Seq<&str> = Seq::empty();
//@   spec requires wf(*self.index) ensures narrowed(*self.index, enclosing_type@, type_condition@, fragment_type@, r@)
//@   tail proof { lemma_narrow(*self.index, enclosing_type@, type_condition@, fragment_type@, p_, ret_@, true); }
}
// ---- the fields of a selection, https://spec.graphql.org/October2021/#CollectFields()
//@ item src/core/jit/builder.rs :: struct SelectedField
pub struct W { pub name: Seq<char>, pub field: GqlField }
pub open spec fn out_name(f: GqlField) -> Seq<char> { match f.alias { Some(a) => a.node.text@, None => f.name.node.text@ } }
pub open spec fn dirs(s: Selection) -> Seq<Positioned<Directive>> { match s { Selection::Field(f) => f.node.directives@, Selection::FragmentSpread(f) => f.node.directives@, Selection::InlineFragment(f) => f.node.directives@ } }
pub type Defs = Map<Seq<char>, FragmentDefinition>;
pub open spec fn on(f: FragmentDefinition) -> Seq<char> { f.type_condition.node.on.node.text@ }
// what is selected for an object of type t, fragments nested up to depth k; n selections are left
pub open spec fn want(x: Index, d: Defs, k: nat, t: Seq<char>, v: Variables, sel: SelectionSet, n: int) -> Seq<W> decreases k, n {
    if k == 0 || n <= 0 || n > sel.items@.len() { Seq::empty() } else { want(x, d, k, t, v, sel, n - 1) + want1(x, d, k, t, v, sel.items@[n - 1].node) }
}
pub open spec fn want1(x: Index, d: Defs, k: nat, t: Seq<char>, v: Variables, s: Selection) -> Seq<W> decreases k, 0int {
    if k == 0 || !selected(dirs(s), v) { Seq::empty() } else { match s {
        Selection::Field(f) => seq![W { name: out_name(f.node), field: f.node }],
        Selection::FragmentSpread(f) => { let n = f.node.fragment_name.node.text@; if d.contains_key(n) && fits(x, t, on(d[n])) { want(x, d, (k - 1) as nat, t, v, d[n].selection_set.node, d[n].selection_set.node.items@.len() as int) } else { Seq::empty() } },
        Selection::InlineFragment(f) => if f.node.type_condition is Some && !fits(x, t, f.node.type_condition->0.node.on.node.text@) { Seq::empty() } else { want(x, d, (k - 1) as nat, t, v, f.node.selection_set.node, f.node.selection_set.node.items@.len() as int) },
    } }
}
// every fragment is possible where it is spread, and fragments are nested to a depth below k
pub open spec fn valid(x: Index, d: Defs, k: nat, sel: SelectionSet, enclosing: Seq<char>, n: int) -> bool decreases k, n {
    k > 0 && (n <= 0 || n > sel.items@.len() || (valid(x, d, k, sel, enclosing, n - 1) && valid1(x, d, k, sel.items@[n - 1].node, enclosing)))
}
pub open spec fn valid1(x: Index, d: Defs, k: nat, s: Selection, enclosing: Seq<char>) -> bool decreases k, 0int {
    k > 0 && match s {
        Selection::Field(f) => true,
        Selection::FragmentSpread(f) => { let n = f.node.fragment_name.node.text@; d.contains_key(n) ==> meet(x, enclosing, on(d[n])) && valid(x, d, (k - 1) as nat, d[n].selection_set.node, on(d[n]), d[n].selection_set.node.items@.len() as int) },
        Selection::InlineFragment(f) => match f.node.type_condition {
            Some(c) => meet(x, enclosing, c.node.on.node.text@) && valid(x, d, (k - 1) as nat, f.node.selection_set.node, c.node.on.node.text@, f.node.selection_set.node.items@.len() as int),
            None => valid(x, d, (k - 1) as nat, f.node.selection_set.node, enclosing, f.node.selection_set.node.items@.len() as int),
        },
    }
}
// the collected fields that an object of type t has
pub open spec fn picked(x: Index, c: Seq<SelectedField>, t: Seq<char>, v: Variables) -> Seq<W> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { let p = picked(x, c.drop_last(), t, v); let l = c.last(); if fits(x, t, l.type_condition@) && met(l.occurrence.0@, v) { p.push(W { name: l.output_name@, field: *l.field }) } else { p } }
}
pub open spec fn sound(c: Seq<SelectedField>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).occurrence.1 == c[i].field.selection_set.node && c[i].output_name@ == out_name(*c[i].field) }
// exactly the selected fields are put behind the others
pub open spec fn adds1(x: Index, d: Defs, c0: Seq<SelectedField>, c1: Seq<SelectedField>, sel: SelectionSet, n: int, enclosing: Seq<char>, tc: Seq<char>, q: Seq<Requirement>, k: nat, t: Seq<char>, v: Variables) -> bool {
    valid(x, d, k, sel, enclosing, n) && is_obj(x, t) ==> picked(x, c1, t, v) == picked(x, c0, t, v) + (if fits(x, t, tc) && met(q, v) { want(x, d, k, t, v, sel, n) } else { Seq::empty() })
}
pub open spec fn adds(x: Index, d: Defs, c0: Seq<SelectedField>, c1: Seq<SelectedField>, sel: SelectionSet, n: int, enclosing: Seq<char>, tc: Seq<char>, q: Seq<Requirement>) -> bool {
    forall|k: nat, t: Seq<char>, v: Variables| #[trigger] adds1(x, d, c0, c1, sel, n, enclosing, tc, q, k, t, v)
}
// the same for the first j of the types that a fragment's condition is narrowed to
pub open spec fn spreads1(x: Index, d: Defs, c0: Seq<SelectedField>, c1: Seq<SelectedField>, r: Seq<&str>, j: int, sel: SelectionSet, ft: Seq<char>, q: Seq<Requirement>, k: nat, t: Seq<char>, v: Variables) -> bool {
    valid(x, d, k, sel, ft, sel.items@.len() as int) && is_obj(x, t) && at_most_one(x, t, r) ==> picked(x, c1, t, v) == picked(x, c0, t, v) + (if one_of(x, t, r, j) && met(q, v) { want(x, d, k, t, v, sel, sel.items@.len() as int) } else { Seq::empty() })
}
pub open spec fn spreads(x: Index, d: Defs, c0: Seq<SelectedField>, c1: Seq<SelectedField>, r: Seq<&str>, j: int, sel: SelectionSet, ft: Seq<char>, q: Seq<Requirement>) -> bool {
    forall|k: nat, t: Seq<char>, v: Variables| #[trigger] spreads1(x, d, c0, c1, r, j, sel, ft, q, k, t, v)
}
pub proof fn lemma_spread_step(x: Index, d: Defs, c0: Seq<SelectedField>, c1: Seq<SelectedField>, c2: Seq<SelectedField>, r: Seq<&str>, j: int, sel: SelectionSet, ft: Seq<char>, q: Seq<Requirement>)
    requires 0 <= j < r.len(), spreads(x, d, c0, c1, r, j, sel, ft, q), adds(x, d, c1, c2, sel, sel.items@.len() as int, ft, r[j]@, q)
    ensures spreads(x, d, c0, c2, r, j + 1, sel, ft, q)
{
    assert forall|k: nat, t: Seq<char>, v: Variables| #[trigger] spreads1(x, d, c0, c2, r, j + 1, sel, ft, q, k, t, v) by {
        assert(spreads1(x, d, c0, c1, r, j, sel, ft, q, k, t, v));
        assert(adds1(x, d, c1, c2, sel, sel.items@.len() as int, ft, r[j]@, q, k, t, v));
        if at_most_one(x, t, r) {
            if fits(x, t, r[j]@) { assert(one_of(x, t, r, j + 1)); assert(!one_of(x, t, r, j)); assert(picked(x, c0, t, v) + Seq::<W>::empty() =~= picked(x, c0, t, v)); }
            else { assert(one_of(x, t, r, j + 1) == one_of(x, t, r, j)); assert(picked(x, c1, t, v) + Seq::<W>::empty() =~= picked(x, c1, t, v)); }
        }
    }
}
pub proof fn lemma_spread_start(x: Index, d: Defs, c0: Seq<SelectedField>, r: Seq<&str>, sel: SelectionSet, ft: Seq<char>, q: Seq<Requirement>)
    ensures spreads(x, d, c0, c0, r, 0, sel, ft, q)
{ assert forall|k: nat, t: Seq<char>, v: Variables| #[trigger] spreads1(x, d, c0, c0, r, 0, sel, ft, q, k, t, v) by { assert(picked(x, c0, t, v) + Seq::<W>::empty() =~= picked(x, c0, t, v)); } }
pub proof fn lemma_start(x: Index, d: Defs, c0: Seq<SelectedField>, set: SelectionSet, enclosing: Seq<char>, tc: Seq<char>, q: Seq<Requirement>)
    ensures adds(x, d, c0, c0, set, 0, enclosing, tc, q)
{ assert forall|k: nat, t: Seq<char>, v: Variables| #[trigger] adds1(x, d, c0, c0, set, 0, enclosing, tc, q, k, t, v) by { assert(picked(x, c0, t, v) + Seq::<W>::empty() =~= picked(x, c0, t, v)); } }
// a fragment is done
pub proof fn lemma_spread_done(x: Index, d: Defs, cb: Seq<SelectedField>, c0: Seq<SelectedField>, c1: Seq<SelectedField>, r: Seq<&str>, set: SelectionSet, n: int, enclosing: Seq<char>, tc: Seq<char>, q0: Seq<Requirement>, q: Seq<Requirement>, body: SelectionSet, ft: Seq<char>)
    requires 0 <= n < set.items@.len(), adds(x, d, cb, c0, set, n, enclosing, tc, q0), spreads(x, d, c0, c1, r, r.len() as int, body, ft, q),
        forall|v: Variables| #[trigger] met(q, v) == (met(q0, v) && selected(dirs(set.items@[n].node), v)),
        ({ let s = set.items@[n].node; match s {
            Selection::Field(_) => false,
            Selection::FragmentSpread(f) => { let m = f.node.fragment_name.node.text@; d.contains_key(m) && body == d[m].selection_set.node && ft == on(d[m]) && narrowed(x, enclosing, tc, ft, r) },
            Selection::InlineFragment(f) => body == f.node.selection_set.node && match f.node.type_condition { Some(c) => ft == c.node.on.node.text@ && narrowed(x, enclosing, tc, ft, r), None => ft == enclosing && r.len() == 1 && r[0]@ == tc },
        } })
    ensures adds(x, d, cb, c1, set, n + 1, enclosing, tc, q0)
{
    assert forall|k: nat, t: Seq<char>, v: Variables| #[trigger] adds1(x, d, cb, c1, set, n + 1, enclosing, tc, q0, k, t, v) by {
        if valid(x, d, k, set, enclosing, n + 1) && is_obj(x, t) {
            let s = set.items@[n].node;
            assert(adds1(x, d, cb, c0, set, n, enclosing, tc, q0, k, t, v));
            assert(spreads1(x, d, c0, c1, r, r.len() as int, body, ft, q, (k - 1) as nat, t, v));
            assert(valid1(x, d, k, s, enclosing));
            if r.len() == 1 { assert(one_of(x, t, r, 1) == fits(x, t, r[0]@)) by { if fits(x, t, r[0]@) { assert(one_of(x, t, r, 1)); } } }
            assert(at_most_one(x, t, r));
            let w = want(x, d, k, t, v, set, n); let w1 = want1(x, d, k, t, v, s);
            assert(want(x, d, k, t, v, set, n + 1) == w + w1);
            let p = picked(x, cb, t, v);
            assert((p + w) + w1 =~= p + (w + w1));
            assert(p + Seq::<W>::empty() =~= p); assert((p + w) + Seq::<W>::empty() =~= p + w);
        }
    }
}
pub proof fn lemma_none_done(x: Index, d: Defs, cb: Seq<SelectedField>, c0: Seq<SelectedField>, set: SelectionSet, n: int, enclosing: Seq<char>, tc: Seq<char>, q0: Seq<Requirement>)
    requires 0 <= n < set.items@.len(), adds(x, d, cb, c0, set, n, enclosing, tc, q0),
        (forall|v: Variables| !#[trigger] selected(dirs(set.items@[n].node), v)) || (set.items@[n].node matches Selection::FragmentSpread(f) && !d.contains_key(f.node.fragment_name.node.text@))
    ensures adds(x, d, cb, c0, set, n + 1, enclosing, tc, q0)
{
    assert forall|k: nat, t: Seq<char>, v: Variables| #[trigger] adds1(x, d, cb, c0, set, n + 1, enclosing, tc, q0, k, t, v) by {
        assert(adds1(x, d, cb, c0, set, n, enclosing, tc, q0, k, t, v));
        let w = want(x, d, k, t, v, set, n);
        if k > 0 { assert(want1(x, d, k, t, v, set.items@[n].node) =~= Seq::empty()); assert(w + Seq::<W>::empty() =~= w); }
    }
}
pub proof fn lemma_field_done(x: Index, d: Defs, cb: Seq<SelectedField>, c0: Seq<SelectedField>, c1: Seq<SelectedField>, set: SelectionSet, n: int, enclosing: Seq<char>, tc: Seq<char>, q0: Seq<Requirement>, q: Seq<Requirement>)
    requires 0 <= n < set.items@.len(), adds(x, d, cb, c0, set, n, enclosing, tc, q0), c1.len() == c0.len() + 1, c1.drop_last() == c0,
        forall|v: Variables| #[trigger] met(q, v) == (met(q0, v) && selected(dirs(set.items@[n].node), v)),
        set.items@[n].node matches Selection::Field(f) && c1.last().type_condition@ == tc && c1.last().occurrence.0@ == q && *c1.last().field == f.node && c1.last().output_name@ == out_name(f.node)
    ensures adds(x, d, cb, c1, set, n + 1, enclosing, tc, q0)
{
    assert forall|k: nat, t: Seq<char>, v: Variables| #[trigger] adds1(x, d, cb, c1, set, n + 1, enclosing, tc, q0, k, t, v) by {
        assert(adds1(x, d, cb, c0, set, n, enclosing, tc, q0, k, t, v));
        if valid(x, d, k, set, enclosing, n + 1) && is_obj(x, t) {
            let w = want(x, d, k, t, v, set, n); let w1 = want1(x, d, k, t, v, set.items@[n].node); let p = picked(x, cb, t, v);
            assert(want(x, d, k, t, v, set, n + 1) == w + w1);
            assert(met(q, v) == (met(q0, v) && selected(dirs(set.items@[n].node), v)));
            assert(w + Seq::<W>::empty() =~= w);
            assert(p + Seq::<W>::empty() =~= p);
            if fits(x, t, tc) && met(q, v) { assert((p + w).push(w1[0]) =~= p + (w + w1)); }
        }
    }
}
// Vec::extend
#[verifier::external_body] pub fn extend_(a: &mut Vec<Requirement>, b: Vec<Requirement>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
pub proof fn lemma_met_add(a: Seq<Requirement>, b: Seq<Requirement>)
    ensures forall|v: Variables| #[trigger] met(a + b, v) == (met(a, v) && met(b, v))
{ assert forall|v: Variables| #[trigger] met(a + b, v) == (met(a, v) && met(b, v)) by { let c = a + b; if met(c, v) { assert forall|i: int| 0 <= i < a.len() implies is_met(#[trigger] a[i], v) by { assert(c[i] == a[i]); } assert forall|i: int| 0 <= i < b.len() implies is_met(#[trigger] b[i], v) by { assert(c[a.len() + i] == b[i]); } } if met(a, v) && met(b, v) { assert forall|i: int| 0 <= i < c.len() implies is_met(#[trigger] c[i], v) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } } } } }
impl<'a> Builder<'a> {
//@ fn src/core/jit/builder.rs :: impl<'a> Builder<'a> :: fn collect
//@   attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@   sub /\(requirements, selection\): &ConditionalSet<'b>/ => set_: &ConditionalSet<'b>
//@   sub /&HashMap<&'b str, &'b FragmentDefinition>/ => &Fragments<'b>
//@   opt /let mut requirements = requirements\.clone\(\);/ => let mut requirements = copy_(requirements);
//@   opt /&\(requirements\.clone\(\), / => &(copy_(&requirements), 
//@   opt /requirements\.extend\((\w+)\);/ => let ghost own_ = \1@; extend_(&mut requirements, \1); proof { lemma_met_add(q0, own_); assert(requirements@ == q0 + own_); }
//@   opt /\.pos\.into\(\)/ => .pos.into_()
//@   closure 1 |$0: &Positioned<Name>| -> (n: &str) ensures n@ == $0.node.text@
//@   start let (requirements, selection) = set_; let ghost x = *self.index; let ghost d = fragments.defs(); let ghost cb = collected@; let ghost set = *set_.1; let ghost q0 = set_.0@; proof { lemma_start(x, d, cb, set, enclosing_type@, type_condition@, q0); }
//@   opt /for type_of in self\.narrow\(([^)]*)\) \{/ => let types = self.narrow(\1); for type_of in types {
//@   opt /for type_of in types \{/ => let ghost ts = types@; let ghost c0 = collected@; for type_of in types {
//@   loop 1 it=it invariant it.seq() == set.items@.map_values(|s: Positioned<Selection>| &s), sound(collected@), adds(x, d, cb, collected@, set, it.index() as int, enclosing_type@, type_condition@, q0)
//@   loopstart 1 let ghost n = it.index() as int; let ghost cn = collected@; proof { assert(*selection == set.items@[n]); }
//@   loopend 1 proof { let s_ = set.items@[n].node; let none = forall|v: Variables| !#[trigger] selected(dirs(s_), v); let field = s_ is Field && collected@.len() == cn.len() + 1; if field { assert(collected@.drop_last() =~= cn); lemma_field_done(x, d, cb, cn, collected@, set, n, enclosing_type@, type_condition@, q0, collected@.last().occurrence.0@); } else if none && collected@ == cn { lemma_none_done(x, d, cb, cn, set, n, enclosing_type@, type_condition@, q0); } else if s_ matches Selection::FragmentSpread(f) && !d.contains_key(f.node.fragment_name.node.text@) { lemma_none_done(x, d, cb, cn, set, n, enclosing_type@, type_condition@, q0); } }
//@   loop 2 it=it2 invariant it2.seq() == ts, sound(collected@), spreads(x, d, c0, collected@, ts, it2.index() as int, fragment.selection_set.node, fragment_type@, requirements@)
//@   loopstart 2 let ghost c1 = collected@;
//@   loopend 2 proof { lemma_spread_step(x, d, c0, c1, collected@, ts, it2.index() as int, fragment.selection_set.node, fragment_type@, requirements@); }
//@   before 2 proof { lemma_spread_start(x, d, c0, ts, fragment.selection_set.node, fragment_type@, requirements@); }
//@   after 2 proof { lemma_spread_done(x, d, cb, c0, collected@, ts, set, n, enclosing_type@, type_condition@, q0, requirements@, fragment.selection_set.node, fragment_type@); }
//@   loop 3 it=it3 invariant it3.seq() == ts, sound(collected@), spreads(x, d, c0, collected@, ts, it3.index() as int, fragment.selection_set.node, fragment_type@, requirements@)
//@   loopstart 3 let ghost c1 = collected@;
//@   loopend 3 proof { lemma_spread_step(x, d, c0, c1, collected@, ts, it3.index() as int, fragment.selection_set.node, fragment_type@, requirements@); }
//@   before 3 proof { lemma_spread_start(x, d, c0, ts, fragment.selection_set.node, fragment_type@, requirements@); }
//@   after 3 proof { lemma_spread_done(x, d, cb, c0, collected@, ts, set, n, enclosing_type@, type_condition@, q0, requirements@, fragment.selection_set.node, fragment_type@); }
//@   spec requires wf(*self.index), sound(old(collected)@) ensures sound(final(collected)@), adds(*self.index, fragments.defs(), old(collected)@, final(collected)@, *set_.1, set_.1.items@.len() as int, enclosing_type@, type_condition@, set_.0@)
}
// ---- fields of one output name
impl Index {
    pub open spec fn field(self, t: Seq<char>, n: Seq<char>) -> Option<QueryField> { match self.map.def(t) { Some(d) => d.1.def(n), None => None } }
//@ fn src/core/blueprint/index.rs :: impl Index :: fn get_field
//@   closurelet 1 |a0: &Entry| -> (f: Option<&QueryField>) ensures match f { Some(q) => a0.1.def(field_name@) == Some(*q), None => a0.1.def(field_name@) is None }
//@   spec ensures match r { Some(q) => self.field(type_name@, field_name@) == Some(*q), None => self.field(type_name@, field_name@) is None }
//@ fn src/core/blueprint/index.rs :: impl Index :: fn is_resolved_by_implementors
//@   opt /self\s*\.get_possible_types\((\w+)\)\s*\.into_iter\(\)\s*\.any\((.*)\)\n    \}$/ => any_t_(self.get_possible_types(\1), \2, Ghost(resolves_p(*self, field_name@)))\n    }
//@   closure 1 |$0: &str| -> (b: bool) ensures b == resolves(*self, $0@, field_name@)
//@   spec ensures r == by_impl(*self, interface@, field_name@)
//@   tail proof { assert(ret_ == by_impl(*self, interface@, field_name@)) by { if by_impl(*self, interface@, field_name@) { let t = choose|t: Seq<char>| is_obj(*self, t) && #[trigger] fits(*self, t, interface@) && resolves(*self, t, field_name@); assert((resolves_p(*self, field_name@))(t)); } } }
}
// the object type has a resolver for the field
pub open spec fn resolves(x: Index, t: Seq<char>, n: Seq<char>) -> bool { x.field(t, n) matches Some(QueryField::Field(f)) && f.0.resolver is Some }
pub open spec fn resolves_p(x: Index, n: Seq<char>) -> spec_fn(Seq<char>) -> bool { |t: Seq<char>| resolves(x, t, n) }
// some of the interface's types has a resolver for the field
pub open spec fn by_impl(x: Index, c: Seq<char>, n: Seq<char>) -> bool { (def_of(x, c) matches Some(Definition::Interface(_))) && exists|t: Seq<char>| is_obj(x, t) && #[trigger] fits(x, t, c) && resolves(x, t, n) }
//@ item src/core/jit/builder.rs :: struct SelectedGroup
impl<T> It<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn any_s_<'c, 'b, F: Fn(&'c SelectedField<'b>) -> bool>(s: It<&'c SelectedField<'b>>, f: F, p: Ghost<spec_fn(&'c SelectedField<'b>) -> bool>) -> (r: bool) requires forall|x: &'c SelectedField<'b>, b: bool| f.requires((x,)) && (#[trigger] f.ensures((x,), b) ==> b == p@(x)) ensures r == exists|i: int| 0 <= i < s@.len() && (p@)(#[trigger] s@[i]) { unimplemented!() }
// iter_mut().find: the first of the groups
#[verifier::external_body] pub fn find_group_<'x, 'c, 'b, F: Fn(&SelectedGroup<'c, 'b>) -> bool>(v: &'x mut Vec<SelectedGroup<'c, 'b>>, f: F, p: Ghost<spec_fn(SelectedGroup<'c, 'b>) -> bool>) -> (r: Option<&'x mut SelectedGroup<'c, 'b>>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i],)), forall|x: &SelectedGroup<'c, 'b>, b: bool| #[trigger] f.ensures((x,), b) ==> b == p@(*x)
    ensures match r { Some(g) => exists|i: int| #![trigger old(v)@[i]] 0 <= i < old(v)@.len() && p@(old(v)@[i]) && *g == old(v)@[i] && final(v)@ == old(v)@.update(i, *final(g)), None => final(v)@ == old(v)@ && forall|i: int| 0 <= i < old(v)@.len() ==> !p@(#[trigger] old(v)@[i]) } { unimplemented!() }
// selected for every value, with nothing below
pub open spec fn total(s: SelectedField, parent: Seq<char>) -> bool { s.type_condition@ == parent && s.occurrence.0@.len() == 0 && s.occurrence.1.items@.len() == 0 }
pub open spec fn differs(s: SelectedField, o: SelectedField) -> bool { o.output_name@ == s.output_name@ && o.type_condition@ != s.type_condition@ }
pub open spec fn other_p<'c, 'b>(s: SelectedField<'b>) -> spec_fn(&'c SelectedField<'b>) -> bool { |o: &'c SelectedField<'b>| differs(s, *o) }
pub open spec fn total_p<'c, 'b>(parent: Seq<char>) -> spec_fn(&'c SelectedField<'b>) -> bool { |o: &'c SelectedField<'b>| total(*o, parent) }
pub open spec fn total_as_p<'c, 'b>(parent: Seq<char>, n: Seq<char>) -> spec_fn(&'c SelectedField<'b>) -> bool { |o: &'c SelectedField<'b>| o.output_name@ == n && total(*o, parent) }
pub open spec fn meets_p<'c, 'b>(x: Index, c: Seq<char>) -> spec_fn(&'c SelectedField<'b>) -> bool { |o: &'c SelectedField<'b>| meet(x, o.type_condition@, c) }
pub open spec fn group_p<'c, 'b>(t: Seq<char>, n: Seq<char>) -> spec_fn(SelectedGroup<'c, 'b>) -> bool { |g: SelectedGroup<'c, 'b>| g.type_condition@ == t && called(g) == n }
pub open spec fn called(g: SelectedGroup) -> Seq<char> { g.members@[0].output_name@ }
pub open spec fn other_total(c: Seq<SelectedField>, parent: Seq<char>, s: SelectedField) -> bool { exists|i: int| 0 <= i < c.len() && differs(s, #[trigger] c[i]) && total(c[i], parent) }
pub open spec fn any_total(c: Seq<SelectedField>, parent: Seq<char>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).output_name@ == n && total(c[i], parent) }
pub open spec fn other_meets(x: Index, c: Seq<SelectedField>, s: SelectedField) -> bool { exists|i: int| 0 <= i < c.len() && differs(s, #[trigger] c[i]) && meet(x, c[i].type_condition@, s.type_condition@) }
pub open spec fn by_type(x: Index, c: Seq<SelectedField>, parent: Seq<char>, s: SelectedField) -> bool { by_impl(x, s.type_condition@, s.field.name.node.text@) || (!any_total(c, parent, s.output_name@) && other_meets(x, c, s)) }
// the selected field is one of the group of this type
pub open spec fn goes(x: Index, c: Seq<SelectedField>, parent: Seq<char>, s: SelectedField, g: Seq<char>) -> bool { !other_total(c, parent, s) && if by_type(x, c, parent, s) { is_obj(x, g) && fits(x, g, s.type_condition@) } else { g == s.type_condition@ } }
pub open spec fn holds<'c, 'b>(g: SelectedGroup<'c, 'b>, t: Seq<char>, s: SelectedField<'b>) -> bool { g.type_condition@ == t && exists|m: int| 0 <= m < g.members@.len() && *(#[trigger] g.members@[m]) == s }
pub open spec fn held_at<'c, 'b>(r: Seq<SelectedGroup<'c, 'b>>, t: Seq<char>, s: SelectedField<'b>) -> bool { exists|a: int| 0 <= a < r.len() && holds(#[trigger] r[a], t, s) }
pub open spec fn from<'c, 'b>(x: Index, c: Seq<SelectedField<'b>>, parent: Seq<char>, g: SelectedGroup<'c, 'b>, s: SelectedField<'b>) -> bool { s.output_name@ == called(g) && goes(x, c, parent, s, g.type_condition@) && exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == s }
// the groups are apart, and each holds fields that go there only
pub open spec fn clean<'c, 'b>(x: Index, c: Seq<SelectedField<'b>>, parent: Seq<char>, r: Seq<SelectedGroup<'c, 'b>>) -> bool {
    &&& forall|a: int| 0 <= a < r.len() ==> (#[trigger] r[a]).members@.len() > 0
    &&& forall|a: int, b: int| 0 <= a < b < r.len() ==> (#[trigger] r[a]).type_condition@ != (#[trigger] r[b]).type_condition@ || called(r[a]) != called(r[b])
    &&& forall|a: int, m: int| 0 <= a < r.len() && 0 <= m < r[a].members@.len() ==> from(x, c, parent, r[a], *(#[trigger] r[a].members@[m]))
}
pub open spec fn full<'c, 'b>(x: Index, c: Seq<SelectedField<'b>>, parent: Seq<char>, r: Seq<SelectedGroup<'c, 'b>>, n: int) -> bool { forall|i: int, t: Seq<char>| 0 <= i < n && #[trigger] goes(x, c, parent, c[i], t) ==> held_at(r, t, c[i]) }
pub open spec fn full_for<'c, 'b>(r: Seq<SelectedGroup<'c, 'b>>, s: SelectedField<'b>, types: Seq<&str>, n: int) -> bool { forall|j: int| 0 <= j < n ==> held_at(r, (#[trigger] types[j])@, s) }
// one more member, in its group or in a new one
pub open spec fn joined<'c, 'b>(r0: Seq<SelectedGroup<'c, 'b>>, r1: Seq<SelectedGroup<'c, 'b>>, t: Seq<char>, s: SelectedField<'b>, a: int) -> bool { 0 <= a < r0.len() && r0[a].type_condition@ == t && called(r0[a]) == s.output_name@ && r1 == r0.update(a, r1[a]) && r1[a].type_condition == r0[a].type_condition && r1[a].members@ == r0[a].members@.push(&s) }
pub open spec fn put<'c, 'b>(r0: Seq<SelectedGroup<'c, 'b>>, r1: Seq<SelectedGroup<'c, 'b>>, t: Seq<char>, s: SelectedField<'b>) -> bool {
    ||| exists|a: int| #[trigger] joined(r0, r1, t, s, a)
    ||| (forall|a: int| 0 <= a < r0.len() ==> !(group_p(t, s.output_name@))(#[trigger] r0[a])) && r1 == r0.push(r1.last()) && r1.len() > 0 && r1.last().type_condition@ == t && r1.last().members@ == seq![&s]
}
pub proof fn lemma_put<'c, 'b>(x: Index, c: Seq<SelectedField<'b>>, parent: Seq<char>, r0: Seq<SelectedGroup<'c, 'b>>, r1: Seq<SelectedGroup<'c, 'b>>, t: Seq<char>, i: int)
    requires clean(x, c, parent, r0), 0 <= i < c.len(), goes(x, c, parent, c[i], t), put(r0, r1, t, c[i])
    ensures clean(x, c, parent, r1), held_at(r1, t, c[i]), forall|u: Seq<char>, s: SelectedField<'b>| held_at(r0, u, s) ==> #[trigger] held_at(r1, u, s)
{
    let s = c[i];
    if exists|a: int| #[trigger] joined(r0, r1, t, s, a) {
        let a = choose|a: int| #[trigger] joined(r0, r1, t, s, a);
        let p = r0[a].members@; let q = r1[a].members@;
        assert(q[0] == p[0]); assert(called(r1[a]) == called(r0[a]));
        assert(*(q[q.len() - 1]) == s); assert(holds(r1[a], t, s));
        assert forall|b: int, e: int| 0 <= b < e < r1.len() implies (#[trigger] r1[b]).type_condition@ != (#[trigger] r1[e]).type_condition@ || called(r1[b]) != called(r1[e]) by { assert(r0[b].type_condition@ != r0[e].type_condition@ || called(r0[b]) != called(r0[e])); }
        assert forall|b: int, m: int| 0 <= b < r1.len() && 0 <= m < r1[b].members@.len() implies from(x, c, parent, r1[b], *(#[trigger] r1[b].members@[m])) by {
            if b == a { if m < p.len() { assert(p[m] == q[m]); assert(from(x, c, parent, r0[a], *(r0[a].members@[m]))); } }
            else { assert(r1[b] == r0[b]); assert(from(x, c, parent, r0[b], *(r0[b].members@[m]))); }
        }
        assert forall|u: Seq<char>, w: SelectedField<'b>| held_at(r0, u, w) implies #[trigger] held_at(r1, u, w) by {
            let b = choose|b: int| 0 <= b < r0.len() && holds(#[trigger] r0[b], u, w);
            if b == a { let m = choose|m: int| 0 <= m < p.len() && *(#[trigger] p[m]) == w; assert(p[m] == q[m]); assert(holds(r1[a], u, w)); } else { assert(r1[b] == r0[b]); assert(holds(r1[b], u, w)); }
        }
    } else {
        let z = r0.len() as int;
        assert forall|b: int| 0 <= b < z implies #[trigger] r1[b] == r0[b] by { }
        assert(r1[z] == r1.last());
        assert(holds(r1[z], t, s)) by { assert(*(r1[z].members@[0]) == s); }
        assert forall|b: int, e: int| 0 <= b < e < r1.len() implies (#[trigger] r1[b]).type_condition@ != (#[trigger] r1[e]).type_condition@ || called(r1[b]) != called(r1[e]) by { if e < z { assert(r0[b].type_condition@ != r0[e].type_condition@ || called(r0[b]) != called(r0[e])); } else { assert(r1[b] == r0[b]); assert(!(group_p(t, s.output_name@))(r0[b])); } }
        assert forall|b: int, m: int| 0 <= b < r1.len() && 0 <= m < r1[b].members@.len() implies from(x, c, parent, r1[b], *(#[trigger] r1[b].members@[m])) by { if b < z { assert(r1[b] == r0[b]); assert(from(x, c, parent, r0[b], *(r0[b].members@[m]))); } }
        assert forall|u: Seq<char>, w: SelectedField<'b>| held_at(r0, u, w) implies #[trigger] held_at(r1, u, w) by { let b = choose|b: int| 0 <= b < r0.len() && holds(#[trigger] r0[b], u, w); assert(r1[b] == r0[b]); assert(holds(r1[b], u, w)); }
    }
}
// what is held for each of the types is held for each type that the field goes to
pub open spec fn types_of(x: Index, c: Seq<SelectedField>, parent: Seq<char>, s: SelectedField, types: Seq<&str>) -> bool { (forall|j: int| 0 <= j < types.len() ==> goes(x, c, parent, s, (#[trigger] types[j])@)) && forall|t: Seq<char>| #[trigger] goes(x, c, parent, s, t) ==> named(types, t) }
pub open spec fn ptrs<'x, T>(c: Seq<T>) -> Seq<&'x T> { c.map_values(|x: T| &x) }
#[verifier::external_body] pub fn all_<'x, T>(c: &'x [T]) -> (r: It<&'x T>) ensures r@ == ptrs(c@) { unimplemented!() }
// what the filtered ones have is what the others of the same name have
pub proof fn lemma_others<'c, 'b>(x: Index, c: Seq<SelectedField<'b>>, parent: Seq<char>, s: SelectedField<'b>)
    ensures
        (exists|i: int| 0 <= i < only(ptrs::<SelectedField<'b>>(c), other_p(s)).len() && (total_p(parent))(#[trigger] only(ptrs::<SelectedField<'b>>(c), other_p(s))[i])) == other_total(c, parent, s),
        (exists|i: int| 0 <= i < only(ptrs::<SelectedField<'b>>(c), other_p(s)).len() && (meets_p(x, s.type_condition@))(#[trigger] only(ptrs::<SelectedField<'b>>(c), other_p(s))[i])) == other_meets(x, c, s),
        (exists|i: int| 0 <= i < ptrs::<SelectedField<'b>>(c).len() && (total_as_p(parent, s.output_name@))(#[trigger] ptrs::<SelectedField<'b>>(c)[i])) == any_total(c, parent, s.output_name@),
{
    let q = ptrs::<SelectedField<'b>>(c); let p = other_p(s); let o = only(q, p); lemma_kept(q, p);
    if exists|i: int| 0 <= i < o.len() && (total_p(parent))(#[trigger] o[i]) { let i = choose|i: int| 0 <= i < o.len() && (total_p(parent))(#[trigger] o[i]); assert(q.contains(o[i])); let j = choose|j: int| 0 <= j < q.len() && q[j] == o[i]; assert(differs(s, c[j])); }
    if other_total(c, parent, s) { let j = choose|j: int| 0 <= j < c.len() && differs(s, #[trigger] c[j]) && total(c[j], parent); assert(p(q[j])); let i = choose|i: int| 0 <= i < o.len() && o[i] == q[j]; assert((total_p(parent))(o[i])); }
    let m = s.type_condition@;
    if exists|i: int| 0 <= i < o.len() && (meets_p(x, m))(#[trigger] o[i]) { let i = choose|i: int| 0 <= i < o.len() && (meets_p(x, m))(#[trigger] o[i]); assert(q.contains(o[i])); let j = choose|j: int| 0 <= j < q.len() && q[j] == o[i]; assert(differs(s, c[j])); }
    if other_meets(x, c, s) { let j = choose|j: int| 0 <= j < c.len() && differs(s, #[trigger] c[j]) && meet(x, c[j].type_condition@, m); assert(p(q[j])); let i = choose|i: int| 0 <= i < o.len() && o[i] == q[j]; assert((meets_p(x, m))(o[i])); }
    let n = s.output_name@;
    if exists|i: int| 0 <= i < q.len() && (total_as_p(parent, n))(#[trigger] q[i]) { let i = choose|i: int| 0 <= i < q.len() && (total_as_p(parent, n))(#[trigger] q[i]); assert(c[i].output_name@ == n); }
    if any_total(c, parent, n) { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).output_name@ == n && total(c[j], parent); assert((total_as_p(parent, n))(q[j])); }
}
pub proof fn lemma_types(x: Index, c: Seq<SelectedField>, parent: Seq<char>, s: SelectedField, types: Seq<&str>)
    requires if other_total(c, parent, s) { types.len() == 0 } else if by_type(x, c, parent, s) { possible(x, s.type_condition@, types) } else { types.len() == 1 && types[0]@ == s.type_condition@ }
    ensures types_of(x, c, parent, s, types)
{ assert forall|t: Seq<char>| #[trigger] goes(x, c, parent, s, t) implies named(types, t) by { if !by_type(x, c, parent, s) { assert(types[0]@ == t); } } }
// what's selected under the same name for the same type is the same field (validity of the request)
pub open spec fn agree(c: Seq<SelectedField>) -> bool { forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && (#[trigger] c[i]).type_condition@ == (#[trigger] c[j]).type_condition@ && c[i].output_name@ == c[j].output_name@ ==> c[i].field.name.node.text@ == c[j].field.name.node.text@ }
pub open spec fn total_in(g: SelectedGroup, parent: Seq<char>) -> bool { exists|m: int| 0 <= m < g.members@.len() && total(*(#[trigger] g.members@[m]), parent) }
// the group has what's selected here, or what's selected for every value anyway with nothing below
pub open spec fn has_it<'c, 'b>(x: Index, g: SelectedGroup<'c, 'b>, t: Seq<char>, parent: Seq<char>, s: SelectedField<'b>) -> bool { fits(x, t, g.type_condition@) && called(g) == s.output_name@ && (holds(g, g.type_condition@, s) || total_in(g, parent)) }
pub open spec fn kept_in<'c, 'b>(x: Index, r: Seq<SelectedGroup<'c, 'b>>, t: Seq<char>, parent: Seq<char>, s: SelectedField<'b>) -> bool { exists|a: int| 0 <= a < r.len() && has_it(x, #[trigger] r[a], t, parent, s) }
// a value of this type has each name once, with everything that's selected for it and nothing else
pub open spec fn once_for<'c, 'b>(x: Index, c: Seq<SelectedField<'b>>, parent: Seq<char>, r: Seq<SelectedGroup<'c, 'b>>, t: Seq<char>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < r.len() && fits(x, t, (#[trigger] r[a]).type_condition@) && fits(x, t, (#[trigger] r[b]).type_condition@) ==> called(r[a]) != called(r[b])
    &&& forall|i: int| 0 <= i < c.len() && fits(x, t, (#[trigger] c[i]).type_condition@) ==> kept_in(x, r, t, parent, c[i])
    &&& forall|a: int, m: int| 0 <= a < r.len() && 0 <= m < r[a].members@.len() && fits(x, t, r[a].type_condition@) ==> fits(x, t, (#[trigger] r[a].members@[m]).type_condition@) && c.contains(*r[a].members@[m]) && r[a].members@[m].output_name@ == called(r[a])
}
pub proof fn lemma_apart_groups(x: Index, c: Seq<SelectedField>, parent: Seq<char>, t: Seq<char>, i: int, j: int, g: Seq<char>, h: Seq<char>)
    requires wf(x), agree(c), is_obj(x, t), 0 <= i < c.len(), 0 <= j < c.len(), c[i].output_name@ == c[j].output_name@, goes(x, c, parent, c[i], g), goes(x, c, parent, c[j], h), fits(x, t, g), fits(x, t, h)
    ensures g == h
{
    let s = c[i]; let o = c[j]; let n = s.output_name@;
    assert(fits(x, t, s.type_condition@)); assert(fits(x, t, o.type_condition@));
    if s.type_condition@ == o.type_condition@ {
        assert(by_impl(x, s.type_condition@, s.field.name.node.text@) == by_impl(x, o.type_condition@, o.field.name.node.text@));
        if other_meets(x, c, s) { let k = choose|k: int| 0 <= k < c.len() && differs(s, #[trigger] c[k]) && meet(x, c[k].type_condition@, s.type_condition@); assert(differs(o, c[k])); }
        if other_meets(x, c, o) { let k = choose|k: int| 0 <= k < c.len() && differs(o, #[trigger] c[k]) && meet(x, c[k].type_condition@, o.type_condition@); assert(differs(s, c[k])); }
    } else {
        assert(differs(s, o) && differs(o, s));
        assert(meet(x, o.type_condition@, s.type_condition@)); assert(meet(x, s.type_condition@, o.type_condition@));
        if any_total(c, parent, n) {
            let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).output_name@ == n && total(c[k], parent);
            assert(s.type_condition@ == parent) by { if s.type_condition@ != parent { assert(differs(s, c[k])); } }
            assert(o.type_condition@ == parent) by { if o.type_condition@ != parent { assert(differs(o, c[k])); } }
        }
    }
}
pub proof fn lemma_reaches(x: Index, c: Seq<SelectedField>, parent: Seq<char>, t: Seq<char>, s: SelectedField) -> (g: Seq<char>)
    requires is_obj(x, t), fits(x, t, s.type_condition@), !other_total(c, parent, s)
    ensures goes(x, c, parent, s, g), fits(x, t, g)
{ if by_type(x, c, parent, s) { t } else { s.type_condition@ } }
pub proof fn lemma_once<'c, 'b>(x: Index, c: Seq<SelectedField<'b>>, parent: Seq<char>, r: Seq<SelectedGroup<'c, 'b>>, t: Seq<char>)
    requires wf(x), agree(c), clean(x, c, parent, r), full(x, c, parent, r, c.len() as int), is_obj(x, t), fits(x, t, parent)
    ensures once_for(x, c, parent, r, t)
{
    assert forall|a: int, b: int| 0 <= a < b < r.len() && fits(x, t, (#[trigger] r[a]).type_condition@) && fits(x, t, (#[trigger] r[b]).type_condition@) implies called(r[a]) != called(r[b]) by {
        if called(r[a]) == called(r[b]) {
            let p = *r[a].members@[0]; let q = *r[b].members@[0];
            assert(from(x, c, parent, r[a], *(r[a].members@[0]))); assert(from(x, c, parent, r[b], *(r[b].members@[0])));
            let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] == p; let j = choose|j: int| 0 <= j < c.len() && #[trigger] c[j] == q;
            lemma_apart_groups(x, c, parent, t, i, j, r[a].type_condition@, r[b].type_condition@);
        }
    }
    assert forall|i: int| 0 <= i < c.len() && fits(x, t, (#[trigger] c[i]).type_condition@) implies kept_in(x, r, t, parent, c[i]) by {
        let s = c[i];
        let k = if other_total(c, parent, s) { choose|k: int| 0 <= k < c.len() && differs(s, #[trigger] c[k]) && total(c[k], parent) } else { i };
        assert(!other_total(c, parent, c[k]));
        let g = lemma_reaches(x, c, parent, t, c[k]);
        assert(held_at(r, g, c[k]));
        let a = choose|a: int| 0 <= a < r.len() && holds(#[trigger] r[a], g, c[k]);
        let m = choose|m: int| 0 <= m < r[a].members@.len() && *(#[trigger] r[a].members@[m]) == c[k];
        assert(from(x, c, parent, r[a], *(r[a].members@[m])));
        assert(has_it(x, r[a], t, parent, s));
    }
    assert forall|a: int, m: int| 0 <= a < r.len() && 0 <= m < r[a].members@.len() && fits(x, t, r[a].type_condition@) implies fits(x, t, (#[trigger] r[a].members@[m]).type_condition@) && c.contains(*r[a].members@[m]) && r[a].members@[m].output_name@ == called(r[a]) by { assert(from(x, c, parent, r[a], *(r[a].members@[m]))); }
}
impl<'a> Builder<'a> {
//@ fn src/core/jit/builder.rs :: impl<'a> Builder<'a> :: fn merge
//@   attr #[verifier::loop_isolation(false)]
//@   opt /(\w+\.type_condition) == parent_type/ => same_(\1, parent_type)
//@   opt /(other|selected)\.output_name == selected\.output_name/ => same_(\1.output_name, selected.output_name)
//@   opt /other\.type_condition != selected\.type_condition/ => !same_(other.type_condition, selected.type_condition)
//@   opt /group\.type_condition == type_condition/ => same_(group.type_condition, type_condition)
//@   opt /group\.members\[0\]\.output_name == selected\.output_name/ => same_(group.members[0].output_name, selected.output_name)
//@   opt /collected\.iter\(\)\.filter\((.*?)\);/ => keep_(all_(collected), \1, Ghost(other_p(*selected)));
//@   opt /others\.clone\(\)\.any\(is_total\)/ => any_s_(others.clone(), |o_| is_total(o_), Ghost(total_p(parent_type@)))
//@   opt /collected\.iter\(\)\.any\((.*?is_total\(other\)\s*\})\)/ => any_s_(all_(collected), \1, Ghost(total_as_p(parent_type@, selected.output_name@)))
//@   opt /others\s*\.clone\(\)\s*\.any\((\|other\| self\.overlap\([^)]*\))\)/ => any_s_(others.clone(), \1, Ghost(meets_p(*self.index, selected.type_condition@)))
//@   opt /is_resolved_by_implementors\(selected\.type_condition, &selected\.field\.name\.node\)/ => is_resolved_by_implementors(selected.type_condition, selected.field.name.node.as_str())
//@   opt /groups\.iter_mut\(\)\.find\((.*?)\);/ => find_group_(&mut groups, \1, Ghost(group_p(type_condition@, selected.output_name@)));
//@   opt /in collected \{/ => in all_(collected) {
//@   closure /requirements \. is_empty/ |$0: &SelectedField| -> (b: bool) ensures b == total(*$0, parent_type@)
//@   closure /same_ \( other \. output_name , selected \. output_name \) && ! same_/ |$0: &&'c SelectedField<'b>| -> (b: bool) ensures b == differs(*selected, **$0)
//@   closure /^is_total \( o_ \)/ |$0: &'c SelectedField<'b>| -> (b: bool) ensures b == total(*$0, parent_type@)
//@   closure /is_total \( other \)/ |$0: &'c SelectedField<'b>| -> (b: bool) ensures b == (total_as_p(parent_type@, selected.output_name@))($0)
//@   closure /self \. overlap/ |$0: &'c SelectedField<'b>| -> (b: bool) ensures b == meet(*self.index, $0.type_condition@, selected.type_condition@)
//@   closure /group \. members/ |$0: &SelectedGroup<'c, 'b>| -> (b: bool) requires $0.members@.len() > 0 ensures b == (group_p(type_condition@, selected.output_name@))(*$0)
//@   opt /in types \{/ => in types.into_it_() {
//@   loop 1 it=it invariant it.seq() == ptrs(collected@), clean(*self.index, collected@, parent_type@, groups@), full(*self.index, collected@, parent_type@, groups@, it.index() as int)
//@   before 2 let ghost ts_ = types@; proof { let x = *self.index; let c = collected@; let i = it.index() as int; assert(*selected == c[i]); lemma_others(x, c, parent_type@, *selected); lemma_types(x, c, parent_type@, *selected, ts_); }
//@   loop 2 it=it2 invariant it2.seq() == ts_, types_of(*self.index, collected@, parent_type@, *selected, ts_), clean(*self.index, collected@, parent_type@, groups@), full(*self.index, collected@, parent_type@, groups@, it.index() as int), full_for(groups@, *selected, ts_, it2.index() as int)
//@   loopstart 2 let ghost g0 = groups@;
//@   loopend 2 proof {
//@   |    let s = collected@[it.index() as int]; let g1 = groups@; let t = type_condition@;
//@   |    assert(put(g0, g1, t, s)) by {
//@   |        if g1.len() == g0.len() {
//@   |            let a = choose|a: int| #![trigger g0[a]] 0 <= a < g0.len() && (group_p(t, s.output_name@))(g0[a]) && g1 == g0.update(a, g1[a]) && g1[a].members@ == g0[a].members@.push(&s) && g1[a].type_condition == g0[a].type_condition;
//@   |            assert(joined(g0, g1, t, s, a));
//@   |        } else { assert(g1.last().members@ =~= seq![&s]); }
//@   |    }
//@   |    lemma_put(*self.index, collected@, parent_type@, g0, groups@, type_condition@, it.index() as int); }
//@   tail proof { if agree(collected@) { assert forall|t: Seq<char>| is_obj(*self.index, t) && #[trigger] fits(*self.index, t, parent_type@) implies once_for(*self.index, collected@, parent_type@, ret_@, t) by { lemma_once(*self.index, collected@, parent_type@, ret_@, t); } } }
//@   spec requires wf(*self.index) ensures clean(*self.index, collected@, parent_type@, r@), full(*self.index, collected@, parent_type@, r@, collected@.len() as int),
//@   |    agree(collected@) ==> forall|t: Seq<char>| is_obj(*self.index, t) && #[trigger] fits(*self.index, t, parent_type@) ==> once_for(*self.index, collected@, parent_type@, r@, t)
}
// ---- the plan of a request: the same as that of the operation without the fields that aren't selected, at every depth
pub open spec fn unskipped(v: Variables) -> spec_fn(Field) -> bool { |f: Field| any_met(f.alternatives@, v) }
pub open spec fn as_was(a: Field, b: Field) -> bool { a.alternatives == b.alternatives && a.rest == b.rest }
pub open spec fn pruned(a: Seq<Field>, b: Seq<Field>, v: Variables, k: nat) -> bool decreases k { k == 0 || ({ let c = only(a, unskipped(v)); b.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> as_was(c[i], #[trigger] b[i]) && pruned(c[i].selection@, b[i].selection@, v, (k - 1) as nat) }) }
// Vec::retain by a predicate that depends on the item alone
#[verifier::external_body] pub fn retain_<F: Fn(&Field) -> bool>(a: &mut Vec<Field>, f: F, p: Ghost<spec_fn(Field) -> bool>) requires forall|x: &Field, b: bool| f.requires((x,)) && (#[trigger] f.ensures((x,), b) ==> b == p@(*x)) ensures final(a)@ == only(old(a)@, p@) { unimplemented!() }
//@ fn src/core/jit/transform/skip.rs :: fn skip
//@   attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@   sub /skip<Input, Var: for<'b> JsonLike<'b>>\(fields: &mut Vec<Field<Input>>, vars: &Variables<Var>\)/ => skip(fields: &mut Vec<Field>, vars: &Variables)
//@   opt /fields\.retain\((.*?)\);/ => retain_(fields, \1, Ghost(unskipped(*vars)));
//@   opt /for (\w+) in fields(\.iter_mut\(\))? \{(.*?)\n    \}/ => let ghost c_ = fields@; let mut i_: usize = 0; while i_ < fields.len() { let \1 = &mut fields[i_];\3 i_ += 1; }
//@   closure 1 |$0: &Field| -> (b: bool) ensures b == any_met($0.alternatives@, *vars)
//@   loop 1 invariant i_ <= c_.len(), c_ == only(old(fields)@, unskipped(*vars)), fields@.len() == c_.len(), forall|j: int| 0 <= j < i_ ==> as_was(c_[j], #[trigger] fields@[j]) && forall|k: nat| #[trigger] pruned(c_[j].selection@, fields@[j].selection@, *vars, k), forall|j: int| i_ <= j < c_.len() ==> #[trigger] fields@[j] == c_[j]
//@   after 1 proof { let a = old(fields)@; let b = fields@; let v = *vars; assert forall|k: nat| #[trigger] pruned(a, b, v, k) by { if k > 0 { assert forall|i: int| 0 <= i < c_.len() implies as_was(c_[i], #[trigger] b[i]) && pruned(c_[i].selection@, b[i].selection@, v, (k - 1) as nat) by { } } } }
//@   spec ensures forall|k: nat| #[trigger] pruned(old(fields)@, final(fields)@, *vars, k)
} // verus!
fn main() {}
