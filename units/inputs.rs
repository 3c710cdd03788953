#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
pub mod m_in {
// Assumed shapes of values, variables, the index and what else a plan is made of, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
// a value of an argument (ConstValue, over the contract of JsonLike that the units json_* prove): its entries are held by name
pub enum Output { Null, Leaf(Leaf), List(Vec<Output>), Obj(Obj) }
#[verifier::external_body] pub struct Leaf { _p: () }
pub struct Obj { pub entries: Vec<(String, Output)> }
pub open spec fn entry(o: Obj, k: int, n: Seq<char>) -> bool { 0 <= k < o.entries@.len() && o.entries@[k].0@ == n }
pub open spec fn at(o: Obj, n: Seq<char>) -> int { choose|k: int| entry(o, k, n) }
pub open spec fn holds(o: Obj, n: Seq<char>) -> bool { entry(o, at(o, n), n) }
pub open spec fn got(o: Obj, n: Seq<char>) -> Option<Output> { if holds(o, n) { Some(o.entries@[at(o, n)].1) } else { None } }
impl Clone for Output { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Output {
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (*self is Null) { unimplemented!() }
    #[verifier::external_body] pub fn as_object_mut(&mut self) -> (r: Option<&mut Obj>)
        ensures match r { Some(o) => *old(self) == Output::Obj(*o) && *final(self) == Output::Obj(*final(o)), None => *final(self) == *old(self) && !(*old(self) is Obj) } { unimplemented!() }
    #[verifier::external_body] pub fn as_array_mut(&mut self) -> (r: Option<&mut Vec<Output>>)
        ensures match r { Some(o) => *old(self) == Output::List(*o) && *final(self) == Output::List(*final(o)), None => *final(self) == *old(self) && !(*old(self) is List) } { unimplemented!() }
    #[verifier::external_body] pub fn try_from(v: SchemaValue) -> (r: Result<Output, ()>) ensures r == Ok::<Output, ()>(read(v)) { unimplemented!() }
}
impl Obj {
    #[verifier::external_body] pub fn get_key(&self, k: &str) -> (r: Option<&Output>) ensures match r { Some(v) => got(*self, k@) == Some(*v), None => got(*self, k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn insert_key(&mut self, k: &str, v: Output) ensures got(*final(self), k@) == Some(v), forall|n: Seq<char>| n != k@ ==> #[trigger] got(*final(self), n) == got(*old(self), n) { unimplemented!() }
}
// a default value of the schema, and the value it stands for
#[verifier::external_body] pub struct SchemaValue { _p: () }
pub uninterp spec fn read(v: SchemaValue) -> Output;
impl Clone for SchemaValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// a value of a query, and what it stands for with the values of variables (into_const_with of async-graphql, with the variables: None if one is not set)
#[verifier::external_body] pub struct Input { _p: () }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Variables<V> { _p: core::marker::PhantomData<V> }
pub uninterp spec fn const_of(i: Input, v: Variables<Output>) -> Option<Output>;
impl Input { #[verifier::external_body] pub fn resolve(self, v: &Variables<Output>) -> (r: Result<Output, ResolveInputError>) ensures match r { Ok(o) => const_of(self, *v) == Some(o), Err(e) => const_of(self, *v) is None && e is VariableIsNotFound } { unimplemented!() } }
#[verifier::external_body] pub struct Rest_ { _p: () }
pub struct InputObjectTypeDefinition { pub name: String, pub fields: Vec<InputFieldDefinition>, pub rest_: Rest_ }
pub enum Definition { InputObject(InputObjectTypeDefinition), Other_(Rest_) }
pub struct IndexMap<K, V> { pub entries: Vec<(K, V)> }
impl<V> IndexMap<String, V> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(x) => self.m().contains_key(k@) && *x == self.m()[k@], None => !self.m().contains_key(k@) } { unimplemented!() }
}
impl<V> IndexMap<Name, V> {
    pub uninterp spec fn held(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.held() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Name, v: V) -> (r: Option<V>) ensures final(self).held() == old(self).held().insert(k@, v) { unimplemented!() }
}
#[verifier::external_body] pub struct Name { _p: () }
impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Name { #[verifier::external_body] pub fn new(s: &str) -> (r: Name) ensures r@ == s@ { unimplemented!() } }
pub struct Index { pub map: IndexMap<String, (Definition, Rest_)> }
pub struct RequestContext<'a, T> { pub plan_: &'a T }
// the parts of a plan that nothing here is about
pub struct ArgId(pub usize);
pub struct FieldId(pub usize);
#[verifier::external_body] pub struct IR { _p: () }
impl IR { #[verifier::external_body] pub fn modify_<X>(&mut self, v: &X) { unimplemented!() } }
#[verifier::external_body] pub struct Requirement { _p: () }
#[verifier::external_body] pub struct Scalar { _p: () }
#[verifier::external_body] pub struct OperationType { _p: () }
#[verifier::external_body] pub struct NonZeroU64 { _p: () }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[derive(Default)] pub struct HashSet<T> { _p: core::marker::PhantomData<T> }
pub type ConstValue = Output;
pub type Arc<T> = Box<T>;
#[derive(Clone, Copy)] pub struct Pos { pub line: usize, pub column: usize }
pub struct Directive<T> { pub arguments: Vec<(String, T)> }
impl<T> Directive<T> { #[verifier::external_body] pub fn try_map<U, E, F: Fn(T) -> Result<U, E>>(self, map: &F) -> (r: Result<Directive<U>, E>) ensures r matches Err(e) ==> forall|q: spec_fn(T, E) -> bool| #![trigger stops(*map, q)] #![trigger dir_stops(q, self, e)] stops::<T, U, E, F>(*map, q) ==> dir_stops(q, self, e) { unimplemented!() } }
pub open spec fn dir_stops<T, E>(q: spec_fn(T, E) -> bool, d: Directive<T>, e: E) -> bool { exists|i: int| 0 <= i < d.arguments@.len() && q((#[trigger] d.arguments@[i]).1, e) }
#[verifier::external_body] pub fn text_() -> String { unimplemented!() }
#[verifier::external_body] pub fn own_(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// `collect` of results: all of them, or the first error
impl<T, E> It<Result<T, E>> {
    #[verifier::external_body] pub fn all_(self) -> (r: Result<Vec<T>, E>)
        ensures match r { Ok(v) => v@.len() == self@.len() && forall|i: int| #![trigger v@[i]] #![trigger self@[i]] 0 <= i < v@.len() ==> self@[i] == Ok::<T, E>(v@[i]), Err(e) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == Err::<T, E>(e) } { unimplemented!() }
}
// Option::cloned
#[verifier::external_body] pub fn copy_(o: Option<&Output>) -> (r: Option<Output>) ensures match r { Some(v) => o is Some && v == *(o->0), None => o is None } { unimplemented!() }
#[verifier::external_body] pub fn clone_(o: &Option<Output>) -> (r: Option<Output>) ensures r == *o { unimplemented!() }
} // verus!
}
use m_in::*;
verus! {
broadcast use axiom_string_ext;
//@ rewrite /crate::core::Type/ => Type
//@ item src/core/wrapping_type.rs :: enum Type
pub open spec fn name_of(t: Type) -> Seq<char> decreases t { match t { Type::Named { name, .. } => name@, Type::List { of_type, .. } => name_of(*of_type) } }
pub open spec fn opt(t: Type) -> bool { match t { Type::Named { non_null, .. } => !non_null, Type::List { non_null, .. } => !non_null } }
impl Type {
//@ fn src/core/wrapping_type.rs :: impl Type :: fn name
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures r@ == name_of(*self)
//@ fn src/core/wrapping_type.rs :: impl Type :: fn is_nullable
//@   spec ensures r == opt(*self)
}
//@ item src/core/blueprint/blueprint.rs :: struct InputFieldDefinition
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /serde_json::Value/ => SchemaValue
//@ item src/core/jit/error.rs :: enum ResolveInputError
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@ item src/core/jit/model.rs :: struct Arg
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@ item src/core/jit/model.rs :: struct Field
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@ item src/core/jit/model.rs :: struct OperationPlan
//@   opt /#\[derive\([^\]]*\)\]/ => 
impl Index {
    pub open spec fn input(self, n: Seq<char>) -> Option<InputObjectTypeDefinition> { if self.map.m().contains_key(n) { match self.map.m()[n].0 { Definition::InputObject(d) => Some(d), _ => None } } else { None } }
//@ fn src/core/blueprint/index.rs :: impl Index :: fn get_input_type_definition
//@   spec ensures match r { Some(d) => self.input(type_name@) == Some(*d), None => self.input(type_name@) is None }
}
// an input type has each of its fields once
pub open spec fn once(d: InputObjectTypeDefinition) -> bool { forall|i: int, j: int| 0 <= i < j < d.fields@.len() ==> (#[trigger] d.fields@[i]).name@ != (#[trigger] d.fields@[j]).name@ }
pub open spec fn wf(ix: Index) -> bool { forall|n: Seq<char>| (#[trigger] ix.input(n)) is Some ==> once(ix.input(n)->0) }
// ---- what the property says
// the type of the items of a list of that type (a list that is given for an input type is taken as a list of values of it)
pub open spec fn item(ix: Index, t: Type) -> Option<Type> { match t { Type::List { of_type, .. } => Some(*of_type), Type::Named { .. } => if ix.input(name_of(t)) is Some { Some(t) } else { None } } }
// a value that the type doesn't let in: null is given, or nothing where there is no default
pub open spec fn refused(t: Type, d: Option<Output>, v: Option<Output>) -> bool { !opt(t) && match v { Some(x) => x is Null, None => d is None } }
// the value to start with: what is given (null too), or the default
pub open spec fn start(d: Option<Output>, v: Option<Output>) -> Option<Output> { if v is Some { v } else { d } }
pub open spec fn dflt(f: InputFieldDefinition) -> Option<Output> { match f.default_value { Some(v) => Some(read(v)), None => None } }
pub open spec fn arg_done(ix: Index, a: Arg<Output>, b: Arg<Output>) -> bool { b == Arg { value: b.value, ..a } && value_is(ix, a.type_of, a.default_value, a.value, b.value) }
// a field with the values of its arguments, and of those of all fields in it
pub open spec fn field_ready(ix: Index, f: Field<Output>, g: Field<Output>) -> bool decreases f {
    &&& g == Field { args: g.args, selection: g.selection, ..f }
    &&& f.args@.len() == g.args@.len() && forall|i: int| #![trigger f.args@[i]] #![trigger g.args@[i]] 0 <= i < f.args@.len() ==> arg_done(ix, f.args@[i], g.args@[i])
    &&& f.selection@.len() == g.selection@.len() && forall|i: int| #![trigger f.selection@[i]] #![trigger g.selection@[i]] 0 <= i < f.selection@.len() ==> field_ready(ix, f.selection@[i], g.selection@[i])
}
// something that is required is missing in the field or in one in it
pub open spec fn field_lacks(ix: Index, f: Field<Output>) -> bool decreases f {
    (exists|i: int| 0 <= i < f.args@.len() && lacking(ix, (#[trigger] f.args@[i]).type_of, f.args@[i].default_value, f.args@[i].value)) || exists|i: int| 0 <= i < f.selection@.len() && field_lacks(ix, #[trigger] f.selection@[i])
}
// ---- values of variables
// the function puts values in place of others like that
pub open spec fn obeys<T, U, E, F: Fn(T) -> Result<U, E>>(m: F, p: spec_fn(T, U) -> bool) -> bool { forall|x: T, o: U| #[trigger] m.ensures((x,), Ok::<U, E>(o)) ==> p(x, o) }
// and it fails for values like that only
pub open spec fn stops<T, U, E, F: Fn(T) -> Result<U, E>>(m: F, q: spec_fn(T, E) -> bool) -> bool { forall|x: T, e: E| #[trigger] m.ensures((x,), Err::<U, E>(e)) ==> q(x, e) }
pub open spec fn opt_put<T, U>(p: spec_fn(T, U) -> bool, a: Option<T>, b: Option<U>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => p(x, y), _ => false } }
pub open spec fn arg_put<T, U>(p: spec_fn(T, U) -> bool, a: Arg<T>, b: Arg<U>) -> bool { b.id == a.id && b.name == a.name && b.type_of == a.type_of && opt_put(p, a.value, b.value) && opt_put(p, a.default_value, b.default_value) }
pub open spec fn arg_stops<T, E>(q: spec_fn(T, E) -> bool, a: Arg<T>, e: E) -> bool { (a.value is Some && q(a.value->0, e)) || (a.default_value is Some && q(a.default_value->0, e)) }
pub open spec fn field_put<T, U>(p: spec_fn(T, U) -> bool, f: Field<T>, g: Field<U>) -> bool decreases f {
    &&& g.id == f.id && g.name == f.name && g.output_name == f.output_name && g.ir == f.ir && g.type_of == f.type_of && g.type_condition == f.type_condition && g.alternatives == f.alternatives && g.pos == f.pos && g.is_enum == f.is_enum && g.scalar == f.scalar
    &&& f.args@.len() == g.args@.len() && forall|i: int| #![trigger f.args@[i]] #![trigger g.args@[i]] 0 <= i < f.args@.len() ==> arg_put(p, f.args@[i], g.args@[i])
    &&& f.selection@.len() == g.selection@.len() && forall|i: int| #![trigger f.selection@[i]] #![trigger g.selection@[i]] 0 <= i < f.selection@.len() ==> field_put(p, f.selection@[i], g.selection@[i])
}
// it fails for a value of the field, or of one in it
pub open spec fn field_stops<T, E>(q: spec_fn(T, E) -> bool, f: Field<T>, e: E) -> bool decreases f {
    ||| exists|i: int| 0 <= i < f.args@.len() && arg_stops(q, #[trigger] f.args@[i], e)
    ||| exists|i: int| 0 <= i < f.directives@.len() && dir_stops(q, #[trigger] f.directives@[i], e)
    ||| exists|i: int| 0 <= i < f.selection@.len() && field_stops(q, #[trigger] f.selection@[i], e)
}
impl<Input> Arg<Input> {
//@ fn src/core/jit/model.rs :: impl<Input> Arg<Input> :: fn try_map
//@   opt /self\.(\w+)\.map\(map\)\.transpose\(\)\?/ => match self.\1 { Some(x_) => Some(map(x_)?), None => None }
//@   spec requires forall|x: Input| #[trigger] map.requires((x,)) ensures match r {
//@   |  Ok(b) => forall|p: spec_fn(Input, Output) -> bool| #![trigger obeys(*map, p)] #![trigger arg_put(p, self, b)] obeys::<Input, Output, Error, _>(*map, p) ==> arg_put(p, self, b),
//@   |  Err(e) => forall|q: spec_fn(Input, Error) -> bool| #![trigger stops(*map, q)] #![trigger arg_stops(q, self, e)] stops::<Input, Output, Error, _>(*map, q) ==> arg_stops(q, self, e) }
}
impl<Input> Field<Input> {
//@ fn src/core/jit/model.rs :: impl<Input> Field<Input> :: fn try_map
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   opt /\.into_iter\(\)/ => .into_it_()
//@   opt /\.collect::<Result<[^?]*>>\(\)/ => .all_()
//@   closure /^f \. try_map/ |$0: Field<Input>| -> (o: Result<Field<Output>, Error>) ensures match o { Ok(b) => forall|p: spec_fn(Input, Output) -> bool| #![trigger obeys(*map, p)] #![trigger field_put(p, $0, b)] obeys::<Input, Output, Error, _>(*map, p) ==> field_put(p, $0, b), Err(e) => forall|q: spec_fn(Input, Error) -> bool| #![trigger stops(*map, q)] #![trigger field_stops(q, $0, e)] stops::<Input, Output, Error, _>(*map, q) ==> field_stops(q, $0, e) }
//@   closure /^arg \. try_map/ |$0: Arg<Input>| -> (o: Result<Arg<Output>, Error>) ensures match o { Ok(b) => forall|p: spec_fn(Input, Output) -> bool| #![trigger obeys(*map, p)] #![trigger arg_put(p, $0, b)] obeys::<Input, Output, Error, _>(*map, p) ==> arg_put(p, $0, b), Err(e) => forall|q: spec_fn(Input, Error) -> bool| #![trigger stops(*map, q)] #![trigger arg_stops(q, $0, e)] stops::<Input, Output, Error, _>(*map, q) ==> arg_stops(q, $0, e) }
//@   closure /^directive \. try_map/ |$0: Directive<Input>| -> (o: Result<Directive<Output>, Error>) ensures o matches Err(e) ==> forall|q: spec_fn(Input, Error) -> bool| #![trigger stops(*map, q)] #![trigger dir_stops(q, $0, e)] stops::<Input, Output, Error, _>(*map, q) ==> dir_stops(q, $0, e)
//@   spec requires forall|x: Input| #[trigger] map.requires((x,)) ensures match r {
//@   |  Ok(b) => forall|p: spec_fn(Input, Output) -> bool| #![trigger obeys(*map, p)] #![trigger field_put(p, self, b)] obeys::<Input, Output, Error, _>(*map, p) ==> field_put(p, self, b),
//@   |  Err(e) => forall|q: spec_fn(Input, Error) -> bool| #![trigger stops(*map, q)] #![trigger field_stops(q, self, e)] stops::<Input, Output, Error, _>(*map, q) ==> field_stops(q, self, e) }
}
// what an optional value stands for
pub open spec fn stands(v: Variables<Output>, a: Option<Input>, b: Option<Output>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => const_of(x, v) == Some(y), _ => false } }
// an argument is given to its resolver as what it, or its default, stands for, with what is left out of that filled in
pub open spec fn arg_given(ix: Index, v: Variables<Output>, a: Arg<Input>, b: Arg<Output>) -> bool {
    b.name == a.name && b.type_of == a.type_of && exists|x: Option<Output>, d: Option<Output>| #[trigger] stands(v, a.value, x) && #[trigger] stands(v, a.default_value, d) && value_is(ix, a.type_of, d, x, b.value)
}
// of a field, and of all fields in it; nothing else of them is changed (but the requests of its resolver, by the variables in their selections)
pub open spec fn given(ix: Index, v: Variables<Output>, f: Field<Input>, g: Field<Output>) -> bool decreases f {
    &&& g.id == f.id && g.name == f.name && g.output_name == f.output_name && (g.ir is Some <==> f.ir is Some) && g.type_of == f.type_of && g.type_condition == f.type_condition && g.alternatives == f.alternatives && g.pos == f.pos && g.is_enum == f.is_enum && g.scalar == f.scalar
    &&& f.args@.len() == g.args@.len() && forall|i: int| #![trigger f.args@[i]] #![trigger g.args@[i]] 0 <= i < f.args@.len() ==> arg_given(ix, v, f.args@[i], g.args@[i])
    &&& f.selection@.len() == g.selection@.len() && forall|i: int| #![trigger f.selection@[i]] #![trigger g.selection@[i]] 0 <= i < f.selection@.len() ==> given(ix, v, f.selection@[i], g.selection@[i])
}
// only the resolvers' requests are different
pub open spec fn only_ir(f: Field<Output>, g: Field<Output>) -> bool decreases f {
    &&& g == Field { ir: g.ir, selection: g.selection, ..f } && (g.ir is Some <==> f.ir is Some)
    &&& f.selection@.len() == g.selection@.len() && forall|i: int| #![trigger f.selection@[i]] #![trigger g.selection@[i]] 0 <= i < f.selection@.len() ==> only_ir(f.selection@[i], g.selection@[i])
}
// what stands for what, with these variables, and what doesn't stand for anything as one of them isn't set
pub open spec fn by(v: Variables<Output>) -> spec_fn(Input, Output) -> bool { |x: Input, o: Output| const_of(x, v) == Some(o) }
pub open spec fn unset(v: Variables<Output>) -> spec_fn(Input, ResolveInputError) -> bool { |x: Input, e: ResolveInputError| const_of(x, v) is None && e is VariableIsNotFound }
pub broadcast proof fn lemma_given(ix: Index, v: Variables<Output>, f: Field<Input>, a: Field<Output>, b: Field<Output>, c: Field<Output>)
    requires #[trigger] field_put(by(v), f, a), #[trigger] field_ready(ix, a, b), #[trigger] only_ir(b, c) ensures given(ix, v, f, c) decreases f
{
    assert forall|i: int| #![trigger f.args@[i]] #![trigger c.args@[i]] 0 <= i < f.args@.len() implies arg_given(ix, v, f.args@[i], c.args@[i]) by {
        let x = f.args@[i]; let y = a.args@[i]; let z = b.args@[i];
        assert(arg_put(by(v), x, y)); assert(arg_done(ix, y, z));
        assert(stands(v, x.value, y.value)); assert(stands(v, x.default_value, y.default_value));
    }
    assert forall|i: int| #![trigger f.selection@[i]] #![trigger c.selection@[i]] 0 <= i < f.selection@.len() implies given(ix, v, f.selection@[i], c.selection@[i]) by {
        lemma_given(ix, v, f.selection@[i], a.selection@[i], b.selection@[i], c.selection@[i]);
    }
}
// why a field's values aren't taken: a variable isn't set, or something that is required is missing
pub open spec fn missing(ix: Index, v: Variables<Output>, f: Field<Input>, e: ResolveInputError) -> bool { field_stops(unset(v), f, e) || (e is ArgumentIsRequired && exists|a: Field<Output>| #[trigger] field_put(by(v), f, a) && field_lacks(ix, a)) }
pub open spec fn ready(ix: Index, v: Variables<Output>, f: Field<Input>, b: Field<Output>) -> bool { exists|a: Field<Output>| #[trigger] field_put(by(v), f, a) && field_ready(ix, a, b) }
pub open spec fn is_field(d: InputObjectTypeDefinition, n: Seq<char>) -> bool { exists|i: int| 0 <= i < d.fields@.len() && (#[trigger] d.fields@[i]).name@ == n }
// r is g with all that is left out in it filled in, at every depth, and g has all that is required
pub open spec fn fills(ix: Index, t: Type, g: Output, r: Output) -> bool decreases r {
    match g {
        Output::List(a) => match item(ix, t) {
            Some(it) => match r { Output::List(b) => a@.len() == b@.len() && forall|i: int| #![trigger a@[i]] #![trigger b@[i]] 0 <= i < b@.len() ==> !refused(it, None, Some(a@[i])) && fills(ix, it, a@[i], b@[i]), _ => false },
            None => r == g,
        },
        Output::Obj(o) => match ix.input(name_of(t)) {
            Some(d) => match r {
                Output::Obj(p) => {
                    &&& forall|i: int| #![trigger d.fields@[i]] 0 <= i < d.fields@.len() ==> { let f = d.fields@[i]; let v = got(o, f.name@); !refused(f.of_type, dflt(f), v) && match start(dflt(f), v) { Some(x) => entry(p, at(p, f.name@), f.name@) && fills(ix, f.of_type, x, p.entries@[at(p, f.name@)].1), None => !holds(p, f.name@) } }
                    &&& forall|n: Seq<char>| !is_field(d, n) ==> #[trigger] got(p, n) == got(o, n)
                },
                _ => false,
            },
            None => r == g,
        },
        _ => r == g,
    }
}
// what an argument of that type is given to its resolver as
pub open spec fn value_is(ix: Index, t: Type, d: Option<Output>, v: Option<Output>, r: Option<Output>) -> bool {
    !refused(t, d, v) && match (start(d, v), r) { (Some(g), Some(x)) => fills(ix, t, g, x), (None, None) => true, _ => false }
}
// something that is required is missing (n deep)
pub open spec fn lacks(ix: Index, t: Type, d: Option<Output>, v: Option<Output>, n: nat) -> bool decreases n {
    refused(t, d, v) || (n > 0 && match start(d, v) {
        Some(Output::List(a)) => match item(ix, t) { Some(it) => exists|i: int| 0 <= i < a@.len() && lacks(ix, it, None, Some(#[trigger] a@[i]), (n - 1) as nat), None => false },
        Some(Output::Obj(o)) => match ix.input(name_of(t)) { Some(e) => exists|i: int| 0 <= i < e.fields@.len() && lacks(ix, (#[trigger] e.fields@[i]).of_type, dflt(e.fields@[i]), got(o, e.fields@[i].name@), (n - 1) as nat), None => false },
        _ => false,
    })
}
pub open spec fn lacking(ix: Index, t: Type, d: Option<Output>, v: Option<Output>) -> bool { exists|n: nat| lacks(ix, t, d, v, n) }
pub proof fn lemma_lacks_item(ix: Index, t: Type, d: Option<Output>, v: Option<Output>, i: int)
    requires start(d, v) matches Some(Output::List(a)) && item(ix, t) is Some && 0 <= i < a@.len() && lacking(ix, item(ix, t)->0, None, Some(a@[i]))
    ensures lacking(ix, t, d, v)
{ let a = (start(d, v)->0)->List_0; let n = choose|n: nat| lacks(ix, item(ix, t)->0, None, Some(a@[i]), n); assert(lacks(ix, item(ix, t)->0, None, Some(a@[i]), (n + 1 - 1) as nat)); assert(lacks(ix, t, d, v, n + 1)); }
pub proof fn lemma_lacks_field(ix: Index, t: Type, d: Option<Output>, v: Option<Output>, i: int)
    requires start(d, v) matches Some(Output::Obj(o)) && (ix.input(name_of(t)) matches Some(e) && 0 <= i < e.fields@.len() && lacking(ix, e.fields@[i].of_type, dflt(e.fields@[i]), got(o, e.fields@[i].name@)))
    ensures lacking(ix, t, d, v)
{ let o = (start(d, v)->0)->Obj_0; let e = ix.input(name_of(t))->0; let n = choose|n: nat| lacks(ix, e.fields@[i].of_type, dflt(e.fields@[i]), got(o, e.fields@[i].name@), n); assert(lacks(ix, e.fields@[i].of_type, dflt(e.fields@[i]), got(o, e.fields@[i].name@), (n + 1 - 1) as nat)); assert(lacks(ix, t, d, v, n + 1)); }
// what field i of an input type is after filling
pub open spec fn field_done(ix: Index, f: InputFieldDefinition, o: Obj, p: Obj) -> bool { value_is(ix, f.of_type, dflt(f), got(o, f.name@), got(p, f.name@)) }
//@ rewrite /InputResolver<Input>/ => InputResolver
pub struct InputResolver { pub plan: OperationPlan<Input> }
impl InputResolver {
//@ fn src/core/jit/transform/input_resolver.rs :: impl<Input, Output> InputResolver<Input> where Input: Clone + std::fmt::Debug, Output: Clone + JsonLikeOwned + TryFrom<serde_json::Value> + std::fmt::Debug + Display, Input: InputResolvable<Output = Output>, <Output as TryFrom<serde_json::Value>>::Error: std::fmt::Debug, :: fn recursive_parse_arg
//@   attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@   opt /\b(\w+)\.as_ref\(\)\)/ => &**\1)
//@   opt /format!\([^;]*\);/ => text_();
//@   opt /\b(arg_name|parent_name|i)\.to_string\(\)/ => text_()
//@   opt /for \(i, item\) in arr\.iter_mut\(\)\.enumerate\(\) \{/ => let mut i_: usize = 0; while i_ < arr.len() { let i = i_; let item = &mut arr[i];
//@   opt /\b(obj\.get_key\(&arg_field\.name\))\.cloned\(\)/ => copy_(\1)
//@   opt /\bdefault_value\.clone\(\);/ => clone_(default_value);
//@   opt /\bdefault_value\.clone\(\)\n/ => clone_(default_value)
//@   closure /is_null/ |$0: &Output| -> (b: bool) ensures b == (*$0 is Null)
//@   closure /try_from/ |$0: SchemaValue| -> (o: Output) ensures o == read($0)
//@   closure /^type_of$/ |d_: &InputObjectTypeDefinition| -> (o: &Type) ensures *o == *type_of
//@   start let ghost v0 = value; let ghost g0 = start(*default_value, value)->0; proof { if refused(*type_of, *default_value, value) { assert(lacks(*index, *type_of, *default_value, value, 0)); } }
//@   loop 1 invariant i_ <= arr@.len(), arr@.len() == a0.len(), forall|k: int| i_ <= k < a0.len() ==> arr@[k] == #[trigger] a0[k], forall|k: int| #![trigger a0[k]] #![trigger arr@[k]] 0 <= k < i_ ==> !refused(*item_type, None, Some(a0[k])) && fills(*index, *item_type, a0[k], arr@[k]) decreases a0.len() - i_
//@   loopstart 1 proof { if lacking(*index, *item_type, None, Some(a0[i_ as int])) { lemma_lacks_item(*index, *type_of, *default_value, v0, i_ as int); } }
//@   loopend 1 i_ += 1;
//@   before 1 let ghost a0 = arr@;
//@   before 2 let ghost o0 = *obj; let ghost flds = def.fields@;
//@   loop 2 it=it_ invariant it_.seq() == flds.map_values(|f: InputFieldDefinition| &f), forall|k: int| 0 <= k < it_.index() ==> field_done(*index, #[trigger] flds[k], o0, *obj), forall|n: Seq<char>| (forall|k: int| 0 <= k < it_.index() ==> (#[trigger] flds[k]).name@ != n) ==> #[trigger] got(*obj, n) == got(o0, n)
//@   loopstart 2 proof { let k = it_.index() as int; let f = flds[k]; assert(*arg_field == f); if lacking(*index, f.of_type, dflt(f), got(o0, f.name@)) { lemma_lacks_field(*index, *type_of, *default_value, v0, k); } }
//@   tail proof { assert(fills(*index, *type_of, g0, value)); }
//@   spec requires wf(*index) ensures match r { Ok(x) => value_is(*index, *type_of, *default_value, value, x), Err(e) => e is ArgumentIsRequired && lacking(*index, *type_of, *default_value, value) }
//@ fn src/core/jit/transform/input_resolver.rs :: impl<Input, Output> InputResolver<Input> where Input: Clone + std::fmt::Debug, Output: Clone + JsonLikeOwned + TryFrom<serde_json::Value> + std::fmt::Debug + Display, Input: InputResolvable<Output = Output>, <Output as TryFrom<serde_json::Value>>::Error: std::fmt::Debug, :: fn resolve_field
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   opt /\.into_iter\(\)/ => .into_it_()
//@   opt /\.collect::<Result<[^?]*>>\(\)/ => .all_()
//@   closure /recursive_parse_arg/ |$0: Arg<Output>| -> (o: Result<Arg<Output>, ResolveInputError>) ensures match o { Ok(b) => arg_done(*index, $0, b), Err(e) => e is ArgumentIsRequired && lacking(*index, $0.type_of, $0.default_value, $0.value) }
//@   closure /resolve_field/ |$0: Field<Output>| -> (o: Result<Field<Output>, ResolveInputError>) ensures match o { Ok(b) => field_ready(*index, $0, b), Err(e) => e is ArgumentIsRequired && field_lacks(*index, $0) }
//@   spec requires wf(*index) ensures match r { Ok(b) => field_ready(*index, field, b), Err(e) => e is ArgumentIsRequired && field_lacks(*index, field) }
//@ fn src/core/jit/transform/input_resolver.rs :: impl<Input, Output> InputResolver<Input> where Input: Clone + std::fmt::Debug, Output: Clone + JsonLikeOwned + TryFrom<serde_json::Value> + std::fmt::Debug + Display, Input: InputResolvable<Output = Output>, <Output as TryFrom<serde_json::Value>>::Error: std::fmt::Debug, :: fn resolve_graphql_selection_set
//@   attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@   sub /base_field: &mut \[Field<Output>\]/ => base_field: &mut Vec<Field<Output>>
//@   opt /\bir\.modify_io\(&mut \|io\| \{.*?\n\s*\}\);/ => ir.modify_(&());
//@   opt /for field in base_field\.iter_mut\(\) \{/ => let mut i_: usize = 0; while i_ < base_field.len() { let field = &mut base_field[i_];
//@   opt /field\.selection\.as_mut\(\)/ => &mut field.selection
//@   before 1 let ghost s0 = base_field@;
//@   loop 1 invariant i_ <= base_field@.len(), base_field@.len() == s0.len(), forall|k: int| i_ <= k < s0.len() ==> base_field@[k] == #[trigger] s0[k], forall|k: int| #![trigger s0[k]] #![trigger base_field@[k]] 0 <= k < i_ ==> only_ir(s0[k], base_field@[k]) decreases s0.len() - i_
//@   loopend 1 i_ += 1;
//@   spec ensures old(base_field)@.len() == final(base_field)@.len(), forall|i: int| #![trigger old(base_field)@[i]] #![trigger final(base_field)@[i]] 0 <= i < old(base_field)@.len() ==> only_ir(old(base_field)@[i], final(base_field)@[i])
}
//@ item src/core/jit/context.rs :: struct Context
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /indexmap::IndexMap/ => IndexMap
// the values of the arguments that have one, by name
pub open spec fn held(a: Seq<Arg<Output>>) -> Map<Seq<char>, Output> decreases a.len() { if a.len() == 0 { Map::empty() } else { let m = held(a.drop_last()); match a.last().value { Some(v) => m.insert(a.last().name@, v), None => m } } }
// what a resolver sees as the arguments of its field: of all that have a value, and only of these
pub open spec fn sees(c: Option<IndexMap<Name, Output>>, f: Field<Output>) -> bool { c matches Some(m) && m.held() == held(f.args@) }
pub proof fn lemma_held(a: Seq<Arg<Output>>, n: Seq<char>) ensures held(a).contains_key(n) == exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).name@ == n && a[i].value is Some decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last(); lemma_held(b, n);
        if exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).name@ == n && b[i].value is Some { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).name@ == n && b[i].value is Some; assert(a[i] == b[i]); }
        if exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).name@ == n && a[i].value is Some { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).name@ == n && a[i].value is Some; if i < a.len() - 1 { assert(b[i] == a[i]); } }
        if a.last().name@ == n && a.last().value is Some { assert(a[a.len() - 1].name@ == n); }
    }
}
// a field of an input object that isn't nullable is there after filling, and only null if the schema's default is
pub proof fn lemma_complete(ix: Index, t: Type, g: Output, r: Output, i: int)
    requires fills(ix, t, g, r), g is Obj, ix.input(name_of(t)) matches Some(d) && 0 <= i < d.fields@.len() && !opt(d.fields@[i].of_type)
    ensures ({ let f = ix.input(name_of(t))->0.fields@[i]; r is Obj && holds(r->Obj_0, f.name@) && (got(r->Obj_0, f.name@) == Some(Output::Null) ==> got(g->Obj_0, f.name@) is None && dflt(f) == Some(Output::Null)) })
{ let d = ix.input(name_of(t))->0; let f = d.fields@[i]; let p = r->Obj_0; let x = start(dflt(f), got(g->Obj_0, f.name@))->0; assert(entry(p, at(p, f.name@), f.name@)); assert(fills(ix, f.of_type, x, p.entries@[at(p, f.name@)].1)); }
// what is given is kept: a value that is nothing of the kind of an input object or a list is as given
pub proof fn lemma_kept(ix: Index, t: Type, d: Option<Output>, v: Output, r: Option<Output>) requires value_is(ix, t, d, Some(v), r), v is Null || v is Leaf || (item(ix, t) is None && ix.input(name_of(t)) is None) ensures r == Some(v) { }
impl<'a, Out_> Context<'a, Output, Out_> {
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn build_args
//@   sub /Field<Input>/ => Field<Output>
//@   sub /IndexMap<Name, Input>/ => IndexMap<Name, Output>
//@   opt /field\.args\.iter\(\)/ => field.args.it_()
//@   opt /\barg\.value\.clone\(\)/ => clone_(&arg.value)
//@   loop 1 it=it_ invariant refs(it_.seq()) == field.args@, arg_map.held() == held(field.args@.take(it_.index() as int))
//@   loopend 1 proof { let n = it_.index() as int; assert(field.args@.take(n + 1).drop_last() =~= field.args@.take(n)); assert(refs(it_.seq())[n] == *arg); }
//@   tail proof { assert(field.args@.take(field.args@.len() as int) =~= field.args@); }
//@   spec ensures sees(r, *field)
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn new
//@   sub /Field<Input>/ => Field<Output>
//@   sub /RequestContext<Input>/ => RequestContext<'a, Output>
//@   spec ensures sees(r.args, *field), r.field == field, r.value is None
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn with_value
//@   sub /&'a Output\b/ => &'a Out_
//@   spec ensures sees(r.args, *self.field), r.field == self.field, r.value == Some(value)
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn with_value_and_field
//@   sub /&'a Output\b/ => &'a Out_
//@   sub /Field<Input>/ => Field<Output>
//@   spec ensures sees(r.args, *field), r.field == field, r.value == Some(value)
//@ fn src/core/jit/context.rs :: impl ResolverContextLike for Context<'_, ConstValue, ConstValue> :: fn args
//@   opt /indexmap::IndexMap/ => IndexMap
//@   opt /ConstValue/ => Output
//@   spec ensures match r { Some(m) => self.args == Some(*m), None => self.args is None }
}
} // verus!
pub mod m_resolve {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use {axiom_string_ext, lemma_given};
impl InputResolver {
//@ fn src/core/jit/transform/input_resolver.rs :: impl<Input, Output> InputResolver<Input> where Input: Clone + std::fmt::Debug, Output: Clone + JsonLikeOwned + TryFrom<serde_json::Value> + std::fmt::Debug + Display, Input: InputResolvable<Output = Output>, <Output as TryFrom<serde_json::Value>>::Error: std::fmt::Debug, :: fn resolve_input
//@   closure /^value \. resolve/ |$0: Input| -> (o: Result<Output, ResolveInputError>) ensures match o { Ok(x) => const_of($0, *variables) == Some(x), Err(e) => unset(*variables)($0, e) }
//@   closure /^field \. try_map/ |$0: Field<Input>| -> (o: Result<Field<Output>, ResolveInputError>) ensures match o { Ok(b) => field_put(by(*variables), $0, b), Err(e) => field_stops(unset(*variables), $0, e) }
//@   closure /resolve_field/ |$0: Result<Field<Output>, ResolveInputError>| -> (o: Result<Field<Output>, ResolveInputError>) ensures match o { Ok(b) => $0 is Ok && field_ready(*index, $0->Ok_0, b), Err(e) => match $0 { Ok(f) => e is ArgumentIsRequired && field_lacks(*index, f), Err(g) => g == e } }
//@   opt /\.into_iter\(\)/ => .into_it_()
//@   opt /\.collect::<Result<[^?]*>>\(\)/ => .all_()
//@   opt /self\.plan\.root_name\.to_string\(\)/ => own_(&self.plan.root_name)
//@   spec requires wf(*self.plan.index) ensures match r {
//@   |  Ok(p) => p == OperationPlan { root_name: p.root_name, selection: p.selection, interfaces: p.interfaces, before: self.plan.before, default_variables: self.plan.default_variables, operation_type: self.plan.operation_type, index: self.plan.index, is_introspection_query: self.plan.is_introspection_query, is_dedupe: self.plan.is_dedupe, is_const: self.plan.is_const, is_protected: self.plan.is_protected, min_cache_ttl: self.plan.min_cache_ttl }
//@   |    && p.root_name@ == self.plan.root_name@ && p.selection@.len() == self.plan.selection@.len()
//@   |    && forall|i: int| #![trigger self.plan.selection@[i]] #![trigger p.selection@[i]] 0 <= i < p.selection@.len() ==> given(*self.plan.index, *variables, self.plan.selection@[i], p.selection@[i]),
//@   |  Err(e) => exists|i: int| 0 <= i < self.plan.selection@.len() && missing(*self.plan.index, *variables, #[trigger] self.plan.selection@[i], e) }
}
} // verus!
}
fn main() {}
