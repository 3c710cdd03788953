#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/outcome.rs
verus! {
broadcast use axiom_string_ext;
// ---- async-graphql's syntax tree
#[verifier::external_body] pub struct Name { _k: u8 }
impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn name_of(s: Seq<char>) -> Name;
impl Name {
    #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r@ == s@, r == name_of(s@) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn eq_(&self, s: &String) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
}
pub struct Positioned<T> { pub node: T }
pub fn pos<T>(t: T) -> (r: Positioned<T>) ensures r.node == t { Positioned { node: t } }
pub struct ConstDirective { pub name: Positioned<Name>, pub arguments: Vec<(Positioned<Name>, Positioned<ConstValue>)> }
#[verifier::external_body] pub struct ConstValue { _k: u8 }
// ---- serde_json: a value as JSON and back; what it is and what is wrong with it depends on the value alone
#[verifier::external_body] pub struct Map { _k: u8 }
impl View for Map { type V = vstd::map::Map<Seq<char>, Value>; uninterp spec fn view(&self) -> vstd::map::Map<Seq<char>, Value>; }
pub uninterp spec fn map_of(m: vstd::map::Map<Seq<char>, Value>) -> Map;
pub broadcast axiom fn axiom_map(m: Map) ensures #[trigger] map_of(m@) == m;
pub enum Value { Null, Bool(bool), Number(int), String(String), Array(Vec<Value>), Object(Map) }
pub open spec fn once(s: Seq<(Seq<char>, Value)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn put(s: Seq<(Seq<char>, Value)>) -> vstd::map::Map<Seq<char>, Value> decreases s.len() { if s.len() == 0 { vstd::map::Map::empty() } else { put(s.drop_last()).insert(s.last().0, s.last().1) } }
pub open spec fn texts(v: Seq<(String, Value)>) -> Seq<(Seq<char>, Value)> { v.map_values(|p: (String, Value)| (p.0@, p.1)) }
pub open spec fn seen(v: Seq<(&String, &Value)>) -> Seq<(Seq<char>, Value)> { v.map_values(|p: (&String, &Value)| (p.0@, *p.1)) }
impl Map {
    // its members in the order it shows them
    pub uninterp spec fn shown(&self) -> Seq<(Seq<char>, Value)>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == vstd::map::Map::<Seq<char>, Value>::empty(), r.shown() == Seq::<(Seq<char>, Value)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn iter_vec_(&self) -> (r: Vec<(&String, &Value)>) ensures seen(r@) == self.shown(), once(self.shown()), put(self.shown()) == self@ { unimplemented!() }
}
impl Value {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub fn as_object(&self) -> (r: Option<&Map>) ensures match *self { Value::Object(m) => r == Some(&m), _ => r is None } { match self { Value::Object(m) => Some(m), _ => None } }
}
#[verifier::external_body] #[derive(Debug)] pub struct JsonError { _k: u8 }
impl JsonError { pub uninterp spec fn t(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() } }
pub trait Ser { spec fn ser(&self) -> Result<Value, Seq<char>>; }
pub trait De: Sized { spec fn de(v: Value) -> Result<Self, Seq<char>>; }
impl Ser for ConstValue { uninterp spec fn ser(&self) -> Result<Value, Seq<char>>; }
impl De for ConstValue { uninterp spec fn de(v: Value) -> Result<Self, Seq<char>>; }
pub open spec fn told<A>(r: Result<A, JsonError>, o: Result<A, Seq<char>>) -> bool { match r { Ok(a) => o == Ok::<A, Seq<char>>(a), Err(e) => o == Err::<A, Seq<char>>(e.t()) } }
impl ConstValue { #[verifier::external_body] pub fn into_json(self) -> (r: Result<Value, JsonError>) ensures told(r, self.ser()) { unimplemented!() } }
pub mod serde_json { use vstd::prelude::*; use super::*; verus! {
#[verifier::external_body] pub fn to_value<T: Ser>(t: &T) -> (r: Result<Value, JsonError>) ensures told(r, t.ser()) { unimplemented!() }
#[verifier::external_body] pub fn from_value<T: De>(v: Value) -> (r: Result<T, JsonError>) ensures told(r, T::de(v)) { unimplemented!() }
} }
// a setting's type: its name in Rust, its reading with the causes a report gives
pub trait Setting: Sized + Ser {
    spec fn rust_name() -> Seq<char>;
    spec fn read(v: Value) -> Out<Self, String>;
}
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct PathError<A> { _k: core::marker::PhantomData<A> }
impl<A> PathError<A> { pub uninterp spec fn says(&self) -> Seq<Cause<String>>; }
#[verifier::external_body] pub fn deserialize<A: Setting>(v: Value) -> (r: Result<A, PathError<A>>) ensures match r { Ok(a) => A::read(v) == Out::<A, String>::Good(a), Err(e) => A::read(v) == Out::<A, String>::Bad(e.says()) } { unimplemented!() }
#[verifier::external_body] pub fn of_path_<A>(e: PathError<A>) -> (r: ValidationError<String>) ensures r.causes() == e.says() { unimplemented!() }
// ---- texts
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn to_lowercase_(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
pub open spec fn u8len(c: char) -> nat { if c as u32 <= 0x7f { 1 } else if c as u32 <= 0x7ff { 2 } else if c as u32 <= 0xffff { 3 } else { 4 } }
pub open spec fn bytes(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { u8len(s[0]) + bytes(s.skip(1)) } }
#[verifier::external_body] pub fn len_(s: &str) -> (r: usize) ensures r == bytes(s@) { unimplemented!() }
#[verifier::external_body] pub fn first_char_(s: &str) -> (r: Option<char>) ensures r == (if s@.len() == 0 { None::<char> } else { Some(s@[0]) }) { unimplemented!() }
#[verifier::external_body] pub fn len_utf8_(c: char) -> (r: usize) ensures r == u8len(c) { unimplemented!() }
#[verifier::external_body] pub fn char_lower_(c: char) -> (r: String) ensures r@ == lower(seq![c]) { unimplemented!() }
// &s[n..]: n must lie between two characters
#[verifier::external_body] pub fn from_<'a>(s: &'a str, n: usize) -> (r: &'a str) requires exists|k: int| 0 <= k <= s@.len() && #[trigger] bytes(s@.take(k)) == n ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] bytes(s@.take(k)) == n ==> r@ == s@.skip(k) { unimplemented!() }
#[verifier::external_body] pub fn cat_(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
// what stands behind the last `::`
pub uninterp spec fn own_part(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn type_name_<A: Setting>() -> (r: &'static str) ensures r@ == A::rust_name() { unimplemented!() }
#[verifier::external_body] pub fn last_part_<'a>(s: &'a str) -> (r: &'a str) ensures r@ == own_part(s@) { unimplemented!() }
pub trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for Name { open spec fn text(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn at_<T: Text>(t: &T) -> (r: String) ensures r@ == at(t.text()) { unimplemented!() }
#[verifier::external_body] pub fn iter_vec_<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
pub trait Many<T>: Sized { spec fn rest(&self) -> Seq<T>; fn all_(self) -> (r: Vec<T>) ensures r@ == self.rest(); }

// ---- what the property says
pub open spec fn at(s: Seq<char>) -> Seq<char> { seq!['@'] + s }
pub open spec fn lowered(s: Seq<char>) -> Seq<char> { if bytes(s) <= 2 { lower(s) } else { lower(seq![s[0]]) + s.skip(1) } }
type Arg = (Positioned<Name>, Positioned<ConstValue>);
pub open spec fn arg(n: Seq<char>, a: Arg) -> Out<(String, Value), String> { match a.1.node.ser() { Ok(j) => Out::Good((string_of(a.0.node@), j)), Err(e) => Out::Bad(traced(seq![cause(string_of(e))], at(n))) } }
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn axiom_string_of(s: String) ensures #[trigger] string_of(s@) == s;
pub broadcast axiom fn axiom_of_string(s: Seq<char>) ensures #[trigger] string_of(s)@ == s;
pub open spec fn args(d: ConstDirective) -> Seq<Out<(String, Value), String>> { d.arguments@.map_values(|a: Arg| arg(d.name.node@, a)) }
// reading a directive: every argument that is no JSON is told, else what the type's own reading tells
pub open spec fn read<A: Setting>(d: ConstDirective) -> Out<A, String> {
    let s = args(d);
    if no_bad(s) { match A::read(Value::Object(map_of(put(texts(values(s)))))) { Out::Good(a) => Out::Good(a), Out::Bad(c) => Out::Bad(traced(c, at(d.name.node@))) } } else { Out::Bad(bads(s)) }
}
pub open spec fn first_named<A: Setting>(ds: Seq<&Positioned<ConstDirective>>, n: Seq<char>) -> Out<Option<A>, String> decreases ds.len() {
    if ds.len() == 0 { Out::Good(None) } else if ds[0].node.name.node@ == n { match read::<A>(ds[0].node) { Out::Good(a) => Out::Good(Some(a)), Out::Bad(c) => Out::Bad(c) } } else { first_named(ds.skip(1), n) }
}
// the members of a setting, each as an argument
pub open spec fn members<A: Ser>(a: A) -> Seq<(Seq<char>, Value)> { match a.ser() { Ok(Value::Object(m)) => m.shown(), _ => Seq::empty() } }
pub open spec fn writable<A: Ser>(a: A) -> bool { a.ser() is Ok && forall|v: Value| (#[trigger] <ConstValue as De>::de(v)) is Ok }
pub open spec fn wrote<A: Ser>(a: A, n: Seq<char>, d: ConstDirective) -> bool {
    d.name.node@ == n && wrote_args(members(a), members(a).len() as int, d.arguments@)
}
pub open spec fn wrote_args(m: Seq<(Seq<char>, Value)>, n: int, s: Seq<Arg>) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0.node@ == m[i].0 && <ConstValue as De>::de(m[i].1) == Ok::<ConstValue, Seq<char>>(s[i].1.node) }

//@ rewrite /format!\("@\{\}", ([\w.:()]+)\)/ => at_(&\1)
//@ rewrite /\bpos\b(?=\))/ => |x_| pos(x_)
//@ fn src/core/directive.rs :: fn lower_case_first_letter
//@   opt /s\.len\(\)/ => len_(s)
//@   opt /s\.to_lowercase\(\)/ => to_lowercase_(s)
//@   opt /s\.chars\(\)\.next\(\)/ => first_char_(s)
//@   opt /first_char\.to_string\(\)\.to_lowercase\(\) \+ &s\[(.*?)\.\.\]/ => cat_(char_lower_(first_char), from_(s, \1))
//@   opt /first_char\.len_utf8\(\)/ => len_utf8_(first_char)
//@   start proof { assert(s@.len() > 0 ==> s@.take(1).skip(1) =~= Seq::<char>::empty() && bytes(s@.take(1)) == u8len(s@[0]) + bytes(s@.take(1).skip(1))); assert(bytes(Seq::<char>::empty()) == 0); }
//@   spec ensures r@ == lowered(s@)

pub trait DirectiveCodec: Setting {
    spec fn name_() -> Seq<char>;
    fn directive_name() -> (r: String) ensures r@ == Self::name_();
    fn from_directive(directive: &ConstDirective) -> (r: Valid<Self, String>) ensures r.out() == read::<Self>(*directive);
    fn to_directive(&self) -> (r: ConstDirective) requires writable(*self) ensures wrote(*self, Self::name_(), r);
//@ fn src/core/directive.rs :: trait DirectiveCodec :: fn trace_name vis=none
//@   spec ensures r@ == at(Self::name_())
//@ fn src/core/directive.rs :: trait DirectiveCodec :: fn from_directives vis=none
//@   sub /impl Iterator<Item = &'a Positioned<ConstDirective>>/ => impl Many<&'a Positioned<ConstDirective>>
//@   opt /in directives \{/ => in directives.all_() {
//@   opt /if ([\w.]+) == (Self::directive_name\(\)) \{/ => if \1.eq_(&\2) {
//@   opt /\.map\(Some\)/ => .map(|x_| Some(x_))
//@   closure 1 |$0: Self| -> (q: Option<Self>) ensures q == Some($0)
//@   start let ghost all = directives.rest(); proof { assert(all.skip(0) =~= all); }
//@   loop 1 it=it invariant it.seq() == all, first_named::<Self>(all, Self::name_()) == first_named::<Self>(all.skip(it.index() as int), Self::name_()),
//@   loopstart 1 proof { let n = it.index() as int; assert(all.skip(n)[0] == all[n]); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); }
//@   spec ensures r.out() == first_named::<Self>(directives.rest(), Self::name_())
}
pub broadcast proof fn lemma_args(s: Seq<Out<(String, Value), String>>, r: Out<Vec<(String, Value)>, String>, d: ConstDirective)
    requires #[trigger] gathered(s, r), s.len() == d.arguments@.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == arg(d.name.node@, d.arguments@[i])
    ensures s == #[trigger] args(d)
{ assert(s =~= args(d)); }
impl<A: Setting> DirectiveCodec for A {
    open spec fn name_() -> Seq<char> { lowered(own_part(A::rust_name())) }
//@ fn src/core/directive.rs :: impl<'a, A: Deserialize<'a> + Serialize + 'a> DirectiveCodec for A :: fn directive_name vis=none
//@   opt /std::any::type_name::<A>\(\)\s*\.split\("::"\)\s*\.last\(\)\s*\.unwrap_or_default\(\)/ => last_part_(type_name_::<A>())
//@ fn src/core/directive.rs :: impl<'a, A: Deserialize<'a> + Serialize + 'a> DirectiveCodec for A :: fn from_directive vis=none
//@   opt /Valid::from_iter\(directive\.arguments\.iter\(\), \|\(k, v\)\| \{/ => Valid::from_iter_(iter_vec_(&directive.arguments), |kv_| { let (k, v) = kv_;
//@   opt /items\.iter\(\)\.fold\(Map::new\(\), \|mut map, \(k, v\)\| \{(.*?)map\s*\}\)/ => let mut map = Map::new(); for kv_ in &items { let (k, v) = kv_; \1 } map
//@   opt /ValidationError::from\(e\)/ => of_path_(e)
//@   start broadcast use axiom_map, axiom_string_of, lemma_args;
//@   closure 1 |$0: &Arg| -> (q: Valid<(String, Value), String>) ensures q.out() == arg(directive.name.node@, *$0)
//@   closure 2 |$0: JsonError| -> (q: ValidationError<String>) ensures q.causes() == traced(seq![cause(string_of($0.t()))], at(directive.name.node@))
//@   closure 3 |$0: Value| -> (q: (String, Value)) ensures q == (string_of(k.node@), $0)
//@   closure 4 |$0: Vec<(String, Value)>| -> (q: Map) ensures q@ == put(texts($0@))
//@   closure 5 |$0: Map| -> (q: Valid<A, String>) ensures q.out() == (match A::read(Value::Object($0)) { Out::Good(a) => Out::Good(a), Out::Bad(c) => Out::<A, String>::Bad(traced(c, at(directive.name.node@))) })
//@   loop 1 it=it invariant it.seq().map_values(|x: &(String, Value)| *x) =~= items@, map@ == put(texts(items@).take(it.index() as int)),
//@   loopstart 1 proof { let n = it.index() as int; assert(items@[n] == *it.seq()[n]); assert(texts(items@).take(n + 1).drop_last() =~= texts(items@).take(n)); }
//@   after 1 proof { assert(texts(items@).take(items@.len() as int) =~= texts(items@)); }
//@ fn src/core/directive.rs :: impl<'a, A: Deserialize<'a> + Serialize + 'a> DirectiveCodec for A :: fn to_directive vis=none
//@   opt /for \((\w+), (\w+)\) in (\w+) \{/ => for kv_ in \3.iter_vec_() { let (\1, \2) = kv_;
//@   start broadcast use axiom_map;
//@   loop 1 it=it invariant writable(*self), seen(it.seq()) == members(*self), wrote_args(members(*self), it.index() as int, arguments@),
//@   loopstart 1 proof { assert(seen(it.seq())[it.index() as int] == members(*self)[it.index() as int]); }
}

// ---- what is written is read again
pub proof fn lemma_put(a: Seq<(Seq<char>, Value)>, b: Seq<(Seq<char>, Value)>) requires a =~= b ensures put(a) == put(b) {}
// a setting whose JSON form is an object, reads back from it, and consists of values that survive GraphQL's notation
pub open spec fn faithful<A: Setting>(a: A) -> bool {
    writable(a) && (a.ser()->Ok_0) is Object && A::read(a.ser()->Ok_0) == Out::<A, String>::Good(a)
        && forall|i: int| 0 <= i < members(a).len() ==> (#[trigger] <ConstValue as De>::de(members(a)[i].1)) is Ok && <ConstValue as De>::de(members(a)[i].1)->Ok_0.ser() == Ok::<Value, Seq<char>>(members(a)[i].1)
}
pub fn there_and_back<A: Setting>(a: &A) -> (r: Valid<A, String>) requires faithful(*a), put(members(*a)) == (a.ser()->Ok_0)->Object_0@ ensures r.out() == Out::<A, String>::Good(*a)
{
    broadcast use axiom_map, axiom_string_of, axiom_of_string;
    let d = a.to_directive();
    proof {
        let m = members(*a);
        assert forall|i: int| 0 <= i < m.len() implies #[trigger] args(d)[i] == Out::<(String, Value), String>::Good((string_of(m[i].0), m[i].1)) by { assert(d.arguments@[i].0.node@ == m[i].0); }
        assert(no_bad(args(d)));
        assert(texts(values(args(d))) =~= m);
        assert(map_of(put(m)) == (a.ser()->Ok_0)->Object_0);
    }
    A::from_directive(&d)
}

// ---- custom directives
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct IndexMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl View for IndexMap<String, Value> { type V = Seq<(String, Value)>; uninterp spec fn view(&self) -> Seq<(String, Value)>; }
impl IndexMap<String, Value> {
    #[verifier::external_body] pub fn iter_vec_(&self) -> (r: Vec<(&String, &Value)>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self@[i].0 && *r@[i].1 == self@[i].1 { unimplemented!() }
}
// inserted one after the other: a repeated name keeps its first place and gets the last value
pub open spec fn place(s: Seq<(String, Value)>, k: String) -> Option<int> decreases s.len() { if s.len() == 0 { None } else if s.last().0 == k { Some(s.len() - 1) } else { place(s.drop_last(), k) } }
pub open spec fn placed(s: Seq<(String, Value)>) -> Seq<(String, Value)> decreases s.len() {
    if s.len() == 0 { s } else { let t = placed(s.drop_last()); match place(t, s.last().0) { Some(i) => t.update(i, s.last()), None => t.push(s.last()) } }
}
pub open spec fn answers1<T, A, X, F: Fn(T) -> Result<A, X>>(f: F, v: Seq<T>, s: Seq<Result<A, X>>) -> bool { s.len() == v.len() && forall|i: int| #![trigger s[i]] 0 <= i < v.len() ==> f.ensures((v[i],), s[i]) }
// the first failure, or everything in its place
pub open spec fn collected<X>(s: Seq<Result<(String, Value), X>>, r: Result<IndexMap<String, Value>, X>) -> bool {
    match r {
        Ok(m) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) && m@ == placed(s.map_values(|x: Result<(String, Value), X>| x->Ok_0)),
        Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<(String, Value), X>(e) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok,
    }
}
#[verifier::external_body] pub fn try_collect_<T, X, F: Fn(T) -> Result<(String, Value), X>>(v: Vec<T>, f: F) -> (r: Result<IndexMap<String, Value>, X>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures exists|s: Seq<Result<(String, Value), X>>| #[trigger] answers1(f, v@, s) && collected(s, r) { unimplemented!() }
//@ item src/core/config/directive.rs :: struct Directive
type Entry<'a> = (&'a String, &'a Value);
pub open spec fn custom_arg(n: Seq<char>, e: (String, Value)) -> Out<(Seq<char>, ConstValue), String> { match <ConstValue as De>::de(e.1) { Ok(v) => Out::Good((e.0@, v)), Err(t) => Out::Bad(traced(seq![cause(string_of(t))], at(n))) } }
pub open spec fn seen_arg(o: Out<Arg, String>) -> Out<(Seq<char>, ConstValue), String> { match o { Out::Good(a) => Out::Good((a.0.node@, a.1.node)), Out::Bad(c) => Out::Bad(c) } }
pub open spec fn custom_args(d: Directive) -> Seq<Out<(Seq<char>, ConstValue), String>> { d.arguments@.map_values(|e: (String, Value)| custom_arg(d.name@, e)) }
pub open spec fn to_ast(d: Directive, r: Out<ConstDirective, String>) -> bool {
    let s = custom_args(d);
    if no_bad(s) { r is Good && r->Good_0.name.node@ == d.name@ && r->Good_0.arguments@.map_values(|a: Arg| (a.0.node@, a.1.node)) == values(s) } else { r == Out::<ConstDirective, String>::Bad(bads(s)) }
}
pub broadcast proof fn lemma_custom(s: Seq<Out<Arg, String>>, r: Out<Vec<Arg>, String>, d: Directive)
    requires #[trigger] gathered(s, r), s.len() == d.arguments@.len(), forall|i: int| 0 <= i < s.len() ==> seen_arg(#[trigger] s[i]) == custom_arg(d.name@, d.arguments@[i])
    ensures no_bad(s) == no_bad(#[trigger] custom_args(d)), bads(s) == bads(custom_args(d)), no_bad(s) ==> values(s).map_values(|a: Arg| (a.0.node@, a.1.node)) == values(custom_args(d))
{
    let t = custom_args(d);
    assert forall|i: int| 0 <= i < s.len() implies seen_arg(#[trigger] s[i]) == t[i] by { }
    lemma_bads(s, t);
    if no_bad(t) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) is Good by { assert(t[i] is Good); } }
    if no_bad(s) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Good by { assert(s[i] is Good); } assert(values(s).map_values(|a: Arg| (a.0.node@, a.1.node)) =~= values(t)); }
}
pub proof fn lemma_bads(s: Seq<Out<Arg, String>>, t: Seq<Out<(Seq<char>, ConstValue), String>>) requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> seen_arg(#[trigger] s[i]) == t[i] ensures bads(s) == bads(t) decreases s.len()
{ if s.len() > 0 { lemma_bads(s.drop_last(), t.drop_last()); assert(seen_arg(s.last()) == t.last()); } }
//@ fn src/core/config/directive.rs :: fn to_const_directive
//@   opt /Valid::from_iter\(directive\.arguments\.iter\(\), \|\(k, v\)\| \{/ => Valid::from_iter_(directive.arguments.iter_vec_(), |kv_| { let (k, v) = kv_;
//@   opt /\.map\(pos\)/ => .map(|x_| pos(x_))
//@   start broadcast use axiom_string_of, lemma_custom;
//@   closure 1 |$0: Entry| -> (q: Valid<Arg, String>) ensures seen_arg(q.out()) == custom_arg(directive.name@, (*$0.0, *$0.1))
//@   closure 2 |$0: ConstValue| -> (q: Positioned<ConstValue>) ensures q.node == $0
//@   closure 3 |$0: JsonError| -> (q: ValidationError<String>) ensures q.causes() == traced(seq![cause(string_of($0.t()))], at(directive.name@))
//@   closure 4 |$0: Positioned<ConstValue>| -> (q: Arg) ensures q.0.node@ == name.node@, q.1 == $0
//@   closure 5 |$0: Vec<Arg>| -> (q: ConstDirective) ensures q.name.node@ == directive.name@, q.arguments == $0
//@   spec ensures to_ast(*directive, r.out())
pub open spec fn json_args(a: Seq<Arg>) -> Seq<Result<(String, Value), Seq<char>>> { a.map_values(|x: Arg| match x.1.node.ser() { Ok(j) => Ok((string_of(x.0.node@), j)), Err(t) => Err(t) }) }
pub open spec fn first_bad(s: Seq<Result<(String, Value), Seq<char>>>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<(String, Value), Seq<char>>(t) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok }
pub open spec fn from_ast(d: ConstDirective, r: Out<Directive, String>) -> bool {
    let s = json_args(d.arguments@);
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok { r is Good && r->Good_0.name@ == d.name.node@ && r->Good_0.arguments@ == placed(s.map_values(|x: Result<(String, Value), Seq<char>>| x->Ok_0)) }
    else { exists|t: Seq<char>| #[trigger] first_bad(s, t) && r == Out::<Directive, String>::Bad(seq![cause(string_of(t))]) }
}
pub open spec fn seen_res(x: Result<(String, Value), JsonError>) -> Result<(String, Value), Seq<char>> { match x { Ok(p) => Ok(p), Err(e) => Err(e.t()) } }
pub broadcast proof fn lemma_json(s: Seq<Result<(String, Value), JsonError>>, r: Result<IndexMap<String, Value>, JsonError>, a: Seq<Arg>)
    requires #[trigger] collected(s, r), s.len() == a.len(), forall|i: int| 0 <= i < s.len() ==> seen_res(#[trigger] s[i]) == (match a[i].1.node.ser() { Ok(j) => Ok((string_of(a[i].0.node@), j)), Err(t) => Err::<(String, Value), Seq<char>>(t) })
    ensures match r { Ok(m) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] json_args(a)[i]) is Ok) && m@ == placed((#[trigger] json_args(a)).map_values(|x: Result<(String, Value), Seq<char>>| x->Ok_0)), Err(e) => (exists|i: int| 0 <= i < s.len() && !((#[trigger] json_args(a)[i]) is Ok)) && first_bad(json_args(a), e.t()) }
{
    let t = json_args(a);
    assert forall|i: int| 0 <= i < s.len() implies seen_res(#[trigger] s[i]) == t[i] by { }
    match r {
        Ok(m) => { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]) is Ok by { assert(s[i] is Ok); } assert(s.map_values(|x: Result<(String, Value), JsonError>| x->Ok_0) =~= t.map_values(|x: Result<(String, Value), Seq<char>>| x->Ok_0)); }
        Err(e) => { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<(String, Value), JsonError>(e) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok; assert(t[i] == Err::<(String, Value), Seq<char>>(e.t())); assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]) is Ok by { assert(s[j] is Ok); } }
    }
}
//@ fn src/core/config/directive.rs :: fn to_directive
//@   opt /const_directive\s*\.arguments\s*\.into_iter\(\)\s*\.map\(\|\(k, v\)\| \{(.*?)\}\)\s*\.collect::<Result<_, _>>\(\)/ => try_collect_(const_directive.arguments, |kv_| { let (k, v) = kv_; \1 })
//@   opt /\.into\(\)(\s*\}\s*)$/ => .into_valid_()\1
//@   start broadcast use axiom_string_of, lemma_json;
//@   closure 1 |$0: Arg| -> (q: Result<(String, Value), JsonError>) ensures match $0.1.node.ser() { Ok(j) => q == Ok::<(String, Value), JsonError>((string_of($0.0.node@), j)), Err(t) => q is Err && q->Err_0.t() == t }
//@   closure 2 |$0: Value| -> (q: (String, Value)) ensures q == (string_of(k.node@), $0)
//@   closure 3 |$0: JsonError| -> (q: ValidationError<String>) ensures q.causes() == seq![cause(string_of($0.t()))]
//@   closure 4 |$0: IndexMap<String, Value>| -> (q: Directive) ensures q.name@ == const_directive.name.node@, q.arguments == $0
//@   spec ensures from_ast(const_directive, r.out())
} // verus!
fn main() {}
