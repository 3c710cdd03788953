//@ include string.rs
//@ include lookup.rs
//@ include map.rs MAP=BTreeMap MOD=m_btree KEEP=false
//@ include pieces.rs
pub mod m_ag {
// Assumed shapes of async-graphql's syntax tree, values and variables, as far as used here.
use vstd::prelude::*;
verus! {
#[verifier::external_body] pub struct Name { _p: () }
impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Name {
    #[verifier::external_body] pub fn new(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub enum BaseType { Named(Name), List(Box<Type>) }
pub struct Type { pub base: BaseType, pub nullable: bool }
impl Type { #[verifier::external_body] pub fn to_owned(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct Number { _p: () }
pub enum ConstValue { Null, Number(Number), String(String), Boolean(bool) }
// ConstValue::from of an integer or a float: a number (a float that is no JSON number: null)
pub trait ToConst: Sized { spec fn to_const(self) -> ConstValue; }
impl ToConst for i64 { uninterp spec fn to_const(self) -> ConstValue; }
impl ToConst for f64 { uninterp spec fn to_const(self) -> ConstValue; }
impl ConstValue { #[verifier::external_body] pub fn from<T: ToConst>(x: T) -> (r: Self) ensures r == x.to_const() { unimplemented!() } }
#[verifier::external_body] pub struct Variables { _p: () }
impl View for Variables { type V = Map<Seq<char>, ConstValue>; uninterp spec fn view(&self) -> Map<Seq<char>, ConstValue>; }
impl Variables {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, ConstValue>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Name, v: ConstValue) -> (r: Option<ConstValue>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
#[verifier::external_body] pub struct Error { _p: () }
pub type Result<A> = core::result::Result<A, Error>;
// every error of core/rest/error.rs: which one it is is not specified
#[verifier::external_body] pub fn err_() -> (r: Error) { unimplemented!() }
// str::parse: what a text reads as, if it does
pub trait Parsed: Sized { spec fn read(s: Seq<char>) -> Option<Self>; }
impl Parsed for i64 { uninterp spec fn read(s: Seq<char>) -> Option<i64>; }
impl Parsed for f64 { uninterp spec fn read(s: Seq<char>) -> Option<f64>; }
impl Parsed for bool { open spec fn read(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } } }
#[verifier::external_body] pub fn parse_<T: Parsed>(s: &str) -> (r: Result<T>) ensures match r { Ok(v) => T::read(s@) == Some(v), Err(_) => T::read(s@) is None } { unimplemented!() }
} // verus!
}
use m_ag::*;
use m_btree::BTreeMap;
pub mod p_strof { use vstd::prelude::*; use super::*; verus! {
pub broadcast proof fn axiom_strof(s: Seq<char>) ensures (#[trigger] string_of(s))@ == s { broadcast use axiom_string_of; }
} }
use p_strof::*;
verus! {
broadcast use {axiom_string_ext, axiom_str_ext, lemma_kept, axiom_strof};
//@ rewrite /\b(\w+)\.parse::<(\w+)>\(\)/ => parse_::<\2>(\1)
//@ rewrite /\b(\w+)\.parse\(\)/ => parse_(\1)
//@ rewrite /\bError::\w+(?=\s*[({])(\((?:[^()]|\([^()]*\))*\)|\s*\{(?:[^{}])*\})/ => err_()
//@ rewrite /\b(\w+)\.split\('(.)'\)/ => split_(\1, '\2')
//@ rewrite /\b(\w+)\.strip_prefix\('(.)'\)/ => strip_prefix_(\1, '\2')
//@ rewrite /\bif (\w+) != (\w+) \{/ => if !text_eq_(\1, \2) {
//@ item src/core/rest/typed_variables.rs :: enum N
//@ item src/core/rest/typed_variables.rs :: enum UrlParamType
//@ item src/core/rest/typed_variables.rs :: struct TypedVariable

// ---- what the property says
// what a text of a request reads as
pub open spec fn read(t: UrlParamType, s: Seq<char>) -> Option<ConstValue> {
    match t {
        UrlParamType::String => Some(ConstValue::String(string_of(s))),
        UrlParamType::Number(N::Int) => match i64::read(s) { Some(i) => Some(i.to_const()), None => None },
        UrlParamType::Number(N::Float) => match f64::read(s) { Some(f) => Some(f.to_const()), None => None },
        UrlParamType::Boolean => match bool::read(s) { Some(b) => Some(ConstValue::Boolean(b)), None => None },
    }
}
pub open spec fn kind_of(t: Type) -> Option<UrlParamType> {
    match t.base {
        BaseType::Named(n) => if n@ == "String"@ { Some(UrlParamType::String) } else if n@ == "Int"@ { Some(UrlParamType::Number(N::Int)) }
            else if n@ == "Boolean"@ { Some(UrlParamType::Boolean) } else if n@ == "Float"@ { Some(UrlParamType::Number(N::Float)) } else { None },
        _ => None,
    }
}
pub open spec fn val(r: Result<ConstValue>, o: Option<ConstValue>) -> bool { match r { Ok(v) => o == Some(v), Err(_) => o is None } }

impl Clone for UrlParamType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub proof fn names_differ() ensures "String"@ != "Int"@, "String"@ != "Boolean"@, "String"@ != "Float"@, "Int"@ != "Boolean"@, "Int"@ != "Float"@, "Boolean"@ != "Float"@
{ reveal_strlit("String"); reveal_strlit("Int"); reveal_strlit("Boolean"); reveal_strlit("Float"); assert("String"@.len() == 6 && "Int"@.len() == 3 && "Boolean"@.len() == 7 && "Float"@.len() == 5); }
impl N {
//@ fn src/core/rest/typed_variables.rs :: impl N :: fn to_value only=match
//@   spec ensures val(r, read(UrlParamType::Number(*self), value@))
}
impl UrlParamType {
//@ fn src/core/rest/typed_variables.rs :: impl UrlParamType :: fn to_value only=match
//@   spec ensures val(r, read(*self, value@))
//@ fn src/core/rest/typed_variables.rs :: impl TryFrom<&Type> for UrlParamType :: fn try_from only=decl
//@   spec ensures match r { Ok(k) => kind_of(*value) == Some(k), Err(_) => kind_of(*value) is None }
//@   start proof { names_differ(); }
}
pub open spec fn is_var(v: TypedVariable, t: Type, name: Seq<char>) -> bool { kind_of(t) == Some(v.type_of) && v.name@ == name && !v.nullable }
impl TypedVariable {
//@ fn src/core/rest/typed_variables.rs :: impl TypedVariable :: fn new only=decl
//@   spec ensures r.type_of == tpe, r.name@ == name@, !r.nullable
//@ fn src/core/rest/typed_variables.rs :: impl TypedVariable :: fn try_from only=decl
//@   spec ensures match r { Ok(v) => is_var(v, *type_of, name@), Err(_) => kind_of(*type_of) is None }
//@ fn src/core/rest/typed_variables.rs :: impl TypedVariable :: fn to_value only=match
//@   spec ensures val(r, read(self.type_of, value@))
//@ fn src/core/rest/typed_variables.rs :: impl TypedVariable :: fn name
//@   spec ensures r@ == self.name@
//@ fn src/core/rest/typed_variables.rs :: impl TypedVariable :: fn nullable only=decl
//@   spec ensures r == self.nullable
//@ fn src/core/rest/typed_variables.rs :: impl TypedVariable :: fn ty only=decl
//@   spec ensures r == self.type_of
}

// the declared types of variables
//@ item src/core/rest/type_map.rs :: struct TypeMap
pub open spec fn declared(q: TypeMap, name: Seq<char>) -> Option<Type> { if q.0@.dom().contains(string_of(name)) { Some(q.0@[string_of(name)]) } else { None } }
pub open spec fn opt_is<T>(r: Option<&T>, o: Option<T>) -> bool { match r { Some(x) => o == Some(*x), None => o is None } }
impl TypeMap {
//@ fn src/core/rest/type_map.rs :: impl TypeMap :: fn get only=decl
//@   spec ensures opt_is(r, declared(*self, key@))
//@ fn src/core/rest/type_map.rs :: impl TypeMap :: fn new only=decl
//@   spec ensures r.0 == map
}
//@ item src/core/rest/path.rs :: enum Segment
//@ item src/core/rest/path.rs :: struct Path
// a path pattern as written: `$name` is that variable
pub open spec fn seg_is(q: TypeMap, s: Seq<char>, g: Segment) -> bool {
    if s.len() > 0 && s[0] == '$' { match g { Segment::Param(v) => declared(q, s.skip(1)) is Some && is_var(v, declared(q, s.skip(1))->0, s.skip(1)), _ => false } }
    else { match g { Segment::Literal(l) => l@ == s, _ => false } }
}
pub open spec fn bad_seg(q: TypeMap, s: Seq<char>) -> bool { s.len() > 0 && s[0] == '$' && (declared(q, s.skip(1)) is None || kind_of(declared(q, s.skip(1))->0) is None) }
pub open spec fn parts(s: Seq<char>) -> Seq<Seq<char>> { nonempty(pieces(s, '/')) }
// the variables bound by the first n segments
pub open spec fn bound(segs: Seq<Segment>, req: Seq<Seq<char>>, n: nat) -> Option<Map<Seq<char>, ConstValue>> decreases n {
    if n == 0 { Some(Map::empty()) } else {
        match bound(segs, req, (n - 1) as nat) {
            None => None,
            Some(m) => match segs[n - 1] {
                Segment::Literal(l) => if l@ == req[n - 1] { Some(m) } else { None },
                Segment::Param(v) => match read(v.type_of, req[n - 1]) { Some(x) => Some(m.insert(v.name@, x)), None => None },
            },
        }
    }
}
pub proof fn lemma_none(segs: Seq<Segment>, req: Seq<Seq<char>>, i: nat, n: nat) requires i <= n, bound(segs, req, i) is None ensures bound(segs, req, n) is None decreases n
{ if i < n { lemma_none(segs, req, i, (n - 1) as nat); } }
pub open spec fn path_match(segs: Seq<Segment>, req: Seq<Seq<char>>) -> Option<Map<Seq<char>, ConstValue>> {
    if segs.len() == req.len() { bound(segs, req, segs.len()) } else { None }
}
pub open spec fn vars(r: Option<Variables>) -> Option<Map<Seq<char>, ConstValue>> { match r { Some(v) => Some(v@), None => None } }
impl Segment {
//@ fn src/core/rest/path.rs :: impl Segment :: fn lit only=decl
//@   spec ensures r is Literal, r->Literal_0@ == s@
//@ fn src/core/rest/path.rs :: impl Segment :: fn param only=decl
//@   spec ensures r == Segment::Param(t)
}
impl Path {
//@ fn src/core/rest/path.rs :: impl Path :: fn as_str
//@   spec ensures r@ == self.pattern@
//@ fn src/core/rest/path.rs :: impl Path :: fn parse only=decl
//@   attr #[verifier::loop_isolation(false)]
//@   closure 1 |s: &&str| -> (b: bool) ensures b == (s@.len() > 0)
//@   spec ensures match r {
//@   |    Ok(p) => p.pattern@ == input@ && p.segments@.len() == parts(input@).len() && forall|i: int| 0 <= i < p.segments@.len() ==> seg_is(*q, #[trigger] parts(input@)[i], p.segments@[i]),
//@   |    Err(_) => exists|i: int| 0 <= i < parts(input@).len() && bad_seg(*q, #[trigger] parts(input@)[i]) }
//@   loop 1 it=it invariant txts(it.seq()) == parts(input@), segments@.len() == it.index(), forall|i: int| 0 <= i < segments@.len() ==> seg_is(*q, #[trigger] parts(input@)[i], segments@[i]),
//@   loopstart 1 proof { assert(parts(input@)[it.index() as int] == txts(it.seq())[it.index() as int]); }
//@ fn src/core/rest/path.rs :: impl Path :: fn matches only=match
//@   attr #[verifier::loop_isolation(false)]
//@   closure 1 |s: &&str| -> (b: bool) ensures b == (s@.len() > 0)
//@   spec ensures vars(r) == path_match(self.segments@, parts(path@))
//@   before 1 let ghost req = req_segments.rem(); proof { assert(txts(req) == parts(path@)); }
//@   loop 1 it=it invariant it.seq().map_values(|x: &Segment| *x) =~= self.segments@, it.index() <= req.len(), req_segments.rem() =~= req.skip(it.index() as int), bound(self.segments@, parts(path@), it.index() as nat) == Some(variables@),
//@   loopstart 1 let ghost n = it.index() as int; proof { assert(self.segments@[n] == *segment); assert(req.len() == parts(path@).len()); if n < req.len() { assert(parts(path@)[n] == req[n]@); assert(req.skip(n)[0] == req[n]); if bound(self.segments@, parts(path@), (n + 1) as nat) is None { lemma_none(self.segments@, parts(path@), (n + 1) as nat, self.segments@.len()); } } }
}

// query parameters
//@ item src/core/rest/query_params.rs :: struct QueryParams
// the values bound by the first n declared parameters
pub open spec fn query_bound(ps: Seq<(String, TypedVariable)>, q: Map<String, String>, n: nat) -> Option<Map<Seq<char>, ConstValue>> decreases n {
    if n == 0 { Some(Map::empty()) } else {
        match query_bound(ps, q, (n - 1) as nat) {
            None => None,
            Some(m) => if q.dom().contains(ps[n - 1].0) { match read(ps[n - 1].1.type_of, q[ps[n - 1].0]@) { Some(x) => Some(m.insert(ps[n - 1].1.name@, x)), None => None } } else { Some(m) },
        }
    }
}
pub proof fn lemma_qnone(ps: Seq<(String, TypedVariable)>, q: Map<String, String>, i: nat, n: nat) requires i <= n, query_bound(ps, q, i) is None ensures query_bound(ps, q, n) is None decreases n
{ if i < n { lemma_qnone(ps, q, i, (n - 1) as nat); } }
pub open spec fn param_is(q: TypeMap, k: String, v: String, p: (String, TypedVariable)) -> bool { p.0@ == k@ && declared(q, v@) is Some && is_var(p.1, declared(q, v@)->0, v@) }
pub open spec fn bad_param(q: TypeMap, v: String) -> bool { declared(q, v@) is None || kind_of(declared(q, v@)->0) is None }
impl QueryParams {
//@ fn src/core/rest/query_params.rs :: impl From<Vec<(&str, TypedVariable)>> for QueryParams :: fn from only=decl
//@   spec ensures r.params@.len() == value@.len(), forall|i: int| 0 <= i < value@.len() ==> (#[trigger] r.params@[i]).0@ == value@[i].0@ && r.params@[i].1 == value@[i].1
//@   closurelet 1 |a0: (&str, TypedVariable)| -> (o: (String, TypedVariable)) ensures o.0@ == a0.0@, o.1 == a0.1
//@ fn src/core/rest/query_params.rs :: impl QueryParams :: fn try_from_map only=decl
//@   attr #[verifier::loop_isolation(false)]
//@   spec ensures match r {
//@   |    Ok(p) => p.params@.len() == map.order().len() && forall|i: int| 0 <= i < p.params@.len() ==> param_is(*q, #[trigger] map.order()[i], map@[map.order()[i]], p.params@[i]),
//@   |    Err(_) => exists|k: String| map@.dom().contains(k) && bad_param(*q, #[trigger] map@[k]) }
//@   start let ghost map0 = map; broadcast use m_btree::axiom_order;
//@   loop 1 it=it invariant params@.len() == it.index(), it.seq().len() == map0.order().len(), forall|i: int| 0 <= i < params@.len() ==> param_is(*q, #[trigger] map0.order()[i], map0@[map0.order()[i]], params@[i]),
//@   loopstart 1 proof { let n = it.index() as int; assert(k == map0.order()[n] && v == map0@[k]); assert(map0.order().contains(k)); assert(map0@.dom().contains(k)); }
//@ fn src/core/rest/query_params.rs :: impl QueryParams :: fn matches only=match
//@   attr #[verifier::loop_isolation(false)]
//@   spec ensures vars(r) == query_bound(self.params@, query_params@, self.params@.len())
//@   loop 1 it=it invariant it.seq().map_values(|x: &(String, TypedVariable)| *x) =~= self.params@, query_bound(self.params@, query_params@, it.index() as nat) == Some(variables@),
//@   loopstart 1 let ghost n = it.index() as int; proof { assert(self.params@[n] == *it.seq()[n]); if query_bound(self.params@, query_params@, (n + 1) as nat) is None { lemma_qnone(self.params@, query_params@, (n + 1) as nat, self.params@.len()); } }
}

// reading @rest
pub mod m_doc {
use vstd::prelude::*;
use super::*;
verus! {
pub struct Positioned<T> { pub node: T }
#[verifier::external_body] pub struct IndexMap { _p: () }
impl IndexMap {
    pub uninterp spec fn rem(&self) -> Seq<(Name, Value)>;
    // `for x in map.iter()`
    #[verifier::external_body] pub fn iter_vec_(&self) -> (r: Vec<(&Name, &Value)>) ensures r@.len() == self.rem().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.rem()[i].0 && *r@[i].1 == self.rem()[i].1 { unimplemented!() }
}
pub enum Value { Variable(Name), Null, Number(Number), String(String), Boolean(bool), Enum(Name), List(Vec<ConstValue>), Object(IndexMap) }
// the value as GraphQL text
pub uninterp spec fn shown(v: Value) -> Seq<char>;
impl Value { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == shown(*self) { unimplemented!() } }
pub struct Directive { pub name: Positioned<Name>, pub arguments: Vec<(Positioned<Name>, Positioned<Value>)> }
// serde_json: the text a JSON string literal stands for
pub uninterp spec fn unquoted(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body] pub fn from_json_text_(s: &str) -> (r: Result<String>) ensures match r { Ok(t) => unquoted(s@) == Some(t@), Err(_) => unquoted(s@) is None } { unimplemented!() }
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn to_uppercase_(s: String) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }
pub enum JsonValue { String(String), Other }
} // verus!
}
use m_doc::*;
//@ item src/core/http/method.rs :: enum Method
// serde's derived reading of a Method (and of an Option of it, from a text)
pub open spec fn method_named(s: Seq<char>) -> Option<Method> {
    if s == "GET"@ { Some(Method::GET) } else if s == "POST"@ { Some(Method::POST) } else if s == "PUT"@ { Some(Method::PUT) } else if s == "PATCH"@ { Some(Method::PATCH) } else if s == "DELETE"@ { Some(Method::DELETE) }
    else if s == "HEAD"@ { Some(Method::HEAD) } else if s == "OPTIONS"@ { Some(Method::OPTIONS) } else if s == "CONNECT"@ { Some(Method::CONNECT) } else if s == "TRACE"@ { Some(Method::TRACE) } else { None }
}
#[verifier::external_body] pub fn method_from_(v: JsonValue) -> (r: Result<Option<Method>>)
    ensures v is String ==> match r { Ok(m) => m is Some && method_named(v->String_0@) == m, Err(_) => method_named(v->String_0@) is None } { unimplemented!() }
//@ item src/core/rest/directive.rs :: struct Rest
impl Rest {
    // derived Default
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.path@ == Seq::<char>::empty(), r.method is None, r.query@ == Map::<String, String>::empty(), r.body is None { unimplemented!() }
}
pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
// what the arguments read so far say
pub struct Said { pub path: Option<Seq<char>>, pub method: Option<Method>, pub query: Map<String, String>, pub body: Option<Seq<char>> }
pub open spec fn bind_query(q: Map<String, String>, s: Seq<(Name, Value)>, n: nat) -> Map<String, String> decreases n {
    if n == 0 { q } else { match s[n - 1].1 { Value::Variable(v) => bind_query(q, s, (n - 1) as nat).insert(string_of(s[n - 1].0@), string_of(v@)), _ => bind_query(q, s, (n - 1) as nat) } }
}
pub open spec fn said(a: Seq<(Positioned<Name>, Positioned<Value>)>, n: nat) -> Option<Said> decreases n {
    if n == 0 { Some(Said { path: None, method: None, query: Map::empty(), body: None }) } else {
        match said(a, (n - 1) as nat) {
            None => None,
            Some(x) => {
                let (k, v) = (a[n - 1].0.node@, a[n - 1].1.node);
                if k == "path"@ { if unquoted(shown(v)) is Some { Some(Said { path: unquoted(shown(v)), ..x }) } else { None } }
                else if k == "method"@ { if method_named(upper(shown(v))) is Some { Some(Said { method: method_named(upper(shown(v))), ..x }) } else { None } }
                else if k == "query"@ { match v { Value::Object(m) => Some(Said { query: bind_query(x.query, m.rem(), m.rem().len()), ..x }), _ => Some(x) } }
                else if k == "body"@ { match v { Value::Variable(n) => Some(Said { body: Some(n@), ..x }), _ => Some(x) } }
                else { Some(x) }
            },
        }
    }
}
pub proof fn lemma_snone(a: Seq<(Positioned<Name>, Positioned<Value>)>, i: nat, n: nat) requires i <= n, said(a, i) is None ensures said(a, n) is None decreases n
{ if i < n { lemma_snone(a, i, (n - 1) as nat); } }
pub proof fn args_differ() ensures "path"@ != "method"@, "path"@ != "query"@, "path"@ != "body"@, "method"@ != "query"@, "method"@ != "body"@, "query"@ != "body"@
{ reveal_strlit("path"); reveal_strlit("method"); reveal_strlit("query"); reveal_strlit("body"); assert("path"@[0] == 'p' && "body"@[0] == 'b' && "query"@[0] == 'q' && "method"@[0] == 'm'); }
pub open spec fn rest_is(r: Rest, x: Said) -> bool { r.path@ == (match x.path { Some(p) => p, None => Seq::empty() }) && r.method == x.method && r.query@ =~= x.query && opt_text(r.body) == x.body }
impl Rest {
//@ fn src/core/rest/directive.rs :: impl TryFrom<&Directive> for Rest :: fn try_from only=decl
//@   attr #[verifier::loop_isolation(false)]
//@   opt /serde_json::from_str\(/ => from_json_text_(
//@   opt /serde_json::from_value\(/ => method_from_(
//@   opt /serde_json::Value::/ => JsonValue::
//@   opt /(v\.node\.to_string\(\))\.to_uppercase\(\)/ => to_uppercase_(\1)
//@   opt /directive\.arguments\.iter\(\)/ => &directive.arguments
//@   opt /map\.iter\(\)\s*\.filter_map\(\|\(k, v\)\| (\{.*?\}\s*\})\)\s*\.for_each\(\|\(k, v\)\| (\{.*?\})\)/ => for kv_ in map.iter_vec_() { let (k, v) = kv_; if let Some((k, v)) = \1 \2 }
//@   opt /k\.as_str\(\)\.to_owned\(\)/ => k.as_str().to_string()
//@   spec ensures match r {
//@   |    Ok(x) => said(directive.arguments@, directive.arguments@.len()) is Some && said(directive.arguments@, directive.arguments@.len())->0.path is Some && said(directive.arguments@, directive.arguments@.len())->0.method is Some && rest_is(x, said(directive.arguments@, directive.arguments@.len())->0),
//@   |    Err(_) => said(directive.arguments@, directive.arguments@.len()) is None || said(directive.arguments@, directive.arguments@.len())->0.path is None || said(directive.arguments@, directive.arguments@.len())->0.method is None }
//@   start let ghost a = directive.arguments@; proof { args_differ(); }
//@   loop 1 it=it invariant it.seq().map_values(|x: &(Positioned<Name>, Positioned<Value>)| *x) =~= a, said(a, it.index() as nat) is Some, rest_is(rest, said(a, it.index() as nat)->0), has_path == (said(a, it.index() as nat)->0.path is Some), has_method == (said(a, it.index() as nat)->0.method is Some),
//@   loopstart 1 let ghost n = it.index() as int; let ghost x0 = said(a, n as nat)->0; proof { assert(a[n] == *it.seq()[n]); if said(a, (n + 1) as nat) is None { lemma_snone(a, (n + 1) as nat, a.len()); } }
//@   loop 2 it=it2 invariant it2.seq().len() == map.rem().len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]).0 == map.rem()[i].0 && *it2.seq()[i].1 == map.rem()[i].1, rest.query@ =~= bind_query(x0.query, map.rem(), it2.index() as nat), rest.path@ == (match x0.path { Some(p) => p, None => Seq::empty() }), rest.method == x0.method, opt_text(rest.body) == x0.body,
}

// the endpoint: method, path and query together (left out of the build here, proved from its text)
pub mod m_req {
use vstd::prelude::*;
use super::*;
verus! {
pub mod http { use vstd::prelude::*; verus! {
pub enum Method { GET, POST, PUT, PATCH, DELETE, HEAD, OPTIONS, CONNECT, TRACE, Other(Seq<char>) }
} }
#[verifier::external_body] pub struct Uri { _p: () }
impl Uri {
    pub uninterp spec fn path_(&self) -> Seq<char>;
    pub uninterp spec fn query_(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == self.path_() { unimplemented!() }
    #[verifier::external_body] pub fn query(&self) -> (r: Option<&str>) ensures match r { Some(q) => self.query_() == Some(q@), None => self.query_() is None } { unimplemented!() }
}
#[verifier::external_body] pub struct Request { _p: () }
impl Request {
    pub uninterp spec fn uri_(&self) -> Uri;
    pub uninterp spec fn method_(&self) -> http::Method;
    pub uninterp spec fn body_(&self) -> Option<ConstValue>;
    #[verifier::external_body] pub fn uri(&self) -> (r: &Uri) ensures *r == self.uri_() { unimplemented!() }
    #[verifier::external_body] pub fn method(&self) -> (r: &http::Method) ensures *r == self.method_() { unimplemented!() }
}
pub assume_specification<T, E, F: FnOnce(E) -> T> [core::result::Result::<T, E>::unwrap_or_else] (o: core::result::Result<T, E>, f: F) -> (r: T)
    requires o is Err ==> f.requires((o->Err_0,))
    ensures match o { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
// serde_urlencoded: the pairs of a query text
pub uninterp spec fn url_pairs(s: Seq<char>) -> Option<Map<String, String>>;
#[verifier::external_body] pub fn urlencoded_(s: &str) -> (r: Result<BTreeMap<String, String>>) ensures match r { Ok(m) => url_pairs(s@) == Some(m@), Err(_) => url_pairs(s@) is None } { unimplemented!() }
#[verifier::external_body] pub fn same_method_(a: http::Method, b: &http::Method) -> (r: bool) ensures r == (a == *b) { unimplemented!() }
#[verifier::external_body] pub struct ExecutableDocument { _p: () }
pub open spec fn pairs_map(s: Seq<(&Name, &ConstValue)>, n: nat) -> Map<Seq<char>, ConstValue> decreases n { if n == 0 { Map::empty() } else { pairs_map(s, (n - 1) as nat).insert(s[n - 1].0@, *s[n - 1].1) } }
impl Variables { #[verifier::external_body] pub fn iter_vec_(&self) -> (r: Vec<(&Name, &ConstValue)>) ensures pairs_map(r@, r@.len()) == self@ { unimplemented!() } }
impl Name { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ConstValue { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
} // verus!
}
use m_req::*;
use m_req::http;
impl Method {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@ fn src/core/http/method.rs :: impl Method :: fn to_hyper only=match
//@   spec ensures r == hyper_of(self)
}
pub open spec fn hyper_of(m: Method) -> http::Method {
    match m { Method::GET => http::Method::GET, Method::POST => http::Method::POST, Method::PUT => http::Method::PUT, Method::PATCH => http::Method::PATCH, Method::DELETE => http::Method::DELETE,
        Method::HEAD => http::Method::HEAD, Method::OPTIONS => http::Method::OPTIONS, Method::CONNECT => http::Method::CONNECT, Method::TRACE => http::Method::TRACE }
}
//@ item src/core/rest/endpoint.rs :: struct Endpoint
//@ item src/core/rest/partial_request.rs :: struct PartialRequest
pub open spec fn url_query(u: Uri) -> Map<String, String> { match u.query_() { Some(q) => match url_pairs(q) { Some(m) => m, None => Map::empty() }, None => Map::empty() } }
pub open spec fn endpoint_match(e: Endpoint, q: Request) -> Option<Map<Seq<char>, ConstValue>> {
    if hyper_of(e.method) != q.method_() { None } else {
        match path_match(e.path.segments@, parts(q.uri_().path_())) {
            None => None,
            Some(p) => match query_bound(e.query_params.params@, url_query(q.uri_()), e.query_params.params@.len()) { None => None, Some(v) => Some(p.union_prefer_right(v)) },
        }
    }
}
pub open spec fn body_of(o: Option<&String>) -> Option<String> { match o { Some(s) => Some(*s), None => None } }
pub open spec fn found(r: Option<PartialRequest>, e: Endpoint, q: Request) -> bool {
    match r { Some(p) => endpoint_match(e, q) == Some(p.variables@) && body_of(p.body) == e.body && *p.doc == e.doc && *p.path == e.path, None => endpoint_match(e, q) is None }
}
//@ fn src/core/rest/endpoint.rs :: fn merge_variables only=match
//@   attr #[verifier::loop_isolation(false)]
//@   opt /\b([ab])\.iter\(\)/ => \1.iter_vec_()
//@   spec ensures r@ == a@.union_prefer_right(b@), a@ == Map::<Seq<char>, ConstValue>::empty() ==> r@ == b@
//@   loop 1 it=it invariant pairs_map(it.seq(), it.seq().len()) == a@, variables@ =~= pairs_map(it.seq(), it.index() as nat),
//@   loop 2 it=it invariant pairs_map(it.seq(), it.seq().len()) == b@, variables@ =~= a@.union_prefer_right(pairs_map(it.seq(), it.index() as nat)),
//@   after 2 proof { assert(variables@ =~= a@.union_prefer_right(b@)); if a@ == Map::<Seq<char>, ConstValue>::empty() { assert(variables@ =~= b@); } }
impl Endpoint {
//@ fn src/core/rest/endpoint.rs :: impl Endpoint :: fn get_method only=match
//@   spec ensures *r == self.method
//@ fn src/core/rest/endpoint.rs :: impl Endpoint :: fn get_path only=match
//@   spec ensures *r == self.path
//@ fn src/core/rest/endpoint.rs :: impl Endpoint :: fn matches only=match
//@   opt /serde_urlencoded::from_str\(/ => urlencoded_(
//@   opt /if ([\w.()]+) != ([\w.()]+) \{/ => if !same_method_(\1, \2) {
//@   opt /\.unwrap_or_default\(\)/ => .unwrap_or(BTreeMap::new())
//@   closure 1 |query: &str| -> (m: BTreeMap<String, String>) ensures m@ =~= (match url_pairs(query@) { Some(m) => m, None => Map::empty() })
//@   closure 2 |_e: Error| -> (m: BTreeMap<String, String>) ensures m@ == Map::<String, String>::empty()
//@   spec ensures found(r, *self, *request)
}
//@ item src/core/rest/endpoint_set.rs :: struct EndpointSet
pub struct Checked;
impl EndpointSet<Checked> {
//@ fn src/core/rest/endpoint_set.rs :: impl EndpointSet<Checked> :: fn matches only=match
//@   attr #[verifier::loop_isolation(false)]
//@   opt /self\.endpoints\.iter\(\)\.find_map\(\|e\| ([^)]*\))\)/ => { for e in &self.endpoints { if let Some(x_) = \1 { return Some(x_); } } None }
//@   spec ensures match r {
//@   |    Some(p) => exists|i: int| 0 <= i < self.endpoints@.len() && found(r, #[trigger] self.endpoints@[i], *request) && forall|j: int| 0 <= j < i ==> endpoint_match(#[trigger] self.endpoints@[j], *request) is None,
//@   |    None => forall|j: int| 0 <= j < self.endpoints@.len() ==> endpoint_match(#[trigger] self.endpoints@[j], *request) is None }
//@   loop 1 it=it invariant it.seq().map_values(|x: &Endpoint| *x) =~= self.endpoints@, forall|j: int| 0 <= j < it.index() ==> endpoint_match(#[trigger] self.endpoints@[j], *request) is None,
//@   loopstart 1 proof { assert(self.endpoints@[it.index() as int] == *it.seq()[it.index() as int]); }
}
} // verus!
