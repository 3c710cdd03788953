#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/outcome.rs
verus! {
broadcast use axiom_string_ext;
// ---- header names and templates
#[verifier::external_body] pub struct HeaderName { _k: u8 }
#[verifier::external_body] pub struct InvalidName { _k: u8 }
impl InvalidName { pub uninterp spec fn t(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() } }
// the http crate: a name, or what is wrong with it, from the text alone
pub uninterp spec fn header(s: Seq<char>) -> Result<HeaderName, Seq<char>>;
impl HeaderName { #[verifier::external_body] pub fn from_(s: &String) -> (r: Result<HeaderName, InvalidName>) ensures match r { Ok(h) => header(s@) == Ok::<HeaderName, Seq<char>>(h), Err(e) => header(s@) == Err::<HeaderName, Seq<char>>(e.t()) } { unimplemented!() } }
#[verifier::external_body] pub struct Mustache { _k: u8 }
// (its reading is property C03's)
pub uninterp spec fn template(s: Seq<char>) -> Mustache;
impl Mustache { #[verifier::external_body] pub fn parse(s: &str) -> (r: Mustache) ensures r == template(s@) { unimplemented!() } }
pub struct KeyValue { pub key: String, pub value: String }
#[verifier::external_body] pub fn iter_vec_<T>(v: &[T]) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn axiom_string_of(s: String) ensures #[trigger] string_of(s@) == s;
//@ item src/core/helpers/headers.rs :: type MustacheHeaders
type Pair = (HeaderName, Mustache);
pub open spec fn one(k: KeyValue) -> Out<Pair, String> { match header(k.key@) { Ok(h) => Out::Good((h, template(k.value@))), Err(e) => Out::Bad(traced(seq![cause(string_of(e))], k.key@)) } }
pub open spec fn each(v: Seq<KeyValue>) -> Seq<Out<Pair, String>> { v.map_values(|k: KeyValue| one(k)) }
pub broadcast proof fn lemma_each(s: Seq<Out<Pair, String>>, r: Out<Vec<Pair>, String>, v: Seq<KeyValue>)
    requires #[trigger] gathered(s, r), s.len() == v.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == one(v[i])
    ensures s == #[trigger] each(v)
{ assert(s =~= each(v)); }
//@ fn src/core/helpers/headers.rs :: fn to_mustache_headers
//@   opt /Valid::from_iter\(headers\.iter\(\), /=> Valid::from_iter_(iter_vec_(headers), 
//@   opt /HeaderName::from_bytes\((\w+\.key)\.as_bytes\(\)\)/ => HeaderName::from_(&\1)
//@   start broadcast use axiom_string_of, lemma_each;
//@   closure 1 |$0: &KeyValue| -> (q: Valid<Pair, String>) ensures q.out() == one(*$0)
//@   closure 2 |$0: InvalidName| -> (q: ValidationError<String>) ensures q.causes() == seq![cause(string_of($0.t()))]
//@   closurelet 3 |a0: Pair| -> (q: Pair) ensures q == a0
//@   spec ensures gathered(each(headers@), r.out())
//@ fn src/core/helpers/url.rs :: fn to_url
//@   spec ensures r.out() == Out::<Mustache, String>::Good(template(url@))

// ---- methods: each is that of the same name in the http crate
pub mod http { pub enum Method { GET, POST, PUT, PATCH, DELETE, HEAD, OPTIONS, CONNECT, TRACE } }
//@ item src/core/http/method.rs :: enum Method
pub open spec fn same(m: Method) -> http::Method {
    match m { Method::GET => http::Method::GET, Method::POST => http::Method::POST, Method::PUT => http::Method::PUT, Method::PATCH => http::Method::PATCH, Method::DELETE => http::Method::DELETE, Method::HEAD => http::Method::HEAD, Method::OPTIONS => http::Method::OPTIONS, Method::CONNECT => http::Method::CONNECT, Method::TRACE => http::Method::TRACE }
}
impl Method {
//@ fn src/core/http/method.rs :: impl Method :: fn to_hyper
//@   spec ensures r == same(self)
}
// ---- types read off values
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_trim(s: Seq<char>) ensures (#[trigger] trimmed(s)).len() <= s.len();
pub uninterp spec fn is_i32(s: Seq<char>) -> bool;
pub uninterp spec fn is_f64(s: Seq<char>) -> bool;
#[verifier::external_body] pub fn trim_(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
#[verifier::external_body] pub fn is_i32_(s: &str) -> (r: bool) ensures r == is_i32(s@) { unimplemented!() }
#[verifier::external_body] pub fn is_f64_(s: &str) -> (r: bool) ensures r == is_f64(s@) { unimplemented!() }
#[verifier::external_body] pub fn is_bool_(s: &str) -> (r: bool) ensures r == (s@ == "true"@ || s@ == "false"@) { unimplemented!() }
#[verifier::external_body] pub fn contains_(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
pub open spec fn before(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() == 0 || s[0] == c { Seq::empty() } else { seq![s[0]] + before(s.skip(1), c) } }
#[verifier::external_body] pub fn first_piece_(s: &str, c: char) -> (r: Option<&str>) ensures r is Some && r->0@ == before(s@, c) { unimplemented!() }
pub proof fn lemma_before(s: Seq<char>, c: char) requires s.contains(c) ensures before(s, c).len() < s.len() decreases s.len()
{ if s[0] != c { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.skip(1)[i - 1] == c); lemma_before(s.skip(1), c); } }
pub open spec fn data_type(s: Seq<char>) -> Seq<char> decreases s.len() via data_type_dec {
    let t = trimmed(s);
    if is_i32(t) { "Int"@ } else if is_f64(t) { "Float"@ } else if t == "true"@ || t == "false"@ { "Boolean"@ } else if t.contains(',') { data_type(before(t, ',')) } else { "String"@ }
}
#[via_fn] proof fn data_type_dec(s: Seq<char>) { broadcast use axiom_trim; let t = trimmed(s); if t.contains(',') { lemma_before(t, ','); } }
#[verifier::external_body] pub fn to_string_(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn ne_(a: &String, b: &str) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
//@ fn src/core/helpers/gql_type.rs :: fn detect_gql_data_type
//@   opt /\bvalue\.trim\(\)/ => trim_(value)
//@   opt /\b(\w+)\.parse::<(\w+)>\(\)\.is_ok\(\)/ => is_\2_(\1)
//@   opt /\b(\w+)\.contains\((',')\)/ => contains_(\1, \2)
//@   opt /\b(\w+)\.split\((',')\)\.next\(\)/ => first_piece_(\1, \2)
//@   opt /("\w+")\.to_string\(\)/ => to_string_(\1)
//@   start broadcast use axiom_trim; proof { if trimmed(value@).contains(',') { lemma_before(trimmed(value@), ','); } }
//@   spec ensures r@ == data_type(value@) decreases value@.len()
pub mod json { pub enum Value { Null, Bool(bool), Number(u8), String(String), Array(Vec<Value>), Object(Vec<(String, Value)>) } }
pub use json::Value;
pub open spec fn type_of(v: Value) -> Seq<char> { match v { Value::Null => "JSON"@, Value::Bool(_) => "Boolean"@, Value::Number(_) => "Int"@, Value::String(_) => "String"@, Value::Array(_) => "List"@, Value::Object(_) => "Object"@ } }
//@ fn src/core/helpers/gql_type.rs :: fn to_gql_type
//@   opt /^(\s*fn.*?\{\s*)(match value \{.*\})\s*\.to_string\(\)/ => \1to_string_(\2)
//@   spec ensures r@ == type_of(*value)
//@ fn src/core/helpers/gql_type.rs :: fn is_primitive
//@   opt /\b(\w+) != (".*?")/ => ne_(&\1, \2)
//@   start proof { reveal_strlit("JSON"); reveal_strlit("Boolean"); reveal_strlit("Int"); reveal_strlit("String"); reveal_strlit("List"); reveal_strlit("Object"); assert("List"@.len() == 4 && "List"@[0] == 'L' && "JSON"@[0] == 'J' && "Boolean"@[0] == 'B' && "Int"@[0] == 'I' && "String"@[0] == 'S' && "Object"@[0] == 'O'); }
//@   spec ensures r == !(value is Array || value is Object)
// ---- names a GraphQL field may have
pub uninterp spec fn matching(rx: Seq<char>, s: Seq<char>) -> bool;
#[verifier::external_body] pub struct Regex { _k: u8 }
#[derive(Debug)] pub struct RegexError { pub e: u8 }
pub uninterp spec fn well_formed(rx: Seq<char>) -> bool;
impl Regex {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(s: &str) -> (r: Result<Regex, RegexError>) ensures well_formed(s@) ==> r is Ok && r->Ok_0.t() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == matching(self.t(), s@) { unimplemented!() }
}
pub open spec fn letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn field_name(s: Seq<char>) -> bool { s.len() > 0 && letter(s[0]) && forall|i: int| 0 < i < s.len() ==> letter(#[trigger] s[i]) || '0' <= s[i] <= '9' || s[i] == '_' }
// the regex crate's reading of this one pattern
pub broadcast axiom fn axiom_rx(s: Seq<char>) ensures well_formed("^[a-zA-Z][a-zA-Z0-9_]*$"@), #[trigger] matching("^[a-zA-Z][a-zA-Z0-9_]*$"@, s) == field_name(s);
//@ fn src/core/helpers/gql_type.rs :: fn is_valid_field_name
//@   opt /\br("[^"]*")/ => \1
//@   start broadcast use axiom_rx; proof { let b = matching("^[a-zA-Z][a-zA-Z0-9_]*$"@, property_name@); }
//@   spec ensures r == field_name(property_name@)
} // verus!
fn main() {}
