#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
pub mod m_path {
// Assumed shapes of async-graphql's values and of the context of a field, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
#[verifier::external_body] pub struct Number { _p: () }
impl Number { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body] pub struct Name { _p: () }
impl Name { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } #[verifier::external_body] pub fn str_(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body] pub struct Fields { _p: () }
#[verifier::external_body] pub struct Bytes { _p: () }
pub enum Value { Null, Number(Number), String(String), Boolean(bool), Binary(Bytes), Enum(Name), List(Vec<Value>), Object(Fields) }
// JSON's text
pub uninterp spec fn json_list(l: Seq<Value>) -> Seq<char>;
pub uninterp spec fn json_object(m: Fields) -> Seq<char>;
#[verifier::external_body] pub fn list_text_(l: &Vec<Value>) -> (r: String) ensures r@ == json_list(l@) { unimplemented!() }
#[verifier::external_body] pub fn object_text_(l: &Fields) -> (r: String) ensures r@ == json_object(*l) { unimplemented!() }
#[verifier::external_body] pub fn bool_text_(b: bool) -> (r: String) ensures r@ == (if b { "true"@ } else { "false"@ }) { unimplemented!() }
#[verifier::external_body] pub fn str_text_(b: &str) -> (r: String) ensures r@ == b@ { unimplemented!() }
// GraphQL's text
pub uninterp spec fn graphql_text(v: Value) -> Seq<char>;
impl Value { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == graphql_text(*self) { unimplemented!() } }
#[verifier::external_body] pub fn quoted_(b: &String) -> (r: String) ensures r@ == "\""@ + b@ + "\""@ { unimplemented!() }
pub enum Cow<'a, T> { Owned(T), Borrowed(&'a T) }
impl<'a, T> Cow<'a, T> { pub open spec fn it(&self) -> T { match self { Cow::Owned(t) => *t, Cow::Borrowed(t) => **t } } }
pub enum Text<'a> { Owned(String), Borrowed(&'a String) }
pub uninterp spec fn eq_lit(a: &str, b: &str) -> bool;
#[verifier::external_body] pub fn is_(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub open spec fn words(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// ---- what a field's templates can speak of: its parent, its arguments, the headers, the variables of the server and its environment
#[verifier::external_body] pub struct EvalContext { _p: () }
#[verifier::external_body] pub struct Vars { _p: () }
pub uninterp spec fn all_vars(c: EvalContext) -> Vars;
pub uninterp spec fn vars_text(v: Vars) -> Seq<char>;
#[verifier::external_body] pub fn vars_text_(v: &Vars) -> (r: String) ensures r@ == vars_text(*v) { unimplemented!() }
impl EvalContext {
    pub uninterp spec fn parent(&self, p: Seq<Seq<char>>) -> Option<Value>;
    pub uninterp spec fn arg(&self, p: Seq<Seq<char>>) -> Option<Value>;
    pub uninterp spec fn header_of(&self, k: Seq<char>) -> Option<Seq<char>>;
    pub uninterp spec fn var_of(&self, k: Seq<char>) -> Option<Seq<char>>;
    pub uninterp spec fn env_of(&self, k: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn path_value(&self, p: &[String]) -> (r: Option<Cow<'_, Value>>) ensures match r { Some(v) => self.parent(words(p@)) == Some(v.it()), None => self.parent(words(p@)) is None } { unimplemented!() }
    #[verifier::external_body] pub fn path_arg(&self, p: &[String]) -> (r: Option<Cow<'_, Value>>) ensures match r { Some(v) => self.arg(words(p@)) == Some(v.it()), None => self.arg(words(p@)) is None } { unimplemented!() }
    #[verifier::external_body] pub fn header(&self, k: &str) -> (r: Option<&String>) ensures match r { Some(v) => self.header_of(k@) == Some(v@), None => self.header_of(k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn var(&self, k: &str) -> (r: Option<&String>) ensures match r { Some(v) => self.var_of(k@) == Some(v@), None => self.var_of(k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn env_var(&self, k: &str) -> (r: Option<Cow<'_, String>>) ensures match r { Some(v) => self.env_of(k@) == Some(v.it()@), None => self.env_of(k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn vars(&self) -> (r: &Vars) ensures *r == all_vars(*self) { unimplemented!() }
}
pub enum ValueString<'a> { Value(Cow<'a, Value>), String(Cow<'a, String>) }
#[verifier::external_body] pub fn no_path_<'a>() -> (r: &'a [String]) ensures r@ == Seq::<String>::empty() { unimplemented!() }
#[verifier::external_body] pub fn split_first_(p: &[String]) -> (r: Option<(&String, &[String])>) ensures match r { Some((h, t)) => p@.len() > 0 && *h == p@[0] && t@ == p@.skip(1), None => p@.len() == 0 } { unimplemented!() }
} // verus!
}
use m_path::*;
verus! {
broadcast use axiom_string_ext;
// ---- the text of a value
pub open spec fn text_of(v: Value) -> Option<Seq<char>> { match v { Value::String(s) => Some(s@), Value::Number(n) => Some(n.text()), Value::Boolean(b) => Some(if b { "true"@ } else { "false"@ }), Value::Enum(e) => Some(e.text()), Value::List(l) => Some(json_list(l@)), Value::Object(m) => Some(json_object(m)), _ => None } }
//@ fn src/core/path.rs :: fn convert_value
//@   sub /value: Cow<'_, async_graphql::Value>/ => value: Cow<'_, Value>
//@   sub /Option<Cow<'_, str>>/ => Option<Cow<'_, String>>
//@   opt /async_graphql::/ => 
//@   opt /Cow::Borrowed\(s\.as_str\(\)\)/ => Cow::Borrowed(s)
//@   opt /Cow::Borrowed\(n\)\)/ => Cow::Owned(n.str_()))
//@   opt /Cow::Owned\(Value::Boolean\(b\)\) => Some\(Cow::Owned\(b\.to_string\(\)\)\)/ => Cow::Owned(Value::Boolean(b)) => Some(Cow::Owned(bool_text_(b)))
//@   opt /Cow::Borrowed\(Value::Boolean\(b\)\) => Some\(Cow::Owned\(b\.to_string\(\)\)\)/ => Cow::Borrowed(Value::Boolean(b)) => Some(Cow::Owned(bool_text_(*b)))
//@   opt /json!\(map\)\.to_string\(\)\.into\(\)/ => Cow::Owned(object_text_(&map))
//@   opt /json!\(list\)\.to_string\(\)\.into\(\)/ => Cow::Owned(list_text_(&list))
//@   spec ensures match r { Some(t) => text_of(value.it()) == Some(t.it()@), None => text_of(value.it()) is None }
// ---- what a path leads to
pub enum Found { Value(Value), Text(Seq<char>) }
pub open spec fn value_(o: Option<Value>) -> Option<Found> { match o { Some(v) => Some(Found::Value(v)), None => None } }
pub open spec fn text_(o: Option<Seq<char>>) -> Option<Found> { match o { Some(v) => Some(Found::Text(v)), None => None } }
pub open spec fn leads(c: EvalContext, p: Seq<Seq<char>>) -> Option<Found> {
    if p.len() == 0 { None }
    else if p[0] == "value"@ { value_(c.parent(p.skip(1))) }
    else if p[0] == "args"@ { value_(c.arg(p.skip(1))) }
    else if p[0] == "vars"@ { if p.len() == 1 { Some(Found::Text(vars_text(all_vars(c)))) } else { text_(c.var_of(p[1])) } }
    else if p.len() == 1 { None }
    else if p[0] == "headers"@ { text_(c.header_of(p[1])) }
    else if p[0] == "env"@ { text_(c.env_of(p[1])) }
    else { None }
}
pub open spec fn seen(r: Option<ValueString>) -> Option<Found> { match r { Some(ValueString::Value(v)) => Some(Found::Value(v.it())), Some(ValueString::String(t)) => Some(Found::Text(t.it()@)), None => None } }
pub proof fn lemma_words(p: Seq<String>) ensures words(p).len() == p.len(), p.len() > 0 ==> words(p.skip(1)) == words(p).skip(1), p.len() == 1 ==> words(p).skip(1) == words(Seq::<String>::empty()), p.len() > 0 ==> words(p)[0] == p[0]@, p.len() > 1 ==> words(p)[1] == p.skip(1)[0]@
{ assert(p.len() > 0 ==> words(p.skip(1)) =~= words(p).skip(1)); assert(p.len() == 1 ==> words(p).skip(1) =~= words(Seq::<String>::empty())); }
pub proof fn lemma_heads() ensures "value"@ != "args"@, "value"@ != "vars"@, "value"@ != "headers"@, "value"@ != "env"@, "args"@ != "vars"@, "args"@ != "headers"@, "args"@ != "env"@, "vars"@ != "headers"@, "vars"@ != "env"@, "headers"@ != "env"@
{ reveal_strlit("value"); reveal_strlit("args"); reveal_strlit("vars"); reveal_strlit("headers"); reveal_strlit("env"); assert("args"@[0] != "vars"@[0]); assert("value"@[1] == 'a'); assert("value"@.len() == 5); assert("headers"@.len() == 7); assert("env"@.len() == 3); assert("args"@.len() == 4); assert("vars"@.len() == 4); }
impl EvalContext {
//@ fn src/core/path.rs :: impl<Ctx: ResolverContextLike> EvalContext<'_, Ctx> :: fn to_raw_value
//@   sub /fn to_raw_value<T: AsRef<str>>\(&self, path: &\[T\]\)/ => fn to_raw_value(&self, path: &[String])
//@   opt /&\[\] as &\[T\]/ => no_path_()
//@   opt /path_arg::<&str>\(&\[\]\)/ => path_arg(no_path_())
//@   opt /path\.is_empty\(\)/ => path.len() == 0
//@   opt /match (path\[0\]|head)\.as_ref\(\) \{/ => match &\1 {
//@   opt /match &head \{/ => match head {
//@   opt /"(\w+)" =>/ => w_ if is_(w_, "\1") =>
//@   opt /tail\[0\]\.as_ref\(\)/ => tail[0].as_str()
//@   opt /json!\(ctx\.vars\(\)\)\.to_string\(\)/ => vars_text_(ctx.vars())
//@   opt /Some\(ValueString::String\(ctx\.env_var\((.*?)\)\?\)\)/ => Some(ValueString::String(ctx.env_var(\1)?))
//@   opt /path\s*\.split_first\(\)/ => split_first_(path)
//@   start proof { lemma_words(path@); lemma_heads(); }
//@   closurelet 1 |a0: (&String, &[String])| -> (o: Option<ValueString<'_>>) requires path@.len() > 1, *a0.0 == path@[0], a0.1@ == path@.skip(1) ensures seen(o) == leads(*self, words(path@))
//@   spec ensures seen(r) == leads(*self, words(path@))
//@ fn src/core/path.rs :: impl<Ctx: ResolverContextLike> PathString for EvalContext<'_, Ctx> :: fn path_string
//@   sub /fn path_string<T: AsRef<str>>\(&self, path: &\[T\]\)/ => fn path_string(&self, path: &[String])
//@   sub /Option<Cow<'_, str>>/ => Option<Cow<'_, String>>
//@   closure 1 |$0: ValueString<'_>| -> (o: Option<Cow<'_, String>>) ensures match o { Some(t) => text_found(seen(Some($0))) == Some(t.it()@), None => text_found(seen(Some($0))) is None }
//@   spec ensures match r { Some(t) => text_found(leads(*self, words(path@))) == Some(t.it()@), None => text_found(leads(*self, words(path@))) is None }
//@ fn src/core/path.rs :: impl<Ctx: ResolverContextLike> PathGraphql for EvalContext<'_, Ctx> :: fn path_graphql
//@   sub /fn path_graphql<T: AsRef<str>>\(&self, path: &\[T\]\)/ => fn path_graphql(&self, path: &[String])
//@   opt /format!\(r#""\{(\w+)\}""#\)/ => quoted_(&owned_(\1))
//@   opt /ValueString::Value\((\w+)\) => \1\.to_string\(\)/ => ValueString::Value(\1) => own_(\1).to_string()
//@   closure 1 |$0: ValueString<'_>| -> (o: String) ensures o@ == graphql_found(seen(Some($0))->0)
//@   spec ensures match r { Some(t) => path@.len() > 1 && leads(*self, words(path@)) is Some && t@ == graphql_found(leads(*self, words(path@))->0), None => path@.len() < 2 || leads(*self, words(path@)) is None }
}
#[verifier::external_body] pub fn own_<'a>(c: Cow<'a, Value>) -> (r: &'a Value) ensures *r == c.it() { unimplemented!() }
#[verifier::external_body] pub fn owned_(c: Cow<'_, String>) -> (r: String) ensures r@ == c.it()@ { unimplemented!() }
// as text, and in an operation
pub open spec fn text_found(f: Option<Found>) -> Option<Seq<char>> { match f { Some(Found::Value(v)) => text_of(v), Some(Found::Text(t)) => Some(t), None => None } }
pub open spec fn graphql_found(f: Found) -> Seq<char> { match f { Found::Value(v) => graphql_text(v), Found::Text(t) => "\""@ + t + "\""@ } }
} // verus!
fn main() {}
