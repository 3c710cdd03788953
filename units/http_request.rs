#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
//@ include prelude/headers.rs
pub mod m_http {
// Assumed shapes of url, http, reqwest and async-graphql's values, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
// ---- text
#[verifier::external_body] pub fn chars_(s: &str) -> (r: It<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn room_() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn add_(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] pub fn add_char_(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body] pub fn pair_(k: &str, v: &str) -> (r: String) ensures r@ == k@ + "="@ + v@ { unimplemented!() }
#[verifier::external_body] pub fn amp_(k: &str, v: &str) -> (r: String) ensures r@ == k@ + "&"@ + v@ { unimplemented!() }
#[verifier::external_body] pub fn owned_(k: &str) -> (r: String) ensures r@ == k@ { unimplemented!() }
#[verifier::external_body] pub fn empty_(k: &str) -> (r: bool) ensures r == (k@.len() == 0) { unimplemented!() }
pub open spec fn joined(v: Seq<String>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { joined(v.drop_last(), sep) + sep + v.last()@ } }
#[verifier::external_body] pub fn join_(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joined(v@, sep@) { unimplemented!() }
// ---- values
#[verifier::external_body] pub struct Number { _p: () }
impl Number { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body] pub struct Name { _p: () }
impl Name { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body] pub struct Fields { _p: () }
#[verifier::external_body] pub struct Bytes { _p: () }
pub enum Value { Null, Number(Number), String(String), Boolean(bool), Binary(Bytes), Enum(Name), List(Vec<Value>), Object(Fields) }
pub enum ValueString { Value(Value), String(String) }
#[verifier::external_body] pub fn bool_text_(b: bool) -> (r: String) ensures r@ == (if b { "true"@ } else { "false"@ }) { unimplemented!() }
} // verus!
}
use m_http::*;
verus! {
broadcast use axiom_string_ext;
// ---- a query string, as a server reads it: the parts between ampersands, each a name and, after the first equality sign, a value
pub open spec fn cut(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + cut(s.skip(1), c) } }
pub open spec fn split(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() { let n = cut(s, '&'); if 0 <= n < s.len() { seq![s.take(n)] + split(s.skip(n + 1)) } else { seq![s] } }
pub uninterp spec fn decode(s: Seq<char>) -> Seq<char>;
pub open spec fn read_one(p: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> { if p.len() == 0 { Seq::empty() } else { let n = cut(p, '='); seq![(decode(p.take(n)), if n < p.len() { decode(p.skip(n + 1)) } else { decode(Seq::empty()) })] } }
pub open spec fn read_all(p: Seq<Seq<char>>) -> Seq<(Seq<char>, Seq<char>)> decreases p.len() { if p.len() == 0 { Seq::empty() } else { read_one(p[0]) + read_all(p.skip(1)) } }
pub open spec fn read(q: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> { read_all(split(q)) }
// ---- escaping
pub open spec fn code(c: char) -> Seq<char> { if c == '%' { "%25"@ } else if c == '&' { "%26"@ } else if c == '=' { "%3D"@ } else if c == '+' { "%2B"@ } else if c == '\t' { "%09"@ } else if c == '\n' { "%0A"@ } else if c == '\r' { "%0D"@ } else { seq![c] } }
pub open spec fn esc(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() == 0 { Seq::empty() } else { esc(t.drop_last()) + code(t.last()) } }
// what is escaped is read back (assumed of the URL standard's parser: url escapes the rest of what has to be)
pub axiom fn axiom_decode(t: Seq<char>) ensures decode(esc(t)) == t;
pub broadcast proof fn lemma_bound(s: Seq<char>, c: char)
    ensures 0 <= #[trigger] cut(s, c) <= s.len(), cut(s, c) < s.len() ==> s[cut(s, c)] == c, forall|i: int| 0 <= i < cut(s, c) ==> s[i] != c
    decreases s.len()
{ if s.len() > 0 && s[0] != c { let t = s.skip(1); lemma_bound(t, c); assert forall|i: int| 0 <= i < cut(s, c) implies s[i] != c by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
pub proof fn lemma_cut(s: Seq<char>, c: char, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] != c, n < s.len() ==> s[n] == c
    ensures cut(s, c) == n
    decreases s.len()
{ lemma_bound(s, c); if cut(s, c) < n { assert(s[cut(s, c)] == c); } if n < cut(s, c) { assert(s[n] != c); } }
pub proof fn lemma_split(a: Seq<char>, b: Seq<char>)
    ensures split(a + seq!['&'] + b) == split(a) + split(b)
    decreases a.len()
{
    let s = a + seq!['&'] + b; let n = cut(a, '&'); lemma_bound(a, '&');
    if n < a.len() {
        lemma_cut(s, '&', n); let t = a.skip(n + 1); lemma_split(t, b);
        assert(s.take(n) =~= a.take(n)); assert(s.skip(n + 1) =~= t + seq!['&'] + b);
        assert(split(s) =~= split(a) + split(b));
    } else {
        lemma_cut(s, '&', n); assert(s.take(n) =~= a); assert(s.skip(n + 1) =~= b); assert(split(s) =~= split(a) + split(b));
    }
}
pub proof fn lemma_read_all(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures read_all(a + b) == read_all(a) + read_all(b)
    decreases a.len()
{ if a.len() == 0 { assert(a + b =~= b); assert(read_all(a + b) =~= read_all(a) + read_all(b)); } else { lemma_read_all(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b); assert(read_all(a + b) =~= read_all(a) + read_all(b)); } }
pub proof fn lemma_read(a: Seq<char>, b: Seq<char>)
    ensures read(a + "&"@ + b) == read(a) + read(b)
{ reveal_strlit("&"); assert("&"@ =~= seq!['&']); lemma_split(a, b); lemma_read_all(split(a), split(b)); }
pub proof fn lemma_none() ensures read(Seq::<char>::empty()) == Seq::<(Seq<char>, Seq<char>)>::empty()
{ reveal_with_fuel(read_all, 3); let e = Seq::<char>::empty(); assert(split(e) =~= seq![e]); assert(split(e).skip(1) =~= Seq::empty()); assert(read(e) =~= Seq::empty()); }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '&' && s[i] != '=' }
pub proof fn lemma_code(c: char) ensures plain(code(c)), code(c).len() > 0
{ reveal_strlit("%25"); reveal_strlit("%26"); reveal_strlit("%3D"); reveal_strlit("%2B"); reveal_strlit("%09"); reveal_strlit("%0A"); reveal_strlit("%0D"); }
pub proof fn lemma_plain(t: Seq<char>)
    ensures plain(esc(t)), (esc(t).len() == 0) == (t.len() == 0)
    decreases t.len()
{ if t.len() > 0 { lemma_plain(t.drop_last()); lemma_code(t.last()); } }
pub open spec fn pair(k: Seq<char>, v: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> { seq![(k, v)] }
// a name without a value
pub open spec fn alone(k: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> { if k.len() == 0 { Seq::empty() } else { seq![(k, Seq::<char>::empty())] } }
pub proof fn lemma_one(p: Seq<char>)
    requires forall|i: int| 0 <= i < p.len() ==> p[i] != '&'
    ensures read(p) == read_one(p)
{ reveal_with_fuel(read_all, 3); lemma_cut(p, '&', p.len() as int); assert(split(p) =~= seq![p]); assert(split(p).skip(1) =~= Seq::empty()); assert(read(p) =~= read_one(p)); }
pub proof fn lemma_pair(k: Seq<char>, v: Seq<char>)
    ensures read(esc(k) + "="@ + esc(v)) == pair(k, v)
{
    reveal_strlit("="); lemma_plain(k); lemma_plain(v); axiom_decode(k); axiom_decode(v);
    let p = esc(k) + "="@ + esc(v); let n = esc(k).len() as int;
    lemma_one(p); lemma_cut(p, '=', n); assert(p.take(n) =~= esc(k)); assert(p.skip(n + 1) =~= esc(v)); assert(read(p) =~= pair(k, v));
}
pub proof fn lemma_alone(k: Seq<char>)
    ensures read(esc(k)) == alone(k)
{
    lemma_plain(k); axiom_decode(k); axiom_decode(Seq::empty()); let p = esc(k); lemma_one(p); lemma_cut(p, '=', p.len() as int); assert(p.take(p.len() as int) =~= p); assert(esc(Seq::<char>::empty()) =~= Seq::empty()); assert(read(p) =~= alone(k));
}
//@ fn src/core/http/query_encoder.rs :: fn escape
//@   opt /String::with_capacity\(text\.len\(\)\)/ => room_()
//@   opt /text\.chars\(\)/ => chars_(text)
//@   opt /escaped\.push_str\(/ => add_(&mut escaped, 
//@   opt /escaped\.push\(/ => add_char_(&mut escaped, 
//@   loop 1 it=it invariant it.seq() == text@, escaped@ == esc(text@.take(it.index() as int))
//@   loopend 1 proof { let t = text@.take(it.index() + 1); assert(t.drop_last() =~= text@.take(it.index() as int)); assert(t.last() == text@[it.index() as int]); assert(escaped@ =~= esc(t)); }
//@   tail proof { assert(text@.take(text@.len() as int) =~= text@); }
//@   spec ensures r@ == esc(text@)
// the text of a plain value
pub open spec fn text_of(v: Value) -> Option<Seq<char>> { match v { Value::String(s) => Some(s@), Value::Number(n) => Some(n.text()), Value::Boolean(b) => Some(if b { "true"@ } else { "false"@ }), Value::Enum(e) => Some(e.text()), _ => None } }
pub proof fn lemma_bools() ensures esc("true"@) == "true"@, esc("false"@) == "false"@
{
    reveal_strlit("true"); reveal_strlit("false"); reveal_with_fuel(esc, 6);
    let t = "true"@; assert(esc(t) =~= t); let f = "false"@; assert(esc(f) =~= f);
}
//@ fn src/core/http/query_encoder.rs :: fn convert_value
//@   opt /async_graphql::/ => 
//@   opt /escape\(e\)/ => escape(e.as_str())
//@   opt /escape\(&n\.to_string\(\)\)/ => escape(n.to_string().as_str())
//@   opt /escape\(s\)/ => escape(s.as_str())
//@   opt /b\.to_string\(\)/ => bool_text_(*b)
//@   start proof { lemma_bools(); }
//@   spec ensures match r { Some(s) => text_of(*value) is Some && s@ == esc(text_of(*value)->0), None => text_of(*value) is None }
//@ item src/core/http/query_encoder.rs :: enum QueryEncoder
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /#\[default\]/ => 
pub open spec fn texts(l: Seq<Value>) -> Seq<Seq<char>> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let t = texts(l.drop_last()); match text_of(l.last()) { Some(x) => t.push(x), None => t } } }
pub open spec fn joint(t: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases t.len() { if t.len() == 0 { Seq::empty() } else if t.len() == 1 { t[0] } else { joint(t.drop_last(), sep) + sep + t.last() } }
// what a server reads of a parameter: plain values as text, the items of a list one after another, anything else as the name alone
pub open spec fn sent(e: QueryEncoder, k: Seq<char>, v: Value) -> Seq<(Seq<char>, Seq<char>)> decreases v, 1int, 0int {
    match v {
        Value::List(l) if l@.len() > 0 => match e { QueryEncoder::CommaSeparated => if texts(l@).len() == 0 { alone(k) } else { pair(k, joint(texts(l@), ","@)) }, QueryEncoder::RepeatedKey => sent_list(e, k, v, l@.len() as int) },
        _ => match text_of(v) { Some(t) => pair(k, t), None => alone(k) },
    }
}
pub open spec fn sent_list(e: QueryEncoder, k: Seq<char>, v: Value, n: int) -> Seq<(Seq<char>, Seq<char>)> decreases v, 0int, n { match v { Value::List(l) if 0 < n <= l@.len() => sent_list(e, k, v, n - 1) + sent(e, k, l@[n - 1]), _ => Seq::empty() } }
pub open spec fn sent_any(e: QueryEncoder, k: Seq<char>, v: Option<ValueString>) -> Seq<(Seq<char>, Seq<char>)> { match v { Some(ValueString::Value(c)) => sent(e, k, c), Some(ValueString::String(t)) => pair(k, t@), None => alone(k) } }
pub proof fn lemma_esc(a: Seq<char>, b: Seq<char>)
    ensures esc(a + b) == esc(a) + esc(b)
    decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(esc(a) + esc(b) =~= esc(a)); } else { lemma_esc(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(esc(a + b) =~= esc(a) + esc(b)); } }
pub proof fn lemma_joint(v: Seq<String>, t: Seq<Seq<char>>)
    requires v.len() == t.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == esc(t[i])
    ensures joined(v, ","@) == esc(joint(t, ","@))
    decreases v.len()
{
    if v.len() > 1 {
        lemma_joint(v.drop_last(), t.drop_last()); reveal_strlit(","); reveal_with_fuel(esc, 3); assert(esc(","@) =~= ","@);
        assert(v.last()@ == esc(t.last())) by { assert(v[v.len() - 1]@ == esc(t[t.len() - 1])); }
        lemma_esc(joint(t.drop_last(), ","@), ","@); lemma_esc(joint(t.drop_last(), ","@) + ","@, t.last());
    } else if v.len() == 1 { assert(v[0]@ == esc(t[0])); } else { assert(joined(v, ","@) =~= esc(joint(t, ","@))); }
}
pub open spec fn given(o: Option<String>, v: Value) -> bool { match o { Some(s) => text_of(v) is Some && s@ == esc(text_of(v)->0), None => text_of(v) is None } }
pub proof fn lemma_texts(o: Seq<Option<String>>, l: Seq<Value>)
    requires o.len() == l.len(), forall|i: int| 0 <= i < o.len() ==> given(#[trigger] o[i], l[i])
    ensures somes(o).len() == texts(l).len(), forall|i: int| 0 <= i < texts(l).len() ==> (#[trigger] somes(o)[i])@ == esc(texts(l)[i])
    decreases l.len()
{ if l.len() > 0 { assert forall|i: int| 0 <= i < o.drop_last().len() implies given(#[trigger] o.drop_last()[i], l.drop_last()[i]) by { assert(given(o[i], l[i])); } lemma_texts(o.drop_last(), l.drop_last()); assert(given(o[o.len() - 1], l[l.len() - 1])); } }
pub open spec fn all_given(o: Seq<Option<String>>, l: Seq<Value>) -> bool { o.len() == l.len() && forall|i: int| 0 <= i < o.len() ==> given(#[trigger] o[i], l[i]) }
pub proof fn lemma_kept_texts(v: Seq<String>, l: Seq<Value>)
    requires exists|o: Seq<Option<String>>| all_given(o, l) && v == #[trigger] somes(o)
    ensures v.len() == texts(l).len(), forall|i: int| 0 <= i < texts(l).len() ==> (#[trigger] v[i])@ == esc(texts(l)[i])
{ let o = choose|o: Seq<Option<String>>| all_given(o, l) && v == #[trigger] somes(o); lemma_texts(o, l); }
pub proof fn lemma_sent(v: Seq<String>, e: QueryEncoder, k: Seq<char>, x: Value, n: int)
    requires x is List, v.len() == n <= x->List_0@.len(), forall|i: int| 0 <= i < n ==> read((#[trigger] v[i])@) == sent(e, k, x->List_0@[i])
    ensures read(joined(v, "&"@)) == sent_list(e, k, x, n)
    decreases n
{
    lemma_none();
    if n > 1 { assert forall|i: int| 0 <= i < n - 1 implies read((#[trigger] v.drop_last()[i])@) == sent(e, k, x->List_0@[i]) by { assert(read(v[i]@) == sent(e, k, x->List_0@[i])); } lemma_sent(v.drop_last(), e, k, x, n - 1); lemma_read(joined(v.drop_last(), "&"@), v.last()@); assert(v[n - 1] == v.last()); assert(read(v[n - 1]@) == sent(e, k, x->List_0@[n - 1])); }
    else if n == 1 { reveal_with_fuel(sent_list, 3); assert(read(v[0]@) == sent(e, k, x->List_0@[0])); assert(sent_list(e, k, x, 1) =~= sent(e, k, x->List_0@[0])); }
}
impl QueryEncoder {
//@ fn src/core/http/query_encoder.rs :: impl QueryEncoder :: fn encode_const_value
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   opt /async_graphql::/ => 
//@   opt /format!\("\{\}=\{\}", key, encoded_values\.join\(","\)\)/ => { proof { lemma_joint(encoded_values@, texts(list@)); lemma_pair(decode(key@), joint(texts(list@), ","@)); } pair_(key, join_(&encoded_values, ",").as_str()) }
//@   opt /format!\("\{\}=\{\}", key, val\)/ => pair_(key, val.as_str())
//@   opt /key\.to_string\(\)/ => owned_(key)
//@   opt /encoded_values\.join\(("[^"]*")\)/ => { proof { lemma_sent(encoded_values@, *self, decode(key@), *value, encoded_values@.len() as int); } join_(&encoded_values, \1) }
//@   opt /list\s*\.iter\(\)\s*\.filter_map\(convert_value\)\.collect\(\);/ => list.it_().filter_map(|v_| convert_value(v_)).vec_(); proof { lemma_kept_texts(encoded_values@, list@); }
//@   opt /list\s*\.iter\(\)/ => list.it_()
//@   opt /\.collect\(\)/ => .vec_()
//@   closure /^convert_value/ |$0: &Value| -> (o: Option<String>) ensures given(o, *$0)
//@   closure /encode_const_value/ |$0: &Value| -> (o: String) ensures read(o@) == sent(*self, decode(key@), *$0)
//@   closure /^pair_/ |$0: String| -> (o: String) ensures o@ == key@ + "="@ + $0@
//@   tail proof { lemma_alone(decode(key@)); if text_of(*value) is Some { lemma_pair(decode(key@), text_of(*value)->0); } }
//@   spec requires key@ == esc(decode(key@)) ensures read(r@) == sent(*self, decode(key@), *value)
//@ fn src/core/http/query_encoder.rs :: impl QueryEncoder :: fn encode
//@   opt /format!\("\{\}=\{\}", key, escape\(val\)\)/ => pair_(key.as_str(), escape(val.as_str()).as_str())
//@   start proof { axiom_decode(key@); lemma_alone(key@); if raw_value is Some && raw_value->0 is String { lemma_pair(key@, raw_value->0->String_0@); } }
//@   spec ensures read(r@) == sent_any(*self, key@, raw_value)
}

} // verus!
pub mod m_fold {
use vstd::prelude::*;
use super::*;
verus! {
// Iterator::fold
pub open spec fn accum<B, T, F: Fn(B, T) -> B>(f: F, s: Seq<T>, init: B, a: Seq<B>) -> bool { a.len() == s.len() + 1 && a[0] == init && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> f.ensures((a[i], s[i]), a[i + 1]) }
impl<T> It<T> { #[verifier::external_body] pub fn fold<B, F: Fn(B, T) -> B>(self, init: B, f: F) -> (r: B) requires forall|b: B, t: T| #[trigger] f.requires((b, t)) ensures exists|a: Seq<B>| #[trigger] accum(f, self@, init, a) && r == a.last() { unimplemented!() } }
} // verus!
}
pub use m_fold::*;
pub mod m_req {
// Assumed shapes of the rest of url, http, reqwest, serde_json and serde_urlencoded, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
pub mod anyhow { pub type Result<T> = core::result::Result<T, super::Error>; }
// ---- an address: what comes before the query, and the query
pub struct Link { pub rest: Seq<char>, pub query: Option<Seq<char>> }
pub open spec fn params(u: Link) -> Seq<(Seq<char>, Seq<char>)> { match u.query { Some(q) => read(q), None => Seq::empty() } }
pub uninterp spec fn parsed(t: Seq<char>) -> Option<Link>;
#[verifier::external_body] pub struct Url { _p: () }
impl View for Url { type V = Link; uninterp spec fn view(&self) -> Link; }
pub open spec fn texts2(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
impl Url {
    #[verifier::external_body] pub fn parse(t: &str) -> (r: anyhow::Result<Url>) ensures match r { Ok(u) => parsed(t@) == Some(u@), Err(_) => parsed(t@) is None } { unimplemented!() }
    // the pairs a reader sees in it
    #[verifier::external_body] pub fn query_pairs(&self) -> (r: It<(String, String)>) ensures texts2(r@) == params(self@) { unimplemented!() }
    #[verifier::external_body] pub fn set_query(&mut self, q: Option<&str>) ensures final(self)@ == (Link { rest: old(self)@.rest, query: match q { Some(t) => Some(t@), None => None } }) { unimplemented!() }
}
#[verifier::external_body] pub struct Method { _p: () }
impl Method { pub uninterp spec fn is_get(&self) -> bool; #[verifier::external_body] pub fn clone(&self) -> (r: Method) ensures r == *self { unimplemented!() } #[verifier::external_body] pub fn not_get_(&self) -> (r: bool) ensures r == !self.is_get() { unimplemented!() } }
// ---- a request
pub struct Asked { pub method: Method, pub url: Link, pub headers: Held, pub body: Option<Seq<char>> }
pub mod reqwest {
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct Request { _p: () }
impl View for Request { type V = Asked; uninterp spec fn view(&self) -> Asked; }
impl Request {
    #[verifier::external_body] pub fn new(m: Method, u: Url) -> (r: Request) ensures r@ == (Asked { method: m, url: u@, headers: Map::empty(), body: None }) { unimplemented!() }
    #[verifier::external_body] pub fn headers_mut(&mut self) -> (r: &mut HeaderMap) ensures r@ == old(self)@.headers, final(self)@ == (Asked { headers: final(r)@, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_body_(&mut self, t: String) ensures final(self)@ == (Asked { body: Some(t@), ..old(self)@ }) { unimplemented!() }
}
}
}
// ---- reading JSON, writing a form
#[verifier::external_body] pub struct Json { _p: () }
pub uninterp spec fn json_of(t: Seq<char>) -> Option<Json>;
pub uninterp spec fn form_of(j: Json) -> Option<Seq<char>>;
#[verifier::external_body] pub fn from_json_(t: &str) -> (r: core::result::Result<Json, Error>) ensures match r { Ok(v) => json_of(t@) == Some(v), Err(_) => json_of(t@) is None } { unimplemented!() }
#[verifier::external_body] pub fn to_form_(j: Json) -> (r: core::result::Result<String, Error>) ensures match r { Ok(v) => form_of(j) == Some(v@), Err(_) => form_of(j) is None } { unimplemented!() }
pub open spec fn words(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// ---- what a template is filled from: the traits PathString, PathValue and HasHeaders
pub trait PathString { spec fn at(&self, p: Seq<Seq<char>>) -> Option<Seq<char>>; fn path_string(&self, p: &Vec<String>) -> (r: Option<String>) ensures match r { Some(t) => self.at(words(p@)) == Some(t@), None => self.at(words(p@)) is None };
    spec fn value_at(&self, p: Seq<Seq<char>>) -> Option<ValueString>; fn raw_value(&self, p: &Vec<String>) -> (r: Option<ValueString>) ensures r == self.value_at(words(p@));
    spec fn passed(&self) -> Held; fn headers(&self) -> (r: &HeaderMap) ensures r@ == self.passed(); }
pub trait PathValue { }
pub trait HasHeaders { }
impl<T: PathString> PathValue for T { }
impl<T: PathString> HasHeaders for T { }
// a template's pieces, and their text
pub open spec fn piece<C: PathString>(s: Segment, c: C) -> Seq<char> { match s { Segment::Literal(t) => t@, Segment::Expression(p) => match c.at(words(p@)) { Some(t) => t, None => Seq::empty() } } }
pub open spec fn filled<C: PathString>(v: Seq<Segment>, c: C) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { filled(v.drop_last(), c) + piece(v.last(), c) } }
pub open spec fn no_expression(v: Seq<Segment>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Literal }
impl Mustache {
    // both under contract in C18's unit
    #[verifier::external_body] pub fn render<C: PathString>(&self, c: &C) -> (r: String) ensures r@ == filled(self.0@, *c) { unimplemented!() }
    #[verifier::external_body] pub fn is_const(&self) -> (r: bool) ensures r == no_expression(self.0@) { unimplemented!() }
//@ fn src/core/mustache/model.rs :: impl Mustache :: fn segments vis=pub
//@   spec ensures *r == self.0
}
//@ item src/core/mustache/model.rs :: struct Mustache
//@ item src/core/mustache/model.rs :: enum Segment
} // verus!
}
use m_req::*;
verus! {
// ---- the request of a template
//@ item src/core/config/config.rs :: enum Encoding
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /#\[default\]/ => 
pub struct Query { pub key: String, pub value: Mustache, pub skip_empty: bool }
//@ text src/core/http/request_template.rs /pub struct Query\{pub key:String,pub value:Mustache,pub skip_empty:bool,?\}/
pub struct RequestTemplate { pub root_url: Mustache, pub query: Vec<Query>, pub method: Method, pub headers: Vec<(HeaderName, Mustache)>, pub body_path: Option<Mustache>, pub encoding: Encoding, pub query_encoder: QueryEncoder }
pub struct ValueStringEval<A>(pub core::marker::PhantomData<A>);
impl<A> ValueStringEval<A> { pub fn default() -> Self { Self(core::marker::PhantomData) } }
pub struct ExpressionValueEval<A>(pub core::marker::PhantomData<A>);
impl<A> ExpressionValueEval<A> { pub fn default() -> Self { Self(core::marker::PhantomData) } }
// what a template stands for: the value, if it is a single expression, text otherwise, nothing if there is nothing in it
pub open spec fn worth<C: PathString>(v: Seq<Segment>, c: C) -> Option<ValueString> {
    if v.len() == 1 { match v[0] { Segment::Expression(p) => c.value_at(words(p@)), Segment::Literal(t) => Some(ValueString::Value(Value::String(t))) } } else { None }
}
pub open spec fn is_worth<C: PathString>(r: Option<ValueString>, v: Seq<Segment>, c: C) -> bool {
    if v.len() == 0 { r is None } else if v.len() > 1 { r matches Some(ValueString::String(t)) && t@ == filled(v, c) } else { match v[0] { Segment::Expression(p) => r == c.value_at(words(p@)), Segment::Literal(t) => r matches Some(ValueString::Value(Value::String(u))) && u@ == t@ } }
}
impl<A: PathString> ValueStringEval<A> {
//@ fn src/core/http/request_template.rs :: impl<'a, A: PathValue + PathString> Eval<'a> for ValueStringEval<A> :: fn eval
//@   sub /Self::In/ => A
//@   sub /Self::Out/ => Option<ValueString>
//@   sub /fn eval\(/ => fn eval<'a>(
//@   opt /Cow::Owned\(/ => cow_(
//@   opt /async_graphql::/ => 
//@   opt /text\.to_owned\(\)/ => owned_(text.as_str())
//@   opt /segments\.first\(\)\?/ => first_(segments)?
//@   spec ensures is_worth(r, mustache.0@, *in_value)
}
pub fn cow_<T>(v: T) -> (r: T) ensures r == v { v }
#[verifier::external_body] pub fn first_(v: &Vec<Segment>) -> (r: Option<&Segment>) ensures match r { Some(s) => v@.len() > 0 && *s == v@[0], None => v@.len() == 0 } { unimplemented!() }
// the first expression that has something to say
pub open spec fn first_said<C: PathString>(v: Seq<Segment>, c: C) -> Option<Seq<char>> decreases v.len() {
    if v.len() == 0 { None } else { match first_said(v.drop_last(), c) { Some(t) => Some(t), None => match v.last() { Segment::Expression(p) => c.at(words(p@)), _ => None } } }
}
impl<A: PathString> ExpressionValueEval<A> {
//@ fn src/core/http/request_template.rs :: impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> :: fn eval
//@   sub /Self::In/ => A
//@   sub /Self::Out/ => (String, Option<String>)
//@   sub /fn eval\(/ => fn eval<'a>(
//@   opt /let mut result = String::new\(\);/ => let mut result = room_();
//@   opt /let mut first_expression_value = None;/ => let mut first_expression_value: Option<String> = None;
//@   opt /mustache\.segments\(\)\.iter\(\)/ => mustache.segments().it_()
//@   opt /result\.push_str\(text\)/ => add_(&mut result, text.as_str())
//@   opt /result\.push_str\(value\.as_ref\(\)\)/ => add_(&mut result, value.as_str())
//@   opt /value\.into_owned\(\)/ => value
//@   loop 1 it=it invariant refs(it.seq()) == mustache.0@, it.seq().len() == mustache.0@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == mustache.0@[i], result@ == filled(mustache.0@.take(it.index() as int), *in_value), match first_expression_value { Some(t) => first_said(mustache.0@.take(it.index() as int), *in_value) == Some(t@), None => first_said(mustache.0@.take(it.index() as int), *in_value) is None }
//@   loopstart 1 proof { let t = mustache.0@.take(it.index() + 1); assert(t.drop_last() =~= mustache.0@.take(it.index() as int)); assert(t.last() == mustache.0@[it.index() as int]); assert(filled(t, *in_value) == filled(t.drop_last(), *in_value) + piece(t.last(), *in_value)); assert(filled(t.drop_last(), *in_value) + Seq::<char>::empty() =~= filled(t.drop_last(), *in_value)); }
//@   tail proof { assert(mustache.0@.take(mustache.0@.len() as int) =~= mustache.0@); }
//@   spec ensures r.0@ == filled(mustache.0@, *in_value), match r.1 { Some(t) => first_said(mustache.0@, *in_value) == Some(t@), None => first_said(mustache.0@, *in_value) is None }
}
// ---- the address
// what is sent for one parameter: nothing if it's to be left out when there is no value for it
pub open spec fn sent_query(o: Option<Seq<(Seq<char>, Seq<char>)>>, e: QueryEncoder, q: Query, w: Option<ValueString>) -> bool { if q.skip_empty && w is None { o is None } else { o == Some(sent_any(e, q.key@, w)) } }
pub open spec fn opt_read(o: Option<String>) -> Option<Seq<(Seq<char>, Seq<char>)>> { match o { Some(t) => Some(read(t@)), None => None } }
pub open spec fn answers<C: PathString>(o: Option<String>, e: QueryEncoder, q: Query, c: C) -> bool { exists|w: Option<ValueString>| #[trigger] is_worth(w, q.value.0@, c) && sent_query(opt_read(o), e, q, w) }
// one after the other, whether or not there is something on both sides
pub open spec fn joins(o: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool { read(o) == read(a) + read(b) || (a.len() == 0 && o == b) || (b.len() == 0 && o == a) }
pub proof fn lemma_nothing(t: Seq<char>) ensures t.len() == 0 ==> read(t) == Seq::<(Seq<char>, Seq<char>)>::empty() { lemma_none(); if t.len() == 0 { assert(t =~= Seq::empty()); } }
pub open spec fn reads(v: Seq<String>) -> Seq<(Seq<char>, Seq<char>)> decreases v.len() { if v.len() == 0 { Seq::empty() } else { reads(v.drop_last()) + read(v.last()@) } }
pub proof fn lemma_reads(a: Seq<String>, b: Seq<String>) ensures reads(a + b) == reads(a) + reads(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(reads(a) + reads(b) =~= reads(a)); } else { lemma_reads(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(reads(a + b) =~= reads(a) + reads(b)); } }
pub open spec fn steps(a: Seq<String>, v: Seq<String>) -> bool { a.len() == v.len() + 1 && a[0]@.len() == 0 && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> joins(a[i + 1]@, a[i]@, v[i]@) }
pub proof fn lemma_steps(a: Seq<String>, v: Seq<String>) requires steps(a, v) ensures read(a.last()@) == reads(v) decreases v.len()
{
    lemma_nothing(a[0]@);
    if v.len() > 0 {
        let n = v.len() - 1;
        assert forall|i: int| #![trigger v.drop_last()[i]] 0 <= i < n implies joins(a.drop_last()[i + 1]@, a.drop_last()[i]@, v.drop_last()[i]@) by { assert(joins(a[i + 1]@, a[i]@, v[i]@)); }
        lemma_steps(a.drop_last(), v.drop_last()); assert(joins(a[n + 1]@, a[n]@, v[n]@)); lemma_nothing(a[n]@); lemma_nothing(v[n]@);
        assert(read(a.last()@) =~= reads(v));
    }
}
pub open spec fn paired(m: Seq<String>, b: Seq<(String, String)>) -> bool { m.len() == b.len() && forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> read(m[i]@) == pair(b[i].0@, b[i].1@) }
pub proof fn lemma_paired(m: Seq<String>, b: Seq<(String, String)>) requires paired(m, b) ensures reads(m) == texts2(b) decreases m.len()
{ if m.len() > 0 { let n = m.len() - 1; assert forall|i: int| #![trigger m.drop_last()[i]] 0 <= i < n implies read(m.drop_last()[i]@) == pair(b.drop_last()[i].0@, b.drop_last()[i].1@) by { assert(read(m[i]@) == pair(b[i].0@, b[i].1@)); } lemma_paired(m.drop_last(), b.drop_last()); assert(read(m[n]@) == pair(b[n].0@, b[n].1@)); assert(reads(m) =~= texts2(b)); } else { assert(reads(m) =~= texts2(b)); } }
pub open spec fn kept_pairs(o: Seq<Option<(String, String)>>, p: Seq<(String, String)>) -> bool { o.len() == p.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] == (if p[i].1@.len() == 0 { None } else { Some(p[i]) }) }
pub proof fn lemma_kept_pairs(o: Seq<Option<(String, String)>>, p: Seq<(String, String)>) requires kept_pairs(o, p) ensures texts2(somes(o)) == valued(texts2(p)) decreases p.len()
{
    if p.len() > 0 { let n = p.len() - 1; assert forall|i: int| #![trigger o.drop_last()[i]] 0 <= i < n implies o.drop_last()[i] == (if p.drop_last()[i].1@.len() == 0 { None } else { Some(p.drop_last()[i]) }) by { assert(o[i] == (if p[i].1@.len() == 0 { None } else { Some(p[i]) })); } lemma_kept_pairs(o.drop_last(), p.drop_last()); assert(o[n] == (if p[n].1@.len() == 0 { None } else { Some(p[n]) })); assert(texts2(p).drop_last() =~= texts2(p.drop_last())); assert(texts2(somes(o)) =~= valued(texts2(p))); }
    else { assert(texts2(somes(o)) =~= valued(texts2(p))); }
}
pub open spec fn all_answer<C: PathString>(o: Seq<Option<String>>, q: Seq<Query>, e: QueryEncoder, c: C) -> bool { o.len() == q.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> answers(o[i], e, q[i], c) }
pub proof fn lemma_answers<C: PathString>(o: Seq<Option<String>>, q: Seq<Query>, e: QueryEncoder, c: C) requires all_answer(o, q, e, c) ensures exists|w: Seq<Option<ValueString>>| #[trigger] all_worth(w, q, c) && reads(somes(o)) == sent_all(w, e, q) decreases q.len()
{
    if q.len() == 0 { let w = Seq::<Option<ValueString>>::empty(); assert(all_worth(w, q, c)); assert(reads(somes(o)) =~= sent_all(w, e, q)); }
    else {
        let n = q.len() - 1;
        assert forall|i: int| #![trigger o.drop_last()[i]] 0 <= i < n implies answers(o.drop_last()[i], e, q.drop_last()[i], c) by { assert(answers(o[i], e, q[i], c)); }
        lemma_answers(o.drop_last(), q.drop_last(), e, c); assert(answers(o[n], e, q[n], c));
        let w0 = choose|w: Seq<Option<ValueString>>| #[trigger] all_worth(w, q.drop_last(), c) && reads(somes(o.drop_last())) == sent_all(w, e, q.drop_last());
        let x = choose|x: Option<ValueString>| #[trigger] is_worth(x, q[n].value.0@, c) && sent_query(opt_read(o[n]), e, q[n], x);
        let w = w0.push(x);
        assert(w.drop_last() =~= w0);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] is_worth(w[i], q[i].value.0@, c) by { if i < n { assert(is_worth(w0[i], q.drop_last()[i].value.0@, c)); } }
        assert(all_worth(w, q, c));
        if o[n] is Some { let s = somes(o); assert(s.drop_last() =~= somes(o.drop_last())); }
        assert(reads(somes(o)) =~= sent_all(w, e, q));
    }
}
// the whole of what is sent, from what each step gives
pub proof fn lemma_url<C: PathString>(q: String, b: Seq<(String, String)>, p: Seq<(Seq<char>, Seq<char>)>, x: Seq<String>, qs: Seq<Query>, e: QueryEncoder, c: C)
    requires
        exists|a: Seq<String>, m: Seq<String>| #![trigger a.last(), m + x] q == a.last() && steps(a, m + x) && paired(m, b),
        exists|o: Seq<Option<(String, String)>>, s: Seq<(String, String)>| #![trigger somes(o), texts2(s)] b == somes(o) && texts2(s) == p && kept_pairs(o, s),
        exists|o: Seq<Option<String>>| x == #[trigger] somes(o) && all_answer(o, qs, e, c),
    ensures exists|w: Seq<Option<ValueString>>| #[trigger] all_worth(w, qs, c) && read(q@) == valued(p) + sent_all(w, e, qs)
{
    let (a, m) = choose|a: Seq<String>, m: Seq<String>| #![trigger a.last(), m + x] q == a.last() && steps(a, m + x) && paired(m, b);
    lemma_steps(a, m + x); lemma_reads(m, x); lemma_paired(m, b);
    let (o, s) = choose|o: Seq<Option<(String, String)>>, s: Seq<(String, String)>| #![trigger somes(o), texts2(s)] b == somes(o) && texts2(s) == p && kept_pairs(o, s);
    lemma_kept_pairs(o, s);
    let o2 = choose|o: Seq<Option<String>>| x == #[trigger] somes(o) && all_answer(o, qs, e, c);
    lemma_answers(o2, qs, e, c);
}
impl RequestTemplate {
//@ fn src/core/http/request_template.rs :: impl RequestTemplate :: fn create_headers
//@   sub /&self\.headers/ => self.headers.it_()
//@   opt /HeaderValue::from_str\(&v\.render\(ctx\)\)/ => HeaderValue::from_str(v.render(ctx).as_str())
//@   loop 1 it=it var=e_ invariant it.seq().len() == self.headers@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger self.headers@[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.headers@[i], header_map@ == own(self.headers@, it.index() as int, *ctx)
//@   spec ensures r@ == own(self.headers@, self.headers@.len() as int, *ctx)
//@ fn src/core/http/request_template.rs :: impl RequestTemplate :: fn set_headers
//@   start proof { assert(over(req@.headers, Map::empty()) =~= req@.headers); }
//@   opt /self\.method != reqwest::Method::GET/ => self.method.not_get_()
//@   opt /reqwest::header::CONTENT_TYPE/ => &content_type_()
//@   spec ensures r@ == (Asked { headers: headed(*self, req@.headers, *ctx), ..req@ })
//@ fn src/core/http/request_template.rs :: impl RequestTemplate :: fn set_body
//@   opt /req\.body_mut\(\)\.replace\(body\.into\(\)\)/ => req.set_body_(body)
//@   opt /req\.body_mut\(\)\.replace\(form_data\.into\(\)\)/ => req.set_body_(form_data)
//@   opt /serde_json::from_str::<serde_json::Value>\(&body\)/ => from_json_(body.as_str())
//@   opt /serde_urlencoded::to_string\(/ => to_form_(
//@   spec ensures match r { Ok(d) => filled_body(*self, *ctx) is Some && d.request@ == (match filled_body(*self, *ctx)->0 { Some(t) => Asked { body: Some(t), ..req@ }, None => req@ }) && group_key(d.batching_value, *self, *ctx), Err(_) => filled_body(*self, *ctx) is None }
//@ fn src/core/http/request_template.rs :: impl RequestTemplate :: fn to_request
//@   spec ensures match r { Ok(d) => to_url(d.request@.url, *self, *ctx) && filled_body(*self, *ctx) is Some && d.request@ == (Asked { method: self.method, url: d.request@.url, headers: headed(*self, Map::empty(), *ctx), body: filled_body(*self, *ctx)->0 }) && group_key(d.batching_value, *self, *ctx), Err(_) => parsed(filled(self.root_url.0@, *ctx)) is None || filled_body(*self, *ctx) is None }
//@ fn src/core/http/request_template.rs :: impl RequestTemplate :: fn create_url
//@   sub /url::Url::parse\(/ => Url::parse(
//@   opt /self\.query\.iter\(\)/ => self.query.it_()
//@   opt /if (\w)\.is_empty\(\)/ => if empty_(\1.as_str())
//@   opt /escape\(&k\)/ => escape(k.as_str())
//@   opt /escape\(&v\)/ => escape(v.as_str())
//@   opt /format!\("\{\}=\{\}", escape\(k\.as_str\(\)\), escape\(v\.as_str\(\)\)\)/ => { proof { lemma_pair(k@, v@); } pair_(escape(k.as_str()).as_str(), escape(v.as_str()).as_str()) }
//@   opt /"" *\.to_string\(\)/ => room_()
//@   opt /str\.is_empty\(\)/ => empty_(str.as_str())
//@   opt /item\.is_empty\(\)/ => empty_(item.as_str())
//@   opt /if qp_string\.is_empty\(\)/ => proof { lemma_nothing(qp_string@); lemma_url(qp_string, base_qp@, params(url@), extra_qp@, self.query@, self.query_encoder, *ctx); } if empty_(qp_string.as_str())
//@   opt /format!\("\{\}&\{\}", str, item\)/ => { proof { lemma_read(str@, item@); } amp_(str.as_str(), item.as_str()) }
//@   closure /mustache_eval/ |$0: &Query| -> (o: Option<String>) ensures answers(o, self.query_encoder, *$0, *ctx)
//@   closurelet /if empty_ \( \w \./ |a0: (String, String)| -> (o: Option<(String, String)>) ensures o == (if a0.1@.len() == 0 { None } else { Some(a0) })
//@   closurelet /^\{ proof \{ lemma_pair/ |a0: (String, String)| -> (o: String) ensures read(o@) == pair(a0.0@, a0.1@)
//@   closure /empty_ \( str/ |$0: String, $1: String| -> (o: String) ensures joins(o@, $0@, $1@)
//@   spec ensures match r { Ok(u) => to_url(u@, *self, *ctx), Err(_) => parsed(filled(self.root_url.0@, *ctx)) is None }
//@ fn src/core/http/request_template.rs :: impl RequestTemplate :: fn is_const
//@   opt /self\.body_path\.as_ref\(\)\.map_or\(true,/ => none_or_(&self.body_path, 
//@   opt /self\.query\.iter\(\)\.all\(/ => all_of_(&self.query,
//@   opt /self\.headers\.iter\(\)\.all\(/ => all_of_(&self.headers,
//@   closure /^b \./ |$0: &Mustache| -> (o: bool) ensures o == no_expression($0.0@)
//@   closure /value \. is_const/ |$0: &Query| -> (o: bool) ensures o == no_expression($0.value.0@)
//@   closurelet /^v \./ |a0: &(HeaderName, Mustache)| -> (o: bool) ensures o == no_expression(a0.1.0@)
//@   spec ensures r ==> fixed(*self), fixed(*self) ==> r
}
//@ item src/core/ir/request.rs :: struct DynamicRequest
impl<Value> DynamicRequest<Value> {
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn new vis=pub
//@   spec ensures r.request == request, r.batching_value is None
//@ fn src/core/ir/request.rs :: impl<Value> DynamicRequest<Value> :: fn with_batching_value vis=pub
//@   spec ensures r.request == self.request, r.batching_value == body_key
}
// the template's own headers; one that can't be said is left out
pub open spec fn own<C: PathString>(h: Seq<(HeaderName, Mustache)>, n: int, c: C) -> Held decreases n { if n <= 0 { Map::empty() } else { let t = filled(h[n - 1].1.0@, c); if sayable(t) { own(h, n - 1, c).insert(h[n - 1].0@, seq![t]) } else { own(h, n - 1, c) } } }
pub open spec fn type_of(e: Encoding) -> Seq<char> { match e { Encoding::ApplicationJson => "application/json"@, Encoding::ApplicationXWwwFormUrlencoded => "application/x-www-form-urlencoded"@ } }
// the headers: the template's, the type of the body, then what is passed on from the client
pub open spec fn headed<C: PathString>(t: RequestTemplate, h: Held, c: C) -> Held {
    let a = over(h, own(t.headers@, t.headers@.len() as int, c));
    over(if t.method.is_get() { a } else { a.insert("content-type"@, seq![type_of(t.encoding)]) }, c.passed())
}
// the body: JSON as it was written, or turned into a form (whatever isn't JSON goes as it is)
pub open spec fn filled_body<C: PathString>(t: RequestTemplate, c: C) -> Option<Option<Seq<char>>> {
    match t.body_path { None => Some(None), Some(b) => { let x = filled(b.0@, c); match t.encoding { Encoding::ApplicationJson => Some(Some(x)), Encoding::ApplicationXWwwFormUrlencoded => match json_of(x) { None => Some(Some(x)), Some(j) => match form_of(j) { Some(f) => Some(Some(f)), None => None } } } } }
}
// what a batched request is known by: the first thing filled in
pub open spec fn group_key<C: PathString>(k: Option<String>, t: RequestTemplate, c: C) -> bool {
    let e = match t.body_path { Some(b) if t.encoding is ApplicationJson => first_said(b.0@, c), _ => None };
    match k { Some(x) => e == Some(x@), None => e is None }
}
// a template that is the same whatever it's filled from
pub open spec fn fixed(t: RequestTemplate) -> bool { no_expression(t.root_url.0@) && (t.body_path is Some ==> no_expression((t.body_path->0).0@)) && (forall|i: int| 0 <= i < t.query@.len() ==> no_expression((#[trigger] t.query@[i]).value.0@)) && (forall|i: int| 0 <= i < t.headers@.len() ==> no_expression((#[trigger] t.headers@[i]).1.0@)) }
#[verifier::external_body] pub fn none_or_<F: Fn(&Mustache) -> bool>(o: &Option<Mustache>, f: F) -> (r: bool) requires forall|m: &Mustache| #[trigger] f.requires((m,)) ensures match o { Some(m) => f.ensures((m,), r), None => r } { unimplemented!() }
#[verifier::external_body] pub fn all_of_<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool) requires forall|t: &T| #[trigger] f.requires((t,)) ensures r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), true), !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), false) { unimplemented!() }
pub open spec fn to_url<C: PathString>(u: Link, t: RequestTemplate, c: C) -> bool { let base = parsed(filled(t.root_url.0@, c)); &&& base is Some &&& if t.query@.len() == 0 && no_expression(t.root_url.0@) { u == base->0 } else { u.rest == base->0.rest && u.query != Some(Seq::<char>::empty()) && exists|w: Seq<Option<ValueString>>| #[trigger] all_worth(w, t.query@, c) && params(u) == valued(params(base->0)) + sent_all(w, t.query_encoder, t.query@) } }
pub open spec fn all_worth<C: PathString>(w: Seq<Option<ValueString>>, q: Seq<Query>, c: C) -> bool { w.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> #[trigger] is_worth(w[i], q[i].value.0@, c) }
pub open spec fn sent_all(w: Seq<Option<ValueString>>, e: QueryEncoder, q: Seq<Query>) -> Seq<(Seq<char>, Seq<char>)> decreases q.len() { if q.len() == 0 { Seq::empty() } else { let a = sent_all(w.drop_last(), e, q.drop_last()); if q.last().skip_empty && w.last() is None { a } else { a + sent_any(e, q.last().key@, w.last()) } } }
// the parameters of the template's own address that have a value
pub open spec fn valued(p: Seq<(Seq<char>, Seq<char>)>) -> Seq<(Seq<char>, Seq<char>)> decreases p.len() { if p.len() == 0 { Seq::empty() } else if p.last().1.len() == 0 { valued(p.drop_last()) } else { valued(p.drop_last()).push(p.last()) } }
} // verus!
fn main() {}
