#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
pub mod m_gq {
// What a GraphQL upstream is sent (C35). Assumed: serde_json's text of a string, std's text functions, async-graphql's printed values.
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
// the text between the quotes of a JSON string, of which a reader of JSON makes the text again (serde_json's documentation)
pub uninterp spec fn json(t: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn quoted_(t: &str) -> (r: String) ensures r@ == seq!['"'] + json(t@) + seq!['"'] { unimplemented!() }
#[verifier::external_body] pub fn inner_(t: &String) -> (r: String) requires t@.len() >= 2, t@[0] == '"', t@.last() == '"' ensures r@ == t@.subrange(1, t@.len() - 1) { unimplemented!() }
//@ fn src/core/document.rs :: fn escape_json
//@   opt /serde_json::Value::from\(text\)\.to_string\(\)/ => quoted_(text)
//@   opt /quoted\[1\.\.quoted\.len\(\) - 1\]\.to_string\(\)/ => inner_(&quoted)
//@   tail proof { assert(ret_@ =~= json(text@)); }
//@   spec ensures r@ == json(text@)
pub enum GraphQLOperationType { Query, Mutation }
#[verifier::external_body] pub struct RelatedFields { _p: () }
#[verifier::external_body] pub struct Mustache { _p: () }
pub uninterp spec fn filled_graphql<C>(m: Mustache, c: C) -> Seq<char>;
pub uninterp spec fn written(m: Mustache) -> Seq<char>;
impl Mustache {
    // under contract in C18's unit
    #[verifier::external_body] pub fn render_graphql<C>(&self, c: &C) -> (r: String) ensures r@ == filled_graphql(*self, *c) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == written(*self) { unimplemented!() }
}
pub enum Cow<'a> { Borrowed(&'a String), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn text(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    #[verifier::external_body] pub fn to_mut(&mut self) -> (r: &mut String) ensures r@ == old(self).text(), final(self).text() == final(r)@ { unimplemented!() }
}
#[verifier::external_body] pub fn put_(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body] pub fn add_(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] pub fn none_(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn or_none_(s: Option<String>) -> (r: String) ensures r@ == (match s { Some(t) => t@, None => Seq::empty() }) { unimplemented!() }
#[verifier::external_body] pub fn pair_(k: &String, v: &str) -> (r: String) ensures r@ == k@ + ": "@ + v@ { unimplemented!() }
pub open spec fn word(t: GraphQLOperationType) -> Seq<char> { if t is Query { "query"@ } else { "mutation"@ } }
#[verifier::external_body] pub fn body_(t: &GraphQLOperationType, o: &Cow, s: &Cow) -> (r: String) ensures r@ == "{ \"query\": \""@ + word(*t) + " { "@ + o.text() + " "@ + s.text() + " }\" }"@ { unimplemented!() }
pub open spec fn joint(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joint(v.drop_last(), sep) + sep + v.last() } }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body] pub fn join_(v: Vec<String>, sep: &str) -> (r: String) ensures r@ == joint(texts(v@), sep@) { unimplemented!() }
// the traits PathGraphql, HasHeaders and GraphQLOperationContext
pub trait PathGraphql { }
pub trait HasHeaders { }
pub trait GraphQLOperationContext {
    spec fn asks(&self, f: RelatedFields) -> Option<Seq<char>>;
    spec fn says(&self) -> Option<Seq<char>>;
    fn selection_set(&self, f: &RelatedFields) -> (r: Option<String>) ensures (r is Some) == (self.asks(*f) is Some), r is Some ==> r->0@ == self.asks(*f)->0;
    fn directives(&self) -> (r: Option<String>) ensures (r is Some) == (self.says() is Some), r is Some ==> r->0@ == self.says()->0;
}
//@ item src/core/graphql/request_template.rs :: enum Selection
//@   opt /#\[derive\([^\]]*\)\]/ =>
pub struct RequestTemplate { pub operation_type: GraphQLOperationType, pub operation_name: String, pub operation_arguments: Option<Vec<(String, Mustache)>>, pub related_fields: RelatedFields, pub selection: Option<Selection> }
// an argument with a value is sent with it, as it is for a reader of JSON
pub open spec fn given<C>(a: (String, Mustache), c: C) -> Option<Seq<char>> { let t = filled_graphql(a.1, c); if t.len() == 0 { None } else { Some(a.0@ + ": "@ + json(t)) } }
pub open spec fn all_given<C>(a: Seq<(String, Mustache)>, c: C) -> Seq<Seq<char>> decreases a.len() { if a.len() == 0 { Seq::empty() } else { let p = all_given(a.drop_last(), c); match given(a.last(), c) { Some(t) => p.push(t), None => p } } }
pub open spec fn arguments<C>(t: RequestTemplate, c: C) -> Seq<char> { match t.operation_arguments { Some(a) => { let j = joint(all_given(a@, c), ", "@); if j.len() == 0 { Seq::empty() } else { seq!['('] + j + seq![')'] } }, None => Seq::empty() } }
pub open spec fn directed<C: GraphQLOperationContext>(c: C) -> Seq<char> { match c.says() { Some(d) => if d.len() == 0 { Seq::empty() } else { seq![' '] + json(d) }, None => Seq::empty() } }
// the selection that was made for the field's own selection, else what the field's related fields give
pub open spec fn selected<C: GraphQLOperationContext>(t: RequestTemplate, c: C) -> Seq<char> { match t.selection { Some(Selection::Resolved(s)) => s@, Some(Selection::UnResolved(u)) => written(u), None => match c.asks(t.related_fields) { Some(s) => s, None => Seq::empty() } } }
pub open spec fn query_of<C: GraphQLOperationContext>(t: RequestTemplate, c: C) -> Seq<char> { "{ \"query\": \""@ + word(t.operation_type) + " { "@ + (t.operation_name@ + arguments(t, c) + directed(c)) + " "@ + selected(t, c) + " }\" }"@ }
pub open spec fn each<C>(o: Seq<Option<String>>, a: Seq<(String, Mustache)>, c: C) -> bool { o.len() == a.len() && forall|i: int| 0 <= i < o.len() ==> said(#[trigger] o[i], given(a[i], c)) }
pub open spec fn said(o: Option<String>, g: Option<Seq<char>>) -> bool { match o { Some(s) => g == Some(s@), None => g is None } }
pub proof fn lemma_each<C>(o: Seq<Option<String>>, a: Seq<(String, Mustache)>, c: C) requires each(o, a, c) ensures texts(somes(o)) =~= all_given(a, c) decreases o.len()
{ if o.len() > 0 { assert forall|i: int| 0 <= i < o.len() - 1 implies said(#[trigger] o.drop_last()[i], given(a.drop_last()[i], c)) by { assert(said(o[i], given(a[i], c))); } lemma_each(o.drop_last(), a.drop_last(), c); assert(said(o[o.len() - 1], given(a[a.len() - 1], c))); } }
pub proof fn lemma_all<C>(v: Seq<String>, a: Seq<(String, Mustache)>, c: C) requires exists|o: Seq<Option<String>>| each(o, a, c) && v == #[trigger] somes(o) ensures texts(v) == all_given(a, c)
{ let o = choose|o: Seq<Option<String>>| each(o, a, c) && v == #[trigger] somes(o); lemma_each(o, a, c); }
impl RequestTemplate {
//@ fn src/core/graphql/request_template.rs :: impl RequestTemplate :: fn render_graphql_query vis=pub
//@   opt /info!\([^;]*\);/ =>
//@   opt /\.unwrap_or_default\(\)/ => .o_()
//@   opt /ctx\.selection_set\(&self\.related_fields\)\s*\.o_\(\)/ => or_none_(ctx.selection_set(&self.related_fields))
//@   opt /format!\(r#"\{\{ "query": "\{operation_type\} \{\{ \{operation\} \{selection_set\} \}\}" \}\}"#\)/ => body_(operation_type, &operation, &selection_set)
//@   opt /format!\(r#"\{\}: \{\}"#, k, ([^;]*?)\)\)\s*\}/ => pair_(k, (\1).as_str())) }
//@   opt /escape_json\(&(\w+)\)/ => escape_json(\1.as_str())
//@   opt /(\w+)\.is_empty\(\)/ => none_(&\1)
//@   opt /operation\.push\(/ => put_(operation, 
//@   opt /operation\.push_str\(&([^;]*)\);/ => add_(operation, (\1).as_str());
//@   opt /let args = args\s*\.iter\(\)\s*\.filter_map\(\|\(k, v\)\| \{/ => let ghost all_ = args@; let args = args.it_().filter_map(|kv_| { let k = &kv_.0; let v = &kv_.1;
//@   opt /\.collect::<Vec<_>>\(\)\s*\.join\(", "\)/ => .vec_(); proof { lemma_all(args@, all_, *ctx); } let args = join_(args, ", ")
//@   closure /pair_/ |$0: &(String, Mustache)| -> (o: Option<String>) ensures said(o, given(*$0, *ctx))
//@   tail proof { reveal_strlit(" { "); assert(ret_@ =~= query_of(*self, *ctx)); }
//@   spec ensures r@ == query_of(*self, *ctx)
}
} // verus!
}
pub mod m_selection {
// The selection that is asked of a GraphQL upstream: a field's part of it.
use vstd::prelude::*;
use super::*;
use super::m_gq::*;
verus! {
broadcast use axiom_string_ext;
// std's map, as its entries
pub struct HashMap<K, V> { pub entries: Vec<(K, V)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DynamicValue<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct Value { _p: () }
#[verifier::external_body] pub struct IO { _p: () }
#[verifier::external_body] pub struct Cache { _p: () }
#[verifier::external_body] pub struct Auth { _p: () }
#[verifier::external_body] pub struct Discriminator { _p: () }
//@ rewrite /#\[strum[^\]]*\]/ =>
//@ item src/core/ir/model.rs :: enum IR
//@   opt /#\[derive\([^\]]*\)\]/ =>
//@ item src/core/ir/model.rs :: struct Map
//@   opt /#\[derive\([^\]]*\)\]/ =>
// something of its own is asked for the value, so that the upstream of the object around it doesn't have it
pub open spec fn own_value(ir: IR) -> bool decreases ir {
    match ir {
        IR::IO(_) | IR::Cache(_) | IR::Dynamic(_) | IR::Entity(_) | IR::Service(_) => true,
        IR::ContextPath(_) => false,
        IR::Path(x, _) => own_value(*x),
        IR::Protect(_, x) => own_value(*x),
        IR::Discriminate(_, x) => own_value(*x),
        IR::Map(m) => own_value(*m.input),
        IR::Pipe(x, y) => own_value(*x) || own_value(*y),
        IR::Merge(v) => exists|i: int| 0 <= i < v@.len() && own_value(#[trigger] v@[i]),
    }
}
//@ fn src/core/jit/transform/graphql.rs :: fn has_own_value
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   opt /\b(\w+)\.iter\(\)\.any\(has_own_value\)/ => ({ let mut any_ = false; for i_ in 0..\1.len() invariant any_ == (exists|j: int| 0 <= j < i_ && own_value(#[trigger] \1@[j])) { if has_own_value(&\1[i_]) { any_ = true; } } any_ })
//@   spec ensures r == own_value(*ir)
pub struct Arg<A> { pub name: String, pub value: Option<A> }
#[verifier::external_body] pub struct Directive { _p: () }
pub struct Field<A> { pub ir: Option<IR>, pub name: String, pub args: Vec<Arg<A>>, pub directives: Vec<Directive>, pub selection: Vec<Field<A>> }
pub trait Display { } pub trait JsonLikeOwned { }
// an argument as it's printed: its name and its value
pub uninterp spec fn printed<A>(a: Arg<A>) -> Seq<char>;
pub uninterp spec fn directed_by(d: Seq<Directive>) -> Seq<char>;
impl<A> Arg<A> { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == printed(*self) { unimplemented!() } }
#[verifier::external_body] pub fn print_directives(d: &Vec<Directive>) -> (r: String) ensures r@ == directed_by(d@) { unimplemented!() }
#[verifier::external_body] pub fn in_brackets_(t: &str) -> (r: String) ensures r@ == seq!['('] + t@ + seq![')'] { unimplemented!() }
#[verifier::external_body] pub fn both_(t: &str, u: &Text) -> (r: String) ensures r@ == t@ + u@ { unimplemented!() }
// Cow<'static, str>
#[verifier::external_body] pub struct Text { _p: () }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub fn lent_(t: &str) -> (r: Text) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body] pub fn held_(t: String) -> (r: Text) ensures r@ == t@ { unimplemented!() }
pub open spec fn shown<A>(a: Seq<Arg<A>>) -> Seq<Seq<char>> decreases a.len() { if a.len() == 0 { Seq::empty() } else { let p = shown(a.drop_last()); if a.last().value is Some { p.push(printed(a.last())) } else { p } } }
pub open spec fn in_query<A>(f: Field<A>) -> Seq<char> { let j = joint(shown(f.args@), ","@); if j.len() == 0 { Seq::empty() } else { seq!['('] + json(j) + seq![')'] } }
pub open spec fn marks<A>(k: Seq<bool>, a: Seq<&Arg<A>>) -> bool { k.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> k[i] == ((#[trigger] a[i]).value is Some) }
pub proof fn lemma_shown<A>(t: Seq<String>, k: Seq<bool>, a: Seq<&Arg<A>>, own: Seq<Arg<A>>)
    requires marks(k, a), own.len() == a.len(), forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> *a[i] == own[i], t.len() == kept(a, k).len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@ == printed(*kept(a, k)[i])
    ensures texts(t) =~= shown(own)
    decreases a.len()
{
    if a.len() > 0 {
        let n = a.len() - 1;
        assert(*a[n] == own[n]);
        assert forall|i: int| 0 <= i < n implies k.drop_last()[i] == ((#[trigger] a.drop_last()[i]).value is Some) by { assert(a[i] == a.drop_last()[i]); }
        assert forall|i: int| #![trigger a.drop_last()[i]] 0 <= i < n implies *a.drop_last()[i] == own.drop_last()[i] by { assert(a[i] == a.drop_last()[i]); }
        let p = kept(a.drop_last(), k.drop_last());
        if k.last() {
            assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t.drop_last()[i])@ == printed(*p[i]) by { assert(t[i]@ == printed(*kept(a, k)[i])); assert(kept(a, k)[i] == p[i]); }
            lemma_shown(t.drop_last(), k.drop_last(), a.drop_last(), own.drop_last());
            assert(t[t.len() - 1]@ == printed(*kept(a, k)[t.len() - 1]));
            assert(texts(t) =~= texts(t.drop_last()).push(t.last()@));
        } else { lemma_shown(t, k.drop_last(), a.drop_last(), own.drop_last()); }
    }
}
pub proof fn lemma_args<A>(t: Seq<String>, s: Seq<&Arg<A>>, own: Seq<Arg<A>>)
    requires own.len() == s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> *s[i] == own[i], exists|k: Seq<bool>| marks(k, s) && t.len() == (#[trigger] kept(s, k)).len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@ == printed(*kept(s, k)[i])
    ensures texts(t) == shown(own)
{ let k = choose|k: Seq<bool>| marks(k, s) && t.len() == (#[trigger] kept(s, k)).len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@ == printed(*kept(s, k)[i]); lemma_shown(t, k, s, own); }
//@ fn src/core/jit/transform/graphql.rs :: fn format_selection_field_arguments
//@   opt /-> Cow<'static, str>/ => -> Text
//@   opt /Cow::Borrowed\(/ => lent_(
//@   opt /Cow::Owned\(/ => held_(
//@   opt /format!\("\(\{\}\)", escape_json\(&(\w+)\)\)/ => in_brackets_(escape_json(\1.as_str()).as_str())
//@   opt /let arguments = field\s*\.args\s*\.iter\(\)/ => let it_ = field.args.it_(); let ghost all_ = it_@; let arguments = it_
//@   opt /\.collect::<Vec<_>>\(\)\s*\.join\(","\)/ => .vec_(); proof { lemma_args(arguments@, all_, field.args@); } let arguments = join_(arguments, ",")
//@   opt /\barguments\.is_empty\(\)/ => none_(&arguments)
//@   closure /is_some/ |$0: &&Arg<A>| -> (o: bool) ensures o == ($0.value is Some)
//@   closure /to_string/ |$0: &Arg<A>| -> (o: String) ensures o@ == printed(*$0)
//@   start proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@   spec ensures r@ == in_query(*field)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { _p: core::marker::PhantomData<T> }
// what is asked below a field: format_selection_set, of which only the harness knows what it makes of the fields together
pub uninterp spec fn below<A>(f: Seq<Field<A>>, interfaces: HashSet<String>, inside: bool) -> Option<Seq<char>>;
#[verifier::external_body] pub fn format_selection_set<A>(f: It<&Field<A>>, interfaces: &HashSet<String>, inside: bool) -> (r: Option<String>) ensures match r { Some(t) => below(refs(f@), *interfaces, inside) == Some(t@), None => below(refs(f@), *interfaces, inside) is None } { unimplemented!() }
pub open spec fn directions<A>(f: Field<A>) -> Seq<char> { let d = directed_by(f.directives@); if f.directives@.len() == 0 || d.len() == 0 { Seq::empty() } else { seq![' '] + json(d) } }
//@ fn src/core/jit/transform/graphql.rs :: fn format_selection_field
//@   opt /field\.selection\.iter\(\)/ => field.selection.it_()
//@   opt /format!\("\{\}\{\}", name, arguments\)/ => both_(name, &arguments)
//@   opt /print_directives\(field\.directives\.iter\(\)\)/ => print_directives(&field.directives)
//@   opt /!directives\.is_empty\(\)/ => !none_(&directives)
//@   opt /output\.push\(/ => put_(&mut output, 
//@   opt /output\.push_str\(&([^;]*)\);/ => add_(&mut output, (\1).as_str());
//@   opt /escape_json\(&(\w+)\)/ => escape_json(\1.as_str())
//@   tail proof { assert(ret_@ =~= name@ + in_query(*field) + directions(*field) + (match below(field.selection@, *interfaces, is_parent_interface) { Some(t) => seq![' '] + t, None => Seq::empty() })); }
//@   spec ensures r@ == name@ + in_query(*field) + directions(*field) + (match below(field.selection@, *interfaces, is_parent_interface) { Some(t) => seq![' '] + t, None => Seq::empty() })
} // verus!
}
fn main() {}
