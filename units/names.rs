#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
verus! {
broadcast use axiom_string_ext;
// ---- texts
pub trait Shown { spec fn text(&self) -> Seq<char>; fn shown_(&self) -> (r: String) ensures r@ == self.text(); }
impl Shown for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
impl Shown for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
impl<'a, T: Shown + ?Sized> Shown for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
pub struct FmtError { pub e: u8 }
#[verifier::external_body] pub struct Formatter { _k: u8 }
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Formatter { #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() } }
// every occurrence of a one-character text replaced, in one go
pub open spec fn swapped(s: Seq<char>, c: char, b: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { swapped(s.drop_last(), c, b) + (if s.last() == c { b } else { seq![s.last()] }) } }
#[verifier::external_body] pub fn replace_(s: &str, a: &str, b: &str) -> (r: String) ensures a@.len() == 1 ==> r@ == swapped(s@, a@[0], b@) { unimplemented!() }
pub open spec fn joined(s: Seq<String>, by: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0]@ } else { joined(s.drop_last(), by) + by + s.last()@ } }
#[verifier::external_body] pub fn join_(v: &Vec<String>, by: &str) -> (r: String) ensures r@ == joined(v@, by@) { unimplemented!() }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn trim_(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else if s.last() == c { pieces(s.drop_last(), c).push(Seq::empty()) }
    else { let p = pieces(s.drop_last(), c); p.drop_last().push(p.last().push(s.last())) }
}
pub open spec fn txts(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
#[verifier::external_body] pub fn split_<'a>(s: &'a String, by: &str) -> (r: It<&'a str>) ensures by@.len() == 1 ==> txts(r@) == pieces(s@, by@[0]) { unimplemented!() }
#[verifier::external_body] pub fn is_empty_<T: Shown>(s: &T) -> (r: bool) ensures r == (s.text().len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn empty_vec_<T>(v: &Vec<T>) -> (r: bool) ensures r == (v@.len() == 0) { unimplemented!() }
pub uninterp spec fn camel(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn camel_(s: &String) -> (r: String) ensures r@ == camel(s@) { unimplemented!() }
#[verifier::external_body] pub fn fmt_dot_(a: String, b: &String) -> (r: String) ensures r@ == a@ + seq!['.'] + b@ { unimplemented!() }
pub uninterp spec fn predefined(s: Seq<char>) -> bool;
pub struct Scalar;
impl Scalar { #[verifier::external_body] pub fn is_predefined(s: &String) -> (r: bool) ensures r == predefined(s@) { unimplemented!() } }
//@ rewrite /\.as_ref\(\)\.to_string\(\)/ => .shown_()
//@ rewrite /\.to_string\(\)/ => .shown_()
//@ rewrite /\bstatic (\w+): &str/ => const \1: &'static str
//@ item src/core/generator/mod.rs :: const PREFIX
//@   opt /const PREFIX: &str/ => const PREFIX: &'static str
//@ item src/core/generator/graphql_type.rs :: static DEFAULT_SEPARATOR
//@ item src/core/generator/graphql_type.rs :: static PACKAGE_SEPARATOR
//@ item src/core/generator/graphql_type.rs :: struct GraphQLType
//@ item src/core/generator/graphql_type.rs :: struct Parsed
//@ item src/core/generator/graphql_type.rs :: struct Unparsed
//@ item src/core/generator/graphql_type.rs :: struct Namespace
//@ item src/core/generator/graphql_type.rs :: enum Entity

//@ rewrite /(\w+(?:\.\w+)*)\.join\((\w+)\)/ => join_(&\1, \2)
//@ rewrite /self\.0\.is_empty\(\)/ => empty_vec_(&self.0)
// ---- what the property says
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
// the package of a list of texts: the parts between dots, without the blanks around them, those that are not empty
pub open spec fn parts(v: Seq<Seq<char>>) -> Seq<Seq<char>> { flat(v.map_values(|x: Seq<char>| pieces(x, '.'))) }
pub open spec fn package(v: Seq<Seq<char>>) -> Seq<Seq<char>> { only(parts(v).map_values(|x: Seq<char>| trimmed(x)), |x: Seq<char>| x.len() > 0) }
pub open spec fn joined_(s: Seq<Seq<char>>, by: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined_(s.drop_last(), by) + by + s.last() } }
pub proof fn lemma_joined(v: Seq<String>, by: Seq<char>) ensures joined(v, by) == joined_(strs(v), by) decreases v.len()
{ if v.len() > 1 { lemma_joined(v.drop_last(), by); assert(strs(v.drop_last()) =~= strs(v).drop_last()); } }
pub open spec fn made(r: GraphQLType<Parsed>, u: Unparsed, e: Entity) -> bool { r.0.name@ == swapped(u.head@, '.', seq!['_']) && strs(r.0.namespace.0@) == package(strs(u.tail@)) && r.0.entity == e }
pub open spec fn spaced(p: Seq<Seq<char>>) -> Seq<char> { if p.len() == 0 { Seq::empty() } else { joined_(p, seq!['_', '_']) + seq!['_', '_'] } }
pub open spec fn shown(p: Parsed) -> Seq<char> {
    match p.entity {
        Entity::EnumVariant => p.name@,
        Entity::Field => camel(p.name@),
        Entity::Method => "GEN__"@ + spaced(strs(p.namespace.0@)) + p.name@,
        Entity::Enum | Entity::ObjectType => (if predefined(p.name@) { Seq::empty() } else { "GEN__"@ }) + spaced(strs(p.namespace.0@)) + p.name@,
    }
}
pub proof fn lit() ensures "__"@ == seq!['_', '_'], "."@ == seq!['.'], "_"@ == seq!['_'] { reveal_strlit("__"); reveal_strlit("."); reveal_strlit("_"); assert("__"@ =~= seq!['_', '_']); assert("."@ =~= seq!['.']); assert("_"@ =~= seq!['_']); }

pub broadcast proof fn lemma_parts(p: Seq<It<&str>>, v: Seq<Seq<char>>)
    requires p.len() == v.len(), forall|i: int| 0 <= i < p.len() ==> txts((#[trigger] p[i])@) == pieces(v[i], '.')
    ensures txts(#[trigger] flat(seqs(p))) == #[trigger] parts(v)
{ let s = v.map_values(|x: Seq<char>| pieces(x, '.')); assert forall|i: int| 0 <= i < p.len() implies txts(#[trigger] seqs(p)[i]) == s[i] by { assert(txts(p[i]@) == pieces(v[i], '.')); } lemma_flat(seqs(p), s); }
pub proof fn lemma_flat(p: Seq<Seq<&str>>, s: Seq<Seq<Seq<char>>>) requires p.len() == s.len(), forall|i: int| 0 <= i < p.len() ==> txts(#[trigger] p[i]) == s[i] ensures txts(flat(p)) == flat(s) decreases p.len()
{ if p.len() > 0 { lemma_flat(p.drop_last(), s.drop_last()); assert(txts(p[p.len() - 1]) == s.last()); assert(txts(flat(p)) =~= txts(flat(p.drop_last())) + txts(p.last())); } else { assert(txts(flat(p)) =~= flat(s)); } }
pub broadcast proof fn lemma_package(c: Seq<String>, k: Seq<bool>, v: Seq<Seq<char>>)
    requires k.len() == c.len(), c.len() == parts(v).len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == trimmed(parts(v)[i]), forall|i: int| 0 <= i < c.len() ==> #[trigger] k[i] == (c[i]@.len() > 0)
    ensures strs(#[trigger] kept(c, k)) == #[trigger] package(v)
{
    let q = |x: String| x@.len() > 0;
    assert forall|i: int| 0 <= i < c.len() implies k[i] == q(#[trigger] c[i]) by { let b = k[i]; }
    lemma_only(c, k, q);
    let t = parts(v).map_values(|x: Seq<char>| trimmed(x));
    assert(strs(c) =~= t);
    lemma_strs(c);
}
pub proof fn lemma_strs(c: Seq<String>) ensures strs(only(c, |x: String| x@.len() > 0)) == only(strs(c), |x: Seq<char>| x.len() > 0) decreases c.len()
{ if c.len() > 0 { lemma_strs(c.drop_last()); assert(strs(c).drop_last() =~= strs(c.drop_last())); assert(strs(only(c, |x: String| x@.len() > 0)) =~= only(strs(c), |x: Seq<char>| x.len() > 0)); } else { assert(strs(only(c, |x: String| x@.len() > 0)) =~= only(strs(c), |x: Seq<char>| x.len() > 0)); } }

//@ fn src/core/generator/graphql_type.rs :: fn normalize_name
//@   opt /\bname\.replace\(/ => replace_(name, 
//@   start proof { lit(); }
//@   spec ensures r@ == swapped(name@, '.', seq!['_'])
impl Namespace {
//@ fn src/core/generator/graphql_type.rs :: impl Namespace :: fn id
//@   start proof { lit(); lemma_joined(self.0@, seq!['.']); }
//@   spec ensures r@ == joined_(strs(self.0@), seq!['.'])
//@ fn src/core/generator/graphql_type.rs :: impl Namespace :: fn is_empty
//@   spec ensures r == (strs(self.0@).len() == 0)
//@ fn src/core/generator/graphql_type.rs :: impl Display for Namespace :: fn fmt vis=pub
//@   sub /(?:std::)?fmt::Formatter<'_>/ => Formatter
//@   sub /-> (?:std::)?fmt::Result/ => -> Result<(), FmtError>
//@   start proof { lit(); lemma_joined(self.0@, seq!['_', '_']); }
//@   spec ensures r is Ok ==> final(f)@ == old(f)@ + self.text()
}
impl Shown for Namespace { open spec fn text(&self) -> Seq<char> { joined_(strs(self.0@), seq!['_', '_']) } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
pub open spec fn shown_all<S: Shown>(s: Seq<S>) -> Seq<Seq<char>> { s.map_values(|x: S| x.text()) }
impl GraphQLType<Unparsed> {
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn new
//@   spec ensures r.0.head@ == name@, r.0.tail@ == Seq::<String>::empty()
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn extend
//@   sub /<S: AsRef<str>>/ => <S: Shown>
//@   opt /for (\w+) in items \{/ => for \1 in items.it_() {
//@   loop 1 it=it invariant refs(it.seq()) == items@, this_.0.head == self.0.head, strs(this_.0.tail@) == strs(self.0.tail@) + shown_all(items@.take(it.index() as int)),
//@   loopend 1 proof { let n = it.index() as int; assert(refs(it.seq())[n] == *it.seq()[n]); assert(items@.take(n + 1) =~= items@.take(n).push(items@[n])); assert(shown_all(items@.take(n + 1)) =~= shown_all(items@.take(n)).push(items@[n].text())); assert(strs(this_.0.tail@) =~= (strs(self.0.tail@) + shown_all(items@.take(n))).push(items@[n].text())); assert(strs(this_.0.tail@) =~= strs(self.0.tail@) + shown_all(items@.take(n + 1))); }
//@   before 1 proof { assert(strs(this_.0.tail@) =~= strs(self.0.tail@) + shown_all(items@.take(0))); }
//@   after 1 proof { assert(items@.take(items@.len() as int) =~= items@); }
//@   spec ensures r.0.head == self.0.head, strs(r.0.tail@) == strs(self.0.tail@) + shown_all(items@)
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn push
//@   sub /<S: AsRef<str>>/ => <S: Shown>
//@   tail proof { assert(strs(ret_.0.tail@) =~= strs(self.0.tail@).push(text.text())); }
//@   spec ensures r.0.head == self.0.head, strs(r.0.tail@) == strs(self.0.tail@).push(text.text())
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn parse
//@   opt /(\w+)\s*\.tail\s*\.iter\(\)/ => \1.tail.it_()
//@   opt /\b(\w+)\.split\((\w+)\)/ => split_(\1, \2)
//@   opt /\b(\w+)\.trim\(\)/ => trim_(\1)
//@   opt /!(\w+)\.is_empty\(\)/ => !is_empty_(\1)
//@   opt /\.collect::<Vec<_>>\(\)/ => .vec_()
//@   closure 1 |$0: &String| -> (q: It<&str>) ensures txts(q@) == pieces($0@, '.')
//@   closure 2 |$0: &str| -> (q: String) ensures q@ == trimmed($0@)
//@   closure 3 |$0: &String| -> (q: bool) ensures q == ($0@.len() > 0)
//@   start proof { lit(); } broadcast use lemma_parts, lemma_package;
//@   spec ensures made(r, self.0, entity)
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn into_enum
//@   spec ensures made(r, self.0, Entity::Enum)
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn into_enum_variant
//@   spec ensures made(r, self.0, Entity::EnumVariant)
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn into_object_type
//@   spec ensures made(r, self.0, Entity::ObjectType)
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn into_method
//@   spec ensures made(r, self.0, Entity::Method)
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Unparsed> :: fn into_field
//@   spec ensures made(r, self.0, Entity::Field)
}
impl GraphQLType<Parsed> {
//@ fn src/core/generator/graphql_type.rs :: impl GraphQLType<Parsed> :: fn id
//@   opt /format!\("\{\}\.\{\}", (.*?), self\.0\.name\)/ => fmt_dot_(\1, &self.0.name)
//@   spec ensures r@ == ({ let p = strs(self.0.namespace.0@); if p.len() > 0 { joined_(p, seq!['.']) + seq!['.'] + self.0.name@ } else { self.0.name@ } })
//@ fn src/core/generator/graphql_type.rs :: impl Display for GraphQLType<Parsed> :: fn fmt vis=pub
//@   sub /(?:std::)?fmt::Formatter<'_>/ => Formatter
//@   sub /-> (?:std::)?fmt::Result/ => -> Result<(), FmtError>
//@   opt /(\w+\.name)\.to_case\(Case::Camel\)/ => camel_(&\1)
//@   start proof { lit(); }
//@   tail proof { assert(ret_ is Ok ==> f@ =~= old(f)@ + shown(self.0)); }
//@   spec ensures r is Ok ==> final(f)@ == old(f)@ + shown(self.0)
}
// ---- names that are made up
pub uninterp spec fn decimal(n: u64) -> Seq<char>;
// a counter: what its own contracts (unit `counter`) say of it
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct Counter<A> { _p: core::marker::PhantomData<A> }
impl Counter<u64> {
    pub uninterp spec fn v(&self) -> u64;
    #[verifier::external_body] pub fn new(a: u64) -> (r: Self) ensures r.v() == a { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: u64) ensures r == old(self).v(), old(self).v() < u64::MAX ==> final(self).v() == old(self).v() + 1 { unimplemented!() }
}
#[verifier::external_body] pub fn fmt_id_(a: &String, n: u64) -> (r: String) ensures r@ == a@ + decimal(n) { unimplemented!() }
//@ item src/core/generator/mod.rs :: struct NameGenerator
impl NameGenerator {
//@ fn src/core/generator/mod.rs :: impl NameGenerator :: fn new
//@   spec ensures r.counter.v() == 1, r.prefix@ == prefix@
//@ fn src/core/generator/mod.rs :: impl NameGenerator :: fn next
//@   sub /next\(&self\)/ => next(&mut self)
//@   opt /format!\("\{\}\{\}", self\.prefix, (\w+)\)/ => fmt_id_(&self.prefix, \1)
//@   spec ensures r@ == old(self).prefix@ + decimal(old(self).counter.v()), old(self).counter.v() < u64::MAX ==> final(self).counter.v() == old(self).counter.v() + 1, final(self).prefix == old(self).prefix
}
// ---- places in a proto file, as its descriptor numbers them (descriptor.proto), and the comments there
//@ item src/core/generator/proto/path_field.rs :: enum PathField
pub open spec fn number(f: PathField) -> i32 {
    match f { PathField::Field => 2, PathField::NestedType => 3, PathField::MessageType => 4, PathField::NestedEnum => 4, PathField::EnumType => 5, PathField::Service => 6, PathField::Method => 2, PathField::EnumValue => 2 }
}
impl PathField {
//@ fn src/core/generator/proto/path_field.rs :: impl PathField :: fn value
//@   spec ensures r == number(*self)
}
#[verifier::external_body] pub fn to_vec_(s: &[i32]) -> (r: Vec<i32>) ensures r@ == s@ { unimplemented!() }
//@ item src/core/generator/proto/path_builder.rs :: struct PathBuilder
impl PathBuilder {
//@ fn src/core/generator/proto/path_builder.rs :: impl PathBuilder :: fn new
//@   opt /\b(\w+)\.to_vec\(\)/ => to_vec_(\1)
//@   spec ensures r.base_path@ == base_path@
//@ fn src/core/generator/proto/path_builder.rs :: impl PathBuilder :: fn extend
//@   spec ensures r@ == self.base_path@.push(number(field)).push(index)
//@   tail proof { assert(ret_@ =~= self.base_path@.push(number(field)).push(index)); }
}
pub struct Location { pub path: Vec<i32>, pub leading_comments: Option<String> }
pub struct SourceCodeInfo { pub location: Vec<Location> }
#[verifier::external_body] pub fn eq_path_(a: &Vec<i32>, b: &[i32]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub uninterp spec fn lines(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn lines_<'a>(s: &'a String) -> (r: It<&'a str>) ensures txts(r@) == lines(s@) { unimplemented!() }
pub open spec fn unled(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { unled(s.skip(1), c) } else { s } }
#[verifier::external_body] pub fn trim_start_matches_(s: &str, c: char) -> (r: &str) ensures r@ == unled(s@, c) { unimplemented!() }
#[verifier::external_body] pub fn join_strs_(v: Vec<&str>, by: &str) -> (r: String) ensures r@ == joined_(txts(v@), by@) { unimplemented!() }
pub open spec fn bared(s: Seq<char>) -> Seq<char> { trimmed(unled(s, '*')) }
pub open spec fn doc_lines(s: Seq<char>) -> Seq<Seq<char>> { only(lines(s).map_values(|x: Seq<char>| bared(x)), |x: Seq<char>| x.len() > 0) }
pub open spec fn doc(s: Seq<char>) -> Seq<char> { joined_(doc_lines(s), "\n  "@) }
// the first place with that path
pub open spec fn place(s: Seq<Location>, p: Seq<i32>) -> Option<Location> decreases s.len() { if s.len() == 0 { None } else { match place(s.drop_last(), p) { Some(l) => Some(l), None => if s.last().path@ == p { Some(s.last()) } else { None } } } }
pub open spec fn commented(l: Location, r: Option<String>) -> bool { match l.leading_comments { Some(c) => r is Some && r->0@ == doc(c@), None => r is None } }
pub proof fn lemma_place(s: Seq<Location>, p: Seq<i32>)
    ensures (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).path@ != p) ==> place(s, p) is None,
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).path@ == p && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).path@ != p) ==> place(s, p) == Some(s[i])
    decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); lemma_place(d, p); assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).path@ == p && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).path@ != p) implies place(s, p) == Some(s[i]) by { if i < d.len() { assert(d[i] == s[i]); assert forall|j: int| 0 <= j < i implies (#[trigger] d[j]).path@ != p by { assert(s[j].path@ != p); } } else { assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).path@ != p by { assert(s[j].path@ != p); } } }
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).path@ != p { assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).path@ != p by { assert(s[j].path@ != p); } assert(s[s.len() - 1].path@ != p); } } }
pub broadcast proof fn lemma_doc(c: Seq<&str>, k: Seq<bool>, v: Seq<char>)
    requires k.len() == c.len(), c.len() == lines(v).len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == bared(lines(v)[i]), forall|i: int| 0 <= i < c.len() ==> #[trigger] k[i] == (c[i]@.len() > 0)
    ensures txts(#[trigger] kept(c, k)) == #[trigger] doc_lines(v)
{
    let q = |x: &str| x@.len() > 0;
    assert forall|i: int| 0 <= i < c.len() implies k[i] == q(#[trigger] c[i]) by { let b = k[i]; }
    lemma_only(c, k, q);
    assert(txts(c) =~= lines(v).map_values(|x: Seq<char>| bared(x)));
    lemma_txts(c);
}
pub proof fn lemma_txts(c: Seq<&str>) ensures txts(only(c, |x: &str| x@.len() > 0)) == only(txts(c), |x: Seq<char>| x.len() > 0) decreases c.len()
{ if c.len() > 0 { lemma_txts(c.drop_last()); assert(txts(c).drop_last() =~= txts(c.drop_last())); assert(txts(only(c, |x: &str| x@.len() > 0)) =~= only(txts(c), |x: Seq<char>| x.len() > 0)); } else { assert(txts(only(c, |x: &str| x@.len() > 0)) =~= only(txts(c), |x: Seq<char>| x.len() > 0)); } }
pub broadcast proof fn lemma_found(s: Seq<&Location>, k: Seq<bool>, r: Option<&Location>, v: Seq<Location>, p: Seq<i32>)
    requires #[trigger] found(s, k, r), k.len() == s.len(), refs(s) == v, forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == (s[i].path@ == p)
    ensures #[trigger] place(v, p) == (match r { Some(x) => Some(*x), None => None })
{
    lemma_place(v, p);
    match r {
        Some(x) => { let i = choose|i: int| 0 <= i < k.len() && #[trigger] k[i] && x == s[i] && (forall|j: int| 0 <= j < i ==> !#[trigger] k[j]); assert(v[i] == *s[i]); assert forall|j: int| 0 <= j < i implies (#[trigger] v[j]).path@ != p by { assert(v[j] == *s[j]); assert(!k[j]); } }
        None => { assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).path@ != p by { assert(v[j] == *s[j]); assert(!k[j]); } }
    }
}
//@ item src/core/generator/proto/comments_builder.rs :: struct CommentsBuilder
impl CommentsBuilder {
//@ fn src/core/generator/proto/comments_builder.rs :: impl CommentsBuilder :: fn new
//@   spec ensures r.source_code_info == source_code_info
//@ fn src/core/generator/proto/comments_builder.rs :: impl CommentsBuilder :: fn get_comments
//@   opt /\b(\w+)\s*\.location\s*\.iter\(\)/ => \1.location.it_()
//@   opt /\b(\w+)\.path == (\w+)/ => eq_path_(&\1.path, \2)
//@   opt /\b(\w+)\.lines\(\)/ => lines_(\1)
//@   opt /\b(\w+)\.trim_start_matches\(('.')\)\.trim\(\)/ => trim_(trim_start_matches_(\1, \2))
//@   opt /!(\w+)\.is_empty\(\)/ => !is_empty_(\1)
//@   opt /lines_\((.*?)\.collect::<Vec<_>>\(\)\s*\.join\((".*?")\)/ => join_strs_(lines_(\1.vec_(), \2)
//@   closure 1 |$0: &SourceCodeInfo| -> (q: Option<String>) ensures ({ let l = place($0.location@, path@); match l { Some(l) => commented(l, q), None => q is None } })
//@   closure 2 |$0: &&Location| -> (q: bool) ensures q == ($0.path@ == path@)
//@   closure 3 |$0: &Location| -> (q: Option<String>) ensures commented(*$0, q)
//@   closure 4 |$0: &String| -> (q: String) ensures q@ == doc($0@)
//@   closure 5 |$0: &str| -> (q: &str) ensures q@ == bared($0@)
//@   closure 6 |$0: &&str| -> (q: bool) ensures q == ($0@.len() > 0)
//@   start broadcast use lemma_doc, lemma_found;
//@   spec ensures match self.source_code_info { Some(i) => (match place(i.location@, path@) { Some(l) => commented(l, r), None => r is None }), None => r is None }
}
} // verus!
fn main() {}
