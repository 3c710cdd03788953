#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
verus! {
broadcast use axiom_string_ext;
pub struct FmtError { pub e: u8 }
#[verifier::external_body] pub struct Formatter { _k: u8 }
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub fn write_(f: &mut Formatter, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f)@ == old(f)@ + s@ { unimplemented!() }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
// letters of plain ASCII that are small already
pub broadcast axiom fn axiom_lower(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> 'a' <= #[trigger] s[i] <= 'z' ensures #[trigger] lower(s) == s;
#[verifier::external_body] pub fn lower_(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
#[verifier::external_body] pub fn is_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn to_string_(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
// std::path: the extension of a file's name (none without a dot, or with none but the first)
pub uninterp spec fn ext_of(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body] pub struct Path { _k: u8 }
#[verifier::external_body] pub struct OsStr { _k: u8 }
impl Path { pub uninterp spec fn t(&self) -> Seq<char>; #[verifier::external_body] pub fn new(s: &str) -> (r: &Path) ensures r.t() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures match ext_of(self.t()) { Some(e) => r is Some && r->0.t() == e, None => r is None } { unimplemented!() } }
impl OsStr { pub uninterp spec fn t(&self) -> Seq<char>; #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some && r->0@ == self.t() { unimplemented!() } }
// what stands behind the last dot; the whole text without one
pub open spec fn behind(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if s.last() == '.' { Seq::empty() } else { behind(s.drop_last()).push(s.last()) } }
#[verifier::external_body] pub fn last_piece_(s: &str, c: char) -> (r: Option<&str>) ensures c == '.' ==> r is Some && r->0@ == behind(s@) { unimplemented!() }
pub open spec fn of<T>(s: Seq<char>, o: spec_fn(Seq<char>) -> T) -> T { o(lower(s)) }

//@ rewrite /\bconst (\w+): &str\b/ => const \1: &'static str
//@ item src/core/config/source.rs :: const JSON_EXT
//@ item src/core/config/source.rs :: const YML_EXT
//@ item src/core/config/source.rs :: const GRAPHQL_EXT
//@ item src/core/config/source.rs :: enum Source
//@ item src/core/config/source.rs :: enum SourceError
pub open spec fn reading(s: Seq<char>) -> Option<Source> {
    let l = lower(s);
    if l == "json"@ { Some(Source::Json) } else if l == "yml"@ || l == "yaml"@ { Some(Source::Yml) } else if l == "graphql"@ || l == "gql"@ { Some(Source::GraphQL) } else { None }
}
pub open spec fn read_as(s: Seq<char>, r: Result<Source, SourceError>) -> bool { match reading(s) { Some(x) => r == Ok::<Source, SourceError>(x), None => r is Err && r->Err_0 is UnsupportedFileFormat && r->Err_0->UnsupportedFileFormat_0@ == s } }
pub proof fn lit() ensures "json"@ == seq!['j', 's', 'o', 'n'], "yml"@ == seq!['y', 'm', 'l'], "yaml"@ == seq!['y', 'a', 'm', 'l'], "graphql"@ == seq!['g', 'r', 'a', 'p', 'h', 'q', 'l'], "gql"@ == seq!['g', 'q', 'l'], "md"@ == seq!['m', 'd'], "ts"@ == seq!['t', 's'], "js"@ == seq!['j', 's'] {
    reveal_strlit("json"); reveal_strlit("yml"); reveal_strlit("yaml"); reveal_strlit("graphql"); reveal_strlit("gql"); reveal_strlit("md"); reveal_strlit("ts"); reveal_strlit("js");
    assert("json"@ =~= seq!['j', 's', 'o', 'n']); assert("yml"@ =~= seq!['y', 'm', 'l']); assert("yaml"@ =~= seq!['y', 'a', 'm', 'l']); assert("graphql"@ =~= seq!['g', 'r', 'a', 'p', 'h', 'q', 'l']); assert("gql"@ =~= seq!['g', 'q', 'l']); assert("md"@ =~= seq!['m', 'd']); assert("ts"@ =~= seq!['t', 's']); assert("js"@ =~= seq!['j', 's']);
}
// texts tell themselves apart by their lengths and letters
pub proof fn apart() ensures "json"@ != "yml"@, "json"@ != "yaml"@, "json"@ != "graphql"@, "json"@ != "gql"@, "yml"@ != "graphql"@, "yml"@ != "gql"@, "yaml"@ != "graphql"@, "yaml"@ != "gql"@,
    "md"@ != "json"@, "md"@ != "yml"@, "md"@ != "yaml"@, "md"@ != "graphql"@, "md"@ != "gql"@, "ts"@ != "json"@, "ts"@ != "yml"@, "ts"@ != "yaml"@, "ts"@ != "graphql"@, "ts"@ != "gql"@, "js"@ != "json"@, "js"@ != "yml"@, "js"@ != "yaml"@, "js"@ != "graphql"@, "js"@ != "gql"@, "md"@ != "ts"@, "md"@ != "js"@, "ts"@ != "js"@ {
    lit();
    assert("json"@[0] == 'j' && "yml"@[0] == 'y' && "yaml"@[0] == 'y' && "graphql"@[0] == 'g' && "gql"@[0] == 'g');
    assert("json"@.len() == 4 && "yml"@.len() == 3 && "yaml"@.len() == 4 && "graphql"@.len() == 7 && "gql"@.len() == 3 && "md"@.len() == 2 && "ts"@.len() == 2 && "js"@.len() == 2);
    assert("md"@[0] == 'm' && "ts"@[0] == 't' && "js"@[0] == 'j');
}
impl Source {
//@ fn src/core/config/source.rs :: impl std::str::FromStr for Source :: fn from_str vis=pub
//@   opt /Self::Err\b/ => SourceError
//@   opt /\b(\w+)\.to_lowercase\(\)\.as_str\(\)/ => lower_(\1).as_str()
//@   opt /"(\w+)" \| "(\w+)" =>/ => x_ if is_(x_, "\1") || is_(x_, "\2") =>
//@   opt /"(\w+)" =>/ => x_ if is_(x_, "\1") =>
//@   opt /\b(\w+)\.to_string\(\)/ => to_string_(\1)
//@   start proof { apart(); }
//@   spec ensures read_as(s@, r)
//@ fn src/core/config/source.rs :: impl Source :: fn ext
//@   start broadcast use axiom_lower; proof { lit(); apart(); }
//@   spec ensures reading(r@) == Some(*self)
//@ fn src/core/config/source.rs :: impl Source :: fn detect
//@   opt /\b(\w+)\.to_string\(\)/ => to_string_(\1)
//@   opt /\.map\(Source::from_str\)/ => .map(|x_| Source::from_str(x_))
//@   closure 1 |$0: &OsStr| -> (q: Option<&str>) ensures q is Some && q->0@ == $0.t()
//@   closure 2 |$0: &str| -> (q: Result<Source, SourceError>) ensures read_as($0@, q)
//@   spec ensures match ext_of(name@) { Some(e) => read_as(e, r), None => r is Err && r->Err_0 is InvalidPath && r->Err_0->InvalidPath_0@ == name@ }
//@ fn src/core/config/source.rs :: impl std::fmt::Display for Source :: fn fmt vis=pub
//@   sub /(?:std::)?fmt::Formatter<'_>/ => Formatter
//@   sub /-> (?:std::)?fmt::Result/ => -> Result<(), FmtError>
//@   opt /write!\(f, (".*?")\)/ => write_(f, \1)
//@   spec ensures r is Ok ==> final(f)@ == old(f)@ + (match *self { Source::Json => "JSON"@, Source::Yml => "YML"@, Source::GraphQL => "GraphQL"@ })
}
// ---- what the formatter is told
//@ item tailcall-prettier/src/parser.rs :: enum Parser
pub enum Error { FileExtensionNotFound, UnsupportedFiletype }
pub open spec fn parser(s: Seq<char>) -> Option<Parser> {
    match reading(s) { Some(Source::Json) => Some(Parser::Json), Some(Source::Yml) => Some(Parser::Yml), Some(Source::GraphQL) => Some(Parser::Gql), None => {
        let l = lower(s);
        if l == "md"@ { Some(Parser::Md) } else if l == "ts"@ { Some(Parser::Ts) } else if l == "js"@ { Some(Parser::Js) } else { None } } }
}
impl Parser {
//@ fn tailcall-prettier/src/parser.rs :: impl Parser :: fn detect
//@   sub /Result<Self>/ => Result<Self, Error>
//@   opt /\b(\w+)\s*\.split\(('.')\)\s*\.last\(\)\s*\.ok_or\((.*?)\)\?\s*\.to_lowercase\(\)/ => lower_(last_piece_(\1, \2).ok_or(\3)?)
//@   opt /"(\w+)" \| "(\w+)" =>/ => x_ if is_(x_, "\1") || is_(x_, "\2") =>
//@   opt /"(\w+)" =>/ => x_ if is_(x_, "\1") =>
//@   start proof { apart(); }
//@   spec ensures match parser(behind(path@)) { Some(p) => r == Ok::<Parser, Error>(p), None => r is Err && r->Err_0 is UnsupportedFiletype }
}
} // verus!
fn main() {}
