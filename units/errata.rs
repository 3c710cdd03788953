#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
pub mod colored { use vstd::prelude::*; verus! {
#[derive(Clone, Copy)] pub enum Color { Yellow, White, Cyan, Red, Green, Blue, Magenta, Black }
} }
verus! {
broadcast use axiom_string_ext;
// what a value looks like, and std's to_string
pub trait Shown { spec fn text(&self) -> Seq<char>; fn shown_(&self) -> (r: String) ensures r@ == self.text(); }
impl Shown for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
impl Shown for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
// colors: what a terminal is told around a text
pub uninterp spec fn ansi(s: Seq<char>, c: colored::Color) -> Seq<char>;
pub uninterp spec fn faint(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub struct ColoredString { _k: u8 }
impl ColoredString { pub uninterp spec fn t(&self) -> Seq<char>; }
impl Shown for ColoredString { open spec fn text(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
pub trait Colorize { fn color(&self, c: colored::Color) -> ColoredString; fn dimmed(&self) -> ColoredString; }
impl Colorize for str {
    #[verifier::external_body] fn color(&self, c: colored::Color) -> (r: ColoredString) ensures r.t() == ansi(self@, c) { unimplemented!() }
    #[verifier::external_body] fn dimmed(&self) -> (r: ColoredString) ensures r.t() == faint(self@) { unimplemented!() }
}
// a formatter: what has been written to it; writing may fail
pub struct FmtError { pub e: u8 }
#[verifier::external_body] pub struct Formatter { _k: u8 }
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Formatter { #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() } }
// lines, each with its line break
pub open spec fn nl(s: Seq<char>) -> int decreases s.len() { if s.len() <= 1 { s.len() as int } else if s[0] == '\n' { 1 } else { 1 + nl(s.skip(1)) } }
pub proof fn lemma_nl(s: Seq<char>) ensures s.len() > 0 ==> 0 < nl(s) <= s.len(), s.len() == 0 ==> nl(s) == 0 decreases s.len() { if s.len() > 1 && s[0] != '\n' { lemma_nl(s.skip(1)); } }
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() via lines_dec { if s.len() == 0 { Seq::empty() } else { seq![s.take(nl(s))] + lines(s.skip(nl(s))) } }
#[via_fn] proof fn lines_dec(s: Seq<char>) { lemma_nl(s); }
#[verifier::external_body] pub fn split_inclusive_<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures c == '\n' ==> r@.len() == lines(s@).len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines(s@)[i] { unimplemented!() }
pub open spec fn spaces(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
#[verifier::external_body] pub fn repeat_(s: &str, n: usize) -> (r: String) ensures s@ == seq![' '] ==> r@ == spaces(n as nat) { unimplemented!() }
#[verifier::external_body] pub fn fmt2_(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn chars_(s: &String) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn of_chars_(v: Vec<char>) -> (r: String) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn enumerate_<T>(v: &Vec<T>) -> (r: Vec<(usize, &T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == v@[i] { unimplemented!() }

//@ item src/core/errata.rs :: struct Errata

// ---- the report
pub open spec fn indent_all(s: Seq<Seq<char>>, n: nat) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { indent_all(s.drop_last(), n) + (spaces(n) + s.last()) } }
pub open spec fn indent(s: Seq<char>, n: nat) -> Seq<char> { indent_all(lines(s), n) }
pub open spec fn bulleted(s: Seq<char>) -> Seq<char> { seq!['•', ' '] + (if s.len() == 0 { Seq::empty() } else { indent(s, 2).skip(2) }) }
pub open spec fn paint(on: bool, s: Seq<char>, c: colored::Color) -> Seq<char> { if on { ansi(s, c) } else { s } }
pub open spec fn dim(on: bool, s: Seq<char>) -> Seq<char> { if on { faint(s) } else { s } }
pub open spec fn dotted(t: Seq<String>) -> Seq<char> decreases t.len() { if t.len() == 0 { Seq::empty() } else if t.len() == 1 { t[0]@ } else { dotted(t.drop_last()) + seq!['.'] + t.last()@ } }
pub open spec fn head(e: Errata) -> Seq<char> {
    let c = if e.is_root { colored::Color::Yellow } else { colored::Color::White };
    paint(e.color, e.message@, c)
        + (if e.description is Some { paint(e.color, ": "@, c) + paint(e.color, e.description->0@, colored::Color::White) } else { Seq::empty() })
        + (if e.trace@.len() > 0 { paint(e.color, " [at "@ + dotted(e.trace@) + seq![']'], colored::Color::Cyan) } else { Seq::empty() })
}
pub open spec fn report(e: Errata) -> Seq<char> decreases e, 2int, 0int { head(e) + below(e) }
pub open spec fn below(e: Errata) -> Seq<char> decreases e, 1int, 0int { if e.caused_by@.len() > 0 { seq!['\n'] + dim(e.color, "Caused by:"@) + seq!['\n'] + causes(e, e.caused_by@.len() as int) } else { Seq::empty() } }
// the first n causes
pub open spec fn causes(e: Errata, n: int) -> Seq<char> decreases e, 0int, n {
    if n <= 0 || n > e.caused_by@.len() { Seq::empty() } else { causes(e, n - 1) + (if n > 1 { seq!['\n'] } else { Seq::empty() }) + indent(bulleted(report(e.caused_by@[n - 1])), 2) }
}
impl Shown for Errata { open spec fn text(&self) -> Seq<char> { report(*self) } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
//@ rewrite /\.to_string\(\)/ => .shown_()
//@ rewrite /\bmargin\(/ => margin_(

//@ fn src/core/errata.rs :: fn margin name=margin_
//@   opt /\b(\w+)\.split_inclusive\(('\\n')\)/ => split_inclusive_(\1, \2)
//@   opt /(" ")\.repeat\((\w+)\)/ => repeat_(\1, \2)
//@   opt /format!\("\{\}\{\}", / => fmt2_(
//@   spec ensures r@ == indent(str@, margin as nat)
//@   start proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
//@   loop 1 it=it invariant " "@ == seq![' '], it.seq().len() == lines(str@).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == lines(str@)[i], result@ == indent_all(lines(str@).take(it.index() as int), margin as nat),
//@   loopend 1 proof { let n = it.index() as int; assert(lines(str@).take(n + 1).drop_last() =~= lines(str@).take(n)); assert(lines(str@).take(n + 1).last() == lines(str@)[n]); }
//@   after 1 proof { assert(lines(str@).take(lines(str@).len() as int) =~= lines(str@)); }

pub proof fn lemma_lines(s: Seq<char>) requires s.len() > 0 ensures lines(s).len() > 0, lines(s)[0].len() > 0 { lemma_nl(s); }
pub proof fn lemma_indent(l: Seq<Seq<char>>, n: nat) requires l.len() > 0 ensures indent_all(l, n).len() >= n, forall|i: int| 0 <= i < n ==> indent_all(l, n)[i] == ' ' decreases l.len()
{ if l.len() > 1 { lemma_indent(l.drop_last(), n); } else { assert(l.drop_last() =~= Seq::empty()); assert(indent_all(l.drop_last(), n) =~= Seq::empty()); } }

//@ fn src/core/errata.rs :: fn bullet
//@   opt /(margin_\([^()]*\))\.chars\(\)\.collect(?:::<Vec<char>>)?\(\)/ => chars_(&\1)
//@   opt /\b(\w+)\.into_iter\(\)\.collect::<String>\(\)/ => of_chars_(\1)
//@   spec ensures r@ == bulleted(str@)
//@   start proof { if str@.len() > 0 { lemma_lines(str@); lemma_indent(lines(str@), 2); } else { assert(lines(str@) =~= Seq::empty()); } }
//@   tail proof { assert(ret_@ =~= bulleted(str@)); }

impl Errata {
//@ fn src/core/errata.rs :: impl Errata :: fn new
//@   spec ensures r.is_root, !r.color, r.message@ == message@, r.description is None, r.trace@.len() == 0, r.caused_by@.len() == 0
//@ fn src/core/errata.rs :: impl Errata :: fn colored
//@   spec ensures r@ == paint(self.color, str@, color)
//@ fn src/core/errata.rs :: impl Errata :: fn dimmed
//@   spec ensures r@ == dim(self.color, str@)
//@ fn src/core/errata.rs :: impl Display for Errata :: fn fmt vis=pub
//@   sub /(?:std::)?fmt::Formatter<'_>/ => Formatter
//@   sub /-> (?:std::)?fmt::Result/ => -> Result<(), FmtError>
//@   opt /(self\.\w+)\.iter\(\)\.enumerate\(\)/ => enumerate_(&\1)
//@   spec ensures r is Ok ==> final(f)@ == old(f)@ + report(*self)
//@   loop 1 it=it invariant it.seq().len() == self.trace@.len(), len == self.trace@.len(), len > 0, forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == self.trace@[i], buf@ == " [at "@ + dotted(self.trace@.take(it.index() as int)) + (if 0 < it.index() < len { seq!['.'] } else { Seq::empty() }),
//@   loopend 1 proof { let n = it.index() as int; let t = self.trace@; assert(t.take(n + 1).drop_last() =~= t.take(n)); assert(t.take(n + 1).last() == t[n]); if n == 0 { assert(t.take(n) =~= Seq::empty()); assert(t.take(1)[0] == t[0]); } assert(buf@ =~= " [at "@ + dotted(t.take(n + 1)) + (if n + 1 < len { seq!['.'] } else { Seq::empty() })); }
//@   after 1 proof { assert(self.trace@.take(self.trace@.len() as int) =~= self.trace@); }
//@   loop 2 it=it invariant it.seq().len() == self.caused_by@.len(), self.caused_by@.len() > 0, default_padding == 2, "\n"@ == seq!['\n'], forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == self.caused_by@[i], f@ == at + causes(*self, it.index() as int) + (if 0 < it.index() < self.caused_by@.len() { seq!['\n'] } else { Seq::empty() }),
//@   loopend 2 proof { let n = it.index() as int; assert(f@ =~= at + causes(*self, n + 1) + (if n + 1 < self.caused_by@.len() { seq!['\n'] } else { Seq::empty() })); }
//@   before 2 let ghost at = f@; proof { assert(f@ =~= h0 + (seq!['\n'] + dim(self.color, "Caused by:"@) + seq!['\n'])); assert(f@ =~= at + causes(*self, 0)); }
//@   after 2 proof { assert(f@ =~= h0 + below(*self)); }
//@   start proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); } let ghost h0 = f@ + head(*self);
//@   tail proof { assert(f@ =~= h0 + below(*self)); assert(f@ =~= old(f)@ + (head(*self) + below(*self))); }
}
// the setters that derive_setters writes
impl Errata {
    pub fn description(self, d: String) -> (r: Errata) ensures r == (Errata { description: Some(d), ..self }) { let mut s = self; s.description = Some(d); s }
    pub fn trace(self, t: Vec<String>) -> (r: Errata) ensures r == (Errata { trace: t, ..self }) { let mut s = self; s.trace = t; s }
}
pub open spec fn each_cause(a: Errata, b: Errata, p: spec_fn(Errata, Errata) -> bool) -> bool { a.caused_by@.len() == b.caused_by@.len() && forall|i: int| 0 <= i < a.caused_by@.len() ==> p(#[trigger] a.caused_by@[i], b.caused_by@[i]) }
pub open spec fn rest_same(a: Errata, b: Errata) -> bool { a.message == b.message && a.description == b.description && a.trace == b.trace }
impl Errata {
//@ fn src/core/errata.rs :: impl Errata :: fn caused_by
//@   opt /for (\w+) in (\w+\.caused_by)\.iter_mut\(\) \{\s*\1\.(\w+) = (\w+);\s*\}/ => let mut i_ = 0; while i_ < \2.len() { \2[i_].\3 = \4; i_ += 1; }
//@   loop 1 invariant i_ <= this_.caused_by@.len(), this_.caused_by@.len() == error@.len(), rest_same(this_, self), this_.is_root == self.is_root, this_.color == self.color, forall|i: int| 0 <= i < error@.len() ==> #[trigger] this_.caused_by@[i] == (if i < i_ { Errata { is_root: false, ..error@[i] } } else { error@[i] }) decreases this_.caused_by@.len() - i_
//@   spec ensures rest_same(r, self), r.is_root == self.is_root, r.color == self.color, r.caused_by@.len() == error@.len(), forall|i: int| 0 <= i < error@.len() ==> #[trigger] r.caused_by@[i] == (Errata { is_root: false, ..error@[i] })
//@ fn src/core/errata.rs :: impl Errata :: fn color
//@   opt /for (\w+) in (\w+\.caused_by)\.iter_mut\(\) \{\s*\1\.(\w+) = (\w+);\s*\}/ => let mut i_ = 0; while i_ < \2.len() { \2[i_].\3 = \4; i_ += 1; }
//@   loop 1 invariant i_ <= this_.caused_by@.len(), this_.caused_by@.len() == self.caused_by@.len(), rest_same(this_, self), this_.is_root == self.is_root, this_.color == color, forall|i: int| 0 <= i < self.caused_by@.len() ==> #[trigger] this_.caused_by@[i] == (if i < i_ { Errata { color, ..self.caused_by@[i] } } else { self.caused_by@[i] }) decreases this_.caused_by@.len() - i_
//@   spec ensures rest_same(r, self), r.is_root == self.is_root, r.color == color, r.caused_by@.len() == self.caused_by@.len(), forall|i: int| 0 <= i < self.caused_by@.len() ==> #[trigger] r.caused_by@[i] == (Errata { color, ..self.caused_by@[i] })
}

// ---- reports made from other errors
pub struct Cause<E> { pub message: E, pub description: Option<E>, pub trace: VecDeque<String> }
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct VecDeque<A> { _k: core::marker::PhantomData<A> }
impl<A> View for VecDeque<A> { type V = Seq<A>; uninterp spec fn view(&self) -> Seq<A>; }
impl<A> Clone for VecDeque<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn vec_from_<A>(d: VecDeque<A>) -> (r: Vec<A>) ensures r@ == d@ { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(E)] pub struct ValidationError<E> { _k: core::marker::PhantomData<E> }
impl<E> ValidationError<E> {
    pub uninterp spec fn causes(&self) -> Seq<Cause<E>>;
    #[verifier::external_body] pub fn as_vec(&self) -> (r: &Vec<Cause<E>>) ensures r@ == self.causes() { unimplemented!() }
}
pub open spec fn said(e: Errata, m: Seq<char>, d: Option<Seq<char>>, t: Seq<String>) -> bool {
    e.message@ == m && e.trace@ =~= t && e.caused_by@.len() == 0 && (match d { Some(d) => e.description is Some && e.description->0@ == d, None => e.description is None })
}
pub mod hyper { #[allow(unused)] use vstd::prelude::*; use super::*; verus! {
#[verifier::external_body] pub struct Error { _k: u8 }
impl Error { pub uninterp spec fn t(&self) -> Seq<char>; }
impl Shown for Error { open spec fn text(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
} }
pub mod io { use vstd::prelude::*; use super::*; verus! {
#[verifier::external_body] pub struct Error { _k: u8 }
impl Error { pub uninterp spec fn t(&self) -> Seq<char>; }
impl Shown for Error { open spec fn text(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
} }
// an error of any kind: perhaps a report, perhaps a validation error
pub mod anyhow { use vstd::prelude::*; use super::*; verus! {
#[verifier::external_body] pub struct Error { _k: u8 }
#[verifier::external_body] pub struct Source { _k: u8 }
impl Source { pub uninterp spec fn t(&self) -> Seq<char>; }
impl Shown for Source { open spec fn text(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
pub trait Held: Sized { spec fn held(e: Error) -> Option<Self>; }
impl Held for Errata { uninterp spec fn held(e: Error) -> Option<Self>; }
impl Held for ValidationError<String> { uninterp spec fn held(e: Error) -> Option<Self>; }
impl Error {
    pub uninterp spec fn t(&self) -> Seq<char>;
    pub uninterp spec fn src(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn downcast<E: Held>(self) -> (r: Result<E, Error>) ensures match E::held(self) { Some(e) => r == Ok::<E, Error>(e), None => r == Err::<E, Error>(self) } { unimplemented!() }
    #[verifier::external_body] pub fn source(&self) -> (r: Option<&Source>) ensures match self.src() { Some(t) => r is Some && r->0.t() == t, None => r is None } { unimplemented!() }
}
impl Shown for Error { open spec fn text(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
} }
#[verifier::external_body] pub struct CoreError { _k: u8 }
impl CoreError { pub uninterp spec fn t(&self) -> Seq<char>; }
impl Shown for CoreError { open spec fn text(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn shown_(&self) -> String { unimplemented!() } }
// whether a text, in lower case, has another in it
pub uninterp spec fn lower_has(s: Seq<char>, p: Seq<char>) -> bool;
pub open spec fn in_use(s: Seq<char>) -> bool { lower_has(s, "os error 48"@) }
#[verifier::external_body] pub fn lower_has_(s: &String, p: &str) -> (r: bool) ensures r == lower_has(s@, p@) { unimplemented!() }
pub trait OrEmpty<T> { fn or_empty_(self) -> Vec<T>; }
impl<T> OrEmpty<T> for Option<Vec<T>> { fn or_empty_(self) -> (r: Vec<T>) ensures self is Some ==> r == self->0, self is None ==> r@.len() == 0 { match self { Some(v) => v, None => Vec::new() } } }

impl Errata {
//@ fn src/core/errata.rs :: impl From<hyper::Error> for Errata :: fn from vis=pub name=from_hyper
//@   opt /(\w+)\.to_lowercase\(\)\.contains\(("[^"]*")\)/ => lower_has_(&\1, \2)
//@   spec ensures r.is_root && r.message@ == "Server Failed"@ && r.trace@.len() == 0,
//@   |  !in_use(error.t()) ==> said(r, "Server Failed"@, Some(error.t()), r.trace@),
//@   |  in_use(error.t()) ==> r.description is Some && r.description->0@ == "The port is already in use"@ && r.caused_by@.len() == 1 && said(r.caused_by@[0], error.t(), None, Seq::empty())
//@ fn src/core/errata.rs :: impl From<std::io::Error> for Errata :: fn from vis=pub name=from_io
//@   sub /std::io::Error/ => io::Error
//@   spec ensures r.is_root, said(r, "IO Error"@, Some(error.t()), Seq::empty())
//@ fn src/core/errata.rs :: impl From<CoreError> for Errata :: fn from vis=pub name=from_core
//@   spec ensures r.is_root, said(r, "Core Error"@, Some(error.t()), Seq::empty())
}
impl<'a> Errata {
//@ fn src/core/errata.rs :: impl<'a> From<ValidationError<&'a str>> for Errata :: fn from vis=pub name=from_causes_ref
//@   opt /Vec::from\(/ => vec_from_(
//@   closure 1 |$0: &Cause<&'a str>| -> (e: Errata) ensures said(e, $0.message@, (match $0.description { Some(d) => Some(d@), None => None }), $0.trace@)
//@   spec ensures r.is_root, r.message@ == "Invalid Configuration"@, r.description is None, r.trace@.len() == 0, r.caused_by@.len() == error.causes().len(), forall|i: int| 0 <= i < error.causes().len() ==> !(#[trigger] r.caused_by@[i]).is_root && said(r.caused_by@[i], error.causes()[i].message@, (match error.causes()[i].description { Some(d) => Some(d@), None => None }), error.causes()[i].trace@)
//@ fn src/core/errata.rs :: impl From<ValidationError<String>> for Errata :: fn from vis=pub name=from_causes
//@   opt /Vec::from\(/ => vec_from_(
//@   closure 1 |$0: &Cause<String>| -> (e: Errata) ensures said(e, $0.message@, (match $0.description { Some(d) => Some(d@), None => None }), $0.trace@)
//@   spec ensures from_validation(error, r)
//@ fn src/core/errata.rs :: impl From<anyhow::Error> for Errata :: fn from vis=pub name=from_any
//@   opt /Errata::from\((\w+)\)/ => Errata::from_causes(\1)
//@   opt /\.unwrap_or_default\(\)/ => .or_empty_()
//@   closure 1 |$0: &anyhow::Source| -> (v: Vec<Errata>) ensures v@.len() == 1, said(v@[0], $0.t(), None, Seq::empty())
//@   spec ensures match <Errata as anyhow::Held>::held(error) { Some(e) => r == e, None => match <ValidationError<String> as anyhow::Held>::held(error) { Some(v) => from_validation(v, r), None =>
//@   |  r.is_root && r.message@ == error.t() && r.description is None && r.trace@.len() == 0 && (match error.src() { Some(t) => r.caused_by@.len() == 1 && !r.caused_by@[0].is_root && said(r.caused_by@[0], t, None, Seq::empty()), None => r.caused_by@.len() == 0 }) } }
//@ fn src/core/errata.rs :: impl From<Box<dyn std::error::Error>> for Errata :: fn from vis=pub name=from_box
//@   sub /Box<dyn std::error::Error>/ => CoreError
//@   spec ensures r.is_root, said(r, value.t(), None, Seq::empty())
}
pub open spec fn from_validation(error: ValidationError<String>, r: Errata) -> bool {
    r.is_root && r.message@ == "Invalid Configuration"@ && r.description is None && r.trace@.len() == 0 && r.caused_by@.len() == error.causes().len() && forall|i: int| 0 <= i < error.causes().len() ==> !(#[trigger] r.caused_by@[i]).is_root && said(r.caused_by@[i], error.causes()[i].message@, (match error.causes()[i].description { Some(d) => Some(d@), None => None }), error.causes()[i].trace@)
}
} // verus!
fn main() {}
