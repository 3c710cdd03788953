#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
pub mod m_auth {
// Assumed shapes of jsonwebtoken, headers, htpasswd-verify and std's HashSet, as far as used here.
use vstd::prelude::*;
verus! {
#[verifier::external_body] pub struct HeaderMap { _p: () }
pub struct HeaderError;
impl HeaderError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
// the Authorization header, read as one scheme: absent, not of that scheme, or its contents
#[verifier::external_body] pub struct Basic_ { _p: () }
#[verifier::external_body] pub struct Bearer { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Authorization<T> { _k: core::marker::PhantomData<T> }
pub uninterp spec fn header<T>(h: HeaderMap) -> Result<Option<Authorization<T>>, HeaderError>;
impl Authorization<Basic_> {
    pub uninterp spec fn user(&self) -> Seq<char>;
    pub uninterp spec fn pass(&self) -> Seq<char>;
    #[verifier::external_body] pub fn username(&self) -> (r: &str) ensures r@ == self.user() { unimplemented!() }
    #[verifier::external_body] pub fn password(&self) -> (r: &str) ensures r@ == self.pass() { unimplemented!() }
}
impl Authorization<Bearer> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn token(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
pub trait Typed: Sized { fn try_get(h: &HeaderMap) -> (r: Result<Option<Self>, HeaderError>) ensures r == Self::of(*h); spec fn of(h: HeaderMap) -> Result<Option<Self>, HeaderError>; }
impl<T> Typed for Authorization<T> { open spec fn of(h: HeaderMap) -> Result<Option<Self>, HeaderError> { header::<T>(h) } #[verifier::external_body] fn try_get(h: &HeaderMap) -> Result<Option<Self>, HeaderError> { unimplemented!() } }
impl HeaderMap { pub fn typed_try_get<H: Typed>(&self) -> (r: Result<Option<H>, HeaderError>) ensures r == H::of(*self) { H::try_get(self) } }
pub struct RequestContext { pub allowed_headers: HeaderMap }
// htpasswd_verify: is this user with this password in the file?
#[verifier::external_body]
pub struct Htpasswd<'a> { _p: &'a () }
pub uninterp spec fn in_file(file: Seq<char>, user: Seq<char>, pass: Seq<char>) -> bool;
impl<'a> View for Htpasswd<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Htpasswd<'static> { #[verifier::external_body] pub fn new_owned(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() } }
impl<'a> Htpasswd<'a> { #[verifier::external_body] pub fn check(&self, u: &str, p: &str) -> (r: bool) ensures r == in_file(self@, u@, p@) { unimplemented!() } }
// jsonwebtoken
#[verifier::external_body] pub struct JwtError { _p: () }
impl JwtError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body] pub struct KeyAlgorithm { _p: () }
impl View for KeyAlgorithm { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl KeyAlgorithm { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
impl Copy for KeyAlgorithm {}
impl Clone for KeyAlgorithm { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct CommonParameters { pub key_algorithm: Option<KeyAlgorithm> }
pub struct Jwk { pub common: CommonParameters, pub key: JwkKey }
#[verifier::external_body] pub struct JwkKey { _p: () }
pub struct JwkSet { pub keys: Vec<Jwk> }
impl JwkSet { #[verifier::external_body] pub fn find(&self, kid: &String) -> (r: Option<&Jwk>) ensures match r { Some(k) => found(*self, kid@) == Some(*k), None => found(*self, kid@) is None } { unimplemented!() } }
impl Clone for JwkSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// the key of a set that goes by this id
pub uninterp spec fn found(s: JwkSet, kid: Seq<char>) -> Option<Jwk>;
#[verifier::external_body] pub struct DecodingKey { _p: () }
pub uninterp spec fn key_of(k: Jwk) -> Option<DecodingKey>;
impl DecodingKey { #[verifier::external_body] pub fn from_jwk(k: &Jwk) -> (r: Result<Self, JwtError>) ensures match r { Ok(d) => key_of(*k) == Some(d), Err(_) => key_of(*k) is None } { unimplemented!() } }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Algorithm { _p: () }
pub uninterp spec fn algorithm(name: Seq<char>) -> Option<Algorithm>;
impl Algorithm { #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<Self, JwtError>) ensures match r { Ok(a) => algorithm(s@) == Some(a), Err(_) => algorithm(s@) is None } { unimplemented!() } }
// what a token is checked for besides its signature
pub struct Validation { pub leeway: u64, pub validate_exp: bool, pub validate_nbf: bool, pub validate_aud: bool, pub algorithm_: Ghost<Algorithm>, pub insecure_: Ghost<bool> }
pub open spec fn standard(a: Algorithm) -> Validation { Validation { leeway: 60, validate_exp: true, validate_nbf: false, validate_aud: true, algorithm_: Ghost(a), insecure_: Ghost(false) } }
impl Validation {
    #[verifier::external_body] pub fn new(a: Algorithm) -> (r: Self) ensures r == standard(a) { unimplemented!() }
    #[verifier::external_body] pub fn insecure_disable_signature_validation(&mut self) ensures *final(self) == (Validation { insecure_: Ghost(true), ..*old(self) }) { unimplemented!() }
}
pub struct Header { pub kid: Option<String> }
// what the token's head says: nothing readable, no key id, a key id
pub uninterp spec fn head(token: Seq<char>) -> Option<Option<Seq<char>>>;
#[verifier::external_body] pub fn decode_header(token: &str) -> (r: Result<Header, JwtError>)
    ensures match r { Ok(h) => head(token@) == Some(match h.kid { Some(k) => Some(k@), None => None }), Err(_) => head(token@) is None } { unimplemented!() }
pub struct TokenData<T> { pub claims: T }
// the claims of a token that passes: signed with that key, not expired, ..
pub uninterp spec fn signed<T>(token: Seq<char>, k: DecodingKey, v: Validation) -> Option<T>;
#[verifier::external_body] pub fn decode<T>(token: &str, k: &DecodingKey, v: &Validation) -> (r: Result<TokenData<T>, JwtError>)
    ensures match r { Ok(d) => signed::<T>(token@, *k, *v) == Some(d.claims), Err(_) => signed::<T>(token@, *k, *v) is None } { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { _k: core::marker::PhantomData<T> }
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> HashSet<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
}
impl<T> Clone for HashSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// the part of the read configuration that names providers
pub struct Extensions { pub htpasswd: Vec<super::Content<String>>, pub jwks: Vec<super::Content<JwkSet>> }
pub struct ConfigModule { pub extensions_: Extensions }
impl ConfigModule { pub fn extensions(&self) -> (r: &Extensions) ensures *r == self.extensions_ { &self.extensions_ } }
} // verus!
}
use m_auth::*;
pub mod blueprint { pub use super::{Auth, Basic, Jwt, Provider}; }
verus! {
broadcast use axiom_string_ext;
// slice iteration's `any`/`all`: spelled as the loop it is
pub fn any_<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool) requires forall|x: &T| #[trigger] f.requires((x,)) ensures r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false)
{
    let n = v.len(); let mut i = 0;
    while i < n invariant n == v@.len(), i <= n, forall|x: &T| #[trigger] f.requires((x,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false) decreases n - i { if f(&v[i]) { assert(f.ensures((&v@[i as int],), true)); return true; } i += 1; }
    false
}
pub fn all_<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool) requires forall|x: &T| #[trigger] f.requires((x,)) ensures !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), false), r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), true)
{
    let n = v.len(); let mut i = 0;
    while i < n invariant n == v@.len(), i <= n, forall|x: &T| #[trigger] f.requires((x,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), true) decreases n - i { if !f(&v[i]) { assert(f.ensures((&v@[i as int],), false)); return false; } i += 1; }
    true
}
//@ rewrite /\b(\w+)\.iter\(\)\.(any|all)\(/ => \2_(\1, 
//@ item src/core/auth/error.rs :: enum Error
// declared from the mildest to the gravest, and compared by that
//@ text src/core/auth/error.rs /derive\([^)]*\bPartialOrd,Ord\b[^)]*\)/
//@ text src/core/auth/error.rs /Missing,(#\[error\("[^"]*"\)\])?Parse\(String\),(#\[error\("[^"]*"\)\])?Invalid/
//@ item src/core/auth/verification.rs :: enum Verification
impl Clone for Error { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Error { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
pub enum Verdict { Pass, Missing, Unreadable, Invalid }
pub open spec fn grade(e: Error) -> Verdict { match e { Error::Missing => Verdict::Missing, Error::Parse(_) => Verdict::Unreadable, Error::Invalid => Verdict::Invalid } }
pub open spec fn seen(v: Verification) -> Verdict { match v { Verification::Succeed => Verdict::Pass, Verification::Fail(e) => grade(e) } }
pub open spec fn rank(v: Verdict) -> int { match v { Verdict::Pass => 0, Verdict::Missing => 1, Verdict::Unreadable => 2, Verdict::Invalid => 3 } }
pub open spec fn graver(a: Verdict, b: Verdict) -> Verdict { if rank(a) >= rank(b) { a } else { b } }
// std::cmp::max by the derived order
#[verifier::external_body] pub fn max(a: Error, b: Error) -> (r: Error) ensures r == a || r == b, rank(grade(r)) == rank(graver(grade(a), grade(b))) { unimplemented!() }
#[verifier::external_body] pub fn min(a: Error, b: Error) -> (r: Error) ensures r == a || r == b, rank(grade(r)) <= rank(grade(a)), rank(grade(r)) <= rank(grade(b)) { unimplemented!() }
// ---- the rule: which requests pass
pub open spec fn both(a: Verdict, b: Verdict) -> Verdict { if a is Pass { b } else { a } }
pub open spec fn either(a: Verdict, b: Verdict) -> Verdict { if a is Pass || b is Pass { Verdict::Pass } else { graver(a, b) } }
pub open spec fn basic_says(file: Seq<char>, h: HeaderMap) -> Verdict {
    match header::<Basic_>(h) { Err(_) => Verdict::Invalid, Ok(None) => Verdict::Missing, Ok(Some(a)) => if in_file(file, a.user(), a.pass()) { Verdict::Pass } else { Verdict::Invalid } }
}
// a token is good for a key if it carries that key's signature by the key's own algorithm and is current
pub open spec fn good(token: Seq<char>, k: Jwk) -> Option<JwtClaim> {
    if key_of(k) is Some && k.common.key_algorithm is Some && algorithm(k.common.key_algorithm->0@) is Some {
        signed::<JwtClaim>(token, key_of(k)->0, Validation { validate_aud: false, ..standard(algorithm(k.common.key_algorithm->0@)->0) })
    } else { None }
}
pub open spec fn first_good(token: Seq<char>, ks: Seq<Jwk>, i: int) -> Option<JwtClaim> decreases ks.len() - i {
    if i < 0 || i >= ks.len() { None } else if good(token, ks[i]) is Some { good(token, ks[i]) } else { first_good(token, ks, i + 1) }
}
pub open spec fn claims(set: JwkSet, optional_kid: bool, token: Seq<char>) -> Option<JwtClaim> {
    match head(token) {
        None => None,
        Some(Some(kid)) => match found(set, kid) { Some(k) => good(token, k), None => None },
        Some(None) => if optional_kid { first_good(token, set.keys@, 0) } else { None },
    }
}
pub open spec fn issuer_ok(o: Jwt, c: JwtClaim) -> bool { o.issuer is Some ==> c.iss == o.issuer }
pub open spec fn audience_ok(o: Jwt, c: JwtClaim) -> bool {
    o.audiences@ == Set::<String>::empty() || match c.aud {
        None => false,
        Some(OneOrMany::One(a)) => o.audiences@.contains(a),
        Some(OneOrMany::Vec(v)) => exists|i: int| 0 <= i < v@.len() && o.audiences@.contains(#[trigger] v@[i]),
    }
}
pub open spec fn jwt_says(o: Jwt, h: HeaderMap) -> Verdict {
    match header::<Bearer>(h) {
        Err(_) => Verdict::Invalid,
        Ok(None) => Verdict::Missing,
        Ok(Some(a)) => match claims(o.jwks, o.optional_kid, a.text()) {
            None => Verdict::Unreadable,
            Some(c) => if issuer_ok(o, c) && audience_ok(o, c) { Verdict::Pass } else { Verdict::Invalid },
        },
    }
}
pub open spec fn provider_says(p: Provider, h: HeaderMap) -> Verdict { match p { Provider::Basic(b) => basic_says(b.htpasswd@, h), Provider::Jwt(o) => jwt_says(o, h) } }
pub open spec fn rule_says(a: Auth, h: HeaderMap) -> Verdict decreases a {
    match a { Auth::Provider(p) => provider_says(p, h), Auth::And(l, r) => both(rule_says(*l, h), rule_says(*r, h)), Auth::Or(l, r) => either(rule_says(*l, h), rule_says(*r, h)) }
}
// as a formula: both of an And, one of an Or
pub open spec fn lets_in(a: Auth, h: HeaderMap) -> bool decreases a {
    match a { Auth::Provider(p) => provider_says(p, h) is Pass, Auth::And(l, r) => lets_in(*l, h) && lets_in(*r, h), Auth::Or(l, r) => lets_in(*l, h) || lets_in(*r, h) }
}
pub proof fn lemma_formula(a: Auth, h: HeaderMap) ensures lets_in(a, h) == (rule_says(a, h) is Pass) decreases a
{ match a { Auth::Provider(_) => {}, Auth::And(l, r) => { lemma_formula(*l, h); lemma_formula(*r, h); }, Auth::Or(l, r) => { lemma_formula(*l, h); lemma_formula(*r, h); } } }
// ---- verdicts and how they combine
impl Verification {
//@ fn src/core/auth/verification.rs :: impl Verification :: fn fail
//@   spec ensures r == Verification::Fail(error)
//@ fn src/core/auth/verification.rs :: impl Verification :: fn succeed
//@   spec ensures r is Succeed
//@ fn src/core/auth/verification.rs :: impl Verification :: fn fold
//@   spec requires self is Fail ==> on_error.requires((self->Fail_0,))
//@   | ensures self is Succeed ==> r == on_success, self is Fail ==> on_error.ensures((self->Fail_0,), r)
//@ fn src/core/auth/verification.rs :: impl Verification :: fn or
//@   spec ensures seen(r) == either(seen(*self), seen(other)), r is Fail ==> r == *self || r == other
//@   closure 1 |$0: Error| -> (v: Verification) ensures v is Fail, v == *self || v == Verification::Fail($0), rank(seen(v)) == rank(graver(seen(*self), grade($0)))
//@ fn src/core/auth/verification.rs :: impl Verification :: fn and
//@   spec ensures r == (if self is Succeed { other } else { self })
//@ fn src/core/auth/verification.rs :: impl Verification :: fn from_result
//@   spec requires result is Ok ==> on_success.requires((result->Ok_0,)), result is Err ==> on_err.requires((result->Err_0,))
//@   | ensures result is Ok ==> on_success.ensures((result->Ok_0,), r), result is Err ==> on_err.ensures((result->Err_0,), r)
//@ fn src/core/auth/verification.rs :: impl Verification :: fn to_result
//@   spec ensures r == (match *self { Verification::Succeed => Ok::<(), Error>(()), Verification::Fail(e) => Err(e) })
}
pub trait Verify { spec fn verdict(&self, h: HeaderMap) -> Verdict; fn verify(&self, req_ctx: &RequestContext) -> (r: Verification) ensures seen(r) == self.verdict(req_ctx.allowed_headers); }
// ---- user and password
//@ item src/core/blueprint/auth.rs :: struct Basic
impl Clone for Basic { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ item src/core/auth/basic.rs :: struct BasicVerifier
impl Verify for BasicVerifier {
    open spec fn verdict(&self, h: HeaderMap) -> Verdict { basic_says(self.verifier@, h) }
//@ fn src/core/auth/basic.rs :: impl Verify for BasicVerifier :: fn verify async=drop vis=none
//@   opt /Authorization<Basic>/ => Authorization<Basic_>
//@   start proof { if let Ok(Some(a)) = header::<Basic_>(req_ctx.allowed_headers) { } }
}
impl BasicVerifier {
//@ fn src/core/auth/basic.rs :: impl BasicVerifier :: fn new
//@   spec ensures r.verifier@ == options.htpasswd@
}
// ---- tokens
//@ item src/core/blueprint/auth.rs :: struct Jwt
impl Clone for Jwt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ item src/core/auth/jwt/jwt_verify.rs :: enum OneOrMany
//@ item src/core/auth/jwt/jwt_verify.rs :: struct JwtClaim
//@ item src/core/auth/jwt/jwks.rs :: struct Jwks
impl Jwks {
//@ fn src/core/auth/jwt/jwks.rs :: impl Jwks :: fn decode_with_jwk
//@   spec ensures match r { Ok(c) => good(token@, *jwk) == Some(c), Err(_) => good(token@, *jwk) is None }
//@   closure 3 |e_: JwtError| -> (e: Error)
//@ fn src/core/auth/jwt/jwks.rs :: impl Jwks :: fn decode
//@   attr #[verifier::loop_isolation(false)]
//@   spec ensures match r { Ok(c) => claims(self.set, self.optional_kid, token@) == Some(c), Err(_) => claims(self.set, self.optional_kid, token@) is None }
//@   closure 1 |e_: JwtError| -> (e: Error)
//@   loop 1 it=it invariant it.seq() == self.set.keys@.map_values(|k: Jwk| &k), first_good(token@, self.set.keys@, 0) == first_good(token@, self.set.keys@, it.index() as int),
}
//@ item src/core/auth/jwt/jwt_verify.rs :: struct JwtVerifier
impl JwtVerifier {
//@ fn src/core/auth/jwt/jwt_verify.rs :: impl JwtVerifier :: fn new
//@   spec ensures r.options == options, r.decoder.set == options.jwks, r.decoder.optional_kid == options.optional_kid
//@ fn src/core/auth/jwt/jwt_verify.rs :: impl JwtVerifier :: fn resolve_token
//@   opt /anyhow::Result<Option<String>>/ => Result<Option<String>, HeaderError>
//@   spec ensures match header::<Bearer>(request.allowed_headers) { Err(_) => r is Err, Ok(None) => r == Ok::<Option<String>, HeaderError>(None), Ok(Some(a)) => r is Ok && r->Ok_0 is Some && r->Ok_0->0@ == a.text() }
//@   closure 1 |$0: Authorization<Bearer>| -> (s: String) ensures s@ == $0.text()
//@ fn src/core/auth/jwt/jwt_verify.rs :: impl JwtVerifier :: fn validate_token async=drop
//@   spec ensures seen(r) == (match claims(self.decoder.set, self.decoder.optional_kid, token@) { None => Verdict::Unreadable, Some(c) => if issuer_ok(self.options, c) && audience_ok(self.options, c) { Verdict::Pass } else { Verdict::Invalid } })
//@   closure 1 |$0: JwtClaim| -> (v: Verification) ensures seen(v) == (if issuer_ok(self.options, $0) && audience_ok(self.options, $0) { Verdict::Pass } else { Verdict::Invalid })
//@   closure 2 |$0: Error| -> (v: Verification) ensures seen(v) is Unreadable
//@ fn src/core/auth/jwt/jwt_verify.rs :: impl JwtVerifier :: fn validate_claims
//@   spec ensures seen(r) == (if issuer_ok(self.options, *claims) && audience_ok(self.options, *claims) { Verdict::Pass } else { Verdict::Invalid })
}
impl Verify for JwtVerifier {
    open spec fn verdict(&self, h: HeaderMap) -> Verdict { jwt_says(Jwt { jwks: self.decoder.set, optional_kid: self.decoder.optional_kid, ..self.options }, h) }
//@ fn src/core/auth/jwt/jwt_verify.rs :: impl Verify for JwtVerifier :: fn verify async=drop vis=none
}
//@ fn src/core/auth/jwt/jwt_verify.rs :: fn validate_iss
//@   spec ensures r == issuer_ok(*options, *claims)
//@   opt /\biss == issuer\b/ => *iss == *issuer
//@   closure 1 |$0: &String| -> (b: bool) ensures b == (claims.iss == Some(*$0))
//@   closure 2 |$0: &String| -> (b: bool) ensures b == (*$0 == *issuer)
//@ fn src/core/auth/jwt/jwt_verify.rs :: fn validate_aud
//@   spec ensures r == audience_ok(*options, *claims)
//@   closure 1 |$0: &String| -> (b: bool) ensures b == audiences@.contains(*$0)
// ---- rules of several providers
//@ item src/core/config/config_module.rs :: struct Content
//@ item src/core/blueprint/auth.rs :: enum Provider
//@ item src/core/blueprint/auth.rs :: enum Auth
//@ item src/core/auth/verify.rs :: enum Verifier
//@ item src/core/auth/verify.rs :: enum AuthVerifier
pub open spec fn tree_says(v: AuthVerifier, h: HeaderMap) -> Verdict decreases v {
    match v { AuthVerifier::Single(p) => p.verdict(h), AuthVerifier::And(l, r) => both(tree_says(*l, h), tree_says(*r, h)), AuthVerifier::Or(l, r) => either(tree_says(*l, h), tree_says(*r, h)) }
}
impl Verify for Verifier {
    open spec fn verdict(&self, h: HeaderMap) -> Verdict { match self { Verifier::Basic(b) => b.verdict(h), Verifier::Jwt(j) => j.verdict(h) } }
//@ fn src/core/auth/verify.rs :: impl Verify for Verifier :: fn verify async=drop vis=none
}
//@ rewrite /\bjoin!\(/ => (
impl Verify for AuthVerifier {
    open spec fn verdict(&self, h: HeaderMap) -> Verdict { tree_says(*self, h) }
//@ fn src/core/auth/verify.rs :: impl Verify for AuthVerifier :: fn verify async=drop vis=none
//@   spec decreases self
}
//@ fn src/core/auth/verify.rs :: impl From<blueprint::Provider> for Verifier :: fn from name=verifier_from
//@   opt /-> Self/ => -> Verifier
//@   spec ensures forall|h: HeaderMap| #[trigger] r.verdict(h) == provider_says(provider, h)
//@ fn src/core/auth/verify.rs :: impl From<blueprint::Auth> for AuthVerifier :: fn from name=auth_verifier_from
//@   opt /-> Self/ => -> AuthVerifier
//@   opt /\(\*(\w+)\)\.into\(\)/ => auth_verifier_from(*\1)
//@   opt /\bprovider\.into\(\)/ => verifier_from(provider)
//@   spec ensures forall|h: HeaderMap| #[trigger] tree_says(r, h) == rule_says(provider, h)
//@   | decreases provider
//@   start let ghost p0 = provider;
//@   tail proof { assert forall|h: HeaderMap| #[trigger] tree_says(ret_, h) == rule_says(p0, h) by { match ret_ { AuthVerifier::Single(p) => { assert(p.verdict(h) == provider_says(p0->Provider_0, h)); }, AuthVerifier::And(l, r) => { assert(tree_says(*l, h) == rule_says(*(p0->And_0), h)); assert(tree_says(*r, h) == rule_says(*(p0->And_1), h)); }, AuthVerifier::Or(l, r) => { assert(tree_says(*l, h) == rule_says(*(p0->Or_0), h)); assert(tree_says(*r, h) == rule_says(*(p0->Or_1), h)); } } } }
impl Auth {
//@ fn src/core/blueprint/auth.rs :: impl Auth :: fn and
//@   spec ensures forall|h: HeaderMap| #[trigger] rule_says(r, h) == both(rule_says(self, h), rule_says(other, h))
//@ fn src/core/blueprint/auth.rs :: impl Auth :: fn or
//@   spec ensures forall|h: HeaderMap| #[trigger] rule_says(r, h) == either(rule_says(self, h), rule_says(other, h))
//@ fn src/core/blueprint/auth.rs :: impl Auth :: fn from_config
//@   opt /\.reduce\(/ => .collect::<Vec<_>>().reduce_auth_(
//@   spec ensures match r { None => named(*config_module) == 0, Some(a) => named(*config_module) > 0 && forall|h: HeaderMap| #[trigger] lets_in(a, h) == all_pass(*config_module, h) }
//@   tail proof { assert forall|s: Seq<Content<Provider>>, a: Seq<Auth>, h: HeaderMap| #![trigger listed(*config_module, s), all_in(a, h)] listed(*config_module, s) && a.len() == s.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == Auth::Provider(s[i].content)) implies all_in(a, h) == all_pass(*config_module, h) by { lemma_all(*config_module, s, a, h); } }
//@   closure 1 |$0: Content<Provider>| -> (a: Auth) ensures a == Auth::Provider($0.content)
//@   closure 2 |$0: Auth, $1: Auth| -> (a: Auth) ensures forall|h: HeaderMap| #[trigger] rule_says(a, h) == both(rule_says($0, h), rule_says($1, h))
}
impl Content<String> {
//@ fn src/core/blueprint/auth.rs :: impl From<Content<String>> for Content<Provider> :: fn from name=into_
//@   opt /-> Self/ => -> Content<Provider>
//@   opt /\bcontent: Content<String>/ => self
//@   opt /\bcontent\.(id|content)\b/ => self.\1
//@   spec ensures forall|h: HeaderMap| #[trigger] provider_says(r.content, h) == basic_says(self.content@, h)
}
impl Content<JwkSet> {
//@ fn src/core/blueprint/auth.rs :: impl From<Content<JwkSet>> for Content<Provider> :: fn from name=into_
//@   opt /-> Self/ => -> Content<Provider>
//@   opt /\bcontent: Content<JwkSet>/ => self
//@   opt /\bcontent\.(id|content)\b/ => self.\1
//@   spec ensures forall|h: HeaderMap| #[trigger] provider_says(r.content, h) == keys_say(self.content, h)
}
impl<T> Clone for Content<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// any current token signed by one of these keys
pub open spec fn keys_say(set: JwkSet, h: HeaderMap) -> Verdict {
    match header::<Bearer>(h) { Err(_) => Verdict::Invalid, Ok(None) => Verdict::Missing, Ok(Some(a)) => if claims(set, false, a.text()) is Some { Verdict::Pass } else { Verdict::Unreadable } }
}
pub open spec fn named(c: ConfigModule) -> nat { c.extensions_.htpasswd@.len() + c.extensions_.jwks@.len() }
pub open spec fn nth_says(c: ConfigModule, i: int, h: HeaderMap) -> Verdict {
    let n = c.extensions_.htpasswd@.len(); if i < n { basic_says(c.extensions_.htpasswd@[i].content@, h) } else { keys_say(c.extensions_.jwks@[i - n].content, h) }
}
pub open spec fn listed(c: ConfigModule, s: Seq<Content<Provider>>) -> bool { s.len() == named(c) && forall|i: int, h: HeaderMap| 0 <= i < s.len() ==> #[trigger] provider_says(s[i].content, h) == nth_says(c, i, h) }
pub open spec fn all_pass(c: ConfigModule, h: HeaderMap) -> bool {
    &&& forall|i: int| 0 <= i < c.extensions_.htpasswd@.len() ==> basic_says((#[trigger] c.extensions_.htpasswd@[i]).content@, h) is Pass
    &&& forall|i: int| 0 <= i < c.extensions_.jwks@.len() ==> keys_say((#[trigger] c.extensions_.jwks@[i]).content, h) is Pass
}
//@ rewrite /\.chain\(/ => .collect::<Vec<_>>().chain_(
//@ rewrite /\.into\(\)/ => .into_()
impl Provider {
//@ fn src/core/blueprint/auth.rs :: impl Provider :: fn from_config
//@   spec ensures listed(*config_module, r@)
//@   closure 1 |$0: &Content<String>| -> (p: Content<Provider>) ensures forall|h: HeaderMap| #[trigger] provider_says(p.content, h) == basic_says($0.content@, h)
//@   closure 2 |$0: &Content<JwkSet>| -> (p: Content<Provider>) ensures forall|h: HeaderMap| #[trigger] provider_says(p.content, h) == keys_say($0.content, h)
}
// what a left-to-right reduction has after each item
pub open spec fn partials<T, F: Fn(T, T) -> T>(s: Seq<T>, f: F, q: Seq<T>) -> bool {
    q.len() == s.len() && s.len() > 0 && q[0] == s[0] && forall|i: int| 1 <= i < s.len() ==> f.ensures((q[i - 1], s[i]), #[trigger] q[i])
}
pub trait Reduce_<T>: Sized { spec fn items(self) -> Seq<T>; fn reduce_<F: Fn(T, T) -> T>(self, f: F) -> (r: Option<T>) requires forall|a: T, b: T| #[trigger] f.requires((a, b)) ensures match r { None => self.items().len() == 0, Some(x) => exists|q: Seq<T>| #[trigger] partials(self.items(), f, q) && x == q.last() }; }
impl<T> Reduce_<T> for Vec<T> {
    open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn reduce_<F: Fn(T, T) -> T>(self, f: F) -> Option<T> { unimplemented!() }
}
pub open spec fn all_in(s: Seq<Auth>, h: HeaderMap) -> bool { forall|i: int| 0 <= i < s.len() ==> lets_in(#[trigger] s[i], h) }
pub open spec fn joins<F: Fn(Auth, Auth) -> Auth>(f: F) -> bool { forall|a: Auth, b: Auth, c: Auth, h: HeaderMap| #![trigger f.ensures((a, b), c), rule_says(c, h)] f.ensures((a, b), c) ==> rule_says(c, h) == both(rule_says(a, h), rule_says(b, h)) }
pub proof fn lemma_reduced<F: Fn(Auth, Auth) -> Auth>(s: Seq<Auth>, f: F, n: int, q: Seq<Auth>, h: HeaderMap)
    requires joins(f), 1 <= n <= s.len(), partials(s, f, q) ensures lets_in(q[n - 1], h) == all_in(s.take(n), h) decreases n
{
    lemma_formula(q[n - 1], h);
    let t = s.take(n);
    if n <= 1 { assert(t[0] == s[0]); } else {
        let u = s.take(n - 1);
        lemma_reduced(s, f, n - 1, q, h); lemma_formula(q[n - 2], h); lemma_formula(s[n - 1], h);
        assert(f.ensures((q[n - 1 - 1], s[n - 1]), q[n - 1]));
        assert(rule_says(q[n - 1], h) == both(rule_says(q[n - 2], h), rule_says(s[n - 1], h)));
        assert(t[n - 1] == s[n - 1]);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] u[i] == t[i] by {}
        if all_in(u, h) && lets_in(s[n - 1], h) { assert forall|i: int| 0 <= i < t.len() implies lets_in(#[trigger] t[i], h) by { if i < n - 1 { assert(u[i] == t[i]); } } }
        if all_in(t, h) { assert forall|i: int| 0 <= i < u.len() implies lets_in(#[trigger] u[i], h) by { assert(t[i] == u[i]); } }
    }
}
pub trait ReduceAuth { spec fn auths(self) -> Seq<Auth>; fn reduce_auth_<F: Fn(Auth, Auth) -> Auth>(self, f: F) -> (r: Option<Auth>) requires forall|a: Auth, b: Auth| #[trigger] f.requires((a, b)), joins(f) ensures match r { None => self.auths().len() == 0, Some(x) => self.auths().len() > 0 && forall|h: HeaderMap| #[trigger] lets_in(x, h) == all_in(self.auths(), h) }; }
impl ReduceAuth for Vec<Auth> {
    open spec fn auths(self) -> Seq<Auth> { self@ }
    fn reduce_auth_<F: Fn(Auth, Auth) -> Auth>(self, f: F) -> (r: Option<Auth>) {
        let ghost s = self@; let ghost g = f;
        let r = self.reduce_(f);
        proof { if r is Some { let x = r->0; let q = choose|q: Seq<Auth>| #[trigger] partials(s, g, q) && x == q.last(); assert(s.take(s.len() as int) =~= s); assert forall|h: HeaderMap| #[trigger] lets_in(x, h) == all_in(s, h) by { lemma_reduced(s, g, s.len() as int, q, h); } } }
        r
    }
}
pub proof fn lemma_all(c: ConfigModule, s: Seq<Content<Provider>>, a: Seq<Auth>, h: HeaderMap)
    requires listed(c, s),
        a.len() == s.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == Auth::Provider(s[i].content)
    ensures all_in(a, h) == all_pass(c, h)
{
    let n = c.extensions_.htpasswd@.len() as int;
    if all_in(a, h) {
        assert forall|i: int| 0 <= i < n implies basic_says((#[trigger] c.extensions_.htpasswd@[i]).content@, h) is Pass by { assert(lets_in(a[i], h)); assert(nth_says(c, i, h) == provider_says(s[i].content, h)); }
        assert forall|i: int| 0 <= i < c.extensions_.jwks@.len() implies keys_say((#[trigger] c.extensions_.jwks@[i]).content, h) is Pass by { assert(lets_in(a[n + i], h)); assert(nth_says(c, n + i, h) == provider_says(s[n + i].content, h)); }
    }
    if all_pass(c, h) {
        assert forall|i: int| 0 <= i < a.len() implies lets_in(#[trigger] a[i], h) by {
            assert(nth_says(c, i, h) == provider_says(s[i].content, h));
            if i < n { assert(basic_says(c.extensions_.htpasswd@[i].content@, h) is Pass); } else { assert(keys_say(c.extensions_.jwks@[i - n].content, h) is Pass); }
        }
    }
}
pub trait Chain_<T>: Sized { spec fn items_(self) -> Seq<T>; fn chain_<I: Iterator<Item = T>>(self, o: I) -> (r: std::vec::IntoIter<T>) ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.items_() + vstd::std_specs::iter::IteratorSpec::remaining(&o), vstd::std_specs::iter::IteratorSpec::will_return_none(&o); }
impl<T> Chain_<T> for Vec<T> {
    open spec fn items_(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn chain_<I: Iterator<Item = T>>(self, o: I) -> std::vec::IntoIter<T> { unimplemented!() }
}
}
fn main() {}
