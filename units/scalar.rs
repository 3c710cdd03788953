#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/jv.rs
//@ include prelude/jsonlike.rs
pub mod p_scalar {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
// ---- the libraries' notions
pub uninterp spec fn is_email(s: Seq<char>) -> bool;
pub uninterp spec fn is_phone(s: Seq<char>) -> bool;
pub uninterp spec fn is_rfc3339(s: Seq<char>) -> bool;
pub uninterp spec fn is_url(s: Seq<char>) -> bool;
pub struct Err_;
pub mod async_graphql { pub mod validators { use vstd::prelude::*; use super::super::*; verus! {
    #[verifier::external_body] pub fn email(s: &String) -> (r: Result<(), Err_>) ensures r is Ok == is_email(s@) { unimplemented!() }
} } }
pub mod phonenumber { use vstd::prelude::*; use super::*; verus! {
    #[verifier::external_body] pub fn parse(c: Option<u8>, s: &str) -> (r: Result<(), Err_>) ensures c is None ==> r is Ok == is_phone(s@) { unimplemented!() }
} }
pub mod chrono { use vstd::prelude::*; use super::*; verus! {
    pub struct DateTime;
    impl DateTime { #[verifier::external_body] pub fn parse_from_rfc3339(s: &str) -> (r: Result<(), Err_>) ensures r is Ok == is_rfc3339(s@) { unimplemented!() } }
} }
pub mod url { use vstd::prelude::*; use super::*; verus! {
    pub struct Url;
    impl Url { #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<(), Err_>) ensures r is Ok == is_url(s@) { unimplemented!() } }
} }
// ---- whole numbers as text: a sign or none (no minus if unsigned), digits
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn amount(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { amount(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn whole(s: Seq<char>, signed: bool) -> Option<int> {
    if digits(s) { Some(amount(s)) }
    else if s.len() > 0 && s[0] == '+' && digits(s.skip(1)) { Some(amount(s.skip(1))) }
    else if signed && s.len() > 0 && s[0] == '-' && digits(s.skip(1)) { Some(-amount(s.skip(1))) }
    else { None }
}
pub open spec fn whole_in(s: Seq<char>, lo: int, hi: int) -> bool { match whole(s, lo < 0) { Some(i) => lo <= i <= hi, None => false } }
pub trait FromText: Sized { spec fn lo() -> int; spec fn hi() -> int; fn parse_(s: &str) -> (r: Result<Self, Err_>) ensures r is Ok == whole_in(s@, Self::lo(), Self::hi()); }
impl FromText for i64 { open spec fn lo() -> int { i64::MIN as int } open spec fn hi() -> int { i64::MAX as int } #[verifier::external_body] fn parse_(s: &str) -> (r: Result<Self, Err_>) { unimplemented!() } }
impl FromText for u64 { open spec fn lo() -> int { u64::MIN as int } open spec fn hi() -> int { u64::MAX as int } #[verifier::external_body] fn parse_(s: &str) -> (r: Result<Self, Err_>) { unimplemented!() } }
impl FromText for i128 { open spec fn lo() -> int { i128::MIN as int } open spec fn hi() -> int { i128::MAX as int } #[verifier::external_body] fn parse_(s: &str) -> (r: Result<Self, Err_>) { unimplemented!() } }
impl FromText for u128 { open spec fn lo() -> int { u128::MIN as int } open spec fn hi() -> int { u128::MAX as int } #[verifier::external_body] fn parse_(s: &str) -> (r: Result<Self, Err_>) { unimplemented!() } }
#[verifier::external_body] pub fn i8_try_from(n: i64) -> (r: Result<i8, Err_>) ensures r is Ok == (i8::MIN <= n <= i8::MAX) { unimplemented!() }
#[verifier::external_body] pub fn i16_try_from(n: i64) -> (r: Result<i16, Err_>) ensures r is Ok == (i16::MIN <= n <= i16::MAX) { unimplemented!() }
#[verifier::external_body] pub fn i32_try_from(n: i64) -> (r: Result<i32, Err_>) ensures r is Ok == (i32::MIN <= n <= i32::MAX) { unimplemented!() }
#[verifier::external_body] pub fn u8_try_from(n: u64) -> (r: Result<u8, Err_>) ensures r is Ok == (u8::MIN <= n <= u8::MAX) { unimplemented!() }
#[verifier::external_body] pub fn u16_try_from(n: u64) -> (r: Result<u16, Err_>) ensures r is Ok == (u16::MIN <= n <= u16::MAX) { unimplemented!() }
#[verifier::external_body] pub fn u32_try_from(n: u64) -> (r: Result<u32, Err_>) ensures r is Ok == (u32::MIN <= n <= u32::MAX) { unimplemented!() }
// ---- Option::map_or
pub trait MapOr<T>: Sized { spec fn opt(self) -> Option<T>; fn map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) requires self.opt() is Some ==> f.requires((self.opt()->0,)) ensures match self.opt() { Some(t) => f.ensures((t,), r), None => r == d }; }
impl<T> MapOr<T> for Option<T> { open spec fn opt(self) -> Option<T> { self } fn map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { match self { Some(t) => f(t), None => d } } }
pub type TryFromIntError = Err_;
//@ rewrite /std::num::TryFromIntError/ => TryFromIntError
// ---- the checks of one kind
//@ rewrite /\bval\.as_(str|i64|u64)\(\)\s*\.map_or\(/ => MapOr::map_or(val.as_\1(), 
//@ fn src/core/scalar.rs :: fn eval_str
//@   spec requires match val.jv() { JV::Str(s) => forall|t: &str| t@ == s ==> #[trigger] fxn.requires((t,)), _ => true }
//@   | ensures match val.jv() { JV::Str(s) => exists|t: &str| t@ == s && #[trigger] fxn.ensures((t,), r), _ => !r }
//@ fn src/core/scalar.rs :: fn eval_signed
//@   closure 1 |$0: i64| -> (b: bool) requires fxn.requires(($0,)) ensures exists|o: Result<Num, TryFromIntError>| #[trigger] fxn.ensures(($0,), o) && b == (o is Ok)
//@   spec requires match num_i64(val.jv()) { Some(n) => fxn.requires((n,)), None => true }
//@   | ensures match num_i64(val.jv()) { Some(n) => exists|o: Result<Num, TryFromIntError>| #[trigger] fxn.ensures((n,), o) && r == (o is Ok), None => !r }
//@ fn src/core/scalar.rs :: fn eval_unsigned
//@   closure 1 |$0: u64| -> (b: bool) requires fxn.requires(($0,)) ensures exists|o: Result<Num, TryFromIntError>| #[trigger] fxn.ensures(($0,), o) && b == (o is Ok)
//@   spec requires match num_u64(val.jv()) { Some(n) => fxn.requires((n,)), None => true }
//@   | ensures match num_u64(val.jv()) { Some(n) => exists|o: Result<Num, TryFromIntError>| #[trigger] fxn.ensures((n,), o) && r == (o is Ok), None => !r }
// ---- the scalars
//@ item src/core/scalar.rs :: enum Scalar
pub open spec fn text_of(v: JV) -> Option<Seq<char>> { match v { JV::Str(s) => Some(s), _ => None } }
pub open spec fn signed_in(v: JV, lo: int, hi: int) -> bool { match num_i64(v) { Some(n) => lo <= n <= hi, None => false } }
pub open spec fn unsigned_in(v: JV, hi: int) -> bool { match num_u64(v) { Some(n) => n <= hi, None => false } }
pub open spec fn accepts(s: Scalar, v: JV) -> bool {
    let t = text_of(v);
    match s {
        Scalar::JSON | Scalar::Empty => true,
        Scalar::Bytes => t is Some,
        Scalar::Email => t is Some && is_email(t->0),
        Scalar::PhoneNumber => t is Some && is_phone(t->0),
        Scalar::Date | Scalar::DateTime => t is Some && is_rfc3339(t->0),
        Scalar::Url => t is Some && is_url(t->0),
        Scalar::Int64 => t is Some && whole_in(t->0, i64::MIN as int, i64::MAX as int),
        Scalar::UInt64 => t is Some && whole_in(t->0, 0, u64::MAX as int),
        Scalar::Int128 => t is Some && whole_in(t->0, i128::MIN as int, i128::MAX as int),
        Scalar::UInt128 => t is Some && whole_in(t->0, 0, u128::MAX as int),
        Scalar::Int8 => signed_in(v, -128, 127),
        Scalar::Int16 => signed_in(v, -32768, 32767),
        Scalar::Int32 => signed_in(v, -2147483648, 2147483647),
        Scalar::UInt8 => unsigned_in(v, 255),
        Scalar::UInt16 => unsigned_in(v, 65535),
        Scalar::UInt32 => unsigned_in(v, 4294967295),
    }
}
// every scalar goes by its own name (strum's Display and EnumIter)
pub open spec fn name_text(s: Scalar) -> Seq<char> { match s { Scalar::Empty => "Empty"@, Scalar::Email => "Email"@, Scalar::PhoneNumber => "PhoneNumber"@, Scalar::Date => "Date"@, Scalar::DateTime => "DateTime"@, Scalar::Url => "Url"@, Scalar::JSON => "JSON"@, Scalar::Int8 => "Int8"@, Scalar::Int16 => "Int16"@, Scalar::Int32 => "Int32"@, Scalar::Int64 => "Int64"@, Scalar::Int128 => "Int128"@, Scalar::UInt8 => "UInt8"@, Scalar::UInt16 => "UInt16"@, Scalar::UInt32 => "UInt32"@, Scalar::UInt64 => "UInt64"@, Scalar::UInt128 => "UInt128"@, Scalar::Bytes => "Bytes"@ } }
impl Scalar { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == name_text(*self) { unimplemented!() } }
//@ text src/core/scalar.rs /\bstrum_macros::Display,strum_macros::EnumIter\b/
//@ text src/core/scalar.rs /Scalar::iter\(\)\.map\(\|(\w+)\|\(\1\.name\(\),\1\)\)\.collect\(\)/
#[verifier::external_body] pub struct Custom { _p: () }
impl Custom { #[verifier::external_body] pub fn get(&self, name: &str) -> (r: Option<&Scalar>) ensures match r { Some(s) => name_text(*s) == name@, None => forall|s: Scalar| name_text(s) != name@ } { unimplemented!() } }
#[verifier::external_body] pub fn custom_() -> (r: &'static Custom) { unimplemented!() }
pub open spec fn predefined(n: Seq<char>) -> bool { n == "Boolean"@ || n == "Float"@ || n == "ID"@ || n == "Int"@ || n == "String"@ }
//@ text src/core/scalar.rs /const PREDEFINED_SCALARS:&\[&str\]=&\["Boolean","Float","ID","Int","String",?\];/
#[verifier::external_body] pub struct Names { _p: () }
impl Names { #[verifier::external_body] pub fn iter(&self) -> (r: Self) { unimplemented!() } #[verifier::external_body] pub fn any<F: Fn(&&str) -> bool>(&self, f: F) -> (r: bool) requires forall|x: &&str| #[trigger] f.requires((x,)) ensures r ==> exists|x: &&str| predefined(x@) && #[trigger] f.ensures((x,), true), !r ==> forall|n: Seq<char>| #[trigger] predefined(n) ==> exists|x: &&str| x@ == n && #[trigger] f.ensures((x,), false) { unimplemented!() } }
#[verifier::external_body] pub fn predefined_() -> (r: Names) { unimplemented!() }
#[verifier::external_body] pub fn eq_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl Scalar {
//@ rewrite /\b(\w+)\.parse::<(\w+)>\(\)/ => <\2 as FromText>::parse_(\1)
//@ rewrite /\b([iu](?:8|16|32))::try_from\b/ => \1_try_from
//@ rewrite /\bCUSTOM_SCALARS\b/ => custom_()
//@ rewrite /\bPREDEFINED_SCALARS\b/ => predefined_()
//@ rewrite /\btype_name\.eq\(/ => eq_(type_name, 
//@ rewrite /&s\.to_string\(\)/ => &owned_(s)
//@ fn src/core/scalar.rs :: impl Scalar :: fn validate
//@   spec ensures r == accepts(*self, value.jv())
//@   closure /\bemail\b|_email\b/ |$0: &str| -> (b: bool) ensures b == is_email($0@)
//@   closure /\bphonenumber\b|_phonenumber\b/ |$0: &str| -> (b: bool) ensures b == is_phone($0@)
//@   closure /\brfc3339\b|_rfc3339\b/ |$0: &str| -> (b: bool) ensures b == is_rfc3339($0@)
//@   closure /\bUrl\b|_Url\b/ |$0: &str| -> (b: bool) ensures b == is_url($0@)
//@   closure /\bi64\b|_i64\b/ |$0: &str| -> (b: bool) ensures b == whole_in($0@, i64::MIN as int, i64::MAX as int)
//@   closure /\bu64\b|_u64\b/ |$0: &str| -> (b: bool) ensures b == whole_in($0@, 0, u64::MAX as int)
//@   closure /\bi128\b|_i128\b/ |$0: &str| -> (b: bool) ensures b == whole_in($0@, i128::MIN as int, i128::MAX as int)
//@   closure /\bu128\b|_u128\b/ |$0: &str| -> (b: bool) ensures b == whole_in($0@, 0, u128::MAX as int)
//@ fn src/core/scalar.rs :: impl Scalar :: fn find
//@   spec ensures match r { Some(s) => name_text(*s) == name@, None => forall|s: Scalar| name_text(s) != name@ }
//@ fn src/core/scalar.rs :: impl Scalar :: fn name
//@   spec ensures r@ == name_text(*self)
//@ fn src/core/scalar.rs :: impl Scalar :: fn is_predefined
//@   closure 1 |$0: &&str| -> (b: bool) ensures b == (type_name@ == $0@)
//@   spec ensures r == (predefined(type_name@) || exists|s: Scalar| name_text(s) == type_name@)
}
#[verifier::external_body] pub fn owned_(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
}
}
fn main() {}
