// What the parser uses from std, hex, base64 and escape8259, with the contracts assumed.
pub mod pshim {
use vstd::prelude::*;
use crate::vp::*;
use crate::cgram::*;
use crate::gram::used;
use crate::nomshim::sfx;
use vstd::std_specs::convert::IntoSpec;

/// lo ..= hi
#[derive(Clone, Copy)]
pub struct RangeInc { pub lo: u32, pub hi: u32 }
impl RangeInc {
    pub fn contains(&self, x: &u32) -> (r: bool) ensures r == (self.lo <= *x && *x <= self.hi) { self.lo <= *x && *x <= self.hi }
}
/// panic!, unreachable!
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) requires false { unimplemented!() }

impl<T> VpIt<T> {
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VpIt<T>)
        requires self.pos() == 0, forall|x: T| f.requires((&x,)),
        ensures r.pos() == 0,
            forall|q: spec_fn(T) -> bool| (forall|x: T, b: bool| f.ensures((&x,), b) ==> b == q(x)) ==> r.seq() == #[trigger] self.seq().filter(q),
    { unimplemented!() }
}
impl VpCollect<char> for String {
    open spec fn collected(s: Seq<char>, r: String) -> bool { r@ == s }
}
impl<T, const N: usize> VpIterRef for [T; N] {
    type E = T;
    open spec fn vrseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_iter<'a>(&'a self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
pub trait VpStr {
    fn vp_chars(&self) -> (r: VpIt<char>) ensures r.pos() == 0, r.seq() == self.vp_text();
    fn vp_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.vp_text());
    fn vp_parse_f64(&self) -> (r: Result<f64, ParseNumError>)
        ensures match r { Ok(f) => f64_of(self.vp_text()) == Some(f), Err(_) => f64_of(self.vp_text()) is None };
    spec fn vp_text(&self) -> Seq<char>;
}
pub struct ParseNumError { pub x: u8 }
impl VpStr for str {
    open spec fn vp_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_chars(&self) -> (r: VpIt<char>) { unimplemented!() }
    #[verifier::external_body] fn vp_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
    #[verifier::external_body] fn vp_parse_f64(&self) -> (r: Result<f64, ParseNumError>) { unimplemented!() }
}
impl VpStr for String {
    open spec fn vp_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_chars(&self) -> (r: VpIt<char>) { unimplemented!() }
    #[verifier::external_body] fn vp_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
    #[verifier::external_body] fn vp_parse_f64(&self) -> (r: Result<f64, ParseNumError>) { unimplemented!() }
}
pub trait VpDrain<T> {
    fn vp_drain(&mut self, g: std::ops::RangeFull) -> (r: VpIt<T>) ensures r.pos() == 0, r.seq() == old(self).vp_items(), final(self).vp_items().len() == 0;
    spec fn vp_items(&self) -> Seq<T>;
}
impl<T> VpDrain<T> for Vec<T> {
    open spec fn vp_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_drain(&mut self, g: std::ops::RangeFull) -> (r: VpIt<T>) { unimplemented!() }
}
/// AsRef<str>
pub trait VpText { spec fn vtext(&self) -> Seq<char>; }
impl VpText for String { open spec fn vtext(&self) -> Seq<char> { self@ } }
impl VpText for &String { open spec fn vtext(&self) -> Seq<char> { self@ } }
impl VpText for &str { open spec fn vtext(&self) -> Seq<char> { self@ } }

pub assume_specification [ char::is_ascii_alphabetic ] (c: &char) -> (r: bool)
    ensures r == ('a' <= *c <= 'z' || 'A' <= *c <= 'Z');
pub assume_specification [ char::is_ascii_digit ] (c: &char) -> (r: bool)
    ensures r == ('0' <= *c <= '9');
pub assume_specification [ char::is_ascii_alphanumeric ] (c: &char) -> (r: bool)
    ensures r == ('a' <= *c <= 'z' || 'A' <= *c <= 'Z' || '0' <= *c <= '9');
pub assume_specification [ char::is_ascii_whitespace ] (c: &char) -> (r: bool)
    ensures r == q_ascii_space()(*c);
pub assume_specification [ String::with_capacity ] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
pub assume_specification [ u64::from_str_radix ] (s: &str, radix: u32) -> (r: Result<u64, std::num::ParseIntError>)
    requires 2 <= radix <= 36,
    ensures match r { Ok(x) => radix_u64(s@, radix as int) == Some(x), Err(_) => radix_u64(s@, radix as int) is None };

impl TryFrom<u64> for i64 {
    type Error = ParseNumError;
    open spec fn vp_from(t: u64, r: Result<i64, ParseNumError>) -> bool { match r { Ok(v) => v as int == t as int, Err(_) => t > i64::MAX } }
    #[verifier::external_body] fn try_from(t: u64) -> (r: Result<i64, ParseNumError>) { unimplemented!() }
}
impl TryFrom<i128> for i64 {
    type Error = ParseNumError;
    open spec fn vp_from(t: i128, r: Result<i64, ParseNumError>) -> bool { match r { Ok(v) => v as int == t as int, Err(_) => t > i64::MAX || t < i64::MIN } }
    #[verifier::external_body] fn try_from(t: i128) -> (r: Result<i64, ParseNumError>) { unimplemented!() }
}
impl TryFrom<u64> for usize {
    type Error = ParseNumError;
    open spec fn vp_from(t: u64, r: Result<usize, ParseNumError>) -> bool { match r { Ok(v) => v as int == t as int, Err(_) => t > usize::MAX } }
    #[verifier::external_body] fn try_from(t: u64) -> (r: Result<usize, ParseNumError>) { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_obeys_bytes() ensures #[trigger] <&[u8] as IntoSpec<Vec<u8>>>::obeys_into_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_into_bytes(x: &[u8])
    ensures #![trigger <&[u8] as IntoSpec<Vec<u8>>>::into_spec(x)] <&[u8] as IntoSpec<Vec<u8>>>::into_spec(x)@ == x@
{ }

/// bytes in UTF-8
pub open spec fn blen(s: Seq<char>) -> int { utf8(s).len() as int }
/// &s[..i]
#[verifier::external_body]
pub fn str_take<'a>(s: &'a str, i: usize) -> (r: &'a str)
    requires exists|k: int| #![trigger s@.take(k)] 0 <= k <= s@.len() && i == blen(s@.take(k)),
    ensures forall|k: int| #![trigger s@.take(k)] 0 <= k <= s@.len() && i == blen(s@.take(k)) ==> r@ == s@.take(k),
{ unimplemented!() }

pub mod escape8259 {
use vstd::prelude::*; use crate::pshim::*; use crate::cgram::*;
pub struct UnescapeError { pub x: u8 }
#[verifier::external_body]
pub fn unescape<S: VpText>(s: S) -> (r: Result<String, UnescapeError>)
    // with a sign after \u the crate may still take what follows for a number
    ensures !signed_esc(s.vtext(), false, false) ==> match r { Ok(x) => unesc(s.vtext()) == Some(x@), Err(_) => unesc(s.vtext()) is None }
{ unimplemented!() }
}
pub mod hex {
use vstd::prelude::*; use crate::pshim::*; use crate::cgram::*;
pub struct FromHexError { pub x: u8 }
#[verifier::external_body]
pub fn decode<S: VpText>(s: S) -> (r: Result<Vec<u8>, FromHexError>)
    ensures match r { Ok(x) => hex_bytes(s.vtext()) == Some(x@), Err(_) => hex_bytes(s.vtext()) is None }
{ unimplemented!() }
}
pub mod base64 {
use vstd::prelude::*; use crate::pshim::*; use crate::cgram::*;
pub struct DecodeError { pub x: u8 }
pub trait Engine {
    spec fn vp_dec(&self, s: Seq<char>) -> Option<Seq<u8>>;
    fn decode<S: VpText>(&self, s: S) -> (r: Result<Vec<u8>, DecodeError>)
        ensures match r { Ok(x) => self.vp_dec(s.vtext()) == Some(x@), Err(_) => self.vp_dec(s.vtext()) is None };
}
pub mod engine {
use vstd::prelude::*; use crate::pshim::*; use crate::cgram::*;
pub use super::Engine;
/// which engine: alphabet and padding
pub struct GeneralPurpose { pub k: u8 }
pub uninterp spec fn other_bytes(k: u8, s: Seq<char>) -> Option<Seq<u8>>;
impl Engine for GeneralPurpose {
    open spec fn vp_dec(&self, s: Seq<char>) -> Option<Seq<u8>> { if self.k == 0 { base64_bytes(s) } else { other_bytes(self.k, s) } }
    #[verifier::external_body]
    fn decode<S: VpText>(&self, s: S) -> (r: Result<Vec<u8>, crate::pshim::base64::DecodeError>) { unimplemented!() }
}
pub mod general_purpose {
use super::GeneralPurpose;
pub const URL_SAFE: GeneralPurpose = GeneralPurpose { k: 0 };
pub const URL_SAFE_NO_PAD: GeneralPurpose = GeneralPurpose { k: 1 };
pub const STANDARD: GeneralPurpose = GeneralPurpose { k: 2 };
pub const STANDARD_NO_PAD: GeneralPurpose = GeneralPurpose { k: 3 };
}
}
}
}
pub use util::{ValidateError, ValidateResult};
