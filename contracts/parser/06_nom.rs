// ---------------------------------------------------------------- nom
// The parser is written with nom's combinators: functions that take parsers and return a
// parser (an anonymous closure).  Here a parser is a value P<O> with a meaning: sem(n) is what it
// does to any text, looking at most n nested brackets deep (so the meaning of a recursive
// grammar is well defined; the level n is universally quantified everywhere, and a theorem
// in gram shows that level 2*len+2 decides every text of length len).
pub mod gram {
use vstd::prelude::*;
/// What a parser does to a text: the rest and the result; a recoverable error; an unrecoverable
/// one; or no answer at this nesting depth.
pub enum PR<A> { Ok(Seq<char>, A), Er, Fa, Deep }
pub type G<A> = spec_fn(Seq<char>) -> PR<A>;

// Values are determined by what they contain.
pub uninterp spec fn mk_str(s: Seq<char>) -> &'static str;
pub uninterp spec fn mk_string(s: Seq<char>) -> String;
pub uninterp spec fn mk_vec<A>(s: Seq<A>) -> Vec<A>;
#[verifier::external_body]
pub broadcast proof fn axiom_str_mk(s: &str) ensures mk_str(#[trigger] s@) == s {}
#[verifier::external_body]
pub broadcast proof fn axiom_string_mk(s: String) ensures mk_string(#[trigger] s@) == s {}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_mk<A>(s: Vec<A>) ensures mk_vec(#[trigger] s@) == s {}
pub broadcast proof fn lemma_str_eq(v: &str, s: Seq<char>) requires v@ =~= s ensures #![trigger mk_str(s), v@] mk_str(s) == v { axiom_str_mk(v); }
pub broadcast proof fn lemma_string_eq(v: String, s: Seq<char>) requires v@ =~= s ensures #![trigger mk_string(s), v@] mk_string(s) == v { axiom_string_mk(v); }
pub broadcast proof fn lemma_vec_eq<A>(v: Vec<A>, s: Seq<A>) requires v@ =~= s ensures #![trigger mk_vec(s), v@] mk_vec(s) == v { axiom_vec_mk(v); }
/// a piece of a text that is in memory
pub open spec fn short(s: Seq<char>) -> bool { s.len() <= usize::MAX / 8 }
#[verifier::external_body]
pub broadcast proof fn axiom_mk_str(s: Seq<char>) ensures #![trigger mk_str(s)] short(s) ==> mk_str(s)@ == s {}

#[verifier::external_body]
pub broadcast proof fn axiom_mk_string(s: Seq<char>) ensures #![trigger mk_string(s)] short(s) ==> mk_string(s)@ == s {}
/// a sequence short enough for a Vec
pub open spec fn shortv<A>(s: Seq<A>) -> bool { s.len() <= usize::MAX / 8 + 1 }
#[verifier::external_body]
pub broadcast proof fn axiom_mk_vec<A>(s: Seq<A>) ensures #![trigger mk_vec(s)] shortv(s) ==> mk_vec(s)@ == s {}

pub open spec fn m_fail<A>() -> G<A> { |t: Seq<char>| PR::<A>::Er }
pub open spec fn m_deep<A>() -> G<A> { |t: Seq<char>| PR::<A>::Deep }
pub open spec fn m_pre<A, B>(a: G<A>, b: G<B>) -> G<B> {
    |t: Seq<char>| match a(t) { PR::Ok(r, _) => b(r), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_term<A, B>(a: G<A>, b: G<B>) -> G<A> {
    |t: Seq<char>| match a(t) {
        PR::Ok(r, x) => match b(r) { PR::Ok(r2, _) => PR::Ok(r2, x), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_delim<A, B, C>(a: G<A>, b: G<B>, c: G<C>) -> G<B> {
    |t: Seq<char>| match a(t) {
        PR::Ok(r, _) => match b(r) {
            PR::Ok(r2, x) => match c(r2) { PR::Ok(r3, _) => PR::Ok(r3, x), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
            PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_pair<A, B>(a: G<A>, b: G<B>) -> G<(A, B)> {
    |t: Seq<char>| match a(t) {
        PR::Ok(r, x) => match b(r) { PR::Ok(r2, y) => PR::Ok(r2, (x, y)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_tup3<A, B, C>(a: G<A>, b: G<B>, c: G<C>) -> G<(A, B, C)> {
    |t: Seq<char>| match a(t) {
        PR::Ok(r, x) => match b(r) {
            PR::Ok(r2, y) => match c(r2) { PR::Ok(r3, z) => PR::Ok(r3, (x, y, z)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
            PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_tup4<A, B, C, D>(a: G<A>, b: G<B>, c: G<C>, d: G<D>) -> G<(A, B, C, D)> {
    |t: Seq<char>| match m_tup3(a, b, c)(t) {
        PR::Ok(r, (x, y, z)) => match d(r) { PR::Ok(r2, w) => PR::Ok(r2, (x, y, z, w)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_seppair<A, B, C>(a: G<A>, s: G<C>, b: G<B>) -> G<(A, B)> {
    |t: Seq<char>| match a(t) {
        PR::Ok(r, x) => match s(r) {
            PR::Ok(r2, _) => match b(r2) { PR::Ok(r3, z) => PR::Ok(r3, (x, z)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
            PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_map<A, B>(a: G<A>, f: spec_fn(A) -> B) -> G<B> {
    |t: Seq<char>| match a(t) { PR::Ok(r, x) => PR::Ok(r, f(x)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
/// f may refuse (None): a recoverable error
pub open spec fn m_mapres<A, B>(a: G<A>, f: spec_fn(A) -> Option<B>) -> G<B> {
    |t: Seq<char>| match a(t) { PR::Ok(r, x) => match f(x) { Some(y) => PR::Ok(r, y), None => PR::Er }, PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
/// f may refuse (None): an unrecoverable error
pub open spec fn m_mapfail<A, B>(a: G<A>, f: spec_fn(A) -> Option<B>) -> G<B> {
    |t: Seq<char>| match a(t) { PR::Ok(r, x) => match f(x) { Some(y) => PR::Ok(r, y), None => PR::Fa }, PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_val<A, B>(v: B, a: G<A>) -> G<B> {
    |t: Seq<char>| match a(t) { PR::Ok(r, x) => PR::Ok(r, v), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
/// the first alternative that does not fail recoverably
pub open spec fn m_or<A>(a: G<A>, b: G<A>) -> G<A> {
    |t: Seq<char>| match a(t) { PR::Er => b(t), x => x }
}
pub open spec fn m_opt<A>(a: G<A>) -> G<Option<A>> {
    |t: Seq<char>| match a(t) { PR::Ok(r, x) => PR::Ok(r, Some(x)), PR::Er => PR::Ok(t, None), PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
/// the text consumed
pub open spec fn used(t: Seq<char>, r: Seq<char>) -> Seq<char> { t.take(t.len() - r.len()) }
pub open spec fn m_recog<A>(a: G<A>) -> G<&'static str> {
    |t: Seq<char>| match a(t) { PR::Ok(r, x) => PR::Ok(r, mk_str(used(t, r))), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
/// the text consumed, and the result
pub open spec fn m_recogx<A>(a: G<A>) -> G<(&'static str, A)> {
    |t: Seq<char>| match a(t) { PR::Ok(r, x) => PR::Ok(r, (mk_str(used(t, r)), x)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_allcons<A>(a: G<A>) -> G<A> {
    |t: Seq<char>| match a(t) { PR::Ok(r, x) => if r.len() == 0 { PR::Ok(r, x) } else { PR::Er }, PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_tag(w: Seq<char>) -> G<&'static str> {
    |t: Seq<char>| if w.len() <= t.len() && t.take(w.len() as int) == w { PR::Ok(t.skip(w.len() as int), mk_str(w)) } else { PR::Er }
}
pub open spec fn m_chr(c: char) -> G<char> {
    |t: Seq<char>| if t.len() > 0 && t[0] == c { PR::Ok(t.skip(1), c) } else { PR::Er }
}
pub open spec fn m_any() -> G<char> {
    |t: Seq<char>| if t.len() > 0 { PR::Ok(t.skip(1), t[0]) } else { PR::Er }
}
pub open spec fn m_oneof(w: Seq<char>) -> G<char> {
    |t: Seq<char>| if t.len() > 0 && w.contains(t[0]) { PR::Ok(t.skip(1), t[0]) } else { PR::Er }
}
/// how many characters at the start satisfy q
pub open spec fn wlen(q: spec_fn(char) -> bool, t: Seq<char>) -> int decreases t.len() {
    if t.len() > 0 && q(t[0]) { 1 + wlen(q, t.skip(1)) } else { 0 }
}
pub open spec fn m_while0(q: spec_fn(char) -> bool) -> G<&'static str> {
    |t: Seq<char>| PR::Ok(t.skip(wlen(q, t)), mk_str(t.take(wlen(q, t))))
}
pub open spec fn m_while1(q: spec_fn(char) -> bool) -> G<&'static str> {
    |t: Seq<char>| if wlen(q, t) > 0 { PR::Ok(t.skip(wlen(q, t)), mk_str(t.take(wlen(q, t)))) } else { PR::Er }
}
pub open spec fn q_space() -> spec_fn(char) -> bool { |c: char| c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn q_digit() -> spec_fn(char) -> bool { |c: char| '0' <= c <= '9' }
pub open spec fn q_hex() -> spec_fn(char) -> bool { |c: char| '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn q_alpha() -> spec_fn(char) -> bool { |c: char| 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn q_noteol() -> spec_fn(char) -> bool { |c: char| c != '\r' && c != '\n' }
/// up to the end of the line; refused when the line ends in a carriage return alone
pub open spec fn m_noteol() -> G<&'static str> {
    |t: Seq<char>| { let k = wlen(q_noteol(), t);
        if k < t.len() && t[k] == '\r' && !(k + 1 < t.len() && t[k + 1] == '\n') { PR::Er } else { PR::Ok(t.skip(k), mk_str(t.take(k))) } }
}
/// zero or more; an element that consumes nothing is an error
pub open spec fn many<A>(f: G<A>, t: Seq<char>) -> PR<Seq<A>> decreases t.len() {
    match f(t) {
        PR::Ok(r, x) => if r.len() >= t.len() { PR::Er } else {
            match many(f, r) { PR::Ok(r2, s) => PR::Ok(r2, seq![x] + s), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep } },
        PR::Er => PR::Ok(t, Seq::<A>::empty()), PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_many0<A>(f: G<A>) -> G<Vec<A>> {
    |t: Seq<char>| match many(f, t) { PR::Ok(r, x) => PR::Ok(r, mk_vec(x)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_many1<A>(f: G<A>) -> G<Vec<A>> {
    |t: Seq<char>| match f(t) {
        PR::Ok(r, x) => match many(f, r) { PR::Ok(r2, s) => PR::Ok(r2, mk_vec(seq![x] + s)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
/// further elements, each after a separator; a separator without an element is left alone
pub open spec fn seps<A, B>(s: G<B>, f: G<A>, t: Seq<char>) -> PR<Seq<A>> decreases t.len() {
    match s(t) {
        PR::Ok(r, _) => if r.len() >= t.len() { PR::Er } else { match f(r) {
            PR::Ok(r2, x) => if r2.len() >= t.len() { PR::Er } else {
                match seps(s, f, r2) { PR::Ok(r3, v) => PR::Ok(r3, seq![x] + v), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep } },
            PR::Er => PR::Ok(t, Seq::<A>::empty()), PR::Fa => PR::Fa, PR::Deep => PR::Deep } },
        PR::Er => PR::Ok(t, Seq::<A>::empty()), PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn m_seplist1<A, B>(s: G<B>, f: G<A>) -> G<Vec<A>> {
    |t: Seq<char>| match f(t) {
        PR::Ok(r, x) => match seps(s, f, r) { PR::Ok(r2, v) => PR::Ok(r2, mk_vec(seq![x] + v)), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
}

pub mod nomshim {
use vstd::prelude::*;
use crate::gram::*;
pub struct CowParseError<'a> { pub kind: ErrorKind, pub ctx: &'a str }
pub enum ErrorKind { MalformedInteger, MalformedFloat, MalformedHex, MalformedText, MalformedBase64, Unparseable }
pub struct ParseError { pub kind: ErrorKind, pub ctx: String }
#[verifier::external_body]
pub fn parse_error<'a, S>(kind: ErrorKind, ctx: S) -> (r: CowParseError<'a>) ensures r.kind == kind { unimplemented!() }
impl<'a> From<Err<CowParseError<'a>>> for ParseError { #[verifier::external_body] fn from(e: Err<CowParseError<'a>>) -> ParseError { unimplemented!() } }
impl<'a> From<CowParseError<'a>> for ParseError { #[verifier::external_body] fn from(e: CowParseError<'a>) -> ParseError { unimplemented!() } }
pub enum Needed { Unknown, Size(usize) }
pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
pub type IResult<I, O, E> = Result<(I, O), Err<E>>;
pub open spec fn lv(n: nat) -> bool { true }
/// r is a suffix of t
pub open spec fn sfx(r: Seq<char>, t: Seq<char>) -> bool { r.len() <= t.len() && r == t.skip(t.len() - r.len()) }
/// the outcome r of parsing is what m says
pub open spec fn agr<O>(r: IResult<&str, O, CowParseError>, m: PR<O>) -> bool {
    match m {
        PR::Deep => true,
        PR::Ok(t, v) => r matches Ok((i, o)) && i@ == t && o == v,
        PR::Er => r matches Result::Err(Err::Error(_)),
        PR::Fa => r matches Result::Err(Err::Failure(_)),
    }
}
pub open spec fn parsed<O>(r: IResult<&str, O, CowParseError>, t: Seq<char>) -> bool {
    match r { Ok((i, _)) => sfx(i@, t), Err(e) => !(e is Incomplete) }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(O)]
pub struct P<O> { x: Option<O> }
impl<O> P<O> {
    pub uninterp spec fn sem(&self, n: nat) -> G<O>;
    /// applying a parser to a text
    #[verifier::external_body]
    pub fn run<'a>(&self, input: &'a str) -> (r: IResult<&'a str, O, CowParseError<'a>>)
        ensures parsed(r, input@),
            forall|n: nat| #[trigger] lv(n) ==> agr(r, self.sem(n)(input@)) && (n > 0 ==> agr(r, self.sem((n - 1) as nat)(input@))),
    { unimplemented!() }
}
/// x is something the parser a may produce
pub open spec fn yields<A>(a: P<A>, n: nat, t: Seq<char>, x: A) -> bool {
    a.sem(n)(t) is Deep || (a.sem(n)(t) matches PR::Ok(_, y) && y == x)
}
#[verifier::external_body]
pub fn recognizer<A>(a: P<A>) -> (r: P<(&'static str, A)>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_recogx(a.sem(n)) { unimplemented!() }

/// the crate's own map_res_fail, as its body (verified separately, under mapresfail_body) behaves
#[verifier::external_body]
pub fn map_res_fail<'a, A, B, F: Fn(A) -> Result<B, CowParseError<'a>>>(a: P<A>, f: F) -> (r: P<B>)
    requires forall|n: nat, t: Seq<char>, x: A| #[trigger] yields(a, n, t, x) ==> call_requires(f, (x,)),
    ensures forall|n: nat, t: Seq<char>| #![trigger r.sem(n)(t)] match a.sem(n)(t) {
            PR::Ok(q, x) => match r.sem(n)(t) {
                PR::Ok(q2, y) => q2 == q && call_ensures(f, (x,), Ok::<B, CowParseError<'a>>(y)),
                PR::Fa => exists|e: CowParseError<'a>| call_ensures(f, (x,), Err::<B, CowParseError<'a>>(e)),
                _ => false },
            PR::Er => r.sem(n)(t) is Er, PR::Fa => r.sem(n)(t) is Fa, PR::Deep => r.sem(n)(t) is Deep },
{ unimplemented!() }
pub mod branch {
use vstd::prelude::*; use crate::gram::*; use crate::nomshim::P;

pub trait Alt<O>: Sized { spec fn asem(&self, n: nat) -> G<O>; }
impl<O> Alt<O> for (P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), self.1.sem(n)) } }
impl<O> Alt<O> for (P<O>, P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), m_or(self.1.sem(n), self.2.sem(n))) } }
impl<O> Alt<O> for (P<O>, P<O>, P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), m_or(self.1.sem(n), m_or(self.2.sem(n), self.3.sem(n)))) } }
impl<O> Alt<O> for (P<O>, P<O>, P<O>, P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), m_or(self.1.sem(n), m_or(self.2.sem(n), m_or(self.3.sem(n), self.4.sem(n))))) } }
impl<O> Alt<O> for (P<O>, P<O>, P<O>, P<O>, P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), m_or(self.1.sem(n), m_or(self.2.sem(n), m_or(self.3.sem(n), m_or(self.4.sem(n), self.5.sem(n)))))) } }
impl<O> Alt<O> for (P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), m_or(self.1.sem(n), m_or(self.2.sem(n), m_or(self.3.sem(n), m_or(self.4.sem(n), m_or(self.5.sem(n), self.6.sem(n))))))) } }
impl<O> Alt<O> for (P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), m_or(self.1.sem(n), m_or(self.2.sem(n), m_or(self.3.sem(n), m_or(self.4.sem(n), m_or(self.5.sem(n), m_or(self.6.sem(n), self.7.sem(n)))))))) } }
impl<O> Alt<O> for (P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), m_or(self.1.sem(n), m_or(self.2.sem(n), m_or(self.3.sem(n), m_or(self.4.sem(n), m_or(self.5.sem(n), m_or(self.6.sem(n), m_or(self.7.sem(n), self.8.sem(n))))))))) } }
impl<O> Alt<O> for (P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>, P<O>) { open spec fn asem(&self, n: nat) -> G<O> { m_or(self.0.sem(n), m_or(self.1.sem(n), m_or(self.2.sem(n), m_or(self.3.sem(n), m_or(self.4.sem(n), m_or(self.5.sem(n), m_or(self.6.sem(n), m_or(self.7.sem(n), m_or(self.8.sem(n), self.9.sem(n)))))))))) } }
#[verifier::external_body]
pub fn alt<O, A: Alt<O>>(a: A) -> (r: P<O>) ensures forall|n: nat| #[trigger] r.sem(n) == a.asem(n) { unimplemented!() }
}
pub mod combinator {
use vstd::prelude::*; use crate::gram::*; use crate::nomshim::P;
use crate::nomshim::yields;
#[verifier::external_body]
pub fn opt<A>(a: P<A>) -> (r: P<Option<A>>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_opt(a.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn recognize<A>(a: P<A>) -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_recog(a.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn all_consuming<A>(a: P<A>) -> (r: P<A>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_allcons(a.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn value<A, B>(v: B, a: P<A>) -> (r: P<B>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_val(v, a.sem(n)) { unimplemented!() }

#[verifier::external_body]
pub fn map<A, B, F: Fn(A) -> B>(a: P<A>, f: F) -> (r: P<B>)
    requires forall|n: nat, t: Seq<char>, x: A| #[trigger] yields(a, n, t, x) ==> call_requires(f, (x,)),
    ensures forall|n: nat, t: Seq<char>| #![trigger r.sem(n)(t)] match a.sem(n)(t) {
            PR::Ok(q, x) => r.sem(n)(t) matches PR::Ok(q2, y) && q2 == q && call_ensures(f, (x,), y),
            PR::Er => r.sem(n)(t) is Er, PR::Fa => r.sem(n)(t) is Fa, PR::Deep => r.sem(n)(t) is Deep },
        forall|n: nat, h: spec_fn(A) -> B| #![trigger r.sem(n), m_map(a.sem(n), h)]
            (forall|x: A, y: B| call_ensures(f, (x,), y) ==> y == h(x)) ==> r.sem(n) == m_map(a.sem(n), h),
{ unimplemented!() }
#[verifier::external_body]
pub fn map_res<A, B, E, F: Fn(A) -> Result<B, E>>(a: P<A>, f: F) -> (r: P<B>)
    requires forall|n: nat, t: Seq<char>, x: A| #[trigger] yields(a, n, t, x) ==> call_requires(f, (x,)),
    ensures forall|n: nat, t: Seq<char>| #![trigger r.sem(n)(t)] match a.sem(n)(t) {
            PR::Ok(q, x) => match r.sem(n)(t) {
                PR::Ok(q2, y) => q2 == q && call_ensures(f, (x,), Ok::<B, E>(y)),
                PR::Er => exists|e: E| call_ensures(f, (x,), Err::<B, E>(e)),
                _ => false },
            PR::Er => r.sem(n)(t) is Er, PR::Fa => r.sem(n)(t) is Fa, PR::Deep => r.sem(n)(t) is Deep },
{ unimplemented!() }
}
pub mod multi {
use vstd::prelude::*; use crate::gram::*; use crate::nomshim::P;
#[verifier::external_body]
pub fn many0<A>(a: P<A>) -> (r: P<Vec<A>>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_many0(a.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn many1<A>(a: P<A>) -> (r: P<Vec<A>>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_many1(a.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn separated_list1<A, B>(s: P<B>, a: P<A>) -> (r: P<Vec<A>>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_seplist1(s.sem(n), a.sem(n)) { unimplemented!() }
}
pub mod sequence {
use vstd::prelude::*; use crate::gram::*; use crate::nomshim::P;
#[verifier::external_body]
pub fn pair<A, B>(a: P<A>, b: P<B>) -> (r: P<(A, B)>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_pair(a.sem(n), b.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn preceded<A, B>(a: P<A>, b: P<B>) -> (r: P<B>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_pre(a.sem(n), b.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn terminated<A, B>(a: P<A>, b: P<B>) -> (r: P<A>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_term(a.sem(n), b.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn delimited<A, B, C>(a: P<A>, b: P<B>, c: P<C>) -> (r: P<B>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_delim(a.sem(n), b.sem(n), c.sem(n)) { unimplemented!() }
#[verifier::external_body]
pub fn separated_pair<A, B, C>(a: P<A>, s: P<C>, b: P<B>) -> (r: P<(A, B)>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_seppair(a.sem(n), s.sem(n), b.sem(n)) { unimplemented!() }

pub trait Tup: Sized { type O; spec fn tsem(&self, n: nat) -> G<Self::O>; }
impl<A, B> Tup for (P<A>, P<B>) { type O = (A, B); open spec fn tsem(&self, n: nat) -> G<(A, B)> { m_pair(self.0.sem(n), self.1.sem(n)) } }
impl<A, B, C> Tup for (P<A>, P<B>, P<C>) { type O = (A, B, C); open spec fn tsem(&self, n: nat) -> G<(A, B, C)> { m_tup3(self.0.sem(n), self.1.sem(n), self.2.sem(n)) } }
impl<A, B, C, D> Tup for (P<A>, P<B>, P<C>, P<D>) { type O = (A, B, C, D); open spec fn tsem(&self, n: nat) -> G<(A, B, C, D)> { m_tup4(self.0.sem(n), self.1.sem(n), self.2.sem(n), self.3.sem(n)) } }
#[verifier::external_body]
pub fn tuple<T: Tup>(a: T) -> (r: P<T::O>) ensures forall|n: nat| #[trigger] r.sem(n) == a.tsem(n) { unimplemented!() }
}
pub mod bytes { pub mod complete {
use vstd::prelude::*; use crate::gram::*; use crate::nomshim::P;
#[verifier::external_body]
pub fn tag(w: &'static str) -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_tag(w@) { unimplemented!() }

/// the longest non-empty run of characters satisfying f
#[verifier::external_body]
pub fn take_while1<F: Fn(char) -> bool>(f: F) -> (r: P<&'static str>)
    requires forall|c: char| call_requires(f, (c,)),
    ensures forall|n: nat, q: spec_fn(char) -> bool| #![trigger r.sem(n), m_while1(q)]
        (forall|c: char, b: bool| call_ensures(f, (c,), b) ==> b == q(c)) ==> r.sem(n) == m_while1(q)
{ unimplemented!() }
/// the longest run of characters satisfying f, which may be empty
#[verifier::external_body]
pub fn take_while<F: Fn(char) -> bool>(f: F) -> (r: P<&'static str>)
    requires forall|c: char| call_requires(f, (c,)),
    ensures forall|n: nat, q: spec_fn(char) -> bool| #![trigger r.sem(n), m_while0(q)]
        (forall|c: char, b: bool| call_ensures(f, (c,), b) ==> b == q(c)) ==> r.sem(n) == m_while0(q)
{ unimplemented!() }
} }
pub mod character { pub mod complete {
use vstd::prelude::*; use crate::gram::*; use crate::nomshim::P;
#[verifier::external_body]
pub fn char(c: char) -> (r: P<char>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_chr(c) { unimplemented!() }
#[verifier::external_body]
pub fn one_of(w: &'static str) -> (r: P<char>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_oneof(w@) { unimplemented!() }
#[verifier::external_body]
pub fn anychar() -> (r: P<char>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_any() { unimplemented!() }
#[verifier::external_body]
pub fn multispace0() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_while0(q_space()) { unimplemented!() }
#[verifier::external_body]
pub fn multispace1() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_while1(q_space()) { unimplemented!() }
#[verifier::external_body]
pub fn digit0() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_while0(q_digit()) { unimplemented!() }
#[verifier::external_body]
pub fn digit1() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_while1(q_digit()) { unimplemented!() }
#[verifier::external_body]
pub fn hex_digit0() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_while0(q_hex()) { unimplemented!() }
#[verifier::external_body]
pub fn hex_digit1() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_while1(q_hex()) { unimplemented!() }
#[verifier::external_body]
pub fn alpha0() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_while0(q_alpha()) { unimplemented!() }
#[verifier::external_body]
pub fn alpha1() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_while1(q_alpha()) { unimplemented!() }
#[verifier::external_body]
pub fn not_line_ending() -> (r: P<&'static str>)
    ensures forall|n: nat| #[trigger] r.sem(n) == m_noteol() { unimplemented!() }
} }
}

