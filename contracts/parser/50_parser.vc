## The parser: every function under contract.  `@parser T | g` says: the function parses with
## the meaning g (contracts/parser/17_cddlgram.rs), at every nesting level n.
@module parser parser/mod.rs
@head parser
#[allow(unused_imports)] use crate::nomshim as nom;
#[allow(unused_imports)] use crate::nomshim::{P, agr, parsed, lv, sfx, yields, recognizer, map_res_fail};
#[allow(unused_imports)] use crate::gram::*;
#[allow(unused_imports)] use crate::cgram::*;
#[allow(unused_imports)] use crate::plemma::*;
#[allow(unused_imports)] use crate::pshim::{escape8259, hex, base64, VpStr, VpDrain, blen, str_take};
pub mod parse_err { pub use crate::nomshim::{CowParseError, ErrorKind, ParseError, parse_error}; }
@allfn parser
    broadcast use crate::plemma::group_p;
@strongfn parser
    broadcast use crate::pforms::group_forms; proof { reveal_strlit(","); reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("/"); reveal_strlit("//"); reveal_strlit("="); reveal_strlit("=>"); reveal_strlit("^"); reveal_strlit(":"); reveal_strlit("~"); reveal_strlit("&"); reveal_strlit("0x"); reveal_strlit("0b"); reveal_strlit("0"); reveal_strlit("h'"); reveal_strlit("'"); reveal_strlit("b64'"); reveal_strlit("*"); reveal_strlit("+"); reveal_strlit("?"); reveal_strlit("."); reveal_strlit(".."); reveal_strlit("..."); reveal_strlit("123456789"); reveal_strlit("+-"); reveal_strlit("-."); reveal_strlit("\""); reveal_strlit("01"); }

@fn parser::ealpha_char (c) -> r
    ensures r == is_ealpha(c),
@tags C23 C24
@fn parser::is_unescaped_bchar (c) -> r
    ensures r == is_bchar(c),
@closure 0
-> (vp_o: bool) ensures vp_o == ($0.lo <= cv <= $0.hi)
@locals ranges cv
@tags C22 C24
@fn parser::is_unescaped_schar (c) -> r
    ensures r == is_schar(c),
@closure 0
-> (vp_o: bool) ensures vp_o == ($0.lo <= cv <= $0.hi)
@locals ranges cv
@tags C22 C24
@fn parser::parse_float (s) -> r
    ensures match r { Ok(v) => float_val(s@) == Some(v), Err(_) => float_val(s@) is None },
@tags C21 C24
@fn parser::parse_int (raw) -> r
    requires 2 <= raw.base <= 36,
    ensures match r { Ok(v) => int_val(raw) == Some(v), Err(_) => int_val(raw) is None },
@tags C21 C24
@fn parser::try_into_int (x, source) -> r
    ensures match r { Ok(u) => exists|y: Result<U, U::Error>| y == Ok::<U, U::Error>(u) && #[trigger] U::vp_from(x, y), Err(_) => exists|y: Result<U, U::Error>| y is Err && #[trigger] U::vp_from(x, y) },
@tags C21 C24
@fn parser::parse_hex (s) -> r
    ensures match r { Ok(v) => hex_of(s@) == Some(v@), Err(_) => hex_of(s@) is None },
@closure 0
-> (vp_o: bool) ensures vp_o == q_not_space()(*$0)
@tags C22 C24
@fn parser::requote (s) -> r
    ensures r@ == requoted(s@, false),
@loop 0 for
    out@ + requoted(s@.skip($pos), escaped) =~= requoted(s@, false),
@loopbefore 0
    proof { assert(s@.skip(0) == s@); }
@loopbody 0
    proof {
        reveal_with_fuel(requoted, 1);
        assert(s@.skip($pos - 1)[0] == s@[$pos - 1]);
        assert(s@.skip($pos - 1).skip(1) == s@.skip($pos));
    }
@loopafter 0
    proof { assert(s@.skip(s@.len() as int).len() == 0); }
@locals out escaped
@tags C22 C24
@fn parser::has_signed_escape (s) -> r
    ensures r == signed_esc(s@, false, false),
@loop 0 for
    signed_esc(s@, false, false) == signed_esc(s@.skip($pos), escaped, unicode),
@loopbefore 0
    proof { assert(s@.skip(0) == s@); }
@loopbody 0
    proof {
        reveal_with_fuel(signed_esc, 1);
        assert(s@.skip($pos - 1)[0] == s@[$pos - 1]);
        assert(s@.skip($pos - 1).skip(1) == s@.skip($pos));
    }
@loopafter 0
    proof { assert(s@.skip(s@.len() as int).len() == 0); }
@locals escaped unicode
@tags C22 C24
@fn parser::offset (whole, part) -> r
    ensures sfx(part@, whole@) ==> r == blen(used(whole@, part@)),
@external pointer subtraction: part is the tail of whole that a parser left
@fn parser::recognizer (parser) -> r
@lift
pub fn recognizer_body<'a, O>(parser: P<O>, $0: &'a str) -> (r: nom::IResult<&'a str, (&'a str, O), CowParseError<'a>>)
    ensures parsed(r, $0@), forall|n: nat| #[trigger] lv(n) ==> agr(r, m_recogx(parser.sem(n))($0@)),
@liftcalls parser
@rewrite
&input[..index] =>> str_take(input, index)
@tags C21 C25 C24
@fn parser::map_res_fail (first, second) -> r
@lift
pub fn map_res_fail_body<'a, O1, O2, G: Fn(O1) -> Result<O2, CowParseError<'a>>>(first: P<O1>, second: G, $0: &'a str) -> (r: nom::IResult<&'a str, O2, CowParseError<'a>>)
    requires forall|n: nat, t: Seq<char>, x: O1| #![trigger yields(first, n, t, x)] #![trigger first.sem(n)(t), call_requires(second, (x,))] yields(first, n, t, x) ==> call_requires(second, (x,)),
    ensures parsed(r, $0@),
        forall|n: nat| #[trigger] lv(n) ==> match first.sem(n)($0@) {
            PR::Ok(q, x) => match r { Ok((i, y)) => i@ == q && call_ensures(second, (x,), Ok::<O2, CowParseError<'a>>(y)),
                Err(nom::Err::Failure(e)) => call_ensures(second, (x,), Err::<O2, CowParseError<'a>>(e)), _ => false },
            PR::Er => r matches Err(nom::Err::Error(_)), PR::Fa => r matches Err(nom::Err::Failure(_)), PR::Deep => true },
@liftcalls first
@body
    proof { assert(lv(0nat)); }
@tags C21 C22 C24
@fn parser::assemble_basic_member (key, value) -> r
    requires is_key(key),
    ensures match r { Ok(m) => basic_member(key, value) == Some(m), Err(_) => basic_member(key, value) is None },
@tags C23 C24
@fn parser::parse_cddl (input) -> r
    ensures match r { Ok(c) => parse_rules(input@) == Some(c.rules@), Err(_) => parse_rules(input@) is None },
@body
    proof { assert(lv(level(input@))); theorem_C24_decided(input@); }
@tags C23 C24 C25
@fn parser::slice_parse_cddl (input) -> r
    ensures match r { Ok(c) => parse(input@) == Some(c.rules@.map_values(|x: (crate::ast::Rule, String)| (x.0, x.1@))), Err(_) => parse(input@) is None },
@body
    proof { assert(lv(level(input@))); theorem_C24_decided(input@); }
@tags C23 C24 C25
@tail parser
pub open spec fn level(t: Seq<char>) -> nat { (2 * t.len() + 2) as nat }
/// The rules a CDDL text is made of, each with its own text; None: not a CDDL text.
pub open spec fn parse(t: Seq<char>) -> Option<Seq<(Rule, Seq<char>)>> {
    match m_allcons(g_cddl_slice(level(t)))(t) { PR::Ok(_, c) => Some(c.rules@.map_values(|x: (Rule, String)| (x.0, x.1@))), _ => None }
}
pub open spec fn parse_rules(t: Seq<char>) -> Option<Seq<Rule>> {
    match m_allcons(g_cddl(level(t)))(t) { PR::Ok(_, c) => Some(c.rules@), _ => None }
}

@fn parser::comment (input) -> r
@parser &'static str | g_comment()
@tags C23 C24

@fn parser::ws (input) -> r
@parser &'static str | g_ws()
@tags C23 C24

@fn parser::optcom (input) -> r
@parser () | g_optcom()
@tags C23 C24

@fn parser::ealpha (input) -> r
@parser &'static str | g_ealpha()
@tags C23 C24
@closure 0
-> (vp_o: bool) ensures vp_o == is_ealpha($0)
@body
    let ghost vp_q = m_while1(q_ealpha());

@fn parser::ident_tail (input) -> r
@parser &'static str | g_ident_tail()
@tags C23 C24

@fn parser::ident (input) -> r
@parser &'static str | g_ident()
@tags C23 C24

@fn parser::uint_hex (input) -> r
@parser &'static str | g_uint_hex()
@tags C21 C23 C24

@fn parser::uint_binary (input) -> r
@parser &'static str | g_uint_binary()
@tags C21 C23 C24

@fn parser::uint_decimal (input) -> r
@parser &'static str | g_uint_decimal()
@tags C21 C23 C24

@fn parser::uint (input) -> r
@parser RawUint<'static> | g_uint()
@tags C21 C23 C24

@fn parser::uint_u64 (input) -> r
@parser u64 | g_uint_u64()
@tags C21 C23 C24
@closure 0
-> (vp_o: Result<u64, CowParseError<'_>>) requires 2 <= $0.base <= 36 ensures match vp_o { Ok(x) => radix_u64($0.slice@, $0.base as int) == Some(x), Err(_) => radix_u64($0.slice@, $0.base as int) is None }
@body
    proof { lemma_uint_base(); }

@fn parser::int (input) -> r
@parser RawInt<'static> | g_int()
@tags C21 C23 C24

@fn parser::dot_fraction (input) -> r
@parser &'static str | g_dot_fraction()
@tags C21 C23 C24

@fn parser::e_exponent (input) -> r
@parser &'static str | g_e_exponent()
@tags C21 C23 C24

@fn parser::float_or_int (input) -> r
@parser Value | g_float_or_int()
@tags C21 C23 C24
@closure 0
-> (vp_o: Result<Value, CowParseError<'_>>) requires 2 <= $0.1.0.base <= 36 ensures match vp_o { Ok(x) => num_of($0) == Some(x), Err(_) => num_of($0) is None }
@body
    proof { lemma_num_base(); }

@fn parser::unescaped_bchar (input) -> r
@parser &'static str | g_unescaped_bchar()
@tags C22 C23 C24
@closure 0
-> (vp_o: bool) ensures vp_o == is_bchar($0)
@body
    let ghost vp_q = m_while1(q_bchar());

@fn parser::bchar (input) -> r
@parser &'static str | g_bchar()
@tags C22 C23 C24

@fn parser::unescaped_schar (input) -> r
@parser &'static str | g_unescaped_schar()
@tags C22 C23 C24
@closure 0
-> (vp_o: bool) ensures vp_o == is_schar($0)
@body
    let ghost vp_q = m_while1(q_schar());

@fn parser::schar (input) -> r
@parser &'static str | g_schar()
@tags C22 C23 C24

@fn parser::bytestring_utf8 (input) -> r
@parser String | g_bytestring_utf8()
@tags C22 C23 C24
@body
    proof { lemma_unesc(); }
@closure 0
-> (vp_o: Result<String, CowParseError<'_>>) ensures match vp_o { Ok(x) => unesc(requoted($0@, false)) == Some(x@), Err(_) => unesc(requoted($0@, false)) is None }

@fn parser::bytestring_hex (input) -> r
@parser &'static str | g_bytestring_hex()
@tags C22 C23 C24

@fn parser::bytestring_base64 (input) -> r
@parser &'static str | g_bytestring_base64()
@tags C22 C23 C24

@fn parser::bytestring (input) -> r
@parser Vec<u8> | g_bytestring()
@tags C22 C23 C24
@closure 0
-> (vp_o: Vec<u8>) ensures vp_o@ == utf8($0@)
@closure 1
-> (vp_o: Result<Vec<u8>, CowParseError<'_>>) ensures match vp_o { Ok(x) => hex_of($0@) == Some(x@), Err(_) => hex_of($0@) is None }
@closure 2
-> (vp_o: Result<Vec<u8>, CowParseError<'_>>) ensures match vp_o { Ok(x) => base64_bytes($0@) == Some(x@), Err(_) => base64_bytes($0@) is None }

@fn parser::sesc (input) -> r
@parser &'static str | g_sesc()
@tags C22 C23 C24

@fn parser::text_literal (input) -> r
@parser String | g_text_literal()
@tags C22 C23 C24
@body
    proof { lemma_unesc(); }
@closure 0
-> (vp_o: Result<String, CowParseError<'_>>) ensures match vp_o { Ok(x) => unesc($0@) == Some(x@), Err(_) => unesc($0@) is None }

@fn parser::value (input) -> r
@parser Value | g_value()
@tags C22 C23 C24

@fn parser::grpent_memberkey_tail (input) -> r
@parser Type | g_memberkey_tail(n)
@tags C23 C24

@fn parser::grpent_member (input) -> r
@parser Member | g_grpent_member(n)
@tags C23 C24
@body
hide(m_tag); hide(m_opt); hide(m_tup4); hide(m_many0); hide(m_delim); hide(m_pre); hide(m_term);

@fn parser::grpent_parens (input) -> r
@parser Group | g_grpent_parens(n)
@tags C23 C24

@fn parser::grpent_val (input) -> r
@parser GrpEntVal | g_grpent_val(n)
@tags C23 C24
@closure 0
-> (vp_o: GrpEntVal) ensures vp_o == GrpEntVal::Groupname(mk_string($0@))

@fn parser::occur_star (input) -> r
@parser Occur | g_occur_star()
@tags C21 C23 C24
@closure 0
-> (vp_o: Result<Occur, CowParseError<'_>>) ensures match vp_o { Ok(x) => occ_of($0) == Some(x), Err(_) => occ_of($0) is None }

@fn parser::occur (input) -> r
@parser Occur | g_occur()
@tags C21 C23 C24

@fn parser::grpent (input) -> r
@parser GrpEnt | g_grpent(n)
@tags C23 C24

@fn parser::grpchoice (input) -> r
@parser GrpChoice | g_grpchoice(n)
@tags C23 C24

@fn parser::group (input) -> r
@parser Group | g_group(n)
@tags C23 C24
@closure 0
-> (vp_o: Group) ensures vp_o.0@ =~= seq![$0.0] + $0.1@, vp_o == group_of($0)

@fn parser::type2_parens (input) -> r
@parser Type | g_type2_parens(n)
@tags C23 C24

@fn parser::type2_map (input) -> r
@parser Group | g_type2_map(n)
@tags C23 C24

@fn parser::type2_array (input) -> r
@parser Group | g_type2_array(n)
@tags C23 C24

@fn parser::type2_unwrap (input) -> r
@parser NameGeneric | g_type2_unwrap(n)
@tags C23 C24

@fn parser::type2_choiceify (input) -> r
@parser NameGeneric | g_type2_choiceify(n)
@tags C23 C24

@fn parser::type2_choiceify_inline (input) -> r
@parser Group | g_type2_choiceify_inline(n)
@tags C23 C24

@fn parser::type2 (input) -> r
@parser Type2 | g_type2(n)
@tags C23 C24

@fn parser::control_op (input) -> r
@parser &'static str | g_control_op()
@tags C23 C24

@fn parser::range_or_control_op (input) -> r
@parser (&'static str, Type2) | g_range_or_control_op(n)
@tags C23 C24

@fn parser::type1 (input) -> r
@parser Type1 | g_type1(n)
@tags C23 C24
@closure 0
-> (vp_o: Type1) ensures vp_o == type1_of($0)

@fn parser::ty (input) -> r
@parser Type | g_ty(n)
@tags C23 C24

@fn parser::rule_val (input) -> r
@parser RuleVal | g_rule_val(n)
@tags C23 C24
@closure 0
-> (vp_o: RuleVal) ensures vp_o == $0.1

@fn parser::generic_parm (input) -> r
@parser Vec<&'static str> | g_generic_parm()
@tags C23 C24

@fn parser::generic_arg (input) -> r
@parser Vec<Type1> | g_generic_arg(n)
@tags C23 C24

@fn parser::name_generic (input) -> r
@parser NameGeneric | g_name_generic(n)
@tags C23 C24
@closure 0
-> (vp_o: NameGeneric) ensures vp_o == name_of($0)

@fn parser::rule (input) -> r
@parser Rule | g_rule(n)
@tags C23 C24 C25
@closure 0
-> (vp_o: Rule) ensures vp_o.generic_parms@ =~= strings(or_empty($0.0.1)@), vp_o == rule_of($0)
@closure 1
-> (vp_o: String) ensures vp_o@ == $0@

@fn parser::cddl (input) -> r
@parser Cddl | g_cddl(n)
@tags C23 C24 C25
@body
    reveal(g_cddl);

@fn parser::cddl_slice (input) -> r
@parser CddlSlice | g_cddl_slice(n)
@tags C23 C24 C25
@closure 0
-> (vp_o: (Rule, String)) ensures vp_o == with_text()($0)
@body
    reveal(g_cddl_slice);
