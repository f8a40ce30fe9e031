// The grammar of CDDL, as the meaning of each nonterminal: what it accepts and what
// syntax it denotes.  RFC 8610 appendix B, with the differences the library documents.
pub mod cgram {
use vstd::prelude::*;
use crate::gram::*;
use crate::ast::*;
use crate::parser::{RawUint, RawInt};

// ---- white space: S = *WS, with comments
pub open spec fn g_comment() -> G<&'static str> { m_pre(m_chr(';'), m_noteol()) }
pub open spec fn g_ws() -> G<&'static str> { m_recog(m_many0(m_or(m_while1(q_space()), g_comment()))) }
pub open spec fn g_optcom() -> G<()> { m_val((), m_pair(g_ws(), m_opt(m_pair(m_tag(","@), g_ws())))) }

// ---- id = EALPHA *(*("-" / ".") (EALPHA / DIGIT))
pub open spec fn is_ealpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '@' || c == '_' || c == '$' }
pub open spec fn q_ealpha() -> spec_fn(char) -> bool { |c: char| is_ealpha(c) }
pub open spec fn g_ealpha() -> G<&'static str> { m_while1(q_ealpha()) }
pub open spec fn g_ident_tail() -> G<&'static str> {
    m_recog(m_pre(m_opt(m_many1(m_oneof("-."@))), m_or(g_ealpha(), m_while1(q_digit()))))
}
pub open spec fn g_ident() -> G<&'static str> { m_recog(m_pre(g_ealpha(), m_many0(g_ident_tail()))) }

// ---- numbers
pub open spec fn g_uint_hex() -> G<&'static str> { m_pre(m_tag("0x"@), m_while1(q_hex())) }
pub open spec fn g_uint_binary() -> G<&'static str> { m_pre(m_tag("0b"@), m_recog(m_many1(m_oneof("01"@)))) }
pub open spec fn g_uint_decimal() -> G<&'static str> { m_or(m_tag("0"@), m_recog(m_pair(m_oneof("123456789"@), m_while0(q_digit())))) }
pub open spec fn raw(s: &'static str, b: u32) -> RawUint<'static> { RawUint { slice: s, base: b } }
pub open spec fn g_uint() -> G<RawUint<'static>> {
    m_or(m_map(g_uint_hex(), |s: &'static str| raw(s, 16)),
        m_or(m_map(g_uint_binary(), |s: &'static str| raw(s, 2)), m_map(g_uint_decimal(), |s: &'static str| raw(s, 10))))
}
/// the digit a character is, in bases up to 36
pub open spec fn dval(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int }
    else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 }
    else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 }
    else { 99 }
}
/// the number a sequence of digits is
pub open spec fn num_val(s: Seq<char>, b: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { num_val(s.drop_last(), b) * b + dval(s.last()) }
}
pub open spec fn digits(s: Seq<char>, b: int) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 0 <= dval(#[trigger] s[i]) < b }
/// the unsigned 64-bit integer a text is in base b, if it is one
pub open spec fn radix_u64(s: Seq<char>, b: int) -> Option<u64> {
    let t = if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s };
    if digits(t, b) && num_val(t, b) <= u64::MAX { Some(num_val(t, b) as u64) } else { None }
}
pub open spec fn g_uint_u64() -> G<u64> { m_mapfail(g_uint(), |x: RawUint<'static>| radix_u64(x.slice@, x.base as int)) }
pub open spec fn raw_int(x: (Option<char>, RawUint<'static>)) -> RawInt<'static> { RawInt { slice: x.1.slice, base: x.1.base, neg: x.0 is Some } }
pub open spec fn g_int() -> G<RawInt<'static>> { m_map(m_pair(m_opt(m_chr('-')), g_uint()), |x: (Option<char>, RawUint<'static>)| raw_int(x)) }
pub open spec fn g_dot_fraction() -> G<&'static str> { m_recog(m_pair(m_chr('.'), m_while1(q_digit()))) }
pub open spec fn g_e_exponent() -> G<&'static str> { m_recog(m_tup3(m_chr('e'), m_opt(m_oneof("+-"@)), m_while1(q_digit()))) }
/// the nearest double to a decimal number (std's parse)
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
pub open spec fn float_val(s: Seq<char>) -> Option<Value> { match f64_of(s) { Some(f) => Some(Value::Float(f)), None => None } }
pub open spec fn int_val(x: RawInt) -> Option<Value> {
    match radix_u64(x.slice@, x.base as int) {
        None => None,
        Some(u) => if !x.neg { Some(Value::Uint(u)) } else if u <= i64::MAX as int + 1 { Some(Value::Nint((-(u as int)) as i64)) } else { None },
    }
}
pub open spec fn num_of(x: (&'static str, (RawInt<'static>, Option<&'static str>, Option<&'static str>))) -> Option<Value> {
    if x.1.1 is Some || x.1.2 is Some { float_val(x.0@) } else { int_val(x.1.0) }
}
pub open spec fn g_float_or_int() -> G<Value> {
    m_mapfail(m_recogx(m_tup3(g_int(), m_opt(g_dot_fraction()), m_opt(g_e_exponent()))),
        |x: (&'static str, (RawInt<'static>, Option<&'static str>, Option<&'static str>))| num_of(x))
}

// ---- strings
pub open spec fn is_bchar(c: char) -> bool {
    0x20 <= c as int <= 0x26 || 0x28 <= c as int <= 0x5B || 0x5D <= c as int <= 0x7E || 0x80 <= c as int <= 0x10FFFD
}
pub open spec fn is_schar(c: char) -> bool {
    0x20 <= c as int <= 0x21 || 0x23 <= c as int <= 0x5B || 0x5D <= c as int <= 0x7E || 0x80 <= c as int <= 0x10FFFD
}
pub open spec fn q_bchar() -> spec_fn(char) -> bool { |c: char| is_bchar(c) }
pub open spec fn q_schar() -> spec_fn(char) -> bool { |c: char| is_schar(c) }
pub open spec fn g_sesc() -> G<&'static str> { m_pre(m_chr('\\'), m_recog(m_any())) }
pub open spec fn g_unescaped_bchar() -> G<&'static str> { m_while1(q_bchar()) }
pub open spec fn g_unescaped_schar() -> G<&'static str> { m_while1(q_schar()) }
pub open spec fn g_bchar() -> G<&'static str> { m_recog(m_many0(m_or(g_unescaped_bchar(), g_sesc()))) }
pub open spec fn g_schar() -> G<&'static str> { m_recog(m_many0(m_or(g_unescaped_schar(), g_sesc()))) }
/// the character after a backslash, when the two stand for one character
pub open spec fn esc_char(c: char) -> Option<char> {
    if c == '"' || c == '\\' || c == '/' { Some(c) } else if c == 'b' { Some('\x08') } else if c == 'f' { Some('\x0c') }
    else if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None }
}
/// the number the first four characters are, in hexadecimal
pub open spec fn hex4(s: Seq<char>) -> Option<int> {
    if s.len() >= 4 && dval(s[0]) < 16 && dval(s[1]) < 16 && dval(s[2]) < 16 && dval(s[3]) < 16 {
        Some(((dval(s[0]) * 16 + dval(s[1])) * 16 + dval(s[2])) * 16 + dval(s[3]))
    } else { None }
}
/// a backslash, a u and four hexadecimal digits
pub open spec fn uni(s: Seq<char>) -> Option<int> { if s.len() >= 6 && s[0] == '\\' && s[1] == 'u' { hex4(s.skip(2)) } else { None } }
pub open spec fn chr_of(n: int) -> char { n as char }
pub open spec fn then_text(c: char, r: Option<Seq<char>>) -> Option<Seq<char>> { match r { Some(x) => Some(seq![c] + x), None => None } }
/// the text a double-quoted string's contents denote (JSON's escapes, RFC 8259); None: malformed
pub open spec fn unesc(s: Seq<char>) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] != '\\' { if s[0] as int >= 0x20 && s[0] != '"' { then_text(s[0], unesc(s.skip(1))) } else { None } }
    else if s.len() < 2 { None }
    else { match esc_char(s[1]) {
        Some(c) => then_text(c, unesc(s.skip(2))),
        None => match uni(s) {
            Some(a) =>
                if 0xD800 <= a < 0xDC00 {
                    // half a character: the other half has to follow
                    match uni(s.skip(6)) {
                        Some(b) => if 0xDC00 <= b < 0xE000 { then_text(chr_of(0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00)), unesc(s.skip(12))) } else { None },
                        None => None }
                } else if 0xDC00 <= a < 0xE000 { None } else { then_text(chr_of(a), unesc(s.skip(6))) },
            None => None } } }
}
/// whether a backslash, a u and a plus sign stand there (escaped: after a backslash; unicode: after a backslash and a u)
pub open spec fn signed_esc(s: Seq<char>, escaped: bool, unicode: bool) -> bool decreases s.len() {
    if s.len() == 0 { false } else {
        (unicode && s[0] == '+') || signed_esc(s.skip(1), !escaped && s[0] == '\\', escaped && s[0] == 'u')
    }
}
pub open spec fn str_of(s: Option<Seq<char>>) -> Option<String> { match s { Some(x) => Some(mk_string(x)), None => None } }
/// the contents of a single-quoted string, as the contents of a double-quoted one
pub open spec fn requoted(s: Seq<char>, esc: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let c = s[0];
        let e = !esc && c == '\\';
        (if esc { if c == '\'' { seq![c] } else { seq!['\\', c] } }
         else if c == '"' { seq!['\\', '"'] }
         else if c == '\\' { Seq::empty() }
         else { seq![c] }) + requoted(s.skip(1), e)
    }
}
pub open spec fn g_bytestring_utf8() -> G<String> {
    m_mapfail(m_delim(m_tag("'"@), g_bchar(), m_tag("'"@)), |s: &'static str| str_of(unesc(requoted(s@, false))))
}
pub open spec fn g_bytestring_hex() -> G<&'static str> { m_delim(m_tag("h'"@), g_bchar(), m_tag("'"@)) }
pub open spec fn g_bytestring_base64() -> G<&'static str> { m_delim(m_tag("b64'"@), g_bchar(), m_chr('\'')) }
pub open spec fn g_text_literal() -> G<String> {
    m_mapfail(m_delim(m_chr('"'), g_schar(), m_chr('"')), |s: &'static str| str_of(unesc(s@)))
}
/// UTF-8
pub open spec fn utf8_char(c: char) -> Seq<u8> {
    let n = c as int;
    if n < 0x80 { seq![n as u8] }
    else if n < 0x800 { seq![(0xC0 + n / 0x40) as u8, (0x80 + n % 0x40) as u8] }
    else if n < 0x10000 { seq![(0xE0 + n / 0x1000) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8] }
    else { seq![(0xF0 + n / 0x40000) as u8, (0x80 + n / 0x1000 % 0x40) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8] }
}
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { utf8_char(s[0]) + utf8(s.skip(1)) } }
/// the value of a character of the URL-safe base64 alphabet; 64: not one
pub open spec fn b64_val(c: char) -> int {
    if 'A' <= c <= 'Z' { c as int - 'A' as int } else if 'a' <= c <= 'z' { c as int - 'a' as int + 26 }
    else if '0' <= c <= '9' { c as int - '0' as int + 52 } else if c == '-' { 62 } else if c == '_' { 63 } else { 64 }
}
pub open spec fn is_b64(c: char) -> bool { b64_val(c) < 64 }
/// four characters, the bytes they are: as the last four they may be padded
pub open spec fn b64_quad(a: char, b: char, c: char, d: char, last: bool) -> Option<Seq<u8>> {
    let (v, w, x, y) = (b64_val(a), b64_val(b), b64_val(c), b64_val(d));
    if v >= 64 || w >= 64 { None }
    else if x < 64 && y < 64 { Some(seq![(v * 4 + w / 16) as u8, (w % 16 * 16 + x / 4) as u8, (x % 4 * 64 + y) as u8]) }
    else if last && x < 64 && d == '=' && x % 4 == 0 { Some(seq![(v * 4 + w / 16) as u8, (w % 16 * 16 + x / 4) as u8]) }
    else if last && c == '=' && d == '=' && w % 16 == 0 { Some(seq![(v * 4 + w / 16) as u8]) }
    else { None }
}
/// base64, URL-safe alphabet, with padding; None: malformed
pub open spec fn base64_bytes(s: Seq<char>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) }
    else if s.len() < 4 { None }
    else { match (b64_quad(s[0], s[1], s[2], s[3], s.len() == 4), base64_bytes(s.skip(4))) {
        (Some(x), Some(y)) => Some(x + y), _ => None } }
}
pub open spec fn q_ascii_space() -> spec_fn(char) -> bool { |c: char| c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r' }
pub open spec fn q_not_space() -> spec_fn(char) -> bool { |c: char| !q_ascii_space()(c) }
/// the bytes a sequence of pairs of hexadecimal digits denotes
pub open spec fn hex_bytes(s: Seq<char>) -> Option<Seq<u8>> {
    if s.len() % 2 == 0 && (forall|i: int| 0 <= i < s.len() ==> 0 <= dval(#[trigger] s[i]) < 16) {
        Some(Seq::new(s.len() / 2, |i: int| (16 * dval(s[2 * i]) + dval(s[2 * i + 1])) as u8))
    } else { None }
}
pub open spec fn hex_of(s: Seq<char>) -> Option<Seq<u8>> { hex_bytes(s.filter(q_not_space())) }
pub open spec fn vec_of(s: Option<Seq<u8>>) -> Option<Vec<u8>> { match s { Some(x) => Some(mk_vec(x)), None => None } }
pub open spec fn g_bytestring() -> G<Vec<u8>> {
    m_or(m_map(g_bytestring_utf8(), |s: String| mk_vec(utf8(s@))),
        m_or(m_mapfail(g_bytestring_hex(), |s: &'static str| vec_of(hex_of(s@))),
            m_mapfail(g_bytestring_base64(), |s: &'static str| vec_of(base64_bytes(s@)))))
}
pub open spec fn g_value() -> G<Value> {
    m_or(g_float_or_int(), m_or(m_map(g_text_literal(), |s: String| Value::Text(s)), m_map(g_bytestring(), |b: Vec<u8>| Value::Bytes(b))))
}

// ---- occurrences
pub open spec fn occ_of(x: (Option<u64>, &'static str, Option<u64>)) -> Option<Occur> {
    if x.0 is None && x.2 is None { Some(Occur::ZeroOrMore) } else {
        let lo: int = match x.0 { Some(n) => n as int, None => 0 };
        let hi: int = match x.2 { Some(n) => n as int, None => usize::MAX as int };
        if lo <= usize::MAX && hi <= usize::MAX { Some(Occur::Numbered(lo as usize, hi as usize)) } else { None }
    }
}
pub open spec fn g_occur_star() -> G<Occur> {
    m_mapres(m_tup3(m_opt(g_uint_u64()), m_tag("*"@), m_opt(g_uint_u64())), |x: (Option<u64>, &'static str, Option<u64>)| occ_of(x))
}
pub open spec fn g_occur() -> G<Occur> {
    m_or(g_occur_star(), m_or(m_val(Occur::OneOrMore, m_tag("+"@)), m_val(Occur::Optional, m_tag("?"@))))
}

// ---- types.  The level n goes down where brackets nest.
pub open spec fn in_ws<A>(a: G<A>) -> G<A> { m_delim(g_ws(), a, g_ws()) }
pub open spec fn g_type2_parens(n: nat) -> G<Type> decreases n, 5int { m_delim(m_chr('('), m_delim(g_ws(), g_ty(n), g_ws()), m_chr(')')) }
pub open spec fn g_type2_map(n: nat) -> G<Group> decreases n, 4int { m_delim(m_chr('{'), m_delim(g_ws(), g_group(n), g_ws()), m_chr('}')) }
pub open spec fn g_type2_array(n: nat) -> G<Group> decreases n, 4int { m_delim(m_chr('['), m_delim(g_ws(), g_group(n), g_ws()), m_chr(']')) }
pub open spec fn g_type2_unwrap(n: nat) -> G<NameGeneric> decreases n, 5int { m_pre(m_tag("~"@), m_pre(g_ws(), g_name_generic(n))) }
pub open spec fn g_type2_choiceify(n: nat) -> G<NameGeneric> decreases n, 5int { m_pre(m_tag("&"@), m_pre(g_ws(), g_name_generic(n))) }
pub open spec fn g_type2_choiceify_inline(n: nat) -> G<Group> decreases n, 4int {
    m_pre(m_tag("&"@), m_pre(g_ws(), m_delim(m_chr('('), m_delim(g_ws(), g_group(n), g_ws()), m_chr(')'))))
}
pub open spec fn g_type2(n: nat) -> G<Type2> decreases n, 0int {
    if n == 0 { m_deep() } else { g_type2_alts((n - 1) as nat) }
}
pub open spec fn g_type2_alts(n: nat) -> G<Type2> decreases n, 8int {
    m_or(m_map(g_value(), |x: Value| Type2::Value(x)),
    m_or(m_map(g_name_generic(n), |x: NameGeneric| Type2::Typename(x)),
    m_or(m_map(g_type2_parens(n), |x: Type| Type2::Parethesized(x)),
    m_or(m_map(g_type2_map(n), |x: Group| Type2::Map(x)),
    m_or(m_map(g_type2_array(n), |x: Group| Type2::Array(x)),
    m_or(m_map(g_type2_unwrap(n), |x: NameGeneric| Type2::Unwrap(x)),
    m_or(m_map(g_type2_choiceify_inline(n), |x: Group| Type2::ChoiceifyInline(x)),
        m_map(g_type2_choiceify(n), |x: NameGeneric| Type2::Choiceify(x)))))))))
}
pub open spec fn g_control_op() -> G<&'static str> { m_pre(m_tag("."@), g_ident()) }
pub open spec fn g_range_or_control_op(n: nat) -> G<(&'static str, Type2)> decreases n, 1int {
    m_pair(m_or(m_tag("..."@), m_or(m_tag(".."@), g_control_op())), m_pre(g_ws(), g_type2(n)))
}
pub open spec fn type1_of(x: (Type2, Option<(&'static str, Type2)>)) -> Type1 {
    match x.1 {
        None => Type1::Simple(x.0),
        Some((op, arg)) =>
            if op@ == ".."@ { Type1::Range(TypeRange { start: x.0, inclusive: true, end: arg }) }
            else if op@ == "..."@ { Type1::Range(TypeRange { start: x.0, inclusive: false, end: arg }) }
            else { Type1::Control(TypeControl { target: x.0, op: mk_string(op@), arg }) },
    }
}
pub open spec fn g_type1(n: nat) -> G<Type1> decreases n, 2int {
    m_map(m_pair(g_type2(n), m_opt(m_pre(g_ws(), g_range_or_control_op(n)))), |x: (Type2, Option<(&'static str, Type2)>)| type1_of(x))
}
pub open spec fn g_ty(n: nat) -> G<Type> decreases n, 3int {
    m_map(m_seplist1(m_delim(g_ws(), m_tag("/"@), g_ws()), g_type1(n)), |x: Vec<Type1>| Type(x))
}
pub open spec fn g_generic_parm() -> G<Vec<&'static str>> {
    m_delim(m_pair(m_tag("<"@), g_ws()), m_seplist1(m_pair(m_tag(","@), g_ws()), m_term(g_ident(), g_ws())), m_tag(">"@))
}
pub open spec fn g_generic_arg(n: nat) -> G<Vec<Type1>> decreases n, 3int {
    m_delim(m_pair(m_tag("<"@), g_ws()), m_seplist1(m_pair(m_tag(","@), g_ws()), m_term(g_type1(n), g_ws())), m_tag(">"@))
}
pub open spec fn or_empty<A>(x: Option<Vec<A>>) -> Vec<A> { match x { Some(v) => v, None => mk_vec(Seq::empty()) } }
pub open spec fn name_of(x: (&'static str, Option<Vec<Type1>>)) -> NameGeneric { NameGeneric { name: mk_string(x.0@), generic_args: or_empty(x.1) } }
pub open spec fn g_name_generic(n: nat) -> G<NameGeneric> decreases n, 4int {
    m_map(m_pair(g_ident(), m_opt(g_generic_arg(n))), |x: (&'static str, Option<Vec<Type1>>)| name_of(x))
}

// ---- groups
pub open spec fn g_memberkey_tail(n: nat) -> G<Type> decreases n, 4int { m_pre(m_pair(m_tag(":"@), g_ws()), g_ty(n)) }
/// a key before ":" is a value or a bare name
pub open spec fn is_key(k: Type1) -> bool { k matches Type1::Simple(x) && (x is Value || x is Typename) }
/// the member "k: v"
pub open spec fn basic_member(k: Type1, v: Type) -> Option<Member> {
    match k {
        Type1::Simple(Type2::Value(x)) => Some(Member { key: Some(MemberKey { val: MemberKeyVal::Value(x), cut: true }), value: v }),
        Type1::Simple(Type2::Typename(x)) => if x.generic_args@.len() == 0 {
                Some(Member { key: Some(MemberKey { val: MemberKeyVal::Bareword(x.name), cut: true }), value: v })
            } else { None },
        _ => None,
    }
}
pub open spec fn arrow_member(k: Type1, cut: bool, v: Type) -> Member { Member { key: Some(MemberKey { val: MemberKeyVal::Type1(k), cut }), value: v } }
pub open spec fn plain_member(k: Type1, more: Seq<Type1>) -> Member { Member { key: None, value: Type(mk_vec(seq![k] + more)) } }
pub open spec fn g_arrow(n: nat) -> G<(Option<&'static str>, &'static str, &'static str, Type)> decreases n, 4int {
    m_tup4(m_opt(m_term(m_tag("^"@), g_ws())), m_tag("=>"@), g_ws(), g_ty(n))
}
pub open spec fn g_more(n: nat) -> G<Vec<Type1>> decreases n, 3int { m_many0(m_pre(m_delim(g_ws(), m_tag("/"@), g_ws()), g_type1(n))) }
/// "k: type", else "k ^ => type", else "k / type1 / ..": the first that succeeds
pub open spec fn m_member(key: G<Type1>, tail: G<Type>, arrow: G<(Option<&'static str>, &'static str, &'static str, Type)>, more: G<Vec<Type1>>) -> G<Member> {
    |t: Seq<char>| match key(t) {
        PR::Ok(r, k) =>
            if is_key(k) && tail(r) is Deep { PR::Deep }
            else if is_key(k) && tail(r) is Ok { match basic_member(k, tail(r)->Ok_1) { Some(m) => PR::Ok(tail(r)->Ok_0, m), None => PR::Fa } }
            else { match arrow(r) {
                PR::Deep => PR::Deep,
                PR::Ok(r2, (c, _, _, v)) => PR::Ok(r2, arrow_member(k, c is Some, v)),
                _ => match more(r) {
                    PR::Deep => PR::Deep,
                    PR::Ok(r2, v) => PR::Ok(r2, plain_member(k, v@)),
                    _ => PR::Er } } },
        PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep }
}
pub open spec fn g_grpent_member(n: nat) -> G<Member> decreases n, 5int {
    m_member(m_term(g_type1(n), g_ws()), g_memberkey_tail(n), g_arrow(n), g_more(n))
}
pub open spec fn g_grpent_parens(n: nat) -> G<Group> decreases n, 7int { m_delim(m_chr('('), m_delim(g_ws(), g_group(n), g_ws()), m_chr(')')) }
pub open spec fn g_grpent_val(n: nat) -> G<GrpEntVal> decreases n, 0int {
    if n == 0 { m_deep() } else { g_grpent_val_alts((n - 1) as nat) }
}
pub open spec fn g_grpent_val_alts(n: nat) -> G<GrpEntVal> decreases n, 8int {
    m_or(m_map(g_grpent_member(n), |x: Member| GrpEntVal::Member(x)),
    m_or(m_map(g_ident(), |s: &'static str| GrpEntVal::Groupname(mk_string(s@))),
        m_map(g_grpent_parens(n), |x: Group| GrpEntVal::Parenthesized(x))))
}
pub open spec fn g_grpent(n: nat) -> G<GrpEnt> decreases n, 1int {
    m_map(m_pair(m_opt(m_term(g_occur(), g_ws())), g_grpent_val(n)), |x: (Option<Occur>, GrpEntVal)| GrpEnt { occur: x.0, val: x.1 })
}
pub open spec fn g_grpchoice(n: nat) -> G<GrpChoice> decreases n, 2int {
    m_map(m_many0(m_term(g_grpent(n), g_optcom())), |x: Vec<GrpEnt>| GrpChoice(x))
}
pub open spec fn group_of(x: (GrpChoice, Vec<GrpChoice>)) -> Group { Group(mk_vec(seq![x.0] + x.1@)) }
pub open spec fn g_group(n: nat) -> G<Group> decreases n, 3int {
    m_map(m_pair(g_grpchoice(n), m_many0(m_pre(m_delim(g_ws(), m_tag("//"@), g_ws()), g_grpchoice(n)))), |x: (GrpChoice, Vec<GrpChoice>)| group_of(x))
}

// ---- rules
pub open spec fn g_rule_val(n: nat) -> G<RuleVal> {
    m_map(m_seppair(m_tag("="@), g_ws(), m_or(m_map(g_ty(n), |x: Type| RuleVal::AssignType(x)), m_map(g_grpent(n), |x: GrpEnt| RuleVal::AssignGroup(x)))),
        |x: (&'static str, RuleVal)| x.1)
}
pub open spec fn strings(v: Seq<&'static str>) -> Seq<String> { v.map_values(|s: &'static str| mk_string(s@)) }
pub open spec fn rule_of(x: ((&'static str, Option<Vec<&'static str>>), RuleVal)) -> Rule {
    Rule { name: mk_string(x.0.0@), generic_parms: mk_vec(strings(or_empty(x.0.1)@)), val: x.1 }
}
pub open spec fn g_rule(n: nat) -> G<Rule> {
    m_map(m_seppair(m_pair(g_ident(), m_opt(g_generic_parm())), g_ws(), g_rule_val(n)),
        |x: ((&'static str, Option<Vec<&'static str>>), RuleVal)| rule_of(x))
}
#[verifier::opaque]
pub open spec fn g_cddl(n: nat) -> G<Cddl> {
    m_map(m_pre(g_ws(), m_many1(m_term(g_rule(n), g_ws()))), |x: Vec<Rule>| Cddl { rules: x })
}
pub open spec fn with_text() -> spec_fn((&'static str, Rule)) -> (Rule, String) { |x: (&'static str, Rule)| (x.1, mk_string(x.0@)) }
#[verifier::opaque]
pub open spec fn g_cddl_slice(n: nat) -> G<CddlSlice> {
    m_map(m_pre(g_ws(), m_many1(m_term(m_map(m_recogx(g_rule(n)), with_text()), g_ws()))), |x: Vec<(Rule, String)>| CddlSlice { rules: x })
}
}
