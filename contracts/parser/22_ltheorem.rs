// What the properties ask of literals, as theorems about the meaning the parser's functions are proved to have.
pub mod ltheorem {
use vstd::prelude::*;
use crate::gram::*;
use crate::cgram::*;
use crate::nomshim::*;
use crate::parser::*;
use crate::plemma::*;
use crate::ast::*;

// ---------------------------------------------------------------- C22: escapes
pub open spec fn hexd(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' }
    else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { 'a' } else if n == 11 { 'b' }
    else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' }
}
pub proof fn lemma_hexd(n: int) requires 0 <= n < 16 ensures dval(hexd(n)) == n, hexd(n) != '+', hexd(n) != '\'', hexd(n) != '"', hexd(n) != '\\', is_schar(hexd(n)), !q_ascii_space()(hexd(n)) { }
/// a character the way RFC 8259 always allows: as itself, or escaped
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '"' || c == '\\' { seq!['\\', c] }
    else if (c as int) < 0x20 { seq!['\\', 'u', '0', '0', hexd(c as int / 16), hexd(c as int % 16)] }
    else { seq![c] }
}
pub open spec fn esc_text(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc1(s[0]) + esc_text(s.skip(1)) } }
pub proof fn lemma_esc1(c: char, r: Seq<char>)
    ensures unesc(esc1(c) + r) == then_text(c, unesc(r))
{
    let t = esc1(c) + r;
    if c == '"' || c == '\\' { assert(t.skip(2) =~= r); assert(t[1] == c); }
    else if (c as int) < 0x20 {
        let k = c as int;
        lemma_hexd(k / 16); lemma_hexd(k % 16);
        let d = t.skip(2);
        assert(t[0] == '\\' && t[1] == 'u');
        assert(d[0] == '0' && d[1] == '0' && d[2] == hexd(k / 16) && d[3] == hexd(k % 16));
        assert(dval('0') == 0);
        assert(hex4(d) == Some(k));
        assert(uni(t) == Some(k));
        assert(esc_char('u') is None);
        assert(t.skip(6) =~= r);
        assert(chr_of(k) == c);
        assert(unesc(t) == then_text(chr_of(k), unesc(t.skip(6))));
    }
    else { assert(t.skip(1) =~= r); }
}
/// every text can be written, and what is written denotes it
pub proof fn theorem_C22_escaped(s: Seq<char>)
    ensures unesc(esc_text(s)) == Some(s)
    decreases s.len()
{
    if s.len() > 0 {
        theorem_C22_escaped(s.skip(1));
        lemma_esc1(s[0], esc_text(s.skip(1)));
        assert(seq![s[0]] + s.skip(1) =~= s);
    } else { assert(s =~= Seq::<char>::empty()); }
}
/// a text in which nothing is escaped denotes itself
pub proof fn theorem_C22_plain(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_schar(#[trigger] s[i])
    ensures unesc(s) == Some(s)
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies is_schar(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        theorem_C22_plain(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    } else { assert(s =~= Seq::<char>::empty()); }
}
/// between single quotes too, where a quotation mark is a character like any other
pub proof fn theorem_C22_plain_bytes(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_bchar(#[trigger] s[i])
    ensures unesc(requoted(s, false)) == Some(s)
    decreases s.len()
{
    reveal_with_fuel(unesc, 2);
    reveal_with_fuel(requoted, 2);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies is_bchar(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        theorem_C22_plain_bytes(s.skip(1));
        let r = requoted(s.skip(1), false);
        let t = requoted(s, false);
        assert(s[0] != '\\');
        assert(seq![s[0]] + s.skip(1) =~= s);
        if s[0] == '"' { assert(t =~= seq!['\\', '"'] + r); assert(t.skip(2) =~= r); }
        else { assert(t =~= seq![s[0]] + r); assert(t.skip(1) =~= r); }
    } else { assert(s =~= Seq::<char>::empty()); }
}

// ---------------------------------------------------------------- C22: hexadecimal and base64
pub open spec fn hex_text(b: Seq<u8>) -> Seq<char> { Seq::new(b.len() * 2, |i: int| if i % 2 == 0 { hexd(b[i / 2] as int / 16) } else { hexd(b[i / 2] as int % 16) }) }
pub proof fn lemma_filter_all(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !q_ascii_space()(#[trigger] s[i])
    ensures s.filter(q_not_space()) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !q_ascii_space()(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        lemma_filter_all(d);
        assert(!q_ascii_space()(s[s.len() - 1]));
        assert(d.push(s.last()) =~= s);
    } else { assert(s =~= Seq::<char>::empty()); assert(s.filter(q_not_space()) =~= s); }
}
/// h'...' with two digits for every byte is those bytes
pub proof fn theorem_C22_hex(b: Seq<u8>)
    ensures hex_of(hex_text(b)) == Some(b)
{
    let t = hex_text(b);
    assert forall|i: int| 0 <= i < t.len() implies !q_ascii_space()(#[trigger] t[i]) && 0 <= dval(t[i]) < 16 by {
        lemma_hexd(b[i / 2] as int / 16); lemma_hexd(b[i / 2] as int % 16);
    }
    lemma_filter_all(t);
    let r = hex_bytes(t)->Some_0;
    assert(hex_bytes(t) is Some);
    assert forall|i: int| 0 <= i < b.len() implies r[i] == b[i] by {
        lemma_hexd(b[i] as int / 16); lemma_hexd(b[i] as int % 16);
        assert(t[2 * i] == hexd(b[i] as int / 16)) by { assert((2 * i) % 2 == 0 && (2 * i) / 2 == i); }
        assert(t[2 * i + 1] == hexd(b[i] as int % 16)) by { assert((2 * i + 1) % 2 == 1 && (2 * i + 1) / 2 == i); }
        assert(16 * (b[i] as int / 16) + b[i] as int % 16 == b[i] as int);
    }
    assert(r =~= b);
}
/// spaces in h'...' make no difference
pub proof fn theorem_C22_hex_spaces(s: Seq<char>) ensures hex_of(s) == hex_of(s.filter(q_not_space()))
{
    lemma_filtered(s);
    lemma_filter_all(s.filter(q_not_space()));
}
pub proof fn lemma_filtered(s: Seq<char>)
    ensures forall|i: int| 0 <= i < s.filter(q_not_space()).len() ==> !q_ascii_space()(#[trigger] s.filter(q_not_space())[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_filtered(s.drop_last()); }
}
pub open spec fn b64_chr(n: int) -> char { choose|c: char| b64_val(c) == n }
pub proof fn lemma_b64_chr(n: int) requires 0 <= n < 64 ensures b64_val(b64_chr(n)) == n
{
    if n < 26 { assert(b64_val(('A' as int + n) as char) == n); }
    else if n < 52 { assert(b64_val(('a' as int + n - 26) as char) == n); }
    else if n < 62 { assert(b64_val(('0' as int + n - 52) as char) == n); }
    else if n == 62 { assert(b64_val('-') == n); } else { assert(b64_val('_') == n); }
}
/// base64 as RFC 4648 writes it, URL-safe, padded
pub open spec fn b64_text(b: Seq<u8>) -> Seq<char> decreases b.len() {
    let (x, y, z) = (b[0] as int, b[1] as int, b[2] as int);
    if b.len() == 0 { Seq::empty() }
    else if b.len() == 1 { seq![b64_chr(x / 4), b64_chr(x % 4 * 16), '=', '='] }
    else if b.len() == 2 { seq![b64_chr(x / 4), b64_chr(x % 4 * 16 + y / 16), b64_chr(y % 16 * 4), '='] }
    else { seq![b64_chr(x / 4), b64_chr(x % 4 * 16 + y / 16), b64_chr(y % 16 * 4 + z / 64), b64_chr(z % 64)] + b64_text(b.skip(3)) }
}
/// b64'...' is the bytes its base64 encodes
pub proof fn theorem_C22_base64(b: Seq<u8>)
    ensures base64_bytes(b64_text(b)) == Some(b)
    decreases b.len()
{
    reveal_with_fuel(base64_bytes, 2);
    let t = b64_text(b);
    if b.len() == 0 { assert(b =~= Seq::<u8>::empty()); }
    else {
        let x = b[0] as int;
        lemma_b64_chr(x / 4); lemma_b64_chr(x % 4 * 16);
        assert(b64_val('=') == 64);
        if b.len() == 1 {
            assert(t.skip(4) =~= Seq::<char>::empty());
            assert(((x / 4) * 4 + (x % 4 * 16) / 16) as u8 == b[0]);
            assert((x % 4 * 16) % 16 == 0);
            assert(seq![b[0]] + Seq::<u8>::empty() =~= b);
        } else {
            let y = b[1] as int;
            lemma_b64_chr(x % 4 * 16 + y / 16); lemma_b64_chr(y % 16 * 4);
            let w = x % 4 * 16 + y / 16;
            assert(w / 16 == x % 4 && w % 16 == y / 16);
            assert(((x / 4) * 4 + w / 16) as u8 == b[0]);
            if b.len() == 2 {
                assert(t.skip(4) =~= Seq::<char>::empty());
                let v = y % 16 * 4;
                assert(v / 4 == y % 16 && v % 4 == 0);
                assert((w % 16 * 16 + v / 4) as u8 == b[1]);
                assert(seq![b[0], b[1]] + Seq::<u8>::empty() =~= b);
            } else {
                let z = b[2] as int;
                let v = y % 16 * 4 + z / 64;
                lemma_b64_chr(v); lemma_b64_chr(z % 64);
                assert(v / 4 == y % 16 && v % 4 == z / 64);
                assert((w % 16 * 16 + v / 4) as u8 == b[1]);
                assert((v % 4 * 64 + z % 64) as u8 == b[2]);
                assert(t.skip(4) =~= b64_text(b.skip(3)));
                theorem_C22_base64(b.skip(3));
                if t.len() == 4 { }
                assert(seq![b[0], b[1], b[2]] + b.skip(3) =~= b);
            }
        }
    }
}

// ---------------------------------------------------------------- literals in a text
pub proof fn lemma_wlen_at(q: spec_fn(char) -> bool, s: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i]), r.len() == 0 || !q(r[0])
    ensures wlen(q, s + r) == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        assert((s + r).skip(1) =~= s.skip(1) + r);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies q(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_wlen_at(q, s.skip(1), r);
    } else { assert(s + r =~= r); }
}
/// "..." is the characters between the quotes
pub proof fn theorem_C22_text(s: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_schar(#[trigger] s[i]), short(s)
    ensures g_value()(seq!['"'] + s + seq!['"'] + r) == PR::Ok(r, Value::Text(mk_string(s)))
{
    broadcast use axiom_mk_str;
    let t = seq!['"'] + s + seq!['"'] + r;
    let u = s + (seq!['"'] + r);
    let w = seq!['"'] + r;
    assert(t[0] == '"');
    assert(t.skip(1) =~= u);
    theorem_C22_plain(s);
    lemma_wlen_at(q_schar(), s, w);
    assert(u.skip(s.len() as int) =~= w);
    assert(u.take(s.len() as int) =~= s);
    let el = m_or(g_unescaped_schar(), g_sesc());
    assert(wlen(q_schar(), w) == 0);
    assert(el(w) is Er);
    reveal_with_fuel(many, 3);
    if s.len() == 0 { assert(u =~= w); }
    assert(many(el, u) is Ok && many(el, u)->Ok_0 == w);
    assert(g_schar()(u) == PR::Ok(w, mk_str(s)));
    assert(w.skip(1) =~= r);
    lemma_no_number(t);
}
pub proof fn lemma_no_number(t: Seq<char>)
    requires t.len() == 0 || (t[0] != '-' && !q_digit()(t[0]))
    ensures g_float_or_int()(t) is Er
{
    reveal_strlit("0x"); reveal_strlit("0b"); reveal_strlit("0"); reveal_strlit("123456789");
    if t.len() > 0 {
        assert(!"123456789"@.contains(t[0])) by { assert forall|i: int| 0 <= i < 9 implies "123456789"@[i] != t[0] by { } }
        if t.len() > 1 { assert(t.take(2)[0] == t[0]); }
        assert(t.take(1)[0] == t[0]);
    }
    assert(g_uint()(t) is Er);
}

// ---------------------------------------------------------------- C22: byte strings in a text
pub proof fn lemma_bchars(s: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_bchar(#[trigger] s[i]), short(s)
    ensures g_bchar()(s + (seq!['\''] + r)) == PR::Ok(seq!['\''] + r, mk_str(s)), (seq!['\''] + r).skip(1) == r
{
    broadcast use axiom_mk_str;
    let w = seq!['\''] + r;
    let u = s + w;
    assert(w.skip(1) =~= r);
    lemma_wlen_at(q_bchar(), s, w);
    assert(u.skip(s.len() as int) =~= w);
    assert(u.take(s.len() as int) =~= s);
    let el = m_or(g_unescaped_bchar(), g_sesc());
    assert(wlen(q_bchar(), w) == 0);
    assert(el(w) is Er);
    reveal_with_fuel(many, 3);
    if s.len() == 0 { assert(u =~= w); }
    assert(many(el, u) is Ok && many(el, u)->Ok_0 == w);
}
pub proof fn lemma_no_text(t: Seq<char>)
    requires t.len() == 0 || t[0] != '"'
    ensures g_text_literal()(t) is Er
{ }
/// '...' is the UTF-8 encoding of the characters between the quotes
pub proof fn theorem_C22_bytes(s: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_bchar(#[trigger] s[i]), short(s)
    ensures g_value()(seq!['\''] + s + seq!['\''] + r) == PR::Ok(r, Value::Bytes(mk_vec(utf8(s))))
{
    broadcast use {axiom_mk_str, axiom_mk_string};
    reveal_strlit("'");
    let t = seq!['\''] + s + seq!['\''] + r;
    let w = seq!['\''] + r;
    lemma_no_number(t); lemma_no_text(t);
    lemma_bchars(s, r);
    theorem_C22_plain_bytes(s);
    assert(t.take(1) =~= "'"@); assert(w.take(1) =~= "'"@);
    assert(t.skip(1) =~= s + w);
    assert(g_bytestring_utf8()(t) == PR::Ok(r, mk_string(s)));
    assert(mk_string(s)@ == s);
}
/// h'...' is the bytes its digits are, or an error
pub proof fn theorem_C22_hex_literal(s: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_bchar(#[trigger] s[i]), short(s)
    ensures g_value()(seq!['h', '\''] + s + seq!['\''] + r) == match hex_of(s) { Some(b) => PR::Ok(r, Value::Bytes(mk_vec(b))), None => PR::Fa }
{
    broadcast use {axiom_mk_str, axiom_mk_string};
    reveal_strlit("'"); reveal_strlit("h'");
    let t = seq!['h', '\''] + s + seq!['\''] + r;
    let w = seq!['\''] + r;
    lemma_no_number(t); lemma_no_text(t);
    lemma_bchars(s, r);
    assert(t.take(1)[0] == 'h');
    assert(g_bytestring_utf8()(t) is Er);
    assert(t.take(2) =~= "h'"@); assert(w.take(1) =~= "'"@);
    assert(t.skip(2) =~= s + w);
    assert(g_bytestring_hex()(t) == PR::Ok(r, mk_str(s)));
    assert(mk_str(s)@ == s);
}
/// b64'...' is the bytes its base64 encodes, or an error
pub proof fn theorem_C22_base64_literal(s: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_bchar(#[trigger] s[i]), short(s)
    ensures g_value()(seq!['b', '6', '4', '\''] + s + seq!['\''] + r) == match base64_bytes(s) { Some(b) => PR::Ok(r, Value::Bytes(mk_vec(b))), None => PR::Fa }
{
    broadcast use {axiom_mk_str, axiom_mk_string};
    reveal_strlit("'"); reveal_strlit("h'"); reveal_strlit("b64'");
    let t = seq!['b', '6', '4', '\''] + s + seq!['\''] + r;
    let w = seq!['\''] + r;
    lemma_no_number(t); lemma_no_text(t);
    lemma_bchars(s, r);
    assert(t.take(1)[0] == 'b'); assert(t.take(2)[0] == 'b');
    assert(g_bytestring_utf8()(t) is Er);
    assert(g_bytestring_hex()(t) is Er);
    assert(t.take(4) =~= "b64'"@);
    assert(t.skip(4) =~= s + w);
    assert(g_bytestring_base64()(t) == PR::Ok(r, mk_str(s)));
    assert(mk_str(s)@ == s);
}

// ---------------------------------------------------------------- C21: numbers
pub open spec fn all(q: spec_fn(char) -> bool, s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i]) }
pub open spec fn q_bin() -> spec_fn(char) -> bool { |c: char| c == '0' || c == '1' }
/// not the first of r
pub open spec fn no(q: spec_fn(char) -> bool, r: Seq<char>) -> bool { r.len() == 0 || !q(r[0]) }
pub open spec fn noc(c: char, r: Seq<char>) -> bool { r.len() == 0 || r[0] != c }
/// digits without a leading zero
pub open spec fn dec(d: Seq<char>) -> bool { all(q_digit(), d) && (d.len() == 1 || d[0] != '0') }
pub proof fn lemma_oneof_dec(c: char) ensures "123456789"@.contains(c) == ('1' <= c <= '9') {
    reveal_strlit("123456789");
    let s = "123456789"@;
    if '1' <= c <= '9' { assert(s[c as int - '1' as int] == c) by {
        let k = c as int - '1' as int;
        if k == 0 {} else if k == 1 {} else if k == 2 {} else if k == 3 {} else if k == 4 {} else if k == 5 {} else if k == 6 {} else if k == 7 {} else {} } }
    else { assert forall|i: int| 0 <= i < s.len() implies s[i] != c by { } }
}
pub proof fn lemma_dec(d: Seq<char>, w: Seq<char>)
    requires dec(d), no(q_digit(), w), d[0] == '0' ==> noc('x', w) && noc('b', w)
    ensures g_uint()(d + w) == PR::Ok(w, raw(mk_str(d), 10))
{
    reveal_strlit("0x"); reveal_strlit("0b"); reveal_strlit("0");
    let t = d + w;
    lemma_oneof_dec(t[0]);
    assert(t[0] == d[0]);
    assert(t.skip(d.len() as int) =~= w);
    assert(t.take(d.len() as int) =~= d);
    if t.len() > 1 { assert(t.take(2)[0] == t[0] && t.take(2)[1] == t[1]); }
    assert(t.take(1) =~= seq![t[0]]);
    assert(g_uint_hex()(t) is Er);
    assert(g_uint_binary()(t) is Er);
    if d[0] == '0' {
        assert(d.len() == 1);
        assert("0"@ =~= d);
    } else {
        assert("0"@[0] == '0');
        let d1 = d.skip(1);
        assert(t.skip(1) =~= d1 + w);
        assert forall|i: int| 0 <= i < d1.len() implies q_digit()(#[trigger] d1[i]) by { assert(d1[i] == d[i + 1]); }
        lemma_wlen_at(q_digit(), d1, w);
        assert((d1 + w).skip(d1.len() as int) =~= w);
        assert(g_uint_decimal()(t) == PR::Ok(w, mk_str(d)));
    }
}
pub open spec fn frac_text(f: Option<Seq<char>>) -> Seq<char> { match f { Some(x) => seq!['.'] + x, None => Seq::empty() } }
pub open spec fn sign_text(s: int) -> Seq<char> { if s == 0 { Seq::empty() } else if s > 0 { seq!['+'] } else { seq!['-'] } }
pub open spec fn exp_text(e: Option<(int, Seq<char>)>) -> Seq<char> { match e { Some(x) => seq!['e'] + sign_text(x.0) + x.1, None => Seq::empty() } }
pub proof fn lemma_frac(f: Option<Seq<char>>, w: Seq<char>)
    requires f is Some ==> all(q_digit(), f->Some_0), no(q_digit(), w), f is None ==> noc('.', w)
    ensures m_opt(g_dot_fraction())(frac_text(f) + w) is Ok, m_opt(g_dot_fraction())(frac_text(f) + w)->Ok_0 == w, m_opt(g_dot_fraction())(frac_text(f) + w)->Ok_1 is Some == f is Some
{
    match f {
        Some(x) => {
            let t = frac_text(f) + w;
            assert(t.skip(1) =~= x + w);
            lemma_wlen_at(q_digit(), x, w);
            assert((x + w).skip(x.len() as int) =~= w);
        }
        None => { assert(frac_text(f) + w =~= w); }
    }
}
pub proof fn lemma_exp(e: Option<(int, Seq<char>)>, w: Seq<char>)
    requires e is Some ==> all(q_digit(), e->Some_0.1), no(q_digit(), w), e is None ==> noc('e', w)
    ensures m_opt(g_e_exponent())(exp_text(e) + w) is Ok, m_opt(g_e_exponent())(exp_text(e) + w)->Ok_0 == w, m_opt(g_e_exponent())(exp_text(e) + w)->Ok_1 is Some == e is Some
{
    reveal_strlit("+-");
    assert("+-"@[0] == '+' && "+-"@[1] == '-');
    match e {
        Some(x) => {
            let t = exp_text(e) + w;
            let u = sign_text(x.0) + x.1 + w;
            assert(t[0] == 'e');
            assert(t.skip(1) =~= u);
            lemma_wlen_at(q_digit(), x.1, w);
            assert((x.1 + w).skip(x.1.len() as int) =~= w);
            if x.0 == 0 { assert(u =~= x.1 + w); assert(u[0] == x.1[0]); assert(!"+-"@.contains(u[0])); }
            else { assert(u.skip(1) =~= x.1 + w); assert("+-"@.contains(u[0])); }
        }
        None => { assert(exp_text(e) + w =~= w); }
    }
}
/// what a number written so denotes
pub open spec fn number(text: Seq<char>, neg: bool, digits: Seq<char>, base: int, float: bool) -> Option<Value> {
    let n = num_val(digits, base);
    if float { match f64_of(text) { Some(x) => Some(Value::Float(x)), None => None } }
    else if !neg { if n <= u64::MAX { Some(Value::Uint(n as u64)) } else { None } }
    else if n <= 0x8000_0000_0000_0000 { Some(Value::Nint((-n) as i64)) }
    else { None }
}
pub open spec fn num_text(neg: bool, d: Seq<char>, f: Option<Seq<char>>, e: Option<(int, Seq<char>)>) -> Seq<char> {
    (if neg { seq!['-'] } else { Seq::empty() }) + (d + (frac_text(f) + exp_text(e)))
}
pub open spec fn tail1(e: Option<(int, Seq<char>)>, r: Seq<char>) -> Seq<char> { exp_text(e) + r }
pub open spec fn tail2(f: Option<Seq<char>>, e: Option<(int, Seq<char>)>, r: Seq<char>) -> Seq<char> { frac_text(f) + tail1(e, r) }
pub proof fn lemma_num_text(neg: bool, d: Seq<char>, f: Option<Seq<char>>, e: Option<(int, Seq<char>)>, r: Seq<char>)
    ensures num_text(neg, d, f, e) + r == minus(neg) + (d + tail2(f, e, r)), used(num_text(neg, d, f, e) + r, r) == num_text(neg, d, f, e)
{
    let a = frac_text(f); let b = exp_text(e); let m = minus(neg); let x = m + (d + (a + b));
    assert(x + r =~= m + (d + (a + (b + r))));
    assert((x + r).take(x.len() as int) =~= x);
}
pub proof fn lemma_tails(f: Option<Seq<char>>, e: Option<(int, Seq<char>)>, r: Seq<char>)
    ensures e is Some ==> tail1(e, r).len() > 0 && tail1(e, r)[0] == 'e', e is None ==> tail1(e, r) == r,
        f is Some ==> tail2(f, e, r).len() > 0 && tail2(f, e, r)[0] == '.', f is None ==> tail2(f, e, r) == tail1(e, r)
{
    if e is None { assert(tail1(e, r) =~= r); }
    if f is None { assert(tail2(f, e, r) =~= tail1(e, r)); }
}
/// A decimal number, with or without sign, fraction and exponent, is exactly the integer its digits
/// are, or the floating-point number the whole of it denotes; an integer out of range is refused.
pub proof fn theorem_C21_decimal(neg: bool, d: Seq<char>, f: Option<Seq<char>>, e: Option<(int, Seq<char>)>, r: Seq<char>)
    requires dec(d), f is Some ==> all(q_digit(), f->Some_0), e is Some ==> all(q_digit(), e->Some_0.1),
        no(q_digit(), r), e is None ==> noc('e', r), f is None && e is None ==> noc('.', r),
        d[0] == '0' ==> noc('x', r) && noc('b', r), short(num_text(neg, d, f, e))
    ensures g_value()(num_text(neg, d, f, e) + r) == match number(num_text(neg, d, f, e), neg, d, 10, f is Some || e is Some) { Some(v) => PR::Ok(r, v), None => PR::Fa }
{
    hide(g_uint); hide(g_int); hide(g_dot_fraction); hide(g_e_exponent); hide(m_opt); hide(g_float_or_int); hide(g_value);
    hide(num_text); hide(tail1); hide(tail2); hide(exp_text); hide(frac_text); hide(num_val); hide(digits);
    broadcast use axiom_mk_str;
    let x = num_text(neg, d, f, e);
    let t = x + r;
    let w1 = tail1(e, r);
    let w2 = tail2(f, e, r);
    lemma_tails(f, e, r);
    lemma_num_text(neg, d, f, e, r);
    lemma_dec(d, w2);
    assert(frac_text(f) + w1 == w2) by { reveal(tail2); }
    assert(exp_text(e) + r == w1) by { reveal(tail1); }
    lemma_frac(f, w1); lemma_exp(e, r);
    lemma_digits10(d);
    assert((d + w2)[0] == d[0]);
    assert(q_digit()(d[0]));
    lemma_signed(neg, d + w2, w2, raw(mk_str(d), 10));
    let ri = raw_int((if neg { Some('-') } else { None::<char> }, raw(mk_str(d), 10)));
    assert(d.len() <= x.len()) by { reveal(num_text); }
    assert(mk_str(d)@ == d); assert(mk_str(x)@ == x);
    let fo = m_opt(g_dot_fraction())(w2)->Ok_1;
    let eo = m_opt(g_e_exponent())(w1)->Ok_1;
    lemma_parts(t, w2, w1, r, ri, fo, eo);
    lemma_radix(d, 10);
    let v = number(x, neg, d, 10, f is Some || e is Some);
    assert(num_of((mk_str(x), (ri, fo, eo))) == v);
    lemma_value_number(t, r, v);
}
pub open spec fn minus(neg: bool) -> Seq<char> { if neg { seq!['-'] } else { Seq::empty() } }
pub proof fn lemma_signed(neg: bool, w: Seq<char>, r: Seq<char>, u: RawUint<'static>)
    requires g_uint()(w) == PR::Ok(r, u), w.len() > 0, w[0] != '-'
    ensures g_int()(minus(neg) + w) == PR::Ok(r, raw_int((if neg { Some('-') } else { None::<char> }, u)))
{
    hide(g_uint);
    let t = minus(neg) + w;
    if neg { assert(t[0] == '-'); assert(t.skip(1) =~= w); } else { assert(t =~= w); }
}
/// the parts of a number, put together
pub proof fn lemma_parts(t: Seq<char>, w2: Seq<char>, w1: Seq<char>, r: Seq<char>, ri: RawInt<'static>, f: Option<&'static str>, e: Option<&'static str>)
    requires g_int()(t) == PR::Ok(w2, ri), m_opt(g_dot_fraction())(w2) == PR::Ok(w1, f), m_opt(g_e_exponent())(w1) == PR::Ok(r, e)
    ensures g_float_or_int()(t) == match num_of((mk_str(used(t, r)), (ri, f, e))) { Some(v) => PR::Ok(r, v), None => PR::Fa }
{
    hide(g_int); hide(g_dot_fraction); hide(g_e_exponent); hide(m_opt); hide(num_of);
    assert(m_tup3(g_int(), m_opt(g_dot_fraction()), m_opt(g_e_exponent()))(t) == PR::Ok(r, (ri, f, e)));
}
pub proof fn lemma_value_number(t: Seq<char>, r: Seq<char>, v: Option<Value>)
    requires g_float_or_int()(t) == match v { Some(x) => PR::Ok(r, x), None => PR::Fa }
    ensures g_value()(t) == match v { Some(x) => PR::Ok(r, x), None => PR::Fa }
{ hide(g_float_or_int); hide(g_text_literal); hide(g_bytestring); }
pub proof fn lemma_digits10(d: Seq<char>) requires all(q_digit(), d) ensures digits(d, 10), d[0] != '+' {
    assert forall|i: int| 0 <= i < d.len() implies 0 <= dval(#[trigger] d[i]) < 10 by { assert(q_digit()(d[i])); }
    assert(q_digit()(d[0]));
}
pub proof fn lemma_radix(d: Seq<char>, b: int) requires digits(d, b), d[0] != '+', b > 0
    ensures num_val(d, b) >= 0, radix_u64(d, b) == if num_val(d, b) <= u64::MAX { Some(num_val(d, b) as u64) } else { None }
{ lemma_num_nonneg(d, b); }
pub proof fn lemma_num_nonneg(d: Seq<char>, b: int) requires b > 0 ensures num_val(d, b) >= 0 decreases d.len()
{ if d.len() > 0 { lemma_num_nonneg(d.drop_last(), b); assert(num_val(d.drop_last(), b) * b >= 0) by (nonlinear_arith) requires b > 0, num_val(d.drop_last(), b) >= 0; } }
/// Hexadecimal and binary numbers, likewise: exactly the number, whatever zeros it starts with.
pub proof fn theorem_C21_hex(neg: bool, d: Seq<char>, r: Seq<char>)
    requires all(q_hex(), d), no(q_hex(), r), noc('.', r), short(d)
    ensures g_value()((if neg { seq!['-'] } else { Seq::empty() }) + (seq!['0', 'x'] + d) + r) == match number(Seq::empty(), neg, d, 16, false) { Some(v) => PR::Ok(r, v), None => PR::Fa }
{
    broadcast use axiom_mk_str;
    reveal_strlit("0x");
    let w = seq!['0', 'x'] + d + r;
    let t = (if neg { seq!['-'] } else { Seq::empty() }) + (seq!['0', 'x'] + d) + r;
    assert(t =~= minus(neg) + w);
    assert(w.take(2) =~= "0x"@);
    assert(w.skip(2) =~= d + r);
    lemma_wlen_at(q_hex(), d, r);
    assert((d + r).skip(d.len() as int) =~= r);
    assert((d + r).take(d.len() as int) =~= d);
    assert(g_uint()(w) == PR::Ok(r, raw(mk_str(d), 16)));
    assert(t.skip(if neg { 1int } else { 0 }) =~= w);
    if neg { assert(t[0] == '-'); } else { assert(t =~= w); assert(t[0] == '0'); }
    assert forall|i: int| 0 <= i < d.len() implies 0 <= dval(#[trigger] d[i]) < 16 by { assert(q_hex()(d[i])); }
    assert(q_hex()(d[0]));
    lemma_radix(d, 16);
    lemma_int_ends(t, r, raw_int((if neg { Some('-') } else { None::<char> }, raw(mk_str(d), 16))));
}
pub proof fn lemma_int_ends(t: Seq<char>, r: Seq<char>, i: RawInt<'static>)
    requires g_int()(t) == PR::Ok(r, i), noc('.', r), noc('e', r)
    ensures g_value()(t) == match int_val(i) { Some(v) => PR::Ok(r, v), None => PR::Fa }
{
    assert(m_opt(g_dot_fraction())(r) == PR::Ok(r, None::<&'static str>));
    assert(m_opt(g_e_exponent())(r) == PR::Ok(r, None::<&'static str>));
}
pub proof fn lemma_bins(d: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> q_bin()(#[trigger] d[i]), no(q_bin(), r)
    ensures many(m_oneof("01"@), d + r) is Ok, many(m_oneof("01"@), d + r)->Ok_0 == r
    decreases d.len()
{
    reveal_strlit("01");
    assert("01"@[0] == '0' && "01"@[1] == '1');
    reveal_with_fuel(many, 2);
    if d.len() > 0 {
        let d1 = d.skip(1);
        assert((d + r).skip(1) =~= d1 + r);
        assert forall|i: int| 0 <= i < d1.len() implies q_bin()(#[trigger] d1[i]) by { assert(d1[i] == d[i + 1]); }
        lemma_bins(d1, r);
        assert((d + r)[0] == d[0]);
    } else {
        assert(d + r =~= r);
        if r.len() > 0 { assert(!"01"@.contains(r[0])); }
    }
}
pub proof fn lemma_binary(d: Seq<char>, r: Seq<char>)
    requires all(q_bin(), d), no(q_bin(), r)
    ensures g_uint()(seq!['0', 'b'] + d + r) == PR::Ok(r, raw(mk_str(d), 2))
{
    reveal_strlit("0x"); reveal_strlit("0b"); reveal_strlit("01");
    assert("01"@[0] == '0' && "01"@[1] == '1');
    let w = seq!['0', 'b'] + d + r;
    assert(w.take(2) =~= "0b"@);
    assert(w.take(2)[1] == 'b'); assert("0x"@[1] == 'x');
    let u = d + r;
    assert(w.skip(2) =~= u);
    let d1 = d.skip(1);
    assert(u.skip(1) =~= d1 + r);
    assert forall|i: int| 0 <= i < d1.len() implies q_bin()(#[trigger] d1[i]) by { assert(d1[i] == d[i + 1]); }
    assert(u[0] == d[0]); assert(q_bin()(d[0]));
    assert(m_oneof("01"@)(u) == PR::Ok(u.skip(1), u[0]));
    lemma_bins(d1, r);
    assert(used(u, r) =~= d);
    let ones = m_recog(m_many1(m_oneof("01"@)));
    assert(ones(u) == PR::Ok(r, mk_str(d)));
    assert(m_tag("0x"@)(w) is Er);
    assert(g_uint_hex()(w) is Er);
    assert(m_tag("0b"@)(w) == PR::Ok(u, mk_str("0b"@)));
    assert(g_uint_binary()(w) == PR::Ok(r, mk_str(d)));
}
pub proof fn theorem_C21_binary(neg: bool, d: Seq<char>, r: Seq<char>)
    requires all(q_bin(), d), no(q_bin(), r), noc('.', r), noc('e', r), short(d)
    ensures g_value()((if neg { seq!['-'] } else { Seq::empty() }) + (seq!['0', 'b'] + d) + r) == match number(Seq::empty(), neg, d, 2, false) { Some(v) => PR::Ok(r, v), None => PR::Fa }
{
    hide(g_uint); hide(g_int); hide(g_value);
    broadcast use axiom_mk_str;
    let w = seq!['0', 'b'] + d + r;
    let t = (if neg { seq!['-'] } else { Seq::empty() }) + (seq!['0', 'b'] + d) + r;
    lemma_binary(d, r);
    assert(w[0] == '0');
    lemma_signed(neg, w, r, raw(mk_str(d), 2));
    assert(t =~= minus(neg) + w);
    assert forall|i: int| 0 <= i < d.len() implies 0 <= dval(#[trigger] d[i]) < 2 by { assert(q_bin()(d[i])); }
    assert(q_bin()(d[0]));
    lemma_radix(d, 2);
    lemma_int_ends(t, r, raw_int((if neg { Some('-') } else { None::<char> }, raw(mk_str(d), 2))));
}

/// An occurrence n*m: exactly the numbers written; a missing lower limit is 0, a missing upper one is none.
pub open spec fn limit_text(d: Option<Seq<char>>) -> Seq<char> { match d { Some(x) => x, None => Seq::empty() } }
pub open spec fn limit_ok(d: Option<Seq<char>>) -> bool { d is Some ==> dec(d->Some_0) && short(d->Some_0) }
pub open spec fn limit_val(d: Option<Seq<char>>, missing: int) -> int { match d { Some(x) => num_val(x, 10), None => missing } }
pub proof fn lemma_limit(d: Option<Seq<char>>, w: Seq<char>)
    requires limit_ok(d), no(q_digit(), w), noc('x', w), noc('b', w)
    ensures m_opt(g_uint_u64())(limit_text(d) + w) == if limit_val(d, 0) > u64::MAX { PR::Fa } else {
        PR::Ok(w, match d { Some(x) => Some(num_val(x, 10) as u64), None => None::<u64> }) },
        limit_val(d, 0) >= 0,
{
    broadcast use axiom_mk_str;
    match d {
        Some(x) => { lemma_dec(x, w); lemma_digits10(x); lemma_radix(x, 10); }
        None => {
            assert(limit_text(d) + w =~= w);
            reveal_strlit("0x"); reveal_strlit("0b"); reveal_strlit("0");
            if w.len() > 0 { lemma_oneof_dec(w[0]); if w.len() > 1 { assert(w.take(2)[0] == w[0]); } assert(w.take(1)[0] == w[0]); }
            assert(g_uint()(w) is Er);
        }
    }
}
pub proof fn theorem_C21_occur(lo: Option<Seq<char>>, hi: Option<Seq<char>>, r: Seq<char>)
    requires limit_ok(lo), limit_ok(hi), no(q_digit(), r), noc('x', r), noc('b', r), usize::MAX == u64::MAX
    ensures g_occur()(limit_text(lo) + (seq!['*'] + (limit_text(hi) + r))) ==
        if limit_val(lo, 0) > u64::MAX || limit_val(hi, 0) > u64::MAX { PR::Fa }
        else if lo is None && hi is None { PR::Ok(r, Occur::ZeroOrMore) }
        else { PR::Ok(r, Occur::Numbered(limit_val(lo, 0) as usize, limit_val(hi, usize::MAX as int) as usize)) }
{
    hide(m_opt); hide(g_uint_u64);
    reveal_strlit("*");
    let w = limit_text(hi) + r;
    let u = seq!['*'] + w;
    assert(u[0] == '*');
    assert("*"@.len() == 1 && "*"@ =~= seq!['*']);
    assert(u.take(1) =~= "*"@);
    assert(u.skip(1) =~= w);
    lemma_limit(lo, u); lemma_limit(hi, r);
    if limit_val(lo, 0) <= u64::MAX && limit_val(hi, 0) <= u64::MAX {
        let a = m_opt(g_uint_u64());
        assert(a(limit_text(lo) + u) is Ok && a(limit_text(lo) + u)->Ok_0 == u);
        assert(u.take("*"@.len() as int) == "*"@);
        assert(m_tag("*"@)(u) == PR::Ok(w, mk_str("*"@)));
        assert(a(w) is Ok && a(w)->Ok_0 == r);
        assert(m_tup3(m_opt(g_uint_u64()), m_tag("*"@), m_opt(g_uint_u64()))(limit_text(lo) + u) is Ok);
    }
}
/// White space, and comments that end with their line.
pub open spec fn is_ws(w: Seq<char>, comment: bool) -> bool decreases w.len() {
    if w.len() == 0 { !comment }
    else if comment { w[0] != '\r' && is_ws(w.skip(1), w[0] != '\n') }
    else { (q_space()(w[0]) || w[0] == ';') && is_ws(w.skip(1), w[0] == ';') }
}
/// how far the spaces (or the line) at the start of w go
pub proof fn lemma_ws_run(w: Seq<char>, r: Seq<char>, comment: bool)
    requires is_ws(w, comment), no(q_space(), r), noc(';', r)
    ensures ({
        let q = if comment { q_noteol() } else { q_space() };
        let k = wlen(q, w + r);
        &&& 0 <= k <= w.len()
        &&& comment ==> k < w.len() && w[k] == '\n' && is_ws(w.skip(k), false)
        &&& !comment ==> is_ws(w.skip(k), false) && (k < w.len() ==> w[k] == ';')
    })
    decreases w.len()
{
    let q = if comment { q_noteol() } else { q_space() };
    if w.len() == 0 { assert(w + r =~= r); assert(w.skip(0) =~= w); }
    else {
        assert((w + r)[0] == w[0]);
        assert(w.skip(0) =~= w);
        if q(w[0]) {
            lemma_ws_run(w.skip(1), r, comment);
            assert((w + r).skip(1) =~= w.skip(1) + r);
            let k = wlen(q, w.skip(1) + r);
            assert(w.skip(1).skip(k) =~= w.skip(k + 1));
        }
    }
}
pub proof fn lemma_ws_many(w: Seq<char>, r: Seq<char>)
    requires is_ws(w, false), no(q_space(), r), noc(';', r)
    ensures ({ let el = m_or(m_while1(q_space()), g_comment()); many(el, w + r) is Ok && many(el, w + r)->Ok_0 == r })
    decreases w.len()
{
    let el = m_or(m_while1(q_space()), g_comment());
    let t = w + r;
    reveal_with_fuel(many, 2);
    if w.len() == 0 {
        assert(t =~= r);
        assert(wlen(q_space(), r) == 0);
        assert(el(r) is Er);
    } else if q_space()(w[0]) {
        lemma_ws_run(w, r, false);
        let k = wlen(q_space(), t);
        assert(t[0] == w[0]);
        assert(k > 0) by { assert(t.skip(1) =~= w.skip(1) + r); lemma_wlen(q_space(), t.skip(1)); }
        assert(t.skip(k) =~= w.skip(k) + r);
        assert(el(t) is Ok && el(t)->Ok_0 == w.skip(k) + r);
        lemma_ws_many(w.skip(k), r);
    } else {
        let u = w.skip(1);
        lemma_ws_run(u, r, true);
        let k = wlen(q_noteol(), u + r);
        assert(t[0] == ';');
        assert(t.skip(1) =~= u + r);
        assert(wlen(q_space(), t) == 0);
        assert((u + r)[k] == u[k]);
        assert((u + r).skip(k) =~= u.skip(k) + r);
        assert(el(t) is Ok && el(t)->Ok_0 == u.skip(k) + r);
        lemma_ws_many(u.skip(k), r);
    }
}
/// All white space and every comment between two tokens is skipped, and nothing else.
pub proof fn theorem_C23_spaces(w: Seq<char>, r: Seq<char>)
    requires is_ws(w, false), no(q_space(), r), noc(';', r)
    ensures g_ws()(w + r) == PR::Ok(r, mk_str(w))
{
    lemma_ws_many(w, r);
    assert(used(w + r, r) =~= w);
}
/// Nothing is left over: a schema is read to its end or refused.
pub proof fn theorem_C23_whole(t: Seq<char>)
    ensures parse_rules(t) is Some ==> g_cddl(level(t))(t) is Ok && g_cddl(level(t))(t)->Ok_0.len() == 0
{ }
}
