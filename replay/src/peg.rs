//! An independent parser for the supported subset: ordered choice over the text, written by hand
//! from the grammar (RFC 8610 appendix B with the differences the library documents), with its
//! own integer, hex, base64 and escape handling.
use cddl_cat::ast::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad {
    /// another alternative may still match
    No,
    /// the text is not a schema, whatever else might match
    Never,
}
type P<'a, T> = Result<(T, &'a str), Bad>;

fn first(t: &str) -> Option<char> { t.chars().next() }
fn tag<'a>(t: &'a str, w: &str) -> P<'a, ()> { match t.strip_prefix(w) { Some(r) => Ok(((), r)), None => Err(Bad::No) } }
fn run(t: &str, f: impl Fn(char) -> bool) -> (&str, &str) { let k = t.find(|c| !f(c)).unwrap_or(t.len()); t.split_at(k) }
fn run1(t: &str, f: impl Fn(char) -> bool) -> P<'_, &str> { let (a, b) = run(t, f); if a.is_empty() { Err(Bad::No) } else { Ok((a, b)) } }
fn opt<'a, T>(t: &'a str, r: P<'a, T>) -> P<'a, Option<T>> {
    match r { Ok((x, r)) => Ok((Some(x), r)), Err(Bad::No) => Ok((None, t)), Err(e) => Err(e) }
}
fn many<'a, T>(mut t: &'a str, f: impl Fn(&'a str) -> P<'a, T>) -> P<'a, Vec<T>> {
    let mut v = vec![];
    loop {
        match f(t) {
            Ok((_, r)) if r.len() == t.len() => return Err(Bad::No),
            Ok((x, r)) => { v.push(x); t = r }
            Err(Bad::No) => return Ok((v, t)),
            Err(e) => return Err(e),
        }
    }
}
/// One or more, separated; a separator that nothing follows is left alone.
fn sep<'a, T>(t: &'a str, s: impl Fn(&'a str) -> P<'a, ()>, f: impl Fn(&'a str) -> P<'a, T>) -> P<'a, Vec<T>> {
    let (x, r) = f(t)?;
    let (mut v, mut t) = (vec![x], r);
    loop {
        match s(t).and_then(|(_, r)| f(r)) {
            Ok((x, r)) => { v.push(x); t = r }
            Err(Bad::No) => return Ok((v, t)),
            Err(e) => return Err(e),
        }
    }
}
fn some_err<T>(x: Option<T>) -> Result<T, Bad> { x.ok_or(Bad::Never) }

fn comment(t: &str) -> Option<&str> {
    let t = t.strip_prefix(';')?;
    let (_, r) = run(t, |c| c != '\r' && c != '\n');
    // a carriage return alone ends no line
    if r.starts_with('\r') && !r.starts_with("\r\n") { None } else { Some(r) }
}
fn ws(mut t: &str) -> &str {
    loop {
        let (_, r) = run(t, |c| " \t\r\n".contains(c));
        match comment(r) { Some(r) => t = r, None => return r }
    }
}
fn optcom(t: &str) -> &str { let t = ws(t); match t.strip_prefix(',') { Some(r) => ws(r), None => t } }

fn ealpha(c: char) -> bool { c.is_ascii_alphabetic() || "@_$".contains(c) }
fn ident(t: &str) -> P<'_, &str> {
    let (_, mut r) = run1(t, ealpha)?;
    loop {
        let (_, s) = run(r, |c| c == '-' || c == '.');
        let (a, s2) = if first(s).map_or(false, ealpha) { run(s, ealpha) } else { run(s, |c| c.is_ascii_digit()) };
        if a.is_empty() { break; }
        r = s2;
    }
    Ok((&t[..t.len() - r.len()], r))
}
/// digits and base
fn uint(t: &str) -> P<'_, (&str, u32)> {
    if let Some(r) = t.strip_prefix("0x") { if let Ok((d, r)) = run1(r, |c| c.is_ascii_hexdigit()) { return Ok(((d, 16), r)); } }
    if let Some(r) = t.strip_prefix("0b") { if let Ok((d, r)) = run1(r, |c| c == '0' || c == '1') { return Ok(((d, 2), r)); } }
    if t.starts_with('0') { return Ok(((&t[..1], 10), &t[1..])); }
    let (d, r) = run1(t, |c| c.is_ascii_digit())?;
    Ok(((d, 10), r))
}
fn magnitude(d: &str, base: u32) -> Option<u64> {
    let mut n: u128 = 0;
    for c in d.chars() {
        n = n * base as u128 + c.to_digit(base)? as u128;
        if n > u64::MAX as u128 { return None; }
    }
    Some(n as u64)
}
fn number(t: &str) -> P<'_, Value> {
    let neg = t.starts_with('-');
    let ((d, base), r0) = uint(if neg { &t[1..] } else { t })?;
    let mut r = r0;
    if let Some(s) = r.strip_prefix('.') { if let Ok((_, s)) = run1(s, |c| c.is_ascii_digit()) { r = s; } }
    if let Some(s) = r.strip_prefix('e') {
        let s = s.strip_prefix(['+', '-']).unwrap_or(s);
        if let Ok((_, s)) = run1(s, |c| c.is_ascii_digit()) { r = s; }
    }
    let v = if r.len() < r0.len() {
        if base != 10 { return Err(Bad::Never); }
        Value::Float(some_err(t[..t.len() - r.len()].parse::<f64>().ok())?)
    } else {
        let m = some_err(magnitude(d, base))?;
        if !neg { Value::Uint(m) } else if m <= 1 << 63 { Value::Nint((-(m as i128)) as i64) } else { return Err(Bad::Never); }
    };
    Ok((v, r))
}
/// What stands between quotes: up to the quote q, where a backslash takes the character after it along.
fn quoted<'a>(t: &'a str, open: &str, q: char) -> P<'a, &'a str> {
    let (_, t) = tag(t, open)?;
    let mut it = t.char_indices();
    while let Some((i, c)) = it.next() {
        if c == q { return Ok((&t[..i], &t[i + 1..])); }
        if c == '\\' { if it.next().is_none() { return Err(Bad::No); } continue; }
        let u = c as u32;
        if !((0x20..=0x7e).contains(&u) || (0x80..=0x10FFFD).contains(&u)) { return Err(Bad::No); }
    }
    Err(Bad::No)
}
/// The escapes of a double-quoted string; in a single-quoted one also \' and not \".
fn unescape(s: &str, single: bool) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    fn hex4(it: &mut dyn Iterator<Item = char>) -> Option<u32> { let mut n = 0; for _ in 0..4 { n = n * 16 + it.next()?.to_digit(16)?; } Some(n) }
    while let Some(c) = it.next() {
        if c != '\\' { out.push(c); continue; }
        match it.next()? {
            '\'' if single => out.push('\''),
            c @ ('"' | '\\' | '/') => out.push(c),
            'b' => out.push('\u{8}'), 'f' => out.push('\u{c}'), 'n' => out.push('\n'), 'r' => out.push('\r'), 't' => out.push('\t'),
            'u' => {
                let a = hex4(&mut it)?;
                let u = if (0xd800..0xdc00).contains(&a) {
                    if it.next()? != '\\' || it.next()? != 'u' { return None; }
                    let b = hex4(&mut it)?;
                    if !(0xdc00..0xe000).contains(&b) { return None; }
                    0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                } else { a };
                out.push(char::from_u32(u)?);
            }
            _ => return None,
        }
    }
    Some(out)
}
fn hex(s: &str) -> Option<Vec<u8>> {
    let d: Vec<u32> = s.chars().filter(|c| !" \t\n\r\u{c}".contains(*c)).map(|c| c.to_digit(16)).collect::<Option<_>>()?;
    if d.len() % 2 == 1 { return None; }
    Some(d.chunks(2).map(|p| (p[0] * 16 + p[1]) as u8).collect())
}
/// URL-safe alphabet, padding required, unused bits zero
fn base64(s: &str) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 { return None; }
    let body = if let Some(x) = s.strip_suffix("==") { x } else { s.strip_suffix('=').unwrap_or(s) };
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in body.chars() {
        let d = match c { 'A'..='Z' => c as u32 - 65, 'a'..='z' => c as u32 - 71, '0'..='9' => c as u32 + 4, '-' => 62, '_' => 63, _ => return None };
        acc = (acc << 6) | d;
        n += 6;
        if n >= 8 { n -= 8; out.push((acc >> n) as u8); acc &= (1 << n) - 1; }
    }
    if acc != 0 || n >= 6 { return None; }
    if (body.len() + 3) / 4 * 4 != s.len() { return None; }
    Some(out)
}
fn value(t: &str) -> P<'_, Value> {
    match number(t) { Err(Bad::No) => {} x => return x }
    match quoted(t, "\"", '"') {
        Err(Bad::No) => {}
        Err(e) => return Err(e),
        Ok((s, r)) => return Ok((Value::Text(some_err(unescape(s, false))?), r)),
    }
    if let Ok((s, r)) = quoted(t, "'", '\'') { return Ok((Value::Bytes(some_err(unescape(s, true))?.into_bytes()), r)); }
    if let Ok((s, r)) = quoted(t, "h'", '\'') { return Ok((Value::Bytes(some_err(hex(s))?), r)); }
    let (s, r) = quoted(t, "b64'", '\'')?;
    Ok((Value::Bytes(some_err(base64(s))?), r))
}
fn limit(t: &str) -> P<'_, Option<u64>> {
    match uint(t) { Ok(((d, b), r)) => Ok((Some(some_err(magnitude(d, b))?), r)), Err(_) => Ok((None, t)) }
}
fn occur(t: &str) -> P<'_, Occur> {
    let (lo, r) = limit(t)?;
    if let Some(r) = r.strip_prefix('*') {
        let (hi, r) = limit(r)?;
        return Ok((if lo.is_none() && hi.is_none() { Occur::ZeroOrMore } else { Occur::Numbered(lo.unwrap_or(0) as usize, hi.map_or(usize::MAX, |h| h as usize)) }, r));
    }
    if let Some(r) = t.strip_prefix('+') { return Ok((Occur::OneOrMore, r)); }
    if let Some(r) = t.strip_prefix('?') { return Ok((Occur::Optional, r)); }
    Err(Bad::No)
}
fn bracketed<'a, T>(t: &'a str, open: &str, close: &str, f: impl Fn(&'a str) -> P<'a, T>) -> P<'a, T> {
    let (_, r) = tag(t, open)?;
    let (x, r) = f(ws(r))?;
    let (_, r) = tag(ws(r), close)?;
    Ok((x, r))
}
fn type2(t: &str) -> P<'_, Type2> {
    match value(t) { Err(Bad::No) => {} x => return x.map(|(v, r)| (Type2::Value(v), r)) }
    match name_generic(t) { Err(Bad::No) => {} x => return x.map(|(v, r)| (Type2::Typename(v), r)) }
    match bracketed(t, "(", ")", ty) { Err(Bad::No) => {} x => return x.map(|(v, r)| (Type2::Parethesized(v), r)) }
    match bracketed(t, "{", "}", group) { Err(Bad::No) => {} x => return x.map(|(v, r)| (Type2::Map(v), r)) }
    match bracketed(t, "[", "]", group) { Err(Bad::No) => {} x => return x.map(|(v, r)| (Type2::Array(v), r)) }
    if let Some(r) = t.strip_prefix('~') { return name_generic(ws(r)).map(|(v, r)| (Type2::Unwrap(v), r)); }
    let r = ws(t.strip_prefix('&').ok_or(Bad::No)?);
    match bracketed(r, "(", ")", group) { Err(Bad::No) => {} x => return x.map(|(v, r)| (Type2::ChoiceifyInline(v), r)) }
    name_generic(r).map(|(v, r)| (Type2::Choiceify(v), r))
}
fn operator(t: &str) -> P<'_, &str> {
    if let Some(r) = t.strip_prefix("...") { return Ok(("...", r)); }
    if let Some(r) = t.strip_prefix("..") { return Ok(("..", r)); }
    ident(t.strip_prefix('.').ok_or(Bad::No)?)
}
fn type1(t: &str) -> P<'_, Type1> {
    let (a, r) = type2(t)?;
    let rest = operator(ws(r)).and_then(|(op, r)| { let (b, r) = type2(ws(r))?; Ok(((op, b), r)) });
    match opt(r, rest)? {
        (None, r) => Ok((Type1::Simple(a), r)),
        (Some((op, b)), r) => Ok((match op {
            ".." | "..." => Type1::Range(TypeRange { start: a, inclusive: op == "..", end: b }),
            _ => Type1::Control(TypeControl { target: a, op: op.into(), arg: b }),
        }, r)),
    }
}
fn slash(t: &str) -> P<'_, ()> { let (_, r) = tag(ws(t), "/")?; Ok(((), ws(r))) }
fn ty(t: &str) -> P<'_, Type> { sep(t, slash, type1).map(|(v, r)| (Type(v), r)) }
fn listed<'a, T>(t: &'a str, f: impl Fn(&'a str) -> P<'a, T>) -> P<'a, Vec<T>> {
    let (_, r) = tag(t, "<")?;
    let (v, r) = sep(ws(r), |t| { let (_, r) = tag(t, ",")?; Ok(((), ws(r))) }, |t| { let (x, r) = f(t)?; Ok((x, ws(r))) })?;
    let (_, r) = tag(r, ">")?;
    Ok((v, r))
}
fn name_generic(t: &str) -> P<'_, NameGeneric> {
    let (n, r) = ident(t)?;
    let (a, r) = opt(r, listed(r, type1))?;
    Ok((NameGeneric { name: n.into(), generic_args: a.unwrap_or_default() }, r))
}
fn same(v: &Value) -> Value {
    match v {
        Value::Text(s) => Value::Text(s.clone()), Value::Uint(n) => Value::Uint(*n), Value::Nint(n) => Value::Nint(*n),
        Value::Float(f) => Value::Float(*f), Value::Bytes(b) => Value::Bytes(b.clone()),
    }
}
fn member(t: &str) -> P<'_, Member> {
    let (k, r) = type1(t)?;
    let r = ws(r);
    if let (Type1::Simple(x @ (Type2::Value(_) | Type2::Typename(_))), Some(s)) = (&k, r.strip_prefix(':')) {
        match ty(ws(s)) {
            Ok((v, r)) => {
                let val = match x {
                    Type2::Value(x) => MemberKeyVal::Value(same(x)),
                    Type2::Typename(n) if n.generic_args.is_empty() => MemberKeyVal::Bareword(n.name.clone()),
                    _ => return Err(Bad::Never),
                };
                return Ok((Member { key: Some(MemberKey { val, cut: true }), value: v }, r));
            }
            Err(_) => {}
        }
    }
    let (cut, s) = match r.strip_prefix('^') { Some(s) => (true, ws(s)), None => (false, r) };
    if let Some(s) = s.strip_prefix("=>") {
        if let Ok((v, r)) = ty(ws(s)) { return Ok((Member { key: Some(MemberKey { val: MemberKeyVal::Type1(k), cut }), value: v }, r)); }
    }
    // the first of the three forms that matches: no key
    match many(r, |t| { let (_, r) = slash(t)?; type1(r) }) {
        Ok((more, r)) => { let mut v = vec![k]; v.extend(more); Ok((Member { key: None, value: Type(v) }, r)) }
        Err(_) => Err(Bad::No),
    }
}
fn grpent_val(t: &str) -> P<'_, GrpEntVal> {
    match member(t) { Err(Bad::No) => {} x => return x.map(|(v, r)| (GrpEntVal::Member(v), r)) }
    match ident(t) { Err(Bad::No) => {} x => return x.map(|(v, r)| (GrpEntVal::Groupname(v.into()), r)) }
    bracketed(t, "(", ")", group).map(|(v, r)| (GrpEntVal::Parenthesized(v), r))
}
fn grpent(t: &str) -> P<'_, GrpEnt> {
    let (occur, r) = opt(t, occur(t).map(|(o, r)| (o, ws(r))))?;
    let (val, r) = grpent_val(r)?;
    Ok((GrpEnt { occur, val }, r))
}
fn grpchoice(t: &str) -> P<'_, GrpChoice> { many(t, |t| { let (e, r) = grpent(t)?; Ok((e, optcom(r))) }).map(|(v, r)| (GrpChoice(v), r)) }
fn group(t: &str) -> P<'_, Group> {
    let (a, r) = grpchoice(t)?;
    let (more, r) = many(r, |t| { let (_, r) = tag(ws(t), "//")?; grpchoice(ws(r)) })?;
    let mut v = vec![a];
    v.extend(more);
    Ok((Group(v), r))
}
fn rule(t: &str) -> P<'_, Rule> {
    let (name, r) = ident(t)?;
    let (parms, r) = opt(r, listed(r, ident))?;
    let (_, r) = tag(ws(r), "=")?;
    let r = ws(r);
    let (val, r) = match ty(r) {
        Err(Bad::No) => grpent(r).map(|(v, r)| (RuleVal::AssignGroup(v), r))?,
        x => x.map(|(v, r)| (RuleVal::AssignType(v), r))?,
    };
    Ok((Rule { name: name.into(), generic_parms: parms.unwrap_or_default().into_iter().map(String::from).collect(), val }, r))
}
/// The rules of a text, each with its own text; None: the text is not a schema.
pub fn parse(t: &str) -> Option<Vec<(Rule, String)>> {
    let mut t = ws(t);
    let mut out = vec![];
    loop {
        match rule(t) {
            Ok((x, r)) => { out.push((x, t[..t.len() - r.len()].to_string())); t = ws(r) }
            Err(Bad::Never) => return None,
            Err(Bad::No) => return if t.is_empty() && !out.is_empty() { Some(out) } else { None },
        }
    }
}
