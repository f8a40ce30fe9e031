//! Syntax tree -> rule tree, independently of the crate's flattening, and conversions between
//! the reference's rule trees and the crate's.
use crate::sem::*;
use cddl_cat::ast;
use cddl_cat::ivt;

/// All the errors a tree contains; which of them is reported first is not compared.
pub type Errs = Vec<E>;
pub fn flatten(c: &ast::Cddl) -> Result<Rules, Errs> {
    let mut errs = vec![];
    let mut rules = Rules::new();
    for r in &c.rules {
        let node = match &r.val {
            ast::RuleVal::AssignType(t) => ty(t, &mut errs),
            ast::RuleVal::AssignGroup(g) => entry(g, &mut errs),
        };
        rules.insert(r.name.clone(), Def { parms: r.generic_parms.clone(), node });
    }
    if errs.is_empty() { Ok(rules) } else { Err(errs) }
}
fn bad(e: E, errs: &mut Errs) -> N { errs.push(e); N::Lit(L::Bool(false)) }
fn ty(t: &ast::Type, errs: &mut Errs) -> N {
    let mut v: Vec<N> = t.0.iter().map(|x| ty1(x, errs)).collect();
    match v.len() { 0 => bad(E::Unsupported, errs), 1 => v.pop().unwrap(), _ => N::Choice(v) }
}
fn ty1(t: &ast::Type1, errs: &mut Errs) -> N {
    match t {
        ast::Type1::Simple(x) => ty2(x, errs),
        ast::Type1::Range(r) => {
            let a = endpoint(&r.start, errs);
            let b = endpoint(&r.end, errs);
            N::Range(Box::new(a), Box::new(b), r.inclusive)
        }
        ast::Type1::Control(c) => {
            let known = ["size", "lt", "le", "gt", "ge", "regexp", "cbor"];
            if !known.contains(&c.op.as_str()) { return bad(E::Unsupported, errs); }
            let t = ty2(&c.target, errs);
            let a = ty2(&c.arg, errs);
            let k = match c.op.as_str() { "lt" => Some(K::Lt), "le" => Some(K::Le), "gt" => Some(K::Gt), "ge" => Some(K::Ge), _ => None };
            if let Some(k) = k {
                if !matches!(a, N::Lit(L::Int(_)) | N::Rule(..)) { return bad(E::Unsupported, errs); }
                return N::Cmp(k, Box::new(t), Box::new(a));
            }
            match c.op.as_str() {
                "size" => {
                    if !matches!(a, N::Lit(L::Int(_)) | N::Rule(..) | N::Range(..)) { return bad(E::Unsupported, errs); }
                    N::Size(Box::new(t), Box::new(a))
                }
                "regexp" => {
                    if t != N::Pre(P::Tstr) { return bad(E::Structural, errs); }
                    match a {
                        N::Lit(L::Text(s)) if regex::RegexBuilder::new(&s).size_limit(1 << 20).build().is_ok() => N::Regexp(s),
                        _ => bad(E::Structural, errs),
                    }
                }
                _ => {
                    if t != N::Pre(P::Bstr) { return bad(E::Structural, errs); }
                    N::Cbor(Box::new(a))
                }
            }
        }
    }
}
fn endpoint(t: &ast::Type2, errs: &mut Errs) -> N {
    let n = match t {
        ast::Type2::Value(v) => value(v),
        ast::Type2::Typename(n) => name(n, errs),
        _ => return bad(E::Structural, errs),
    };
    if !matches!(n, N::Lit(_) | N::Rule(..)) { return bad(E::Structural, errs); }
    n
}
fn value(v: &ast::Value) -> N {
    N::Lit(match v {
        ast::Value::Text(t) => L::Text(t.clone()),
        ast::Value::Uint(u) => L::Int(*u as i128),
        ast::Value::Nint(u) => L::Int(*u as i128),
        ast::Value::Float(u) => L::Float(*u),
        ast::Value::Bytes(u) => L::Bytes(u.clone()),
    })
}
pub fn prelude(n: &str) -> Option<Result<N, E>> {
    Some(Ok(match n {
        "any" => N::Pre(P::Any),
        "nil" | "null" => N::Pre(P::Nil),
        "bool" => N::Pre(P::Bool),
        "true" => N::Lit(L::Bool(true)),
        "false" => N::Lit(L::Bool(false)),
        "int" => N::Pre(P::Int),
        "uint" => N::Pre(P::Uint),
        "nint" => N::Pre(P::Nint),
        "float" | "float16" | "float32" | "float64" | "float16-32" | "float32-64" => N::Pre(P::Float),
        "tstr" | "text" => N::Pre(P::Tstr),
        "bstr" | "bytes" => N::Pre(P::Bstr),
        "tdate" | "uri" | "b64url" | "b64legacy" | "regexp" | "mime-message" => N::Pre(P::Tstr),
        "biguint" | "bignint" | "encoded-cbor" => N::Pre(P::Bstr),
        "eb64url" | "eb64legacy" | "eb16" | "cbor-any" => N::Pre(P::Any),
        "time" | "bigint" | "integer" | "unsigned" | "number" | "decfrac" | "bigfloat" | "undefined" => return Some(Err(E::Unsupported)),
        _ => return None,
    }))
}
fn plain(n: &str, errs: &mut Errs) -> N {
    match prelude(n) { Some(Ok(x)) => x, Some(Err(e)) => bad(e, errs), None => N::Rule(n.into(), vec![]) }
}
fn name(n: &ast::NameGeneric, errs: &mut Errs) -> N {
    match plain(&n.name, errs) {
        N::Rule(r, _) => N::Rule(r, n.generic_args.iter().map(|a| ty1(a, errs)).collect()),
        x => if n.generic_args.is_empty() { x } else { bad(E::Generic, errs) },
    }
}
/// ~ and & want a rule name: whatever is wrong with it is reported as a generic error.
fn rulename(n: &ast::NameGeneric, errs: &mut Errs) -> (String, Vec<N>) {
    let mut e2 = vec![];
    match name(n, &mut e2) {
        N::Rule(r, a) if e2.is_empty() => (r, a),
        _ => { errs.push(E::Generic); (String::new(), vec![]) }
    }
}
fn ty2(t: &ast::Type2, errs: &mut Errs) -> N {
    match t {
        ast::Type2::Value(v) => value(v),
        ast::Type2::Typename(n) => name(n, errs),
        ast::Type2::Parethesized(t) => ty(t, errs),
        ast::Type2::Map(g) => N::Map(group(g, errs)),
        ast::Type2::Array(g) => N::Array(group(g, errs)),
        ast::Type2::Unwrap(n) => { let (r, a) = rulename(n, errs); N::Unwrap(r, a) }
        ast::Type2::Choiceify(n) => { let (r, a) = rulename(n, errs); N::Choiceify(r, a) }
        ast::Type2::ChoiceifyInline(g) => N::ChoiceifyInline(group(g, errs)),
    }
}
fn group(g: &ast::Group, errs: &mut Errs) -> Vec<N> {
    if g.0.len() == 1 { return entries(&g.0[0], errs); }
    vec![N::Choice(g.0.iter().map(|c| N::Group(entries(c, errs))).collect())]
}
fn entries(c: &ast::GrpChoice, errs: &mut Errs) -> Vec<N> { c.0.iter().map(|e| entry(e, errs)).collect() }
fn entry(e: &ast::GrpEnt, errs: &mut Errs) -> N {
    let n = match &e.val {
        ast::GrpEntVal::Member(m) => match &m.key {
            None => ty(&m.value, errs),
            Some(k) => {
                let kn = match &k.val {
                    ast::MemberKeyVal::Bareword(s) => N::Lit(L::Text(s.clone())),
                    ast::MemberKeyVal::Type1(t) => ty1(t, errs),
                    ast::MemberKeyVal::Value(v) => value(v),
                };
                let v = ty(&m.value, errs);
                N::KV(Box::new(kn), Box::new(v), k.cut)
            }
        },
        ast::GrpEntVal::Groupname(s) => plain(s, errs),
        ast::GrpEntVal::Parenthesized(g) => N::Group(group(g, errs)),
    };
    match &e.occur {
        None => n,
        Some(o) => N::Occ(match o {
            ast::Occur::Optional => Oc::Opt,
            ast::Occur::ZeroOrMore => Oc::Star,
            ast::Occur::OneOrMore => Oc::Plus,
            ast::Occur::Numbered(a, b) => Oc::Num(*a, *b),
        }, Box::new(n)),
    }
}

// ------------------------------------------------------------ the crate's rule trees
/// Does the crate's tree say what ours says?  (.cbor arguments are private and compared by
/// behaviour instead.)
pub fn same(a: &ivt::Node, n: &N) -> bool {
    let all = |a: &[ivt::Node], n: &[N]| a.len() == n.len() && a.iter().zip(n).all(|(a, n)| same(a, n));
    use ivt::Node as I;
    match (a, n) {
        (I::Literal(l), N::Lit(m)) => match (l, m) {
            (ivt::Literal::Bool(a), L::Bool(b)) => a == b,
            (ivt::Literal::Int(a), L::Int(b)) => a == b,
            (ivt::Literal::Float(a), L::Float(b)) => a.to_bits() == b.to_bits(),
            (ivt::Literal::Text(a), L::Text(b)) => a == b,
            (ivt::Literal::Bytes(a), L::Bytes(b)) => a == b,
            _ => false,
        },
        (I::PreludeType(p), N::Pre(q)) => *p == pre(*q),
        (I::Rule(r), N::Rule(s, a)) => r.name == *s && all(&r.generic_args, a),
        (I::Unwrap(r), N::Unwrap(s, a)) => r.name == *s && all(&r.generic_args, a),
        (I::Choiceify(r), N::Choiceify(s, a)) => r.name == *s && all(&r.generic_args, a),
        (I::Choice(c), N::Choice(o)) => all(&c.options, o),
        (I::Map(c), N::Map(o)) => all(&c.members, o),
        (I::Array(c), N::Array(o)) => all(&c.members, o),
        (I::Group(c), N::Group(o)) => all(&c.members, o),
        (I::ChoiceifyInline(c), N::ChoiceifyInline(o)) => all(&c.members, o),
        (I::KeyValue(kv), N::KV(k, v, cut)) => same(&kv.key, k) && same(&kv.value, v) && kv.cut == *cut,
        (I::Occur(o), N::Occ(l, n)) => o.limit == occ(*l) && same(&o.node, n),
        (I::Range(r), N::Range(a, b, i)) => same(&r.start, a) && same(&r.end, b) && r.inclusive == *i,
        (I::Control(c), n) => match (c, n) {
            (ivt::Control::Size(x), N::Size(t, s)) => same(&x.target, t) && same(&x.size, s),
            (ivt::Control::Lt(x), N::Cmp(K::Lt, t, s)) => same(&x.target, t) && same(&x.lt, s),
            (ivt::Control::Le(x), N::Cmp(K::Le, t, s)) => same(&x.target, t) && same(&x.le, s),
            (ivt::Control::Gt(x), N::Cmp(K::Gt, t, s)) => same(&x.target, t) && same(&x.gt, s),
            (ivt::Control::Ge(x), N::Cmp(K::Ge, t, s)) => same(&x.target, t) && same(&x.ge, s),
            (ivt::Control::Regexp(x), N::Regexp(s)) => format!("{:?}", x).contains(&format!("{:?}", s)),
            (ivt::Control::Cbor(_), N::Cbor(_)) => true,
            _ => false,
        },
        _ => false,
    }
}
pub fn same_rules<'a>(a: impl Iterator<Item = (&'a String, &'a ivt::RuleDef)>, r: &Rules) -> bool {
    let a: Vec<_> = a.collect();
    a.len() == r.len() && a.iter().all(|(k, d)| match r.get(*k) {
        Some(e) => d.generic_parms == e.parms && same(&d.node, &e.node),
        None => false,
    })
}
fn pre(p: P) -> ivt::PreludeType {
    use ivt::PreludeType as T;
    match p { P::Any => T::Any, P::Nil => T::Nil, P::Bool => T::Bool, P::Int => T::Int, P::Uint => T::Uint, P::Nint => T::Nint, P::Float => T::Float, P::Tstr => T::Tstr, P::Bstr => T::Bstr }
}
fn occ(o: Oc) -> ast::Occur {
    match o { Oc::Opt => ast::Occur::Optional, Oc::Star => ast::Occur::ZeroOrMore, Oc::Plus => ast::Occur::OneOrMore, Oc::Num(a, b) => ast::Occur::Numbered(a, b) }
}
/// None for trees only the crate itself can build (.cbor, .regexp).
pub fn to_ivt(n: &N) -> Option<ivt::Node> {
    use ivt::Node as I;
    let all = |n: &[N]| n.iter().map(to_ivt).collect::<Option<Vec<_>>>();
    let bx = |n: &N| Some(Box::new(to_ivt(n)?));
    Some(match n {
        N::Lit(l) => I::Literal(match l {
            L::Bool(a) => ivt::Literal::Bool(*a),
            L::Int(a) => ivt::Literal::Int(*a),
            L::Float(a) => ivt::Literal::Float(*a),
            L::Text(a) => ivt::Literal::Text(a.clone()),
            L::Bytes(a) => ivt::Literal::Bytes(a.clone()),
        }),
        N::Pre(p) => I::PreludeType(pre(*p)),
        N::Rule(r, a) => I::Rule(ivt::Rule { name: r.clone(), generic_args: all(a)? }),
        N::Unwrap(r, a) => I::Unwrap(ivt::Rule { name: r.clone(), generic_args: all(a)? }),
        N::Choiceify(r, a) => I::Choiceify(ivt::Rule { name: r.clone(), generic_args: all(a)? }),
        N::Choice(o) => I::Choice(ivt::Choice { options: all(o)? }),
        N::Map(o) => I::Map(ivt::Map { members: all(o)? }),
        N::Array(o) => I::Array(ivt::Array { members: all(o)? }),
        N::Group(o) => I::Group(ivt::Group { members: all(o)? }),
        N::ChoiceifyInline(o) => I::ChoiceifyInline(ivt::Array { members: all(o)? }),
        N::KV(k, v, cut) => I::KeyValue(ivt::KeyValue { key: bx(k)?, value: bx(v)?, cut: *cut }),
        N::Occ(o, n) => I::Occur(ivt::Occur { limit: occ(*o), node: bx(n)? }),
        N::Range(a, b, i) => I::Range(ivt::Range { start: bx(a)?, end: bx(b)?, inclusive: *i }),
        N::Size(t, s) => I::Control(ivt::Control::Size(ivt::CtlOpSize { target: bx(t)?, size: bx(s)? })),
        N::Cmp(K::Lt, t, s) => I::Control(ivt::Control::Lt(ivt::CtlOpLt { target: bx(t)?, lt: bx(s)? })),
        N::Cmp(K::Le, t, s) => I::Control(ivt::Control::Le(ivt::CtlOpLe { target: bx(t)?, le: bx(s)? })),
        N::Cmp(K::Gt, t, s) => I::Control(ivt::Control::Gt(ivt::CtlOpGt { target: bx(t)?, gt: bx(s)? })),
        N::Cmp(K::Ge, t, s) => I::Control(ivt::Control::Ge(ivt::CtlOpGe { target: bx(t)?, ge: bx(s)? })),
        N::Regexp(_) | N::Cbor(_) => return None,
    })
}
pub fn rules_ivt(r: &Rules) -> Option<ivt::RulesByName> {
    r.iter().map(|(k, d)| Some((k.clone(), ivt::RuleDef { generic_parms: d.parms.clone(), node: to_ivt(&d.node)? }))).collect()
}
