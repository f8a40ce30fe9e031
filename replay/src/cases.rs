//! What is tried for each property.
use crate::flat;
use crate::gen::{self, Aim, Gen, Profile};
use crate::note;
use crate::rng::Rng;
use crate::sem::*;
use crate::text::Pr;
use crate::val::*;
use crate::Out;
use cddl_cat::ast;
use cddl_cat::context::BasicContext;
use cddl_cat::{validate_cbor, validate_cbor_bytes, validate_json, validate_json_str, ValidateError, ValidateResult};
use std::collections::BTreeMap;

pub fn case(prop: &str, seed: u64, idx: u64) -> Out {
    let salt: u64 = prop[1..].parse().unwrap_or(99);
    let mut r = Rng::new(seed, idx, salt);
    match prop {
        "C16" => json_case(&mut r),
        "C17" => cbor_case(&mut r),
        "C18" => if r.chance(1, 2) { entry_case(&mut r) } else { validation(prop, &mut r) },
        "C19" | "C20" => flatten_case(prop, &mut r),
        "C21" => match r.below(3) { 0 => number_case(&mut r), 1 => text_case(prop, &mut r), _ => parse_case(prop, &mut r) },
        "C22" => if r.chance(1, 2) { text_case(prop, &mut r) } else { string_case(&mut r) },
        "C23" => if r.chance(1, 2) { text_case(prop, &mut r) } else { parse_case(prop, &mut r) },
        "C24" => garbage_case(&mut r),
        "C25" => slice_case(&mut r),
        _ => validation(prop, &mut r),
    }
}
fn class(r: &ValidateResult) -> Result<(), Bad> { match r { Ok(()) => Ok(()), Err(e) => Err(class_e(e)) } }
fn class_e(e: &ValidateError) -> Bad {
    match e {
        ValidateError::Mismatch(_) | ValidateError::MapCut(_) => Bad::Mis,
        ValidateError::ParseError(_) => Bad::Fatal(E::Parse),
        ValidateError::Structural(_) => Bad::Fatal(E::Structural),
        ValidateError::MissingRule(_) => Bad::Fatal(E::Missing),
        ValidateError::Unsupported(_) => Bad::Fatal(E::Unsupported),
        ValidateError::ValueError(_) => Bad::Fatal(E::Value),
        ValidateError::GenericError => Bad::Fatal(E::Generic),
        _ => Bad::Unknown,
    }
}
fn agree(exp: &R, got: &R, strict: bool) -> bool {
    match (exp, got) {
        (Ok(()), Ok(())) => true,
        (Err(Bad::Mis), Err(Bad::Mis)) => true,
        (Err(Bad::Fatal(a)), Err(Bad::Fatal(b))) => !strict || a == b,
        _ => false,
    }
}
fn show(r: &R) -> String {
    match r { Ok(()) => "accepted".into(), Err(Bad::Mis) => "mismatch".into(), Err(e) => format!("error {:?}", e) }
}
fn fail(exp: &R, got: &R) -> Out { Out::Fail { expected: show(exp), got: show(got) } }

fn profile(prop: &str, r: &mut Rng) -> (Profile, bool) {
    let mut p = Profile::base();
    let mut strict = false;
    match prop {
        "C01" => p.root = "array",
        "C02" => { p.root = "map"; p.wildkey = 40 }
        "C03" => { p.root = "coll"; p.grp = 35; p.unwrap = 12; p.gref = 15; p.occ = 40; p.multi = 30; p.depth = 4 }
        "C04" => { p.root = "coll"; p.occ = 70; p.grp = 25 }
        "C05" => { p.cycle = 60; p.generic = 50; p.ty[2] = 40; p.gref = 30 }
        "C06" => { p.edges = true; p.cycle = 20; p.missing = 3; p.ty[13] = 1; p.occ = 45; p.grp = 25 }
        "C07" => { p.missing = 8; p.ty[13] = 3; p.cycle = 10; strict = true }
        "C08" => { p.root = "map"; p.wildkey = 25; p.occ = 35; p.multi = 35; p.grp = 25; p.ty = [40, 25, 8, 4, 3, 3, 1, 1, 1, 0, 0, 2, 2, 0] }
        "C09" => { p.root = "cmp"; p.edges = true; strict = true }
        "C10" => { p.root = "size"; p.edges = true; strict = true }
        "C11" => { p.root = "range"; p.edges = true; strict = true; if r.chance(1, 3) { p.root = "generic"; p.generic = 70; p.ty[6] = 40; p.ty[2] = 20; } }
        "C12" => { p.root = "leaf"; p.edges = true; p.ty[9] = 5 }
        "C13" => { p.root = "generic"; p.generic = 70; p.missing = 6; p.ty[2] = 40; p.gref = 20; strict = true }
        "C14" => { p.root = "choice"; p.ty[11] = 8; p.ty[12] = 8; p.ty[3] = 15; p.multi = 30 }
        "C15" => { p.root = "cbor"; p.ty[10] = 4 }
        "C18" => { strict = true; p.missing = 2 }
        _ => {}
    }
    if !matches!(p.root, "cmp" | "size" | "range" | "leaf") { p.depth = 2 + r.below(2) as u32 + (p.depth > 3) as u32; }
    if r.chance(1, 10) { p.edges = true; }
    (p, strict)
}
fn schema(r: &mut Rng, p: Profile) -> (ast::Cddl, String) {
    let c = Gen::new(r, p).schema();
    let fancy = r.chance(1, 5);
    let mut pr = Pr { r, out: String::new(), fancy };
    pr.cddl(&c);
    let t = pr.out;
    (c, t)
}
fn values(r: &mut Rng, rules: &Rules, d: &Def, edges: bool) -> Vec<V> {
    let mut out = vec![];
    for _ in 0..3 {
        let cap = match &d.node {
            N::Array(ms) | N::Map(ms) if ms.len() > 12 => ms.len() + 20,
            N::Array(ms) | N::Map(ms) if matches!(ms.last(), Some(N::Group(g)) if g.len() > 12) => 600,
            _ if r.chance(1, 200) => *r.pick(&[300, 700, 6000]),
            _ => 12,
        };
        let mut a = Aim { r, rules, edges, fuel: 60, cap };
        let mut v = a.val(&d.node, &BTreeMap::new());
        match a.r.below(8) { 0 => v = a.random(2), 1 | 2 | 3 => v = a.mutate(v), 4 => { v = a.mutate(v); v = a.mutate(v) } _ => {} }
        out.push(v);
    }
    out
}
fn validation(prop: &str, r: &mut Rng) -> Out {
    let (p, strict) = profile(prop, r);
    let edges = p.edges;
    let (c, text) = schema(r, p);
    note("schema", || text.clone());
    let rules = match flat::flatten(&c) {
        Ok(x) => x,
        Err(errs) => {
            note("rule", || "t0".into());
            let got = class(&validate_cbor_bytes("t0", &text, &[0xf6]));
            return match got {
                Err(Bad::Fatal(e)) if errs.contains(&e) => Out::Pass,
                g => Out::Fail { expected: format!("one of the schema's errors {:?}", errs), got: show(&g) },
            };
        }
    };
    let d = &rules["t0"];
    let mut any = false;
    for v in values(r, &rules, d, edges) {
        let exp = match verdict(&rules, d, &v) { Some(e) => e, None => continue };
        if prop == "C07" && !matches!(exp, Err(Bad::Fatal(_))) && r.chance(1, 2) { continue; }
        any = true;
        note("value", || format!("{:?}", v));
        if let Some(b) = encode(&v) {
            note("entry", || "validate_cbor_bytes(\"t0\", schema, value)".into());
            let got = class(&validate_cbor_bytes("t0", &text, &b));
            if !agree(&exp, &got, strict) { return fail(&exp, &got); }
        }
        if let Some(j) = to_json(&v) {
            if r.chance(1, 3) {
                let j = j.to_string();
                note("entry", || format!("validate_json_str(\"t0\", schema, {})", j));
                let got = class(&validate_json_str("t0", &text, &j));
                if !agree(&exp, &got, strict) { return fail(&exp, &got); }
            }
        }
    }
    // trees a caller can build directly
    if r.chance(1, 2) {
        let mut rules = rules.clone();
        if r.chance(2, 3) {
            let ks: Vec<String> = rules.keys().cloned().collect();
            let k = if r.chance(1, 2) { "t0".to_string() } else { r.pick(&ks).clone() };
            let n = rules[&k].node.clone();
            rules.get_mut(&k).unwrap().node = gen::wild(r, n);
        }
        if let Some(ir) = flat::rules_ivt(&rules) {
            let ctx = BasicContext::new(ir);
            let rd = &ctx.rules["t0"];
            note("schema", || format!("{:#?}", rules));
            let d = &rules["t0"];
            for v in values(r, &rules, d, edges) {
                let exp = match verdict(&rules, d, &v) { Some(e) => e, None => continue };
                any = true;
                note("value", || format!("{:?}", v));
                if let Some(cv) = to_cbor(&v) {
                    note("entry", || "validate_cbor(rule t0, value, rules)".into());
                    let got = class(&validate_cbor(rd, &cv, &ctx));
                    if !agree(&exp, &got, strict) { return fail(&exp, &got); }
                }
                if let Some(j) = to_json(&v) {
                    note("entry", || "validate_json(rule t0, value, rules)".into());
                    let got = class(&validate_json(rd, &j, &ctx));
                    if !agree(&exp, &got, strict) { return fail(&exp, &got); }
                }
            }
        }
    }
    if any { Out::Pass } else { Out::Skip }
}

// ------------------------------------------------------------ conversions
/// A type that accepts exactly this value.
fn exactly(v: &V) -> N {
    match v {
        V::Null => N::Pre(P::Nil),
        V::Bool(b) => N::Lit(L::Bool(*b)),
        V::Int(i) => N::Lit(L::Int(*i)),
        V::Float(f) => N::Lit(L::Float(f.0)),
        V::Bytes(b) => N::Lit(L::Bytes(b.clone())),
        V::Text(t) => N::Lit(L::Text(t.clone())),
        V::Arr(a) => N::Array(a.iter().map(exactly).collect()),
        V::Map(m) => N::Map(m.iter().map(|(k, v)| N::KV(Box::new(exactly(k)), Box::new(exactly(v)), true)).collect()),
    }
}
fn one_rule(n: &N) -> (Rules, BasicContext) {
    let mut rules = Rules::new();
    rules.insert("t0".into(), Def { parms: vec![], node: n.clone() });
    let ctx = BasicContext::new(flat::rules_ivt(&rules).unwrap());
    (rules, ctx)
}
fn data(r: &mut Rng, d: u32) -> V {
    let rules = Rules::new();
    let mut a = Aim { r, rules: &rules, edges: true, fuel: 9, cap: 12 };
    let v = a.random(d);
    match v {
        V::Int(_) if a.r.chance(1, 3) => V::Int((a.r.next() >> a.r.below(64)) as i128 * if a.r.chance(1, 3) { -1 } else { 1 }),
        V::Float(_) if a.r.chance(1, 3) => V::Float(F((a.r.next() as i64 >> a.r.below(60)) as f64 / 8.0)),
        V::Text(_) if a.r.chance(1, 4) => V::Text((0..a.r.below(5)).map(|_| rchar(a.r)).collect()),
        v => v,
    }
}
fn both(v: &V, f: &dyn Fn(&BasicContext) -> ValidateResult, w: &V) -> Option<Out> {
    // v is the document; w a type's only value
    let n = exactly(w);
    let (rules, ctx) = one_rule(&n);
    let exp = verdict(&rules, &rules["t0"], v)?;
    note("type accepts only", || format!("{:?}", w));
    note("document", || format!("{:?}", v));
    let got = class(&f(&ctx));
    if !agree(&exp, &got, false) { return Some(fail(&exp, &got)); }
    None
}
fn cbor_case(r: &mut Rng) -> Out {
    use ciborium::value::Value as C;
    let v = data(r, 3);
    let c = match to_cbor(&v) { Some(c) => c, None => return Out::Skip };
    if let Some(o) = both(&v, &|ctx| validate_cbor(&ctx.rules["t0"], &c, ctx), &v) { return o; }
    let rules = Rules::new();
    let w = Aim { r, rules: &rules, edges: true, fuel: 9, cap: 12 }.mutate(v.clone());
    if let Some(o) = both(&v, &|ctx| validate_cbor(&ctx.rules["t0"], &c, ctx), &w) { return o; }
    // the same document as bytes
    if let Some(b) = encode(&v) {
        let mut p = Pr { r, out: String::new(), fancy: false };
        if let Some(t) = text_of(&mut p, &v) {
            note("schema", || t.clone());
            let got = class(&validate_cbor_bytes("t0", &t, &b));
            if got.is_err() { return fail(&Ok(()), &got); }
        }
    }
    // a tag anywhere is refused, and so is a map with two entries of the same key
    let inner = if r.chance(2, 3) { C::Tag(*r.pick(&[0u64, 1, 24, 55799]), Box::new(c.clone())) } else {
        let mut m: Vec<(C, C)> = (0..r.below(4)).filter_map(|_| Some((to_cbor(&data(r, 1))?, C::Null))).collect();
        let at = r.below(m.len() + 1);
        m.insert(at, (c.clone(), C::Bool(r.chance(1, 2))));
        let at = r.below(m.len() + 1);
        m.insert(at, (c.clone(), C::Bool(r.chance(1, 2))));
        C::Map(m)
    };
    let t = match r.below(4) {
        0 => inner,
        1 => C::Array(vec![C::Null, inner]),
        2 => C::Map(vec![(inner, C::Null), (C::Null, C::Null)]),
        _ => C::Map(vec![(C::Text("a".into()), C::Array(vec![inner])), (C::Null, C::Null)]),
    };
    note("document", || format!("{:?}", t));
    note("type accepts only", || "any".into());
    let (_, ctx) = one_rule(&N::Pre(P::Any));
    let got = class(&validate_cbor(&ctx.rules["t0"], &t, &ctx));
    if !agree(&Err(Bad::Fatal(E::Value)), &got, true) { return fail(&Err(Bad::Fatal(E::Value)), &got); }
    Out::Pass
}
/// A one-rule schema text that accepts v, when v has a literal form.
fn text_of(p: &mut Pr, v: &V) -> Option<String> {
    fn lit(p: &mut Pr, v: &V) -> Option<()> {
        match v {
            V::Null => p.out.push_str("null"),
            V::Bool(b) => p.out.push_str(if *b { "true" } else { "false" }),
            V::Int(i) => {
                if *i > u64::MAX as i128 || *i < i64::MIN as i128 { return None; }
                p.out.push_str(&i.to_string())
            }
            V::Float(f) => if f.0.is_finite() { p.value(&ast::Value::Float(f.0)) } else { return None },
            V::Bytes(b) => p.value(&ast::Value::Bytes(b.clone())),
            V::Text(t) => p.value(&ast::Value::Text(t.clone())),
            V::Arr(a) => { p.out.push_str("[ "); for x in a { lit(p, x)?; p.out.push_str(", ") } p.out.push_str("]") }
            V::Map(m) => { p.out.push_str("{ "); for (k, x) in m { lit(p, k)?; p.out.push_str(" => "); lit(p, x)?; p.out.push_str(", ") } p.out.push_str("}") }
        }
        Some(())
    }
    p.out.push_str("t0 = ");
    lit(p, v)?;
    p.out.push('\n');
    Some(std::mem::take(&mut p.out))
}
/// JSON text of random spelling, and the data it denotes.
fn json_text(r: &mut Rng, d: u32, out: &mut String) -> V {
    let sp = |r: &mut Rng, out: &mut String| if r.chance(1, 6) { out.push_str(*r.pick(&[" ", "\n", "\t ", ""])) };
    sp(r, out);
    match r.below(if d == 0 { 6 } else { 9 }) {
        0 => { out.push_str("null"); V::Null }
        1 => { let b = r.chance(1, 2); out.push_str(if b { "true" } else { "false" }); V::Bool(b) }
        2 | 3 => {
            let i = if r.chance(1, 3) { *r.pick(gen::EDGES) } else if r.chance(1, 2) { (r.next() >> r.below(64)) as i128 } else { -((r.next() >> (1 + r.below(63))) as i128) };
            out.push_str(&i.to_string());
            if i > u64::MAX as i128 || i < i64::MIN as i128 { V::Float(F(i as f64)) } else { V::Int(i) }
        }
        4 => {
            let k = r.below(200) as i64 - 100;
            match r.below(4) {
                0 => { out.push_str(&format!("{}.0", k)); if k == 0 { out.truncate(out.len() - 3); out.push_str("2.5"); return V::Float(F(2.5)); } V::Float(F(k as f64)) }
                1 => { out.push_str(&format!("{}e{}", k.max(1), 2)); V::Float(F((k.max(1) * 100) as f64)) }
                2 => { out.push_str(&format!("{}E+1", k.max(1))); V::Float(F((k.max(1) * 10) as f64)) }
                _ => { out.push_str(&format!("{}.25", k)); if k == 0 { V::Float(F(0.25)) } else { V::Float(F(k as f64 + if k < 0 { -0.25 } else { 0.25 })) } }
            }
        }
        5 => { let t: String = (0..r.below(4)).map(|_| rchar(r)).collect(); out.push_str(&serde_json::Value::String(t.clone()).to_string()); V::Text(t) }
        6 | 7 => {
            out.push('[');
            let n = r.below(4);
            let mut a = vec![];
            for i in 0..n { if i > 0 { out.push(',') } a.push(json_text(r, d - 1, out)); }
            out.push(']');
            V::Arr(a)
        }
        _ => {
            out.push('{');
            let mut ks = vec!["a", "b", "é", "", "a b"];
            let mut m = vec![];
            for i in 0..r.below(4) {
                if i > 0 { out.push(',') }
                let k = ks.remove(r.below(ks.len()));
                out.push_str(&serde_json::Value::String(k.into()).to_string());
                out.push(':');
                let v = json_text(r, d - 1, out);
                m.push((V::Text(k.into()), v));
            }
            out.push('}');
            map(m)
        }
    }
}
fn json_case(r: &mut Rng) -> Out {
    let mut t = String::new();
    let v = json_text(r, 3, &mut t);
    note("json", || t.clone());
    let j: serde_json::Value = match serde_json::from_str(&t) { Ok(j) => j, Err(_) => return Out::Skip };
    if let Some(o) = both(&v, &|ctx| validate_json(&ctx.rules["t0"], &j, ctx), &v) { return o; }
    let rules = Rules::new();
    let w = Aim { r, rules: &rules, edges: true, fuel: 9, cap: 12 }.mutate(v.clone());
    if let Some(o) = both(&v, &|ctx| validate_json(&ctx.rules["t0"], &j, ctx), &w) { return o; }
    let mut p = Pr { r, out: String::new(), fancy: false };
    if let Some(s) = text_of(&mut p, &v) {
        note("schema", || s.clone());
        let got = class(&validate_json_str("t0", &s, &t));
        if got.is_err() { return fail(&Ok(()), &got); }
    }
    Out::Pass
}

// ------------------------------------------------------------ entry points
fn entry_case(r: &mut Rng) -> Out {
    let mut p = Profile::base();
    p.generic = 40;
    p.depth = 2;
    let (c, text) = schema(r, p);
    let rules = match flat::flatten(&c) { Ok(x) => x, Err(_) => return Out::Skip };
    let (mut rules, mut text) = (rules, text);
    let others = ["root", "main", "start", "T0", "t-0", "t0.a", "$t0", "t", "t00", "_", "@"];
    if r.chance(1, 3) {
        // a rule with a name near, or unlike, the ones asked for
        let extra = r.pick(&others).to_string();
        text.push_str(&format!("\n{} = int\n", extra));
        rules.insert(extra, Def { parms: vec![], node: N::Pre(P::Int) });
    }
    note("schema", || text.clone());
    let mut names: Vec<String> = rules.keys().cloned().collect();
    names.push("nosuch".into());
    names.push("".into());
    names.push("int".into());
    names.push("t0 ".into());
    for x in 0..2 { names.push(if x == 0 { "".into() } else { r.pick(&others).to_string() }); }
    let name = r.pick(&names).clone();
    note("rule", || name.clone());
    let bad_schema = r.chance(1, 8);
    let v = match rules.get(&name) { Some(d) => values(r, &rules, d, false).pop().unwrap(), None => V::Int(1) };
    let mut b = match encode(&v) { Some(b) => b, None => return Out::Skip };
    let mut j = to_json(&v).map(|j| j.to_string());
    let damage = r.below(5);
    let mut doc_ok = true;
    match damage {
        0 => { b.extend_from_slice(*r.pick(&[&[0u8][..], &[0xf6], &[0xff], &[0x61, 0x61]])); j = j.map(|j| j + *r.pick(&[" 1", "}", "null", ","])); doc_ok = false }
        1 => {
            let k = r.below(b.len());
            b.truncate(k);
            j = j.and_then(|j| { let k = j.len() - 1; if matches!(v, V::Arr(_) | V::Map(_) | V::Text(_)) && j.is_char_boundary(k) { Some(j[..k].to_string()) } else { None } });
            doc_ok = false
        }
        2 if r.chance(1, 3) => {
            // something in front of the document
            b.splice(0..0, r.pick(&[&[0xffu8][..], &[0xfe], &[0x1c], &[0xef, 0xbb, 0xbf], &[0xf8]]).iter().copied());
            let front = *r.pick(&["\u{feff}", "\u{0}", "\u{a0}", "\u{b}", "//\n", ",", "\u{200b}", "+", "'"]);
            j = j.map(|j| format!("{}{}", front, j));
            doc_ok = false
        }
        3 if r.chance(1, 4) => {
            // white space is not damage in JSON
            let (f, e) = (*r.pick(&["", " ", "\n", "\t\r\n"]), *r.pick(&["", " ", "\n", "\r\n\t "]));
            j = j.map(|j| format!("{}{}{}", f, j, e));
        }
        _ => {}
    }
    let exp: R = if bad_schema { Err(Bad::Fatal(E::Parse)) }
        else if !rules.contains_key(&name) { Err(Bad::Fatal(E::Missing)) }
        else if !doc_ok { Err(Bad::Fatal(E::Value)) }
        else { match verdict(&rules, &rules[&name], &v) { Some(e) => e, None => return Out::Skip } };
    let text = if bad_schema { match r.below(3) { 0 => text + "\nt0 = ", 1 => text + "\n= 1", _ => format!("( {}", text) } } else { text };
    note("schema", || text.clone());
    note("document", || format!("{:02x?} {:?}", b, j));
    // several errors at once: the first of them
    let fits = |g: &R| agree(&exp, g, true);
    let got = class(&validate_cbor_bytes(&name, &text, &b));
    if !fits(&got) { note("entry", || "validate_cbor_bytes".into()); return fail(&exp, &got); }
    if let Some(j) = j {
        let got = class(&validate_json_str(&name, &text, &j));
        if !fits(&got) { note("entry", || "validate_json_str".into()); return fail(&exp, &got); }
    }
    Out::Pass
}

// ------------------------------------------------------------ trees
const NAMES: &[&str] = &["any", "nil", "null", "bool", "true", "false", "int", "uint", "nint", "float", "float16", "float32", "float64", "float16-32", "float32-64",
    "tstr", "text", "bstr", "bytes", "tdate", "uri", "b64url", "b64legacy", "regexp", "mime-message", "biguint", "bignint", "encoded-cbor",
    "eb64url", "eb64legacy", "eb16", "cbor-any", "time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined",
    "Any", "t1", "m2", "tstr2", "x"];
fn weird_t1(r: &mut Rng, t: &mut ast::Type1) {
    use ast::*;
    let nm = |r: &mut Rng| gen::ng(*r.pick(NAMES), if r.chance(1, 5) { vec![Type1::Simple(gen::tn("int"))] } else { vec![] });
    fn t2(r: &mut Rng) -> Type2 {
        let n = gen::ng(*r.pick(NAMES), vec![]);
        match r.below(12) {
            0 => Type2::Value(Value::Text(r.pick(&["a", "(", "[", "a*", "\\d"]).to_string())),
            1 => Type2::Value(Value::Uint(r.next() >> r.below(64))),
            2 => Type2::Value(Value::Nint(*r.pick(&[-1, -5, i64::MIN, i64::MAX]))),
            3 => Type2::Value(Value::Float(2.5)),
            4 => Type2::Value(Value::Bytes(vec![1, 2])),
            5 => Type2::Unwrap(n),
            6 => Type2::Choiceify(n),
            7 => Type2::Map(Group(vec![GrpChoice(vec![])])),
            8 => Type2::Parethesized(Type(vec![Type1::Range(TypeRange { start: gen::lit(1), end: gen::lit(2), inclusive: r.chance(1, 2) })])),
            _ => Type2::Typename(n),
        }
    }
    let ops = ["size", "lt", "le", "gt", "ge", "regexp", "cbor", "bits", "cborseq", "within", "and", "eq", "ne", "default", "Size", "",
        "pcre", "abnf", "abnfb", "cat", "det", "plus", "feature", "iregexp", "printf", "json", "join", "b64u", "hex", "regex", "regexps", "len", "length", "min", "max", "lte", "gte", "range", "type", "oneof", "cborseqs", "bstr", "SIZE", "size ", "l", "g"];
    match r.below(6) {
        0 => *t = Type1::Simple(Type2::Typename(nm(r))),
        1 => *t = Type1::Simple(Type2::Unwrap(nm(r))),
        2 => *t = Type1::Simple(Type2::Choiceify(nm(r))),
        3 => { let a = if r.chance(1, 3) { Type2::Value(Value::Text("a".into())) } else { t2(r) };
               let tg = match r.below(4) { 0 => gen::tn("tstr"), 1 => gen::tn("bstr"), _ => t2(r) };
               *t = Type1::Control(TypeControl { target: tg, op: if r.chance(1, 3) { ops[r.below(7)].to_string() } else { r.pick(&ops).to_string() }, arg: a }) }
        4 => *t = Type1::Range(TypeRange { start: t2(r), end: t2(r), inclusive: r.chance(1, 2) }),
        _ => *t = Type1::Simple(t2(r)),
    }
}
fn weird_ty(r: &mut Rng, t: &mut ast::Type) {
    if t.0.is_empty() { return; }
    let i = r.below(t.0.len());
    match &mut t.0[i] {
        ast::Type1::Simple(ast::Type2::Parethesized(t)) if r.chance(3, 4) => weird_ty(r, t),
        ast::Type1::Simple(ast::Type2::Map(g) | ast::Type2::Array(g) | ast::Type2::ChoiceifyInline(g)) if r.chance(3, 4) => weird_g(r, g),
        ast::Type1::Simple(ast::Type2::Typename(n)) if !n.generic_args.is_empty() && r.chance(1, 2) => weird_t1(r, &mut n.generic_args[0]),
        t => weird_t1(r, t),
    }
}
fn weird_g(r: &mut Rng, g: &mut ast::Group) {
    if g.0.is_empty() || r.chance(1, 30) { if r.chance(1, 2) { g.0.clear() } return; }
    let i = r.below(g.0.len());
    if g.0[i].0.is_empty() { return; }
    let j = r.below(g.0[i].0.len());
    weird_e(r, &mut g.0[i].0[j]);
}
fn weird_e(r: &mut Rng, e: &mut ast::GrpEnt) {
    match &mut e.val {
        ast::GrpEntVal::Member(m) => match &mut m.key {
            Some(k) if r.chance(1, 3) => {
                match &mut k.val {
                    ast::MemberKeyVal::Type1(t) => weird_t1(r, t),
                    v => { let mut t = ast::Type1::Simple(gen::tn("int")); weird_t1(r, &mut t); *v = ast::MemberKeyVal::Type1(t) }
                }
            }
            _ => if r.chance(1, 6) { e.val = ast::GrpEntVal::Groupname(r.pick(NAMES).to_string()) } else { weird_ty(r, &mut m.value) },
        },
        ast::GrpEntVal::Parenthesized(g) => weird_g(r, g),
        ast::GrpEntVal::Groupname(s) => *s = r.pick(NAMES).to_string(),
    }
}
fn tree(r: &mut Rng, weird: u32) -> ast::Cddl {
    let mut p = Profile::base();
    p.depth = 3;
    p.ty[6] = 6; p.ty[7] = 5; p.ty[8] = 5; p.ty[9] = 3; p.ty[10] = 3;
    p.generic = 30;
    p.edges = true;
    let mut c = Gen::new(r, p).schema();
    while r.chance(weird, 100) {
        let i = r.below(c.rules.len());
        match &mut c.rules[i].val { ast::RuleVal::AssignType(t) => weird_ty(r, t), ast::RuleVal::AssignGroup(e) => weird_e(r, e) }
        if r.chance(1, 3) { break; }
    }
    if r.chance(1, 20) { let n = c.rules[0].name.clone(); let k = c.rules.len() - 1; c.rules[k].name = n; }
    c
}
fn flatten_case(prop: &str, r: &mut Rng) -> Out {
    let c = tree(r, if prop == "C20" { 85 } else { 20 });
    note("tree", || format!("{:#?}", c));
    let exp = flat::flatten(&c);
    let got = cddl_cat::flatten::flatten(&c);
    let ok = match (&exp, &got) {
        (Ok(e), Ok(g)) => flat::same_rules(g.iter(), e),
        (Err(es), Err(g)) => matches!(class_e(g), Bad::Fatal(e) if es.contains(&e)),
        _ => false,
    };
    if !ok { return Out::Fail { expected: format!("{:#?}", exp), got: format!("{:#?}", got) }; }
    Out::Pass
}

// ------------------------------------------------------------ text
const IDS: &[&str] = &["a", "A", "_", "$", "@", "$$x", "@@a", "a-b", "a--b", "a.b", "a-.-b", "x1", "a-1", "h", "b64", "t", "tr", "truex", "in", "e1", "_9", "z.0.0-0", "Longer-name_with.many@parts$9", "cborx", "size", "nil2", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"];
/// Other spellings for the names of rules, parameters and bare keys.
fn rename(c: &mut ast::Cddl, m: &BTreeMap<String, String>) {
    use ast::*;
    type M = BTreeMap<String, String>;
    fn id(s: &mut String, m: &M) { if let Some(x) = m.get(s.as_str()) { *s = x.clone(); } }
    fn ng(n: &mut NameGeneric, m: &M) { id(&mut n.name, m); for a in &mut n.generic_args { t1(a, m) } }
    fn t2(t: &mut Type2, m: &M) {
        match t {
            Type2::Typename(n) | Type2::Unwrap(n) | Type2::Choiceify(n) => ng(n, m),
            Type2::Parethesized(t) => ty(t, m),
            Type2::Map(g) | Type2::Array(g) | Type2::ChoiceifyInline(g) => gr(g, m),
            Type2::Value(_) => {}
        }
    }
    fn t1(t: &mut Type1, m: &M) {
        match t { Type1::Simple(t) => t2(t, m), Type1::Range(r) => { t2(&mut r.start, m); t2(&mut r.end, m) } Type1::Control(c) => { t2(&mut c.target, m); t2(&mut c.arg, m) } }
    }
    fn ty(t: &mut Type, m: &M) { for x in &mut t.0 { t1(x, m) } }
    fn gr(g: &mut Group, m: &M) { for c in &mut g.0 { for e in &mut c.0 { ge(e, m) } } }
    fn ge(e: &mut GrpEnt, m: &M) {
        match &mut e.val {
            GrpEntVal::Member(x) => {
                if let Some(k) = &mut x.key { match &mut k.val { MemberKeyVal::Type1(t) => t1(t, m), MemberKeyVal::Bareword(s) => id(s, m), MemberKeyVal::Value(_) => {} } }
                ty(&mut x.value, m)
            }
            GrpEntVal::Groupname(s) => id(s, m),
            GrpEntVal::Parenthesized(g) => gr(g, m),
        }
    }
    for r in &mut c.rules {
        id(&mut r.name, m);
        for p in &mut r.generic_parms { id(p, m) }
        match &mut r.val { RuleVal::AssignType(t) => ty(t, m), RuleVal::AssignGroup(e) => ge(e, m) }
    }
}
fn renamed(r: &mut Rng, mut c: ast::Cddl) -> ast::Cddl {
    if r.chance(1, 2) { return c; }
    let mut ids: Vec<&str> = IDS.to_vec();
    let mut m = BTreeMap::new();
    for k in c.rules.iter().flat_map(|r| std::iter::once(&r.name).chain(&r.generic_parms)).map(|s| s.as_str()).chain(["a", "b", "ab"]) {
        if r.chance(1, 2) && !m.contains_key(k) && ids.len() > 1 { m.insert(k.to_string(), ids.remove(r.below(ids.len())).to_string()); }
    }
    rename(&mut c, &m);
    c
}
/// What the parser makes of a tree that was written down: cut flags of `:` keys are always set.
fn parse_case(prop: &str, r: &mut Rng) -> Out {
    let mut p = Profile::base();
    p.generic = 30;
    p.ty[6] = 6; p.ty[7] = 4; p.ty[8] = 4; p.ty[9] = 2; p.ty[10] = 2;
    p.depth = 2 + r.below(2) as u32;
    if prop == "C21" { p.edges = true; p.ty[1] = 50; p.ty[6] = 25; p.occ = 60; }
    let c = Gen::new(r, p).schema();
    let c = renamed(r, c);
    let fancy = r.chance(3, 4);
    let mut pr = Pr { r, out: String::new(), fancy };
    let _ = pr.cddl(&c);
    let t = pr.out;
    note("schema", || t.clone());
    let got = cddl_cat::parse_cddl(&t);
    match got {
        Ok(g) if g == c => {}
        g => return Out::Fail { expected: format!("{:#?}", c), got: format!("{:#?}", g) },
    }
    // something after or before the rules that is not a rule makes the whole text invalid
    if r.chance(1, 4) {
        let bad = match r.below(6) { 0 => t.clone() + ")", 1 => t.clone() + "\nt9 =", 2 => t.clone() + "\n]", 3 => format!("= {}", t), 4 => t.clone() + "\n1 = 2", _ => t.clone() + "\n\"a\"" };
        note("schema", || bad.clone());
        if let Ok(g) = cddl_cat::parse_cddl(&bad) { return Out::Fail { expected: "a parse error".into(), got: format!("{:#?}", g) }; }
    }
    Out::Pass
}
fn number_case(r: &mut Rng) -> Out {
    // one literal, every base, in and out of range
    let mag: u128 = match r.below(5) {
        0 => r.next() as u128,
        1 => (r.next() >> r.below(64)) as u128,
        2 => *r.pick(&[0u128, 1, (1 << 63) - 2, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1]),
        3 => (1u128 << (60 + r.below(30))) + (r.next() as u128),
        _ => r.below(1000) as u128,
    };
    let neg = r.chance(1, 2);
    let mut t = match r.below(5) {
        0 => format!("0x{:x}", mag), 1 => format!("0x{:X}", mag), 2 => format!("0b{:b}", mag), 3 => format!("0x{:020x}", mag), _ => mag.to_string(),
    };
    if neg { t = format!("-{}", t); }
    let fits = if neg { mag <= 1 << 63 } else { mag < 1 << 64 };
    let form = r.below(3);
    let text = match form { 0 => format!("t0 = {}", t), 1 => format!("t0 = [ {} ]", t), _ => format!("t0 = {}..{}", t, t) };
    note("schema", || text.clone());
    let got = cddl_cat::parse_cddl(&text);
    let lit = ast::Type2::Value(if neg { ast::Value::Nint((0i128 - mag as i128) as i64) } else { ast::Value::Uint(mag as u64) });
    let lit2 = ast::Type2::Value(if neg { ast::Value::Nint((0i128 - mag as i128) as i64) } else { ast::Value::Uint(mag as u64) });
    let exp = match form {
        0 => ast::Type1::Simple(lit),
        1 => ast::Type1::Simple(ast::Type2::Array(ast::Group(vec![ast::GrpChoice(vec![ast::GrpEnt { occur: None, val: ast::GrpEntVal::Member(ast::Member { key: None, value: gen::one(ast::Type1::Simple(lit)) }) }])]))),
        _ => ast::Type1::Range(ast::TypeRange { start: lit, end: lit2, inclusive: true }),
    };
    let exp = ast::Cddl { rules: vec![ast::Rule { name: "t0".into(), generic_parms: vec![], val: ast::RuleVal::AssignType(gen::one(exp)) }] };
    match got {
        Ok(g) if fits && g == exp => {}
        Err(_) if !fits => {}
        g => return Out::Fail { expected: if fits { format!("{:?}", exp) } else { "a parse error".into() }, got: format!("{:?}", g) },
    }
    // occurrence limits
    let lo = if r.chance(1, 3) { None } else { Some((r.next() >> r.below(64)) as u128) };
    let hi = if r.chance(1, 3) { None } else if r.chance(1, 6) { Some(1u128 << 64) } else { Some((r.next() >> r.below(64)) as u128) };
    let w = |r: &mut Rng, x: Option<u128>| x.map_or(String::new(), |x| match r.below(4) { 0 => format!("0x{:x}", x), 1 => format!("0b{:b}", x), _ => x.to_string() });
    let (a, b) = (w(r, lo), w(r, hi));
    let text = format!("t0 = [ {}*{} int ]", a, b);
    note("schema", || text.clone());
    let fits = hi.map_or(true, |x| x < 1 << 64);
    let (l, h) = (lo.unwrap_or(0) as usize, hi.map_or(usize::MAX, |x| x as usize));
    let mut got = None;
    if let Ok(g) = cddl_cat::parse_cddl(&text) {
        if let Some(ast::Rule { val: ast::RuleVal::AssignType(ast::Type(t)), .. }) = g.rules.first() {
            if let Some(ast::Type1::Simple(ast::Type2::Array(g))) = t.first() { got = g.0.first().and_then(|c| c.0.first()).and_then(|e| e.occur.clone()); }
        }
    }
    let ok = match &got {
        Some(ast::Occur::Numbered(x, y)) => fits && *x == l && *y == h,
        Some(ast::Occur::ZeroOrMore) => fits && l == 0 && h == usize::MAX,
        Some(ast::Occur::OneOrMore) => fits && l == 1 && h == usize::MAX,
        Some(ast::Occur::Optional) => fits && l == 0 && h == 1,
        None => !fits,
    };
    if !ok { return Out::Fail { expected: if fits { format!("limits {} {}", l, h) } else { "a parse error".into() }, got: format!("{:?}", got) }; }
    // floats
    let k = r.below(100000);
    let (ft, fv) = match r.below(4) {
        0 => (format!("{}.5", k), k as f64 + 0.5),
        1 => (format!("{}e2", k), k as f64 * 100.0),
        2 => (format!("-{}.25", k + 1), -(k as f64) - 1.25),
        _ => (format!("{}.5e+1", k), k as f64 * 10.0 + 5.0),
    };
    let text = format!("t0 = {}", ft);
    note("schema", || text.clone());
    let got = cddl_cat::parse_cddl(&text);
    let exp = ast::Cddl { rules: vec![ast::Rule { name: "t0".into(), generic_parms: vec![], val: ast::RuleVal::AssignType(gen::one(ast::Type1::Simple(ast::Type2::Value(ast::Value::Float(fv))))) }] };
    match got { Ok(g) if g == exp => Out::Pass, g => Out::Fail { expected: format!("{:?}", exp), got: format!("{:?}", g) } }
}
fn rchar(r: &mut Rng) -> char {
    loop {
        let u = match r.below(9) {
            0 => r.below(0x80) as u32,
            1 => r.below(0x800) as u32,
            2 => r.below(0x10000) as u32,
            3 => r.below(0x110000) as u32,
            4 => *r.pick(&[0x20u32, 0x21, 0x22, 0x26, 0x27, 0x28, 0x5b, 0x5c, 0x5d, 0x7e, 0x7f, 0x80, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffd, 0x10fffd, 0x1f600, 0x9, 0xa, 0xd]),
            _ => 0x20 + r.below(0x5f) as u32,
        };
        if let Some(c) = char::from_u32(u) { if u <= 0x10FFFD { return c; } }
    }
}
fn string_case(r: &mut Rng) -> Out {
    let check = |text: String, exp: Option<ast::Value>| -> Option<Out> {
        note("schema", || text.clone());
        let got = cddl_cat::parse_cddl(&text);
        let exp2 = exp.map(|v| ast::Cddl { rules: vec![ast::Rule { name: "t0".into(), generic_parms: vec![], val: ast::RuleVal::AssignType(gen::one(ast::Type1::Simple(ast::Type2::Value(v)))) }] });
        match (got, exp2) {
            (Ok(g), Some(e)) if g == e => None,
            (Err(_), None) => None,
            (g, e) => Some(Out::Fail { expected: e.map_or("a parse error".into(), |e| format!("{:?}", e)), got: format!("{:?}", g) }),
        }
    };
    let wr = |r: &mut Rng, v: &ast::Value, fancy| { let mut p = Pr { r, out: "t0 = ".into(), fancy }; p.value(v); p.out };
    // text
    let n = *r.pick(&[0usize, 1, 2, 4, 7, 7, 20, 60]);
    let s: String = (0..r.below(n + 1)).map(|_| rchar(r)).collect();
    let fancy = r.chance(1, 2);
    let v = ast::Value::Text(s.clone());
    let t = wr(r, &v, fancy);
    if let Some(o) = check(t, Some(v)) { return o; }
    // escapes
    let s0 = *r.pick(&["", "", "é", "😀😀😀😀😀😀😀😀😀😀😀😀😀😀", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa日"]);
    let (e, c) = *r.pick(&[("\\\"", "\""), ("\\\\", "\\"), ("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\/", "/"),
        ("\\u0041", "A"), ("\\u00e9", "é"), ("\\uD83D\\uDE00", "😀"), ("\\ud83d\\ude00", "😀"), ("\\u20AC", "€")]);
    if let Some(o) = check(format!("t0 = \"{}a{}b\"", s0, e), Some(ast::Value::Text(format!("{}a{}b", s0, c)))) { return o; }
    // not allowed
    let bad = *r.pick(&["\"a", "\"a\u{1}b\"", "\"a\u{7f}\"", "\"\\ud800\"", "\"\\q\"", "\"\\u12\"", "h'1'", "h'12g'", "h'xy'", "h'1 2 3'", "b64'A'", "b64'****'", "'a", "h'12", "\"\\u{1F600}\"", "'a\u{7f}'"]);
    if let Some(o) = check(format!("t0 = {}", bad), None) { return o; }
    // bytes
    let n = *r.pick(&[1usize, 2, 4, 10, 10, 70]);
    let b: Vec<u8> = (0..r.below(n)).map(|_| r.next() as u8).collect();
    let v = ast::Value::Bytes(b);
    for _ in 0..2 {
        let fancy = r.chance(1, 2);
        let t = wr(r, &v, fancy);
        if let Some(o) = check(t, Some(ast::Value::Bytes(match &v { ast::Value::Bytes(b) => b.clone(), _ => vec![] }))) { return o; }
    }
    let s: String = (0..r.below(8)).map(|_| rchar(r)).filter(|c| *c != '\'' && *c != '\\' && (*c as u32) >= 0x20 && (*c as u32) != 0x7f).collect();
    let v = ast::Value::Bytes(s.clone().into_bytes());
    if let Some(o) = check(format!("t0 = '{}'", s), Some(v)) { return o; }
    Out::Pass
}
fn garble(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(4) {
        let k = r.below(c.len() + 1);
        match r.below(6) {
            0 if k < c.len() => { c.remove(k); }
            1 => c.insert(k, rchar(r)),
            2 => { let s = *r.pick(&["(", ")", "[", "]", "{", "}", "<", ">", "/", "//", "..", "...", "=>", "^ =>", ":", "=", "&", "~", "?", "*", "+", ",", ";", "\"", "'", "h'", "b64'", "0x", "0b", "-", ".", "^", "\\", "\\u", "1e", "1.",
                ".size", "#", "#6", "$", "@", "_", "0", "99999999999999999999", "\r", "\u{0}", "é", "😀", "\u{10ffff}", "\u{10fffe}", "\u{7f}", "\u{85}", "\u{feff}", "\u{2028}"]); for (i, x) in s.chars().enumerate() { c.insert(k + i, x); } }
            3 if k < c.len() => c[k] = rchar(r),
            4 => { c.truncate(k); }
            _ => { let l = r.below(6).min(c.len() - k); let s: Vec<char> = c[k..k + l].to_vec(); let at = r.below(c.len() + 1); for (i, x) in s.into_iter().enumerate() { c.insert(at + i, x); } }
        }
    }
    c.into_iter().collect()
}
/// One long or odd token somewhere in a schema.
fn odd_token(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 3, 10, 30, 39, 40, 41, 60, 130]);
    let digits = |r: &mut Rng, n: usize, of: &str| (0..n).map(|_| { let c: Vec<char> = of.chars().collect(); *r.pick(&c) }).collect::<String>();
    let tok = match r.below(8) {
        0 | 1 | 2 => {
            let (a, b) = *r.pick(&[("\"", "\""), ("\"", "\""), ("h'", "'"), ("'", "'"), ("b64'", "'"), ("h\"", "\""), ("; ", "\n")]);
            let mut s = String::new();
            for _ in 0..r.below(n + 1) {
                match r.below(12) {
                    0 => s.push_str(*r.pick(&["\\", "\\u", "\\u12", "\\ud800", "\\udc00", "\\ud83d\\u0041", "\\uD83D\\uDE00", "\\x", "\\n", "\\\\", "\\\"", "'", "\"", "\\u{41}", "=", "=="])),
                    1..=4 => s.push(*r.pick(&['é', '日', '😀', 'a', '0', 'F', ' '])),
                    5 => s.push(rchar(r)),
                    _ => s.push(*r.pick(&['0', '1', 'a', 'f', 'A', 'x', ' ', 'z'])),
                }
            }
            let s = if r.chance(1, 3) { s + *r.pick(&["\\ud800", "\\q", "\\u12", "\\", "g", "=", "é"]) } else { s };
            format!("{}{}{}", a, s, b)
        }
        3 => digits(r, n, "0123456789"),
        4 => format!("{}{}{}", *r.pick(&["0x", "0b", "-0x", "-0b", "-", "0X", "+"]), digits(r, n, "01"), digits(r, n % 3, "afAF9")),
        5 => format!("{}{}.{}e{}{}", *r.pick(&["", "-"]), digits(r, n.min(25), "0129"), digits(r, 3, "059"), *r.pick(&["", "-", "+"]), digits(r, n.min(9), "0123456789")),
        6 => format!("{}*{}", digits(r, n.min(45), "0123456789"), digits(r, n.min(30), "0123456789")),
        _ => (0..n + 1).map(|_| *r.pick(&["a", "-", ".", "_", "$", "@", "9", "é", "#"])).collect(),
    };
    match r.below(8) {
        0 | 1 | 2 => format!("t0 = {}", tok),
        3 => format!("t0 = [ {} int ]", tok),
        4 => format!("t0 = {{ {}: int }}", tok),
        5 => format!("t0 = {}..{}", tok, tok),
        6 => format!("t0 = tstr .regexp {}", tok),
        _ => format!("{} = {} t1 = {}", tok, tok, tok),
    }
}
fn garbage(r: &mut Rng) -> String {
    if r.chance(1, 4) { odd_token(r) } else if r.chance(1, 6) {
        let toks = ["a", "b1", "int", "(", ")", "[", "]", "{", "}", "<", ">", "/", "//", "..", "...", "=>", "^", ":", "=", "&", "~", "?", "*", "+", ",", "; c\n", "\"x\"", "'y'", "h'0'", "h'00'", "b64'AA'", "0x1", "-1", "1.5", "2*3", " ", "\n", ".size", ".lt", "/=", "//=", "é"];
        (0..r.below(20)).map(|_| *r.pick(&toks)).collect::<Vec<_>>().join(if r.chance(1, 2) { " " } else { "" })
    } else {
        let p = Profile::base();
        let c = Gen::new(r, p).schema();
        let mut pr = Pr { r, out: String::new(), fancy: true };
        let _ = pr.cddl(&c);
        let t = pr.out;
        garble(r, &t)
    }
}
/// A number or a string, well formed or nearly, in every place a literal may stand.
fn literal_text(prop: &str, r: &mut Rng) -> String {
    let digits = |r: &mut Rng, n: usize, of: &str| { let c: Vec<char> = of.chars().collect(); (0..n).map(|_| *r.pick(&c)).collect::<String>() };
    let num = |r: &mut Rng| {
        let n = *r.pick(&[1usize, 1, 2, 3, 8, 15, 16, 17, 18, 19, 20, 21, 25, 33, 40, 63, 64, 65]);
        let d = match r.below(7) {
            0 | 1 => format!("0x{}", digits(r, n.min(20), "0123456789abcdefABCDEF")),
            2 => format!("0b{}", digits(r, n, "01")),
            3 => r.pick(&["9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "0", "00", "01", "0x", "0b", "0b2", "0X1", "0B1", "1_0"]).to_string(),
            _ => digits(r, n, "0123456789"),
        };
        let f = match r.below(8) { 0 => format!(".{}", { let k = r.below(30); digits(r, k, "0123456789") }), 1 => format!("e{}{}", *r.pick(&["", "+", "-"]), { let k = r.below(4); digits(r, k, "0123456789") }),
            2 => format!(".{}e{}{}", { let k = 1 + r.below(20); digits(r, k, "059") }, *r.pick(&["", "+", "-"]), { let k = 1 + r.below(3); digits(r, k, "0123") }), 3 => r.pick(&["E1", ".", "e", "e+", "..", ".e1", "f", "u", ".size"]).to_string(), _ => String::new() };
        format!("{}{}{}", *r.pick(&["", "", "", "-", "+", "--", "- "]), d, f)
    };
    let st = |r: &mut Rng| {
        let kind = r.below(5);
        let mut s = String::new();
        let n = r.below(9);
        for _ in 0..n {
            match kind {
                0 => s.push_str(*r.pick(&["0", "1", "a", "F", "9", "f", "b", "00", "ff", "A0", " ", "  ", "\n", "\\ ", "\t", "_", "-", "g", "x", "\\", "é", "0x", "\u{a0}", "\u{2028}", "\u{3000}", "\r", "\u{c}", "\u{85}"])),
                1 => s.push_str(*r.pick(&["A", "Q", "Z", "a", "z", "0", "9", "AQ", "AQID", "-", "_", "+", "/", "=", "==", " ", "\n", "AQ==", "AQI=", "\u{a0}", "é", "w", "g"])),
                _ => match r.below(5) {
                    0 => s.push_str(*r.pick(&[r"\n", r"\t", r"\r", r"\b", r"\f", r"\/", r"\\", "\\\"", r"\'", r"\u0041", r"\u00e9", r"\u20aC", r"\ud83d\ude00", r"\uD83D\uDE00", r"\u0000", r"\u001f", r"\u007f", r"\uffff",
                        r"\ud800", r"\udc00", r"\ud83dx", r"\ud83d\u0041", r"\ud83d\ud83d", r"\u12", r"\u{41}", r"\x41", r"\0", r"\a", r"\v", r"\e", r"\U0001F600", r"\N", r"\ ", "\\\n", "'", "\"", "\\"])),
                    1 => { let c = if r.chance(1, 5) { *r.pick(&['\u{10fffe}', '\u{10ffff}', '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{1f}', '\u{0}', '\u{fffe}', '\u{ffff}', '\u{feff}', '\u{2028}', '\u{1ffff}']) } else { rchar(r) }; s.push(c) }
                    _ => s.push(*r.pick(&['a', 'b', ' ', '0', '"', '\'', 'é', '😀', ';', ',', '#'])),
                },
            }
        }
        if kind == 1 && r.chance(2, 3) { let m = s.chars().count() % 4; s.push_str(["", "===", "==", "="][m]); }
        let (a, b) = match kind { 0 => *r.pick(&[("h'", "'"), ("h'", "'"), ("h'", "'"), ("H'", "'"), ("h '", "'"), ("h\"", "\"")]), 1 => *r.pick(&[("b64'", "'"), ("b64'", "'"), ("b64'", "'"), ("B64'", "'"), ("b64\"", "\"")]),
            2 => ("'", "'"), _ => ("\"", "\"") };
        let b = if r.chance(1, 20) { "" } else { b };
        format!("{}{}{}", a, s, b)
    };
    let tok = |r: &mut Rng| if (prop == "C21") == r.chance(9, 10) { num(r) } else { st(r) };
    match r.below(12) {
        0 | 1 | 2 | 3 => format!("t0 = {}", tok(r)),
        4 => format!("t0 = [ {}, {} ]", tok(r), tok(r)),
        5 => format!("t0 = {{ {}: {} }}", tok(r), tok(r)),
        6 => format!("t0 = {{ {} => int, ? {}^ => int }}", tok(r), tok(r)),
        7 => format!("t0 = {}{}{}", tok(r), *r.pick(&["..", "...", " .. ", " ... ", "/", " / "]), tok(r)),
        8 => format!("t0 = uint .size {}", tok(r)),
        9 => { let (a, b) = (if r.chance(1, 2) { num(r) } else { String::new() }, if r.chance(1, 2) { num(r) } else { String::new() }); format!("t0 = [ {}*{} int ]", a, b) }
        10 => format!("t0 = a<{}, {}> a<p, q> = {}", tok(r), tok(r), tok(r)),
        _ => format!("t0 = &( a: {}, b: {} )\nt1 = {}", tok(r), tok(r), tok(r)),
    }
}
/// What a reference parser makes of a text, schema or not.
fn text_case(prop: &str, r: &mut Rng) -> Out {
    let t = if prop != "C23" && r.chance(7, 8) { literal_text(prop, r) } else { garbage(r) };
    note("schema", || t.clone());
    let exp = crate::peg::parse(&t);
    let got = cddl_cat::parse_cddl(&t);
    let same = match (&exp, &got) {
        (Some(e), Ok(g)) => e.len() == g.rules.len() && e.iter().zip(&g.rules).all(|(a, b)| a.0 == *b),
        (None, Err(_)) => true,
        _ => false,
    };
    if same { Out::Pass } else { Out::Fail { expected: match exp { Some(e) => format!("{:#?}", e.iter().map(|x| &x.0).collect::<Vec<_>>()), None => "a parse error".into() }, got: format!("{:#?}", got) } }
}
fn garbage_case(r: &mut Rng) -> Out {
    let t = garbage(r);
    note("schema", || t.clone());
    let a = cddl_cat::parse_cddl(&t);
    let b = cddl_cat::parser::slice_parse_cddl(&t);
    let _ = format!("{:?}", a.as_ref().err().map(|e| e.to_string()));
    let _ = b.is_ok();
    Out::Pass
}
fn slice_case(r: &mut Rng) -> Out {
    // trees
    if r.chance(1, 3) {
        let c = tree(r, 20);
        let n = c.rules.len();
        let sl = ast::CddlSlice { rules: c.rules.into_iter().enumerate().map(|(i, r)| (r, format!("text {}", i))).collect() };
        note("tree", || format!("{:#?}", sl));
        let got = cddl_cat::flatten::slice_flatten(&sl);
        let names: Vec<String> = sl.rules.iter().map(|r| r.0.name.clone()).collect();
        let c = ast::Cddl { rules: sl.rules.into_iter().map(|r| r.0).collect() };
        let exp = cddl_cat::flatten::flatten(&c);
        let same = match (&exp, &got) {
            (Ok(e), Ok(g)) => e.len() == g.len() && g.iter().all(|(k, (d, t))| e.get(k) == Some(d) && (0..n).rev().find(|i| names[*i] == *k).map(|i| format!("text {}", i)).as_ref() == Some(t)),
            (Err(a), Err(b)) => class_e(a) == class_e(b),
            _ => false,
        };
        if !same { return Out::Fail { expected: format!("{:#?}", exp), got: format!("{:#?}", got) }; }
        return Out::Pass;
    }
    let p = Profile::base();
    let c = Gen::new(r, p).schema();
    let c = renamed(r, c);
    let mut pr = Pr { r, out: String::new(), fancy: true };
    let texts = pr.cddl(&c);
    let t = pr.out;
    let garbled = r.chance(1, 4);
    let t = if garbled { garble(r, &t) } else { t };
    note("schema", || t.clone());
    let a = cddl_cat::parse_cddl(&t);
    let b = cddl_cat::parser::slice_parse_cddl(&t);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            let mut at = 0;
            let mut ok = a.rules.len() == b.rules.len();
            for (x, (y, s)) in a.rules.iter().zip(&b.rules) {
                ok = ok && x == y;
                // in order, without overlap, and it is that rule's text
                match t[at..].find(s.as_str()) { Some(k) if !s.is_empty() => at += k + s.len(), _ => ok = false }
                match cddl_cat::parse_cddl(s) { Ok(g) => ok = ok && g.rules.len() == 1 && g.rules[0] == *x, Err(_) => ok = false }
            }
            if !garbled { ok = ok && b.rules.iter().map(|x| &x.1).eq(texts.iter()); }
            if !ok { return Out::Fail { expected: format!("{:#?} {:?}", a, texts), got: format!("{:#?}", b) }; }
        }
        (Err(_), Err(_)) => {}
        _ => return Out::Fail { expected: format!("{:#?}", a), got: format!("{:#?}", b) },
    }
    let fa = cddl_cat::flatten::flatten_from_str(&t);
    let fb = cddl_cat::flatten::slice_flatten_from_str(&t);
    let same = match (&fa, &fb) {
        (Ok(e), Ok(g)) => e.len() == g.len() && g.iter().all(|(k, (d, s))| e.get(k) == Some(d) && match &b { Ok(b) => b.rules.iter().rev().find(|r| r.0.name == *k).map(|r| &r.1) == Some(s), Err(_) => false }),
        (Err(a), Err(b)) => class_e(a) == class_e(b),
        _ => false,
    };
    if !same { return Out::Fail { expected: format!("{:#?}", fa), got: format!("{:#?}", fb) }; }
    Out::Pass
}
