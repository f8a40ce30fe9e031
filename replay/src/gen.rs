//! Random schemas (as syntax trees), their text, and data aimed at them.
use crate::rng::Rng;
use crate::sem::*;
use crate::val::*;
use cddl_cat::ast;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Profile {
    pub root: &'static str, // array map cmp size range leaf choice cbor any generic
    /// weights: prelude, literal, rule, choice, map, array, range, size, cmp, regexp, cbor,
    /// choiceify, choiceify-inline, bad
    pub ty: [u32; 14],
    pub occ: u32,      // % of entries with an occurrence
    pub key: u32,      // % of entries in arrays that carry a key
    pub grp: u32,      // % of entries that are parenthesised groups
    pub unwrap: u32,   // % of entries that are unwraps
    pub gref: u32,     // % of entries that name a group
    pub multi: u32,    // % of groups with several // options
    pub wildkey: u32,  // % of map keys that are not literals
    pub cycle: u32,    // % of rule references that may go anywhere
    pub missing: u32,  // % of rule references that go nowhere or have the wrong arguments
    pub generic: u32,  // % of rules that are generic
    pub depth: u32,
    pub weird: u32,    // % of schemas with something the flattener refuses
    pub edges: bool,   // boundary integers
}
impl Profile {
    pub fn base() -> Profile {
        Profile { root: "any", ty: [30, 20, 14, 8, 6, 8, 4, 2, 3, 1, 1, 3, 2, 0], occ: 30, key: 15, grp: 18, unwrap: 6, gref: 12, multi: 15,
            wildkey: 30, cycle: 5, missing: 0, generic: 15, depth: 3, weird: 0, edges: false }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Type, ArrGroup, MapGroup }
#[derive(Clone)]
struct RuleInfo { name: String, kind: Kind, parms: Vec<String>, form: u8 }
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Profile,
    rules: Vec<RuleInfo>,
    cur: usize,
    scope: Vec<String>,
    /// only trees that have a text form
    pub textual: bool,
}
const TEXTS: &[&str] = &["a", "b", "c", "", "ab", "é", "a b", "日本", "x😀", "abc"];
const SMALL: &[i128] = &[0, 1, 2, 3, -1, -2, 5, 10];
pub const EDGES: &[i128] = &[0, 1, -1, 2, 23, 24, 127, 128, 255, 256, 257, 65535, 65536, 16777215, 16777216, 4294967295, 4294967296, 1 << 40, (1 << 48) - 1, 1 << 48, (1 << 56) - 1, 1 << 56,
    9223372036854775806, 9223372036854775807, 9223372036854775808, 18446744073709551614, 18446744073709551615, -255, -256, -257, -65536,
    -2147483648, -2147483649, -4294967296, -9223372036854775807, -9223372036854775808, -9223372036854775809, -18446744073709551615, -18446744073709551616];
const FLOATS: &[f64] = &[0.0, 1.0, 1.5, -1.5, 2.0, 2.5, 100.25, -0.5, 3.0, 0.1, -16777217.0, 1e10];
const RES: &[&str] = &["a", "^a$", "[a-c]+", "b|é", "^$", "x.*", "^.$", "a b", "ab?c?$", "b ", " a", "a $", "^ ", "(?i)A", "a\\.b", "\\d", "a{2}"];
pub fn int(r: &mut Rng, edges: bool) -> i128 {
    if edges && r.chance(3, 5) { *r.pick(EDGES) } else { *r.pick(SMALL) }
}
fn float(r: &mut Rng) -> f64 { *r.pick(FLOATS) }
/// a float that appears in data only: also the values no literal denotes
pub fn near(r: &mut Rng, f: f64) -> f64 {
    let x = match r.below(5) { 0 => f64::from_bits(f.to_bits() + 1), 1 => f64::from_bits(f.to_bits().saturating_sub(1)), 2 => f as f32 as f64, 3 => f + 1e-9, _ => f - 1e-7 };
    if x.is_finite() { x } else { f }
}
pub fn dfloat(r: &mut Rng) -> f64 {
    if r.chance(1, 7) { *r.pick(&[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, f64::MIN, 5e-324, 1e300, 9007199254740993.0]) } else { float(r) }
}
fn text(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        let n = *r.pick(&[1usize, 2, 3, 11, 23, 24, 25, 60, 255, 256]);
        let c = *r.pick(&["x", "é", "日", "😀", "a b", "A", " ", "-", "."]);
        return c.repeat(n.min(256 / c.len()));
    }
    if r.chance(1, 12) { return r.pick(&[" a", "a ", "a\nb", "A", "true", "1", "int", "a.b", "a\"b", "a\\b", "'", "\u{0}", "a;b", "e\u{301}"]).to_string(); }
    r.pick(TEXTS).to_string()
}
fn bytes(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 12) { let n = *r.pick(&[8usize, 16, 23, 24, 255, 256]); return (0..n).map(|_| r.next() as u8).collect(); }
    let n = *r.pick(&[0usize, 1, 2, 3, 5]); (0..n).map(|_| *r.pick(&[0u8, 1, 97, 98, 255, 127, 128])).collect() }

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Profile) -> Gen<'a> { Gen { r, p, rules: vec![], cur: 0, scope: vec![], textual: true } }
    pub fn schema(&mut self) -> ast::Cddl {
        if self.p.root == "generic" && self.r.chance(1, 4) { return self.chain(); }
        if matches!(self.p.root, "array" | "map" | "choice" | "coll" | "any") && self.r.chance(1, 300) { return self.wide(); }
        let n = 1 + self.r.below(4);
        self.rules.push(RuleInfo { name: "t0".into(), kind: Kind::Type, parms: vec![], form: 0 });
        for i in 1..=n {
            let kind = match self.r.below(4) { 0 | 1 => Kind::Type, 2 => Kind::ArrGroup, _ => Kind::MapGroup };
            let np = if self.r.chance(self.p.generic, 100) { 1 + self.r.weighted(&[5, 4, 2, 1]) } else { 0 };
            let name = match kind { Kind::Type => format!("t{}", i), Kind::ArrGroup => format!("g{}", i), Kind::MapGroup => format!("m{}", i) };
            // the same parameter names everywhere, and sometimes the name of another rule
            let mut parms: Vec<String> = (0..np).map(|k| ["p", "q", "r", "s"][k].to_string()).collect();
            if np > 0 && self.r.chance(1, 4) { let k = self.r.below(np); parms[k] = format!("{}{}", *self.r.pick(&["t", "t", "t", "g", "m"]), 1 + self.r.below(3)); }
            let form = self.r.below(6) as u8;
            self.rules.push(RuleInfo { name, kind, parms, form });
        }
        let mut out = vec![];
        for i in 0..self.rules.len() {
            self.cur = i;
            let info = self.rules[i].clone();
            self.scope = info.parms.clone();
            let val = match info.kind {
                Kind::Type if i == 0 => {
                    let root = self.p.root;
                    ast::RuleVal::AssignType(ast::Type(self.root(root)))
                }
                Kind::Type => {
                    // arrays and maps to unwrap, or any type
                    let d = self.p.depth - 1;
                    let t = match info.form {
                        0 | 1 => one(ast::Type1::Simple(ast::Type2::Array(self.group(d, Kind::ArrGroup)))),
                        2 => one(ast::Type1::Simple(ast::Type2::Map(self.group(d, Kind::MapGroup)))),
                        _ => self.ty(d),
                    };
                    ast::RuleVal::AssignType(t)
                }
                k => {
                    let d = self.p.depth - 1;
                    let g = self.pgroup(d, k);
                    let occur = if self.r.chance(1, 12) { Some(match self.r.below(4) { 0 => ast::Occur::Optional, 1 => ast::Occur::ZeroOrMore, 2 => ast::Occur::OneOrMore, _ => ast::Occur::Numbered(0, 1 + self.r.below(3)) }) } else { None };
                    if self.r.chance(1, 15) && k == Kind::ArrGroup {
                        // a group rule that is just an alias of another group
                        let t = self.ref_to(|r| r.kind == Kind::ArrGroup);
                        ast::RuleVal::AssignType(one(ast::Type1::Simple(ast::Type2::Typename(t))))
                    } else {
                        ast::RuleVal::AssignGroup(ast::GrpEnt { occur, val: ast::GrpEntVal::Parenthesized(g) })
                    }
                }
            };
            out.push(ast::Rule { name: info.name, generic_parms: info.parms, val });
        }
        ast::Cddl { rules: out }
    }
    fn root(&mut self, root: &str) -> Vec<ast::Type1> {
        let d = self.p.depth;
        let simple = |t| vec![ast::Type1::Simple(t)];
        match root {
            "array" => simple(ast::Type2::Array(self.group(d, Kind::ArrGroup))),
            "map" => simple(ast::Type2::Map(self.group(d, Kind::MapGroup))),
            "cmp" => vec![self.kind1(8, 1)],
            "size" => vec![self.kind1(7, 1)],
            "range" => vec![self.kind1(6, 1)],
            "leaf" => match self.r.below(6) { 0 | 1 => vec![self.kind1(0, 1)], 2 | 3 => vec![self.kind1(1, 1)], 4 => vec![self.kind1(9, 1)], _ => vec![self.kind1(1, 1), self.kind1(0, 1)] },
            "choice" => match self.r.below(4) { 0 => vec![self.kind1(11, d)], 1 => vec![self.kind1(12, d)], 2 => vec![self.kind1(3, d)], _ => self.ty(d).0 },
            "cbor" => vec![self.kind1(10, d)],
            "generic" => vec![self.kind1(2, d)],
            "coll" => if self.r.chance(1, 2) { self.root("array") } else { self.root("map") },
            _ => match self.r.below(5) { 0 | 1 => self.root("array"), 2 | 3 => self.root("map"), _ => self.ty(d).0 },
        }
    }
    fn ty(&mut self, d: u32) -> ast::Type {
        let mut v = vec![self.ty1(d)];
        if self.r.chance(self.p.ty[3], 60) { for _ in 0..1 + self.r.below(2) { v.push(self.ty1(d.saturating_sub(1))); } }
        ast::Type(v)
    }
    fn ty1(&mut self, d: u32) -> ast::Type1 {
        let mut w = self.p.ty;
        if d == 0 { for k in [3, 4, 5, 10, 12] { w[k] = 0; } }
        let k = self.r.weighted(&w);
        self.kind1(k, d)
    }
    fn ty2(&mut self, d: u32) -> ast::Type2 {
        match self.ty1(d) {
            ast::Type1::Simple(t) => t,
            t => ast::Type2::Parethesized(one(t)),
        }
    }
    fn kind1(&mut self, k: usize, d: u32) -> ast::Type1 {
        let e = d.saturating_sub(1);
        let edges = self.p.edges;
        let s = ast::Type1::Simple;
        match k {
            0 => { let n = *self.r.pick(&["any", "nil", "null", "bool", "int", "uint", "nint", "float", "tstr", "text", "bstr", "bytes", "int", "tstr", "int", "uint"]); s(tn(n)) }
            1 => s(self.lit2()),
            2 => {
                if !self.scope.is_empty() && self.r.chance(2, 3) { let n = self.r.pick(&self.scope).clone(); return s(tn(&n)); }
                s(ast::Type2::Typename(self.ref_to(|r| r.kind == Kind::Type)))
            }
            3 => s(ast::Type2::Parethesized({ let mut v = vec![]; for _ in 0..2 + self.r.below(2) { v.push(self.ty1(e)); } ast::Type(v) })),
            4 => s(ast::Type2::Map(self.group(e, Kind::MapGroup))),
            5 => s(ast::Type2::Array(self.group(e, Kind::ArrGroup))),
            6 => {
                let (a, b) = if self.r.chance(3, 4) {
                    let a = clamp(int(self.r, edges));
                    let b = if self.r.chance(2, 3) { clamp(a + self.r.below(4) as i128) } else { clamp(int(self.r, edges)) };
                    (lit(a), lit(b))
                } else if self.r.chance(3, 4) {
                    (ast::Type2::Value(ast::Value::Float(float(self.r))), ast::Type2::Value(ast::Value::Float(float(self.r))))
                } else { (self.lit2(), self.lit2()) };
                let (up, down) = if self.scope.is_empty() { (1, 12) } else { (1, 3) };
                let a = if self.r.chance(up, down) { self.tref() } else { a };
                let b = if self.r.chance(up, down) { self.tref() } else { b };
                let (a, b) = (endpt(a), endpt(b));
                ast::Type1::Range(ast::TypeRange { start: a, end: b, inclusive: self.r.chance(1, 2) })
            }
            7 => {
                let t = *self.r.pick(&["uint", "tstr", "bstr", "uint", "bytes", "text"]);
                let n = *self.r.pick(&[0i128, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 1000]);
                let arg = match self.r.below(6) {
                    0 | 1 | 2 => lit(n),
                    3 => lit(*self.r.pick(&[0i128, 1, 2, 3])),
                    4 => {
                        let m = n + self.r.below(3) as i128 - if self.r.chance(1, 8) { 1 } else { 0 };
                        ast::Type2::Parethesized(one(ast::Type1::Range(ast::TypeRange { start: lit(n), end: lit(m), inclusive: self.r.chance(1, 2) })))
                    }
                    _ => if self.r.chance(1, 3) { lit(int(self.r, true).clamp(-9223372036854775807, 18446744073709551615)) } else { self.tref() },
                };
                let target = if self.r.chance(1, 8) { self.tref() } else { tn(t) };
                ast::Type1::Control(ast::TypeControl { target, op: "size".into(), arg })
            }
            8 => {
                let t = *self.r.pick(&["int", "uint", "nint"]);
                let target = match self.r.below(12) { 0 => self.tref(), 1 => tn(*self.r.pick(&["tstr", "float", "any", "int"])), _ => tn(t) };
                let arg = if self.r.chance(1, 10) { self.tref() } else { lit(clamp(int(self.r, true))) };
                let arg = if matches!(arg, ast::Type2::Typename(_)) { arg } else { arg };
                ast::Type1::Control(ast::TypeControl { target, op: self.r.pick(&["lt", "le", "gt", "ge"]).to_string(), arg })
            }
            9 => ast::Type1::Control(ast::TypeControl { target: tn("tstr"), op: "regexp".into(), arg: ast::Type2::Value(ast::Value::Text(self.r.pick(RES).to_string())) }),
            10 => { let arg = self.ty2(e); ast::Type1::Control(ast::TypeControl { target: tn("bstr"), op: "cbor".into(), arg }) }
            11 => {
                let n = if self.r.chance(5, 6) { self.ref_to(|r| r.kind != Kind::Type) } else { self.ref_to(|_| true) };
                s(ast::Type2::Choiceify(n))
            }
            12 => { let k = if self.r.chance(1, 2) { Kind::ArrGroup } else { Kind::MapGroup }; s(ast::Type2::ChoiceifyInline(self.group(e, k))) }
            _ => match self.r.below(4) {
                0 => s(ast::Type2::Unwrap(self.ref_to(|r| r.kind == Kind::Type))),
                1 => s(tn("nosuch")),
                2 => s(ast::Type2::Typename(ng("t1", vec![s(tn("int")), s(tn("int")), s(tn("int"))]))),
                _ => s(ast::Type2::Choiceify(ng("nosuch", vec![]))),
            },
        }
    }
    fn tref(&mut self) -> ast::Type2 {
        if !self.scope.is_empty() && self.r.chance(1, 2) { let n = self.r.pick(&self.scope).clone(); return tn(&n); }
        ast::Type2::Typename(self.ref_to(|r| r.kind == Kind::Type))
    }
    fn lit2(&mut self) -> ast::Type2 {
        let e = self.p.edges;
        match self.r.below(9) {
            0 | 1 | 2 => lit(clamp(int(self.r, e))),
            3 | 4 | 5 => ast::Type2::Value(ast::Value::Text(text(self.r))),
            6 => ast::Type2::Value(ast::Value::Float(float(self.r))),
            7 => ast::Type2::Value(ast::Value::Bytes(bytes(self.r))),
            _ => tn(*self.r.pick(&["true", "false"])),
        }
    }
    fn ref_to(&mut self, f: impl Fn(&RuleInfo) -> bool) -> ast::NameGeneric {
        if self.r.chance(self.p.missing, 100) {
            return match self.r.below(3) { 0 | 1 => ng("nosuch", vec![]), _ => { let n = self.r.pick(&self.rules).name.clone(); let k = 1 + self.r.below(2); ng(&n, (0..k).map(|_| ast::Type1::Simple(tn("int"))).collect()) } };
        }
        let any = self.r.chance(self.p.cycle, 100);
        let c: Vec<RuleInfo> = self.rules.iter().enumerate().filter(|(i, r)| f(r) && (any || *i > self.cur)).map(|x| x.1.clone()).collect();
        if c.is_empty() { return ng(*self.r.pick(&["int", "tstr"]), vec![]).fix(self); }
        let t = self.r.pick(&c).clone();
        let args = t.parms.iter().map(|_| match self.r.below(5) {
            0 => self.ty1(1),
            1 if !self.scope.is_empty() => { let n = self.r.pick(&self.scope).clone(); ast::Type1::Simple(tn(&n)) }
            2 => ast::Type1::Simple(self.lit2()),
            3 => { let v: Vec<RuleInfo> = self.rules.iter().enumerate().filter(|(i, r)| *i > self.cur && r.parms.is_empty()).map(|x| x.1.clone()).collect();
                   if v.is_empty() { ast::Type1::Simple(tn("int")) } else { let n = self.r.pick(&v).name.clone(); ast::Type1::Simple(tn(&n)) } }
            _ => ast::Type1::Simple(tn(*self.r.pick(&["int", "tstr", "uint", "bool"]))),
        }).collect();
        ng(&t.name, args)
    }
    pub fn occ(&mut self) -> ast::Occur {
        match self.r.below(8) {
            0 | 1 => ast::Occur::Optional,
            2 | 3 => ast::Occur::ZeroOrMore,
            4 => ast::Occur::OneOrMore,
            _ => {
                let lo = self.r.below(4);
                let hi = match self.r.below(6) { 0 => usize::MAX, 1 => self.r.below(3), 2 => *self.r.pick(&[65535, 4294967295, 4294967296, 18446744073709551614]), _ => lo + self.r.below(3) };
                let lo = if self.r.chance(1, 30) { *self.r.pick(&[255, 256, 4294967296, 65536]) } else { lo };
                ast::Occur::Numbered(lo, hi)
            }
        }
    }
    fn entries(&mut self, d: u32, k: Kind) -> Vec<ast::GrpEnt> {
        let n = self.r.weighted(&[8, 25, 30, 22, 10]);
        let mut v: Vec<ast::GrpEnt> = (0..n).map(|_| self.entry(d, k)).collect();
        if !v.is_empty() && self.r.chance(1, 8) {
            // the same entry again, with something deep inside it different
            let i = self.r.below(v.len());
            let mut x = dup::ent(&v[i]);
            self.tweak_ent(&mut x);
            if self.r.chance(1, 2) { x.occur = Some(ast::Occur::ZeroOrMore); }
            if self.r.chance(1, 2) { v[i].occur = Some(ast::Occur::ZeroOrMore); }
            v.insert(i + 1, x);
        }
        if k == Kind::MapGroup && !v.is_empty() && self.r.chance(1, 12) {
            let key = *self.r.pick(&["tstr", "int", "any"]);
            let key = Some(ast::MemberKey { val: ast::MemberKeyVal::Type1(ast::Type1::Simple(tn(key))), cut: self.r.chance(1, 4) });
            v.push(ast::GrpEnt { occur: Some(ast::Occur::ZeroOrMore), val: ast::GrpEntVal::Member(ast::Member { key, value: one(ast::Type1::Simple(tn("any"))) }) });
        }
        v
    }
    fn tweak_ent(&mut self, e: &mut ast::GrpEnt) {
        match &mut e.val {
            ast::GrpEntVal::Member(m) => self.tweak_ty(&mut m.value),
            ast::GrpEntVal::Parenthesized(g) => self.tweak_group(g),
            ast::GrpEntVal::Groupname(_) => {}
        }
    }
    fn tweak_group(&mut self, g: &mut ast::Group) {
        if g.0.is_empty() { return; }
        let i = self.r.below(g.0.len());
        let c = &mut g.0[i].0;
        if c.is_empty() { return; }
        let i = self.r.below(c.len());
        self.tweak_ent(&mut c[i]);
    }
    fn tweak_ty(&mut self, t: &mut ast::Type) {
        if t.0.is_empty() { return; }
        let i = self.r.below(t.0.len());
        match &mut t.0[i] {
            ast::Type1::Simple(ast::Type2::Array(g)) | ast::Type1::Simple(ast::Type2::Map(g)) | ast::Type1::Simple(ast::Type2::ChoiceifyInline(g)) if self.r.chance(5, 6) => self.tweak_group(g),
            ast::Type1::Simple(ast::Type2::Parethesized(t)) => self.tweak_ty(t),
            x => *x = match self.r.below(4) { 0 => ast::Type1::Simple(self.lit2()), 1 => self.kind1(2, 0), _ => ast::Type1::Simple(tn(*self.r.pick(&["int", "tstr", "bool", "uint", "any"]))) },
        }
    }
    /// Rules that pass each other arguments, with parameters named like rules and like each other.
    fn chain(&mut self) -> ast::Cddl {
        let names = ["p", "q", "r"];
        let n = 2 + self.r.below(4);
        let parms: Vec<Vec<String>> = (0..=n).map(|i| {
            let k = if i == 0 { 0 } else { self.r.weighted(&[4, 4, 3, 1]) };
            let off = self.r.below(3);
            (0..k).map(|j| names[(off + j) % 3].to_string()).collect()
        }).collect();
        let simple = |t| ast::Type1::Simple(t);
        let mut rules = vec![];
        for i in 0..=n {
            let mut items = vec![];
            let calls = if i == n { 0 } else { 1 + self.r.below(2) };
            for _ in 0..calls {
                let j = i + 1 + if self.r.chance(2, 3) { 0 } else { self.r.below(n - i) };
                let args: Vec<ast::Type1> = (0..parms[j].len()).map(|_| match self.r.below(6) {
                    0 | 1 | 2 => simple(tn(*self.r.pick(&names))),
                    3 => simple(tn(*self.r.pick(&["int", "tstr", "bool"]))),
                    4 => simple(self.lit2()),
                    _ => { let a = tn(*self.r.pick(&names)); let g = ast::Group(vec![ast::GrpChoice(vec![ast::GrpEnt { occur: None, val: ast::GrpEntVal::Member(ast::Member { key: None, value: one(simple(a)) }) }])]); simple(ast::Type2::Array(g)) }
                }).collect();
                items.push(simple(ast::Type2::Typename(ng(&format!("c{}", j), args))));
            }
            if i == n || self.r.chance(1, 2) {
                let x = if !parms[i].is_empty() && self.r.chance(2, 3) { self.r.pick(&parms[i]).clone() } else { self.r.pick(&names).to_string() };
                let at = self.r.below(items.len() + 1);
                items.insert(at, simple(tn(&x)));
            }
            let ty = if items.len() == 1 && self.r.chance(2, 3) { ast::Type(items) }
                else if self.r.chance(1, 6) { ast::Type(items) }
                else { one(simple(ast::Type2::Array(ast::Group(vec![ast::GrpChoice(items.into_iter().map(|t| ast::GrpEnt { occur: None, val: ast::GrpEntVal::Member(ast::Member { key: None, value: one(t) }) }).collect())])))) };
            let name = if i == 0 { "t0".to_string() } else { format!("c{}", i) };
            rules.push(ast::Rule { name, generic_parms: parms[i].clone(), val: ast::RuleVal::AssignType(ty) });
        }
        for (k, x) in names.iter().enumerate() {
            if self.r.chance(1, 10) { continue; }
            let t = if self.r.chance(1, 3) { self.lit2() } else { tn(["tstr", "bool", "bstr"][(k + self.r.below(2)) % 3]) };
            rules.push(ast::Rule { name: x.to_string(), generic_parms: vec![], val: ast::RuleVal::AssignType(one(simple(t))) });
        }
        ast::Cddl { rules }
    }
    /// A schema with hundreds of alternatives or members.
    fn wide(&mut self) -> ast::Cddl {
        let n = *self.r.pick(&[20usize, 40, 70, 130, 258, 300, 520]);
        let simple = |t| ast::Type1::Simple(t);
        let name = |i: usize| ast::Value::Text(format!("k{}", i));
        let plain = |t| ast::GrpEnt { occur: None, val: ast::GrpEntVal::Member(ast::Member { key: None, value: one(t) }) };
        let keyed = |i: usize, t, cut| ast::GrpEnt { occur: None, val: ast::GrpEntVal::Member(ast::Member { key: Some(ast::MemberKey { val: ast::MemberKeyVal::Type1(ast::Type1::Simple(ast::Type2::Value(name(i)))), cut }), value: one(t) }) };
        let opt = self.r.chance(1, 3);
        let form = match self.p.root { "array" => self.r.below(3), "map" => 3 + self.r.below(3), "choice" => 6 + self.r.below(4), "coll" => self.r.below(6), _ => self.r.below(10) };
        let t = match form {
            0 | 1 => ast::Type2::Array(ast::Group(vec![ast::GrpChoice((0..n).map(|i| {
                let mut e = if form == 0 { plain(simple(lit((i % 7) as i128))) } else { plain(simple(tn(["int", "tstr", "uint"][i % 3]))) };
                if opt && self.r.chance(1, 40) { e.occur = Some(ast::Occur::Optional); }
                e
            }).collect())])),
            2 => ast::Type2::Array(ast::Group((0..n).map(|i| ast::GrpChoice(vec![plain(simple(lit(i as i128))), plain(simple(tn("int")))])).collect())),
            3 | 4 => ast::Type2::Map(ast::Group(vec![ast::GrpChoice((0..n).map(|i| {
                let mut e = keyed(i, simple(tn(["int", "tstr", "uint"][i % 3])), form == 4);
                if opt && self.r.chance(1, 40) { e.occur = Some(ast::Occur::Optional); }
                e
            }).collect())])),
            5 => ast::Type2::Map(ast::Group((0..n).map(|i| ast::GrpChoice(vec![keyed(i, simple(tn("int")), false)])).collect())),
            6 => ast::Type2::ChoiceifyInline(ast::Group(vec![ast::GrpChoice((0..n).map(|i| if i % 2 == 0 { plain(simple(lit(i as i128))) } else { keyed(i, simple(lit(i as i128)), false) }).collect())])),
            _ => ast::Type2::Parethesized(ast::Type((0..n).map(|i| if i % 3 == 0 { simple(ast::Type2::Value(name(i))) } else { simple(lit(i as i128)) }).collect())),
        };
        ast::Cddl { rules: vec![ast::Rule { name: "t0".into(), generic_parms: vec![], val: ast::RuleVal::AssignType(one(simple(t))) }] }
    }
    pub fn group(&mut self, d: u32, k: Kind) -> ast::Group {
        let n = if self.r.chance(self.p.multi, 100) { 2 + self.r.below(2) } else { 1 };
        ast::Group((0..n).map(|_| ast::GrpChoice(self.entries(d, k))).collect())
    }
    /// A group for a parenthesised entry: one that cannot be read as a parenthesised type.
    fn pgroup(&mut self, d: u32, k: Kind) -> ast::Group {
        let mut g = self.group(d, k);
        if g.0.len() == 1 && g.0[0].0.len() == 1 {
            let e = &mut g.0[0].0[0];
            let plain = e.occur.is_none() && match &e.val { ast::GrpEntVal::Member(m) => m.key.is_none(), ast::GrpEntVal::Groupname(_) => true, _ => false };
            if plain {
                match self.r.below(3) {
                    0 => e.occur = Some(ast::Occur::Optional),
                    1 => { let x = self.entry(d, k); g.0[0].0.push(x); }
                    _ => g.0[0].0.clear(),
                }
            }
            // (((a, b))) is still a group, but (((a))) is a type
        }
        g
    }
    fn entry(&mut self, d: u32, k: Kind) -> ast::GrpEnt {
        let occur = if self.r.chance(self.p.occ, 100) { Some(self.occ()) } else { None };
        let e = d.saturating_sub(1);
        let p = self.p.clone();
        let x = self.r.below(100) as u32;
        let member = |key, value| ast::GrpEntVal::Member(ast::Member { key, value });
        let simple = |t| one(ast::Type1::Simple(t));
        let val = if d > 0 && x < p.grp { ast::GrpEntVal::Parenthesized(self.pgroup(e, k)) }
        else if x < p.grp + p.unwrap {
            let form = if k == Kind::MapGroup { [2, 2] } else { [0, 1] };
            let n = self.ref_to(|r| r.kind == Kind::Type && form.contains(&r.form));
            let n = if crate::flat::prelude(&n.name).is_some() { self.ref_to(|r| r.kind == Kind::Type) } else { n };
            let n = if crate::flat::prelude(&n.name).is_some() { ng("t0", vec![]) } else { n };
            if n.name == "t0" && !self.r.chance(p.cycle, 100) { member(None, simple(tn("int"))) } else { member(None, simple(ast::Type2::Unwrap(n))) }
        }
        else if x < p.grp + p.unwrap + p.gref {
            let n = self.ref_to(|r| r.kind == k);
            member(None, simple(ast::Type2::Typename(n)))
        }
        else if k == Kind::MapGroup || self.r.chance(p.key, 100) {
            if d > 0 && k == Kind::MapGroup && self.r.chance(p.ty[12] + p.ty[11], 60) {
                let t = if self.r.chance(1, 2) { ast::Type2::ChoiceifyInline(self.group(e, k)) } else { let n = self.ref_to(|r| r.kind != Kind::Type); if crate::flat::prelude(&n.name).is_some() { tn("int") } else { ast::Type2::Choiceify(n) } };
                if !matches!(t, ast::Type2::Typename(_)) { return ast::GrpEnt { occur, val: member(None, simple(t)) }; }
            }
            let cut;
            let key = if self.r.chance(p.wildkey, 100) {
                cut = self.r.chance(1, 3);
                let t = match self.r.below(6) {
                    0 => ast::Type1::Simple(self.lit2()),
                    1 => self.kind1(2, 0),
                    2 => self.ty1(e.min(1)),
                    _ => ast::Type1::Simple(tn(*self.r.pick(&["tstr", "int", "any", "uint", "bstr"]))),
                };
                ast::MemberKeyVal::Type1(t)
            } else if self.r.chance(1, 2) {
                cut = true;
                ast::MemberKeyVal::Bareword(self.r.pick(&["a", "b", "c", "ab"]).to_string())
            } else if self.r.chance(1, 2) {
                cut = true;
                ast::MemberKeyVal::Value(match self.r.below(12) { 0..=4 => ast::Value::Uint(self.r.below(4) as u64), 5..=7 => ast::Value::Text(text(self.r)), 8 => ast::Value::Bytes(bytes(self.r)), 9 => ast::Value::Float(float(self.r)), _ => ast::Value::Nint(-1) })
            } else {
                cut = self.r.chance(1, 2);
                ast::MemberKeyVal::Type1(if self.r.chance(1, 4) { ast::Type1::Simple(self.lit2()) } else { ast::Type1::Simple(ast::Type2::Value(ast::Value::Text(self.r.pick(&["a", "b", "c"]).to_string()))) })
            };
            member(Some(ast::MemberKey { val: key, cut }), self.ty(e))
        }
        else { member(None, self.ty(e)) };
        ast::GrpEnt { occur, val }
    }
}
/// The syntax tree has no `Clone`.
mod dup {
    use cddl_cat::ast::*;
    pub fn ent(e: &GrpEnt) -> GrpEnt {
        GrpEnt { occur: e.occur.clone(), val: match &e.val {
            GrpEntVal::Member(m) => GrpEntVal::Member(Member { key: m.key.as_ref().map(|k| MemberKey { cut: k.cut, val: match &k.val {
                MemberKeyVal::Type1(t) => MemberKeyVal::Type1(ty1(t)),
                MemberKeyVal::Bareword(b) => MemberKeyVal::Bareword(b.clone()),
                MemberKeyVal::Value(v) => MemberKeyVal::Value(val(v)),
            } }), value: ty(&m.value) }),
            GrpEntVal::Groupname(n) => GrpEntVal::Groupname(n.clone()),
            GrpEntVal::Parenthesized(g) => GrpEntVal::Parenthesized(grp(g)),
        } }
    }
    fn grp(g: &Group) -> Group { Group(g.0.iter().map(|c| GrpChoice(c.0.iter().map(ent).collect())).collect()) }
    fn ty(t: &Type) -> Type { Type(t.0.iter().map(ty1).collect()) }
    fn ng(n: &NameGeneric) -> NameGeneric { NameGeneric { name: n.name.clone(), generic_args: n.generic_args.iter().map(ty1).collect() } }
    fn val(v: &Value) -> Value { match v { Value::Text(s) => Value::Text(s.clone()), Value::Uint(u) => Value::Uint(*u), Value::Nint(i) => Value::Nint(*i), Value::Float(f) => Value::Float(*f), Value::Bytes(b) => Value::Bytes(b.clone()) } }
    fn ty1(t: &Type1) -> Type1 {
        match t {
            Type1::Simple(t) => Type1::Simple(ty2(t)),
            Type1::Range(r) => Type1::Range(TypeRange { start: ty2(&r.start), end: ty2(&r.end), inclusive: r.inclusive }),
            Type1::Control(c) => Type1::Control(TypeControl { target: ty2(&c.target), arg: ty2(&c.arg), op: c.op.clone() }),
        }
    }
    fn ty2(t: &Type2) -> Type2 {
        match t {
            Type2::Value(v) => Type2::Value(val(v)),
            Type2::Typename(n) => Type2::Typename(ng(n)),
            Type2::Parethesized(t) => Type2::Parethesized(ty(t)),
            Type2::Map(g) => Type2::Map(grp(g)),
            Type2::Array(g) => Type2::Array(grp(g)),
            Type2::Unwrap(n) => Type2::Unwrap(ng(n)),
            Type2::ChoiceifyInline(g) => Type2::ChoiceifyInline(grp(g)),
            Type2::Choiceify(n) => Type2::Choiceify(ng(n)),
        }
    }
}
trait Fix { fn fix(self, g: &mut Gen) -> Self; }
impl Fix for ast::NameGeneric { fn fix(self, _g: &mut Gen) -> Self { self } }
pub fn one(t: ast::Type1) -> ast::Type { ast::Type(vec![t]) }
pub fn ng(n: &str, a: Vec<ast::Type1>) -> ast::NameGeneric { ast::NameGeneric { name: n.into(), generic_args: a } }
pub fn tn(n: &str) -> ast::Type2 { ast::Type2::Typename(ng(n, vec![])) }
pub fn clamp(i: i128) -> i128 { i.clamp(-9223372036854775807, 18446744073709551615) }
pub fn lit(i: i128) -> ast::Type2 {
    ast::Type2::Value(if i < 0 { ast::Value::Nint(i as i64) } else { ast::Value::Uint(i as u64) })
}
/// an end point that is not a prelude type
fn endpt(t: ast::Type2) -> ast::Type2 {
    match &t { ast::Type2::Typename(n) if crate::flat::prelude(&n.name).is_some() => lit(1), _ => t }
}

// ------------------------------------------------------------ data aimed at a schema
pub struct Aim<'a> { pub r: &'a mut Rng, pub rules: &'a Rules, pub edges: bool, pub fuel: u32, pub cap: usize }
type Env = BTreeMap<String, N>;
impl<'a> Aim<'a> {
    pub fn random(&mut self, d: u32) -> V {
        match self.r.below(if d == 0 { 7 } else { 9 }) {
            0 => V::Null,
            1 => V::Bool(self.r.chance(1, 2)),
            2 | 3 => V::Int(int(self.r, self.edges)),
            4 => V::Float(F(dfloat(self.r))),
            5 => V::Text(text(self.r)),
            6 => V::Bytes(bytes(self.r)),
            7 => V::Arr((0..self.r.below(4)).map(|_| self.random(d - 1)).collect()),
            _ => map((0..self.r.below(4)).map(|_| (self.random(0), self.random(d - 1))).collect()),
        }
    }
    fn look(&mut self, r: &str, a: &[N], e: &Env) -> Option<(N, Env)> {
        if self.fuel == 0 { return None; }
        self.fuel -= 1;
        if let Some(n) = e.get(r) { return Some((n.clone(), Env::new())); }
        let d = self.rules.get(r)?;
        Some((d.node.clone(), d.parms.iter().cloned().zip(a.iter().map(|x| subst(x, e))).collect()))
    }
    pub fn val(&mut self, n: &N, e: &Env) -> V {
        match n {
            N::Lit(L::Float(f)) if self.r.chance(1, 6) => V::Float(F(near(self.r, *f))),
            N::Lit(l) => lit_val(l),
            N::Pre(p) => match p {
                P::Any => self.random(1),
                P::Nil => V::Null,
                P::Bool => V::Bool(self.r.chance(1, 2)),
                P::Int => V::Int(int(self.r, self.edges)),
                P::Uint => V::Int(int(self.r, self.edges).abs()),
                P::Nint => V::Int(-1 - int(self.r, self.edges).abs().min(18446744073709551615)),
                P::Float => V::Float(F(dfloat(self.r))),
                P::Tstr => V::Text(text(self.r)),
                P::Bstr => V::Bytes(bytes(self.r)),
            },
            N::Rule(r, a) => match self.look(r, a, e) { Some((n, e)) => self.val(&n, &e), None => self.random(1) },
            N::Choice(o) => if o.is_empty() { V::Null } else { let i = self.one_of(o.len()); self.val(&o[i], e) },
            N::Map(ms) => { let mut v = vec![]; for m in ms { self.map(m, e, &mut v, false) } if v.len() > 12 { self.cap = 12 } map(v) }
            N::Array(ms) => { let mut v = vec![]; for m in ms { self.arr(m, e, &mut v) } if v.len() > 12 { self.cap = 12 } V::Arr(v) }
            N::Group(ms) => if ms.is_empty() { self.random(1) } else { let i = self.r.below(ms.len()); self.val(&ms[i], e) },
            N::KV(_, v, _) => self.val(v, e),
            N::Occ(_, n) => self.val(n, e),
            N::Range(a, b, _) => {
                let pick = if self.r.chance(1, 2) { a } else { b };
                match self.val(pick, e) {
                    V::Int(i) => V::Int(i.saturating_add(self.r.below(3) as i128 - 1)),
                    V::Float(f) => if self.r.chance(1, 6) { V::Float(F(dfloat(self.r))) } else if self.r.chance(1, 4) { V::Float(F(near(self.r, f.0))) } else { V::Float(F(f.0 + *self.r.pick(&[0.0, 0.5, -0.5, 1.0]))) },
                    v => v,
                }
            }
            N::Cmp(_, _, a) => match self.val(a, e) { V::Int(i) => V::Int(i.saturating_add(self.r.below(3) as i128 - 1)), v => v },
            N::Size(t, s) => {
                let n = match self.val(s, e) { V::Int(i) => i, _ => 2 };
                let n = n.saturating_add(self.r.below(3) as i128 - 1).clamp(0, 40) as usize;
                match self.val(t, e) {
                    V::Int(_) => {
                        let top = if n >= 8 { 18446744073709551615i128 } else { (1i128 << (8 * n)) - 1 };
                        V::Int((top + self.r.below(3) as i128 - 1).clamp(-1, 18446744073709551615))
                    }
                    V::Text(_) => {
                        let wide = self.r.chance(1, 3) && n >= 2;
                        let mut s = String::new();
                        if wide { s.push('é'); }
                        while s.len() < n { s.push('x'); }
                        V::Text(s)
                    }
                    V::Bytes(_) => V::Bytes(vec![7; n]),
                    v => v,
                }
            }
            N::Regexp(_) => V::Text(text(self.r)),
            N::Cbor(n) => {
                let v = self.val(n, e);
                let mut b = encode(&v).unwrap_or_default();
                match self.r.below(14) {
                    0 => b.push(0),
                    1 => { b.pop(); }
                    2 => b.clear(),
                    3 => { let c = b.clone(); b.extend(c); }
                    _ => {}
                }
                V::Bytes(b)
            }
            N::Choiceify(r, a) => match self.look(r, a, e) {
                Some((N::Group(ms), e)) if !ms.is_empty() => { let i = self.r.below(ms.len()); let m = match &ms[i] { N::Rule(r, a) => N::Choiceify(r.clone(), a.clone()), m => m.clone() }; self.val(&m, &e) }
                Some((N::Rule(r, a), e)) => self.val(&N::Choiceify(r, a), &e),
                _ => self.random(1),
            },
            N::ChoiceifyInline(ms) => if ms.is_empty() { self.random(0) } else { let i = self.one_of(ms.len()); self.val(&ms[i], e) },
            N::Unwrap(r, a) => match self.look(r, a, e) { Some((n, e)) => self.val(&n, &e), None => self.random(1) },
        }
    }
    fn one_of(&mut self, n: usize) -> usize {
        if n > 12 && self.r.chance(1, 2) { n - 1 - self.r.below(2) } else { self.r.below(n) }
    }
    fn reps(&mut self, o: Oc) -> usize {
        let (lo, hi) = o.limits();
        if self.cap > 12 && hi > 12 && self.r.chance(2, 3) {
            let k = *self.r.pick(&[13usize, 70, 130, 260, 300, 1100, 4200, 5500]);
            let k = k.min(self.cap);
            return if self.r.chance(1, 20) { k } else { k.clamp(lo.min(6000), hi) };
        }
        let lo = lo.min(4);
        let hi = hi.min(lo + 3).max(lo);
        let k = lo + self.r.below(hi - lo + 1);
        match self.r.below(10) { 0 => k + 1, 1 => k.saturating_sub(1), _ => k }
    }
    fn arr(&mut self, n: &N, e: &Env, out: &mut Vec<V>) {
        if out.len() > self.cap { return; }
        match n {
            N::Occ(o, n) => for _ in 0..self.reps(*o) { self.arr(n, e, out) },
            N::KV(_, v, _) => { let v = self.val(v, e); out.push(v) }
            N::Rule(r, a) => match self.look(r, a, e) { Some((n, e)) => self.arr(&n, &e, out), None => { let v = self.random(1); out.push(v) } },
            N::Unwrap(r, a) => if let Some((N::Array(ms), e)) = self.look(r, a, e) { for m in &ms { self.arr(m, &e, out) } },
            N::Choice(o) => if !o.is_empty() { let i = self.one_of(o.len()); self.arr(&o[i], e, out) },
            N::Group(ms) => for m in ms {
                if self.r.chance(1, 14 + ms.len() as u32 * 2) { break; }
                self.arr(m, e, out)
            },
            n => { let v = self.val(n, e); out.push(v) }
        }
    }
    fn map(&mut self, n: &N, e: &Env, out: &mut Vec<(V, V)>, strip: bool) {
        if out.len() > self.cap.min(600) { return; }
        match n {
            N::Occ(o, n) => for _ in 0..self.reps(*o) { self.map(n, e, out, strip) },
            N::KV(k, v, _) => {
                if strip { return self.map(v, e, out, false); }
                let k = match (self.val(k, e), &**k) {
                    (V::Text(_), N::Pre(_)) if self.cap > 12 => V::Text(format!("key {}", out.len())),
                    (V::Int(_), N::Pre(_)) if self.cap > 12 => V::Int(out.len() as i128),
                    (k, _) => k,
                };
                let v = if self.r.chance(1, if self.cap > 12 { 2000 } else { 8 }) { self.random(0) } else { self.val(v, e) };
                out.push((k, v))
            }
            N::Rule(r, a) => if let Some((n, e)) = self.look(r, a, e) { self.map(&n, &e, out, strip) },
            N::Unwrap(r, a) => if let Some((N::Map(ms), e)) = self.look(r, a, e) { for m in &ms { self.map(m, &e, out, false) } },
            N::Choice(o) | N::ChoiceifyInline(o) => if !o.is_empty() { let i = self.one_of(o.len()); self.map(&o[i], e, out, false) },
            N::Group(ms) => for m in ms {
                if self.r.chance(1, 14 + ms.len() as u32 * 2) { break; }
                self.map(m, e, out, false)
            },
            N::Choiceify(r, a) => if let Some((N::Group(ms), e)) = self.look(r, a, e) { if !ms.is_empty() { let i = self.r.below(ms.len()); self.map(&ms[i], &e, out, true) } },
            _ => {}
        }
    }
    pub fn mutate(&mut self, v: V) -> V {
        match v {
            V::Arr(mut a) => {
                match self.r.below(6) {
                    0 if !a.is_empty() => { let i = self.r.below(a.len()); a.remove(i); }
                    1 => { let i = self.r.below(a.len() + 1); let x = self.random(1); a.insert(i, x); }
                    2 if !a.is_empty() => { let i = self.r.below(a.len()); let x = a[i].clone(); a.insert(i, x); }
                    3 if a.len() > 1 => { let i = self.r.below(a.len() - 1); a.swap(i, i + 1); }
                    4 => { a.truncate(self.r.below(a.len() + 1)); }
                    _ if !a.is_empty() => { let i = self.r.below(a.len()); let x = a[i].clone(); a[i] = self.mutate(x); }
                    _ => {}
                }
                V::Arr(a)
            }
            V::Map(mut m) => {
                match self.r.below(5) {
                    0 if !m.is_empty() => { let i = self.r.below(m.len()); m.remove(i); }
                    1 => { let x = (self.random(0), self.random(1)); m.push(x); }
                    2 if !m.is_empty() => { let i = self.r.below(m.len()); m[i].0 = self.random(0); }
                    3 if m.len() > 1 => { let x = m[0].1.clone(); let l = m.len() - 1; m[0].1 = m[l].1.clone(); m[l].1 = x; }
                    _ if !m.is_empty() => { let i = self.r.below(m.len()); let x = m[i].1.clone(); m[i].1 = self.mutate(x); }
                    _ => {}
                }
                map(m)
            }
            V::Int(i) => match self.r.below(4) { 0 => V::Int(i.saturating_add(1)), 1 => V::Int(i.saturating_sub(1)), 2 => V::Float(F(i as f64)), _ => self.random(0) },
            V::Text(t) => match self.r.below(3) { 0 => V::Bytes(t.into_bytes()), 1 => V::Text(t + "x"), _ => self.random(0) },
            V::Bytes(mut b) => match self.r.below(4) { 0 => V::Text(String::from_utf8_lossy(&b).into_owned()), 1 => { b.push(0); V::Bytes(b) } 2 => { b.pop(); V::Bytes(b) } _ => self.random(0) },
            V::Float(f) if self.r.chance(1, 2) => V::Float(F(near(self.r, f.0))),
            _ => self.random(1),
        }
    }
}
fn subst(n: &N, e: &Env) -> N {
    match n { N::Rule(r, a) if a.is_empty() && e.contains_key(r) => e[r].clone(), n => n.clone() }
}
/// Trees a schema text cannot produce but a caller can build.
pub fn wild(r: &mut Rng, n: N) -> N {
    let k = r.below(12);
    let many = |r: &mut Rng, v: Vec<N>| v.into_iter().map(|x| if r.chance(1, 2) { wild(r, x) } else { x }).collect::<Vec<_>>();
    match (k, n) {
        (0, n) => N::Group(vec![n]),
        (1, n) => N::Choice(vec![N::Lit(L::Int(7)), n]),
        (2, n) => N::Occ(Oc::Num(r.below(3), *r.pick(&[0usize, 1, 2, 3, usize::MAX])), Box::new(n)),
        (3, n) => N::KV(Box::new(N::Lit(L::Text("a".into()))), Box::new(n), r.chance(1, 2)),
        (_, N::Choice(v)) => N::Choice(many(r, v)),
        (_, N::Map(v)) => N::Map(many(r, v)),
        (_, N::Array(v)) => N::Array(many(r, v)),
        (_, N::Group(v)) => N::Group(many(r, v)),
        (_, N::ChoiceifyInline(v)) => N::ChoiceifyInline(many(r, v)),
        (_, N::KV(k, v, c)) => N::KV(Box::new(wild(r, *k)), Box::new(wild(r, *v)), c != r.chance(1, 6)),
        (_, N::Occ(o, n)) => N::Occ(o, Box::new(wild(r, *n))),
        (4, N::Rule(s, a)) => N::Unwrap(s, a),
        (5, N::Rule(s, a)) => N::Choiceify(s, a),
        (_, N::Lit(L::Int(_))) => N::Lit(L::Int(*r.pick(&[0i128, 1, 2, i128::MAX, i128::MIN, 1 << 64, -(1 << 64) - 1, u64::MAX as i128]))),
        (_, N::Lit(L::Float(_))) => { let f = dfloat(r); N::Lit(L::Float(if f.is_nan() { 1.0 } else { f })) } // what NaN bounds mean is not specified
        (_, N::Range(a, b, i)) => N::Range(Box::new(wild(r, *a)), Box::new(wild(r, *b)), i),
        (6, N::Pre(_)) => N::Map(vec![]),
        (7, N::Pre(_)) => N::Choice(vec![]),
        (_, n) => n,
    }
}
