//! Writing a syntax tree as text, with random spelling and white space.
use crate::rng::Rng;
use cddl_cat::ast;

pub struct Pr<'a> { pub r: &'a mut Rng, pub out: String, pub fancy: bool }
impl<'a> Pr<'a> {
    fn s(&mut self, t: &str) { self.out.push_str(t) }
    /// white space, possibly none
    fn w0(&mut self) { if self.fancy && self.r.chance(1, 3) { self.w() } }
    /// at least one white space character
    fn w1(&mut self) { if self.fancy && self.r.chance(1, 3) { self.w() } else { self.s(" ") } }
    fn w(&mut self) {
        let t = *self.r.pick(&[" ", "\n", "  ", "\r\n", " ; note\n", "\t", "; \"q' (é}\n ", " ;\n;\n"]);
        self.s(t)
    }
    pub fn cddl(&mut self, c: &ast::Cddl) -> Vec<String> {
        let mut texts = vec![];
        self.w0();
        for r in &c.rules {
            let k = self.out.len();
            self.rule(r);
            texts.push(self.out[k..].to_string());
            self.s("\n");
            self.w0();
        }
        texts
    }
    fn rule(&mut self, r: &ast::Rule) {
        self.s(&r.name);
        if !r.generic_parms.is_empty() {
            self.s("<");
            self.w0();
            for (i, p) in r.generic_parms.iter().enumerate() {
                if i > 0 { self.s(","); self.w0(); }
                self.s(p);
                self.w0();
            }
            self.s(">");
        }
        self.w1();
        self.s("=");
        self.w0();
        match &r.val {
            ast::RuleVal::AssignType(t) => self.ty(t),
            ast::RuleVal::AssignGroup(g) => {
                // the parser takes a number here for a type, so only *m works
                if let Some(ast::Occur::Numbered(0, b)) = g.occur {
                    self.s(&format!("*{} ", b));
                    if let ast::GrpEntVal::Parenthesized(g) = &g.val { self.s("("); self.group(g); self.s(")") }
                } else { self.entry(g) }
            }
        }
    }
    fn ty(&mut self, t: &ast::Type) {
        for (i, t) in t.0.iter().enumerate() {
            if i > 0 { self.w1(); self.s("/"); self.w1(); }
            self.ty1(t);
        }
    }
    fn ty1(&mut self, t: &ast::Type1) {
        match t {
            ast::Type1::Simple(t) => self.ty2(t),
            ast::Type1::Range(r) => {
                self.ty2(&r.start);
                // a name swallows dots that follow it directly
                if matches!(r.start, ast::Type2::Value(_)) { self.w0() } else { self.w1() }
                self.s(if r.inclusive { ".." } else { "..." });
                self.w0();
                self.ty2(&r.end);
            }
            ast::Type1::Control(c) => {
                self.ty2(&c.target);
                self.w1();
                self.s(".");
                self.s(&c.op);
                self.w1();
                self.ty2(&c.arg);
            }
        }
    }
    fn ty2(&mut self, t: &ast::Type2) {
        match t {
            ast::Type2::Value(v) => self.value(v),
            ast::Type2::Typename(n) => self.name(n),
            ast::Type2::Parethesized(t) => { self.s("("); self.w0(); self.ty(t); self.w0(); self.s(")") }
            ast::Type2::Map(g) => { self.s("{"); self.group(g); self.s("}") }
            ast::Type2::Array(g) => { self.s("["); self.group(g); self.s("]") }
            ast::Type2::Unwrap(n) => { self.s("~"); self.w0(); self.name(n) }
            ast::Type2::Choiceify(n) => { self.s("&"); self.w0(); self.name(n) }
            ast::Type2::ChoiceifyInline(g) => { self.s("&"); self.w0(); self.s("("); self.group(g); self.s(")") }
        }
    }
    fn name(&mut self, n: &ast::NameGeneric) {
        self.s(&n.name);
        if !n.generic_args.is_empty() {
            self.s("<");
            self.w0();
            for (i, a) in n.generic_args.iter().enumerate() {
                if i > 0 { self.s(","); self.w0(); }
                self.ty1(a);
                self.w0();
            }
            self.s(">");
        }
    }
    fn group(&mut self, g: &ast::Group) {
        self.w0();
        for (i, c) in g.0.iter().enumerate() {
            if i > 0 { self.w1(); self.s("//"); self.w1(); }
            for (j, e) in c.0.iter().enumerate() {
                if j > 0 {
                    match self.r.below(if self.fancy { 4 } else { 1 }) { 0 | 1 => { self.w0(); self.s(","); self.w0() } _ => self.w1() }
                }
                self.entry(e);
            }
            if !c.0.is_empty() && self.fancy && self.r.chance(1, 8) { self.w0(); self.s(",") }
        }
        self.w0();
    }
    fn entry(&mut self, e: &ast::GrpEnt) {
        if let Some(o) = &e.occur { self.occ(o); self.w1(); }
        match &e.val {
            ast::GrpEntVal::Member(m) => {
                if let Some(k) = &m.key {
                    match &k.val {
                        ast::MemberKeyVal::Bareword(s) => { self.s(s); self.w0(); self.s(":"); self.w0() }
                        ast::MemberKeyVal::Value(v) => { self.value(v); self.w0(); self.s(":"); self.w0() }
                        ast::MemberKeyVal::Type1(t) => {
                            self.ty1(t);
                            self.w0();
                            if k.cut { self.s("^"); self.w0() }
                            self.s("=>");
                            self.w0()
                        }
                    }
                }
                self.ty(&m.value);
            }
            ast::GrpEntVal::Groupname(s) => self.s(s),
            ast::GrpEntVal::Parenthesized(g) => { self.s("("); self.group(g); self.s(")") }
        }
    }
    fn occ(&mut self, o: &ast::Occur) {
        match o {
            ast::Occur::Optional => self.s("?"),
            ast::Occur::ZeroOrMore => self.s("*"),
            ast::Occur::OneOrMore => self.s("+"),
            ast::Occur::Numbered(a, b) => {
                if *a > 0 || *b == usize::MAX || self.r.chance(1, 2) { let t = self.uint(*a as u64); self.s(&t); }
                self.s("*");
                if *b != usize::MAX || (self.r.chance(1, 2) && self.fancy) { let t = self.uint(*b as u64); self.s(&t); }
            }
        }
    }
    pub fn uint(&mut self, u: u64) -> String {
        if !self.fancy { return u.to_string(); }
        match self.r.below(8) { 0 => format!("0x{:x}", u), 1 => format!("0x{:X}", u), 2 => format!("0b{:b}", u), 3 => format!("0x00{:x}", u), _ => u.to_string() }
    }
    pub fn value(&mut self, v: &ast::Value) {
        match v {
            ast::Value::Uint(u) => { let t = self.uint(*u); self.s(&t) }
            ast::Value::Nint(i) => { let t = self.uint(i.unsigned_abs()); self.s("-"); self.s(&t) }
            ast::Value::Float(f) => { let t = if self.fancy && self.r.chance(1, 4) && *f != 0.0 { format!("{:e}", f) } else { format!("{:?}", f) };
                let t = if t.contains('.') || t.contains('e') { t } else { t + ".0" };
                self.s(&t) }
            ast::Value::Text(t) => {
                self.s("\"");
                for c in t.chars() {
                    let u = c as u32;
                    if c == '"' || c == '\\' { self.s("\\"); self.out.push(c) }
                    else if u < 0x20 || u == 0x7f || u > 0x10FFFD || (self.fancy && self.r.chance(1, 12)) {
                        let mut b = [0u16; 2];
                        for x in c.encode_utf16(&mut b) { let t = format!("\\u{:04x}", x); self.s(&t); }
                    }
                    else { self.out.push(c) }
                }
                self.s("\"");
            }
            ast::Value::Bytes(b) => {
                let utf = std::str::from_utf8(b).ok().filter(|t| t.chars().all(|c| c != '\'' && c != '\\' && (c as u32) >= 0x20 && (c as u32) != 0x7f && (c as u32) <= 0x10FFFD));
                match (self.r.below(3), utf) {
                    (0, Some(t)) => { let t = t.to_string(); self.s("'"); self.s(&t); self.s("'") }
                    (1, _) => {
                        use base64::Engine as _;
                        let t = base64::engine::general_purpose::URL_SAFE.encode(b);
                        self.s("b64'"); self.s(&t); self.s("'")
                    }
                    _ => {
                        self.s("h'");
                        for x in b {
                            if self.fancy && self.r.chance(1, 5) { self.s(" ") }
                            let t = if self.r.chance(1, 2) { format!("{:02x}", x) } else { format!("{:02X}", x) };
                            self.s(&t)
                        }
                        self.s("'")
                    }
                }
            }
        }
    }
}
