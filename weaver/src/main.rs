//! The weaver: reads the crate's real source files and writes one Verus file in
//! which every function body is the source text, with the contracts from
//! /verif/contracts inserted at their anchors.  See /verif/DESIGN.md for the list
//! of everything it drops or rewrites.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod contract;
mod inline;
use contract::*;

#[derive(Clone, Debug)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
    pub seq: usize,
}

#[derive(Default)]
pub struct Edits {
    pub v: Vec<Edit>,
}

impl Edits {
    pub fn rep(&mut self, r: std::ops::Range<usize>, t: impl Into<String>) {
        let seq = self.v.len();
        self.v.push(Edit { start: r.start, end: r.end, text: t.into(), seq });
    }
    pub fn ins(&mut self, at: usize, t: impl Into<String>) {
        self.rep(at..at, t)
    }
    /// Apply the edits lying inside `range` of `src`.
    pub fn apply(&self, src: &str, range: std::ops::Range<usize>) -> String {
        let mut v: Vec<&Edit> = self
            .v
            .iter()
            .filter(|e| e.start >= range.start && e.end <= range.end)
            .collect();
        v.sort_by_key(|e| (e.start, e.end, e.seq));
        let mut out = String::new();
        let mut pos = range.start;
        for e in v {
            if e.start < pos {
                if e.end <= pos {
                    continue; // inside a range that was replaced as a whole
                }
                panic!("overlapping edit at {}: {:?}", e.start, e.text);
            }
            out.push_str(&src[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&src[pos..range.end]);
        out
    }
}

pub struct FnRec {
    has_body: bool,
    key: String,
    start: usize,
    end: usize,
    contract: bool,
    external: bool,
    loops_expected: usize,
    loops_found: usize,
    anchors_ok: bool,
    notes: Vec<String>,
    /// a form the verifier is known to be incomplete on: a failed obligation of this body is not
    /// taken as a verdict without a failing input
    soft: bool,
    src_file: String,
    src_line: usize,
}

pub struct Cfg {
    pub modules: Vec<(String, String)>,
    /// functions left out of the verified text for this run (key -> why)
    pub disabled: BTreeSet<String>,
    pub strong: BTreeSet<String>,
    pub contracts: Contracts,
    pub inline: bool,
    /// put a false assertion first in every body under contract: each must fail
    pub canary: bool,
}

struct Out {
    text: String,
    line: usize,
    fns: Vec<FnRec>,
    clause_lines: Vec<(usize, String, String)>, // line, fn key, tags
    dropped: Vec<String>,
    hoisted: Vec<String>,
}

impl Out {
    fn push(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.text.push_str(s);
    }
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::ToTokens::to_token_stream(a).to_string();
        t.contains("cfg") && (t.contains("test") || t.contains("not"))
    })
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

pub struct Module<'a> {
    pub name: String,
    pub path: String,
    pub src: &'a str,
    pub file: &'a syn::File,
}

/// Walks a function body and records the edits.
struct BodyVisitor<'a> {
    src: &'a str,
    ed: &'a mut Edits,
    contract: Option<&'a FnContract>,
    loop_no: usize,
    closure_no: usize,
    depth_closure: usize,
    anchors_ok: bool,
    notes: Vec<String>,
    subst: &'a dyn Fn(&str) -> String,
    self_ty: String,
    lifted: &'a BTreeSet<(String, String)>,
    uid: usize,
    hoisted: Vec<String>,
    rec: Option<Rec>,
    strs: Vec<String>,
    local_fns: &'a BTreeSet<String>,
    fn_values: BTreeSet<usize>,
    /// nom parser functions of this module (parser modules only)
    parsers: &'a BTreeSet<String>,
    is_parser: bool,
    scopes: Vec<Vec<String>>,
    runnable: Vec<String>,
    /// a match arm with a guard whose pattern binds names
    bound_guard: bool,
}

/// nom's own parsers that are plain functions
const NOM_PRIMS: &[&str] = &[
    "multispace0", "multispace1", "digit0", "digit1", "hex_digit0", "hex_digit1", "alpha0", "alpha1", "anychar", "not_line_ending",
];

/// A trait method that calls itself is emitted as a free function (the verifier has no
/// recursion through trait methods); the trait method forwards to it.
#[derive(Clone)]
pub struct Rec {
    ty: String,
    method: String,
    name: String,
}

impl<'a> BodyVisitor<'a> {
    fn is_rec(&self, e: &syn::Expr) -> bool {
        if let (Some(r), syn::Expr::Path(p)) = (&self.rec, e) {
            if p.path.segments.len() == 2 {
                let a = p.path.segments[0].ident.to_string();
                let b = p.path.segments[1].ident.to_string();
                return b == r.method && (a == "Self" || a == r.ty);
            }
        }
        false
    }
    fn text(&self, r: std::ops::Range<usize>) -> &'a str {
        &self.src[r]
    }
    fn bound(&self, n: &str) -> bool {
        self.scopes.iter().any(|s| s.iter().any(|x| x == n))
    }
    fn bind(&mut self, names: Vec<String>) {
        if let Some(s) = self.scopes.last_mut() {
            s.extend(names);
        }
    }
    fn mark_fn_values<'x>(&mut self, args: impl Iterator<Item = &'x syn::Expr>) {
        for a in args {
            if let syn::Expr::Path(p) = a {
                if let Some(id) = p.path.get_ident() {
                    if self.local_fns.contains(&id.to_string()) && !self.bound(&id.to_string()) {
                        self.fn_values.insert(a.span().byte_range().start);
                    }
                }
            }
        }
    }
    fn strip_attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            self.ed.rep(a.span().byte_range(), "");
        }
    }
    fn loop_spec(&mut self, n: usize, pos: &str, kind: &str) -> (String, String, String, String) {
        // returns (before, clauses, body start, after)
        let g = |m: &BTreeMap<usize, String>, n: usize| m.get(&n).cloned().unwrap_or_default();
        let c = match self.contract {
            Some(c) => c,
            None => return Default::default(),
        };
        let f = |s: String| -> String { (self.subst)(&s.replace("$pos", pos)) };
        let mut clauses = g(&c.loops, n);
        if let Some(k) = c.loop_kind.get(&n) {
            if k != kind {
                // same loop written in another form
                if !(k == "for" && kind == "while") {
                    self.anchors_ok = false;
                    self.notes.push(format!("loop {} is `{}`, contract expects `{}`", n, kind, k));
                }
            }
        } else if !clauses.is_empty() {
            self.anchors_ok = false;
        } else {
            self.anchors_ok = false;
            self.notes.push(format!("loop {} has no invariant in the contract", n));
        }
        if kind == "while" {
            // `for` contracts carry no measure of their own
            if c.loop_kind.get(&n).map(|s| s.as_str()) == Some("for") {
                clauses = clauses.replace("$forwhile", "");
            }
        }
        (f(g(&c.loop_before, n)), f(clauses), f(g(&c.loop_body, n)), f(g(&c.loop_after, n)))
    }
}

fn pat_is_simple(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Ident(_) => true,
        syn::Pat::Type(t) => pat_is_simple(&t.pat),
        _ => false,
    }
}

impl<'a, 'ast> Visit<'ast> for BodyVisitor<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        // A statement with no effect (`;`, `();`, a literal) is outside what the
        // verifier parses in statement position; it is dropped.
        if let syn::Stmt::Expr(e, Some(semi)) = s {
            let dead = match e {
                syn::Expr::Tuple(t) => t.elems.is_empty(),
                syn::Expr::Lit(_) => true,
                syn::Expr::Path(_) => true,
                _ => false,
            };
            if dead {
                self.ed.rep(e.span().byte_range().start..semi.span().byte_range().end, "");
                return;
            }
        }
        // nested items other than `use` are moved to the end of the module
        if let syn::Stmt::Item(it) = s {
            if !matches!(it, syn::Item::Use(_)) {
                let r = it.span().byte_range();
                let t = self.text(r.clone()).to_string();
                self.ed.rep(r, "");
                if !self.hoisted.contains(&t) {
                    self.hoisted.push(t);
                }
                return;
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        self.strip_attrs(&l.attrs);
        visit::visit_local(self, l);
        let names = inline::pat_names(&l.pat);
        if let Some(i) = &l.init {
            if matches!(&*i.expr, syn::Expr::Call(_)) && names.len() == 1 {
                self.runnable.push(names[0].clone());
            } else {
                self.runnable.retain(|x| !names.contains(x));
            }
        }
        self.bind(names);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        self.scopes.push(vec![]);
        visit::visit_block(self, b);
        self.scopes.pop();
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        self.scopes.push(vec![]);
        self.visit_expr(&e.cond);
        if let syn::Expr::Let(l) = &*e.cond {
            let names = inline::pat_names(&l.pat);
            self.bind(names);
        }
        self.visit_block(&e.then_branch);
        self.scopes.pop();
        if let Some((_, x)) = &e.else_branch {
            self.visit_expr(x);
        }
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        let names = inline::pat_names(&a.pat);
        if a.guard.is_some() && !names.is_empty() {
            self.bound_guard = true;
        }
        self.scopes.push(names);
        visit::visit_arm(self, a);
        self.scopes.pop();
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if f.colon_token.is_none() && self.is_parser {
            return; // S { x }: x is a variable
        }
        visit::visit_field_value(self, f);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let n = self.loop_no;
        self.loop_no += 1;
        self.uid += 1;
        let it = format!("vp_it{}", self.uid);
        let s0 = format!("vp_s{}", self.uid);
        let pos = format!("{}.pos()", it);
        let (before, clauses, body, after) = self.loop_spec(n, &pos, "for");
        let label = match &e.label {
            Some(l) => self.text(l.span().byte_range()).to_string() + " ",
            None => String::new(),
        };
        let start = e.span().byte_range().start;
        let expr = e.expr.span().byte_range();
        let pat = self.text(e.pat.span().byte_range()).to_string();
        self.ed.rep(start..expr.start, format!("{{ let mut {it} = ("));
        let ob = e.body.brace_token.span.open().byte_range();
        let cb = e.body.brace_token.span.close().byte_range();
        let bind = format!("let {pat} = match {it}.next() {{ Some(vp_x) => vp_x, None => break }};");
        self.ed.rep(
            expr.end..ob.end,
            format!(
                ").vp_into_iter();\nlet ghost {s0} = {it}.seq();\n{before}\n{label}loop\n  invariant {it}.wf(), {it}.seq() == {s0},\n{clauses}\n  ensures {it}.pos() == {s0}.len(),\n  decreases {s0}.len() - {it}.pos()\n{{ {bind} {body}",
            ),
        );
        self.ed.rep(cb, format!("}} {after} }}"));
        self.visit_expr(&e.expr);
        for s in &e.body.stmts {
            self.visit_stmt(s);
        }
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let n = self.loop_no;
        self.loop_no += 1;
        // while IDENT < EXPR : an index loop
        let mut pos = String::new();
        let mut extra = String::new();
        let mut dec = String::new();
        if let syn::Expr::Binary(b) = &*e.cond {
            if let (syn::Expr::Path(p), syn::BinOp::Lt(_)) = (&*b.left, &b.op) {
                let id = self.text(p.span().byte_range());
                let hi = self.text(b.right.span().byte_range());
                pos = format!("({} as int)", id);
                extra = format!("{} <= {},", id, hi);
                dec = format!("({}) - {}", hi, id);
            }
        }
        let is_for_contract = self
            .contract
            .and_then(|c| c.loop_kind.get(&n))
            .map(|k| k == "for")
            .unwrap_or(false);
        let (before, clauses, body, after) = self.loop_spec(n, &pos, "while");
        let ob = e.body.brace_token.span.open().byte_range();
        if matches!(&*e.cond, syn::Expr::Let(_)) {
            self.anchors_ok = false;
            self.notes.push("while-let loop".into());
        }
        let text = if is_for_contract {
            if pos.is_empty() {
                self.anchors_ok = false;
            }
            format!("\n invariant {extra}\n{clauses}\n decreases {dec}\n{{ {body}")
        } else {
            format!("\n{clauses}\n{{ {body}")
        };
        let st = e.span().byte_range().start;
        if !before.is_empty() || !after.is_empty() {
            self.ed.ins(st, format!("{{ {before}\n"));
        }
        self.ed.rep(ob, text);
        visit::visit_expr_while(self, e);
        if !before.is_empty() || !after.is_empty() {
            self.ed.ins(e.span().byte_range().end, format!(" {after} }}"));
        }
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        let n = self.loop_no;
        self.loop_no += 1;
        let (_, clauses, body, _) = self.loop_spec(n, "", "loop");
        let ob = e.body.brace_token.span.open().byte_range();
        self.ed.rep(ob, format!("\n{clauses}\n{{ {body}"));
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        // a closure that only builds an error carries its own specification and is not numbered
        let auto = match &e.output {
            syn::ReturnType::Default => err_ctor(&e.body).or_else(|| {
                // a closure that only compares or only puts its arguments together says what it does
                let free = self.is_parser || self.contract.is_none_or(|c| c.closures.is_empty());
                let (ty, x) = free.then(|| bool_type(&e.body, self.src).or_else(|| ctor_type(&e.body, self.src))).flatten()?;
                let mut lets = String::new();
                for (i, p) in e.inputs.iter().enumerate() {
                    if !pat_is_simple(p) && !matches!(p, syn::Pat::Wild(_)) {
                        let p = match p {
                            syn::Pat::Type(t) => &t.pat,
                            p => p,
                        };
                        let n = 1000 + e.span().byte_range().start;
                        lets.push_str(&format!("let {} = vp_c{}_{}; ", self.text(p.span().byte_range()), n, i));
                    }
                }
                Some(format!("-> (vp_o: {ty}) ensures vp_o == ({{ {lets}{x} }}),"))
            }),
            syn::ReturnType::Type(_, t) => err_result(&e.body).map(|k| {
                format!("-> (vp_o: {}) ensures vp_o is Err, vp_o->Err_0 is {},", self.text(t.span().byte_range()), k)
            }),
        };
        let n = if auto.is_some() { 1000 + e.span().byte_range().start } else { self.closure_no };
        if auto.is_none() {
            self.closure_no += 1;
        }
        let mut pre = String::new();
        self.scopes.push(e.inputs.iter().flat_map(inline::pat_names).collect());
        for (i, p) in e.inputs.iter().enumerate() {
            if !pat_is_simple(p) {
                let v = format!("vp_c{}_{}", n, i);
                match p {
                    syn::Pat::Wild(_) => self.ed.rep(p.span().byte_range(), v),
                    syn::Pat::Type(t) => {
                        let pt = self.text(t.pat.span().byte_range());
                        pre.push_str(&format!("let {} = {};", pt, v));
                        self.ed.rep(t.pat.span().byte_range(), v);
                    }
                    _ => {
                        let pt = self.text(p.span().byte_range());
                        pre.push_str(&format!("let {} = {};", pt, v));
                        self.ed.rep(p.span().byte_range(), v);
                    }
                }
            }
        }
        let spec = auto.or_else(|| self.contract.and_then(|c| c.closures.get(&n)).cloned());
        let bodyr = e.body.span().byte_range();
        if let Some(s) = spec {
            // `$0`, `$1` name the closure's parameters
            let mut s = s;
            for (i, p) in e.inputs.iter().enumerate() {
                let name = match p {
                    syn::Pat::Ident(id) => id.ident.to_string(),
                    syn::Pat::Type(t) => match &*t.pat {
                        syn::Pat::Ident(id) => id.ident.to_string(),
                        _ => format!("vp_c{}_{}", n, i),
                    },
                    _ => format!("vp_c{}_{}", n, i),
                };
                s = s.replace(&format!("${}", i), &name);
            }
            let s = (self.subst)(&s);
            if let syn::ReturnType::Type(a, t) = &e.output {
                self.ed.rep(a.span().byte_range().start..t.span().byte_range().end, "");
            }
            self.ed.ins(bodyr.start, format!(" {} {{ {} ", s, pre));
            self.visit_expr(&e.body);
            self.ed.ins(bodyr.end, " }");
        } else {
            if !pre.is_empty() {
                self.ed.ins(bodyr.start, format!("{{ {} ", pre));
            }
            self.visit_expr(&e.body);
            if !pre.is_empty() {
                self.ed.ins(bodyr.end, " }");
            }
        }
        self.scopes.pop();
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let m = e.method.to_string();
        self.mark_fn_values(e.args.iter());
        if (m == "iter" || m == "into_iter" || m == "as_ref") && e.args.is_empty() {
            self.ed.rep(e.method.span().byte_range(), format!("vp_{}", m));
        }
        if self.is_parser {
            match (m.as_str(), e.args.len()) {
                ("chars", 0) | ("as_bytes", 0) | ("drain", 1) => self.ed.rep(e.method.span().byte_range(), format!("vp_{}", m)),
                ("push_str", 1) => {
                    if let syn::Expr::Lit(l) = &e.args[0] {
                        if let syn::Lit::Str(s) = &l.lit {
                            let t = s.token().to_string();
                            if !self.strs.contains(&t) {
                                self.strs.push(t);
                            }
                        }
                    }
                }
                ("parse", 0) => {
                    if let Some(t) = &e.turbofish {
                        let ty = self.text(t.args.span().byte_range()).trim().to_string();
                        self.ed.rep(e.method.span().byte_range().start..t.span().byte_range().end, format!("vp_parse_{}", ty));
                        self.visit_expr(&e.receiver);
                        return;
                    }
                }
                _ => {}
            }
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
        if self.is_parser {
            if let Some(id) = e.path.get_ident() {
                let n = id.to_string();
                if !self.bound(&n) {
                    if self.parsers.contains(&n) {
                        self.ed.rep(e.span().byte_range(), format!("pf_{}()", n));
                        return;
                    }
                    if NOM_PRIMS.contains(&n.as_str()) {
                        self.ed.rep(e.span().byte_range(), format!("{}()", n));
                        return;
                    }
                }
            }
        }
        // std::usize::MAX (deprecated module constant) -> usize::MAX
        if e.path.segments.len() == 3 && matches!(e.path.segments[0].ident.to_string().as_str(), "std" | "core") {
            let a = e.path.segments[1].ident.to_string();
            let b = e.path.segments[2].ident.to_string();
            let int = ["usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"];
            if int.contains(&a.as_str()) && (b == "MAX" || b == "MIN") {
                self.ed.rep(e.span().byte_range(), format!("{}::{}", a, b));
                return;
            }
        }
        // char::MAX, char::REPLACEMENT_CHARACTER -> the literal
        if e.path.segments.len() >= 2 && e.qself.is_none() {
            let n = e.path.segments.len();
            if e.path.segments[n - 2].ident == "char" && (n == 2 || e.path.segments[0].ident == "std" || e.path.segments[0].ident == "core") {
                let c = match e.path.segments[n - 1].ident.to_string().as_str() { "MAX" => "'\\u{10FFFF}'", "REPLACEMENT_CHARACTER" => "'\\u{FFFD}'", _ => "" };
                if !c.is_empty() {
                    self.ed.rep(e.span().byte_range(), c.to_string());
                    return;
                }
            }
        }
        if e.path.segments.len() == 2 {
            let a = e.path.segments[0].ident.to_string();
            let b = e.path.segments[1].ident.to_string();
            let a2 = if a == "Self" { self.self_ty.clone() } else { a };
            if self.lifted.contains(&(a2.clone(), b.clone())) {
                self.ed.rep(e.span().byte_range(), format!("VP_{}_{}", a2.to_uppercase(), b));
            }
        }
        visit::visit_expr_path(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if self.is_rec(&e.func) {
            let n = self.rec.as_ref().unwrap().name.clone();
            self.ed.rep(e.func.span().byte_range(), n);
            for a in &e.args {
                self.visit_expr(a);
            }
            return;
        }
        self.mark_fn_values(e.args.iter());
        if self.is_parser {
            // parser(..)(input): applying a parser value
            let local = match &*e.func {
                syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                _ => None,
            };
            match (&*e.func, &local) {
                (syn::Expr::Call(_), _) | (syn::Expr::Paren(_), _) | (syn::Expr::Block(_), _) => {
                    self.ed.ins(e.func.span().byte_range().end, ".run");
                    self.visit_expr(&e.func);
                }
                (_, Some(n)) if self.bound(n) && self.runnable.contains(n) => self.ed.ins(e.func.span().byte_range().end, ".run"),
                (syn::Expr::Path(_), _) => {}
                _ => self.visit_expr(&e.func),
            }
            let fname = match &*e.func {
                syn::Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                _ => String::new(),
            };
            for (i, a) in e.args.iter().enumerate() {
                // map(p, Type::Variant): the constructor as a closure
                if i == 1 && fname == "map" {
                    if let syn::Expr::Path(p) = a {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let last = segs.last().unwrap();
                        if last.chars().next().unwrap().is_uppercase() {
                            let t = self.text(a.span().byte_range()).to_string();
                            let ty = if segs.len() == 1 { t.clone() } else { segs[..segs.len() - 1].join("::") };
                            self.ed.rep(
                                a.span().byte_range(),
                                format!("|vp_k| -> (vp_o: {ty}) ensures vp_o == {t}(vp_k) {{ {t}(vp_k) }}"),
                            );
                            continue;
                        }
                    }
                }
                self.visit_expr(a);
            }
            return;
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.fn_values.contains(&e.span().byte_range().start) && matches!(e, syn::Expr::Path(_)) {
            // a function of this module passed as a value: eta-expanded, counted as a closure
            let n = self.closure_no;
            self.closure_no += 1;
            let id = self.text(e.span().byte_range()).to_string();
            let spec = self.contract.and_then(|c| c.closures.get(&n)).cloned().unwrap_or_default();
            let v = format!("vp_c{}_0", n);
            let spec = (self.subst)(&spec.replace("$0", &v));
            self.ed.rep(e.span().byte_range(), format!("|{v}| {spec} {{ {id}({v}) }}"));
            return;
        }
        if let syn::Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) {
                for x in [&*b.left, &*b.right] {
                    if let syn::Expr::Lit(l) = x {
                        if let syn::Lit::Str(s) = &l.lit {
                            let t = s.token().to_string();
                            if !self.strs.contains(&t) {
                                self.strs.push(t);
                            }
                        }
                    }
                }
            }
        }
        if self.is_parser {
            if let syn::Expr::Range(r) = e {
                if let (Some(a), Some(b), syn::RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                    let (a, b) = (self.text(a.span().byte_range()), self.text(b.span().byte_range()));
                    let b = if b == "char::MAX as u32" { "0x10FFFF".into() } else { b };
                    self.ed.rep(e.span().byte_range(), format!("crate::pshim::RangeInc {{ lo: {a}, hi: {b} }}"));
                    return;
                }
            }
        }
        if self.is_rec(e) {
            // passed as a value: eta-expanded, counted as a closure
            let n = self.closure_no;
            self.closure_no += 1;
            let name = self.rec.as_ref().unwrap().name.clone();
            let spec = self.contract.and_then(|c| c.closures.get(&n)).cloned().unwrap_or_default();
            let v = format!("vp_c{}_0", n);
            let spec = (self.subst)(&spec.replace("$0", &v));
            self.ed.rep(e.span().byte_range(), format!("|{v}| {spec} {{ {name}({v}) }}"));
            return;
        }
        visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, mac: &'ast syn::Macro) {
        // format!("..", a, b): the message text is dropped, its arguments are kept
        if mac.path.is_ident("format") {
            let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            if let Ok(a) = syn::parse::Parser::parse2(args, mac.tokens.clone()) {
                let mut t = String::from("crate::vp::vp_fmt((");
                for e in a.iter().skip(1) {
                    let e = match e {
                        syn::Expr::Assign(x) => &*x.right,
                        x => x,
                    };
                    t.push_str(&format!("&({}),", self.text(e.span().byte_range())));
                }
                t.push_str("))");
                self.ed.rep(mac.span().byte_range(), t);
                return;
            }
        }
        if self.is_parser && (mac.path.is_ident("panic") || mac.path.is_ident("unreachable")) {
            self.ed.rep(mac.span().byte_range(), "crate::pshim::vp_panic()");
            return;
        }
        visit::visit_macro(self, mac);
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        // string literals in patterns: lowered to a chain of comparisons
        let lits: Option<Vec<Option<Vec<String>>>> = e.arms.iter().map(|a| str_pats(&a.pat)).collect();
        let lits = match lits {
            Some(l) if l.iter().any(|x| x.is_some()) => l,
            _ => {
                // string literals nested in patterns become guards
                for a in &e.arms {
                    let ls = inline::pat_str_lits(&a.pat);
                    if ls.is_empty() {
                        continue;
                    }
                    let mut conds = vec![];
                    for (r, t) in ls {
                        self.uid += 1;
                        let v = format!("vp_l{}", self.uid);
                        if !self.strs.contains(&t) {
                            self.strs.push(t.clone());
                        }
                        self.ed.rep(r, v.clone());
                        conds.push(format!("{v} == {t}"));
                    }
                    match &a.guard {
                        Some((_, g)) => self.ed.ins(g.span().byte_range().start, format!("{} && ", conds.join(" && "))),
                        None => self.ed.ins(a.pat.span().byte_range().end, format!(" if {}", conds.join(" && "))),
                    }
                }
                visit::visit_expr_match(self, e);
                return;
            }
        };
        self.uid += 1;
        let v = format!("vp_m{}", self.uid);
        let sc = e.expr.span().byte_range();
        self.ed.rep(e.span().byte_range().start..sc.start, format!("{{ let {v} = "));
        self.ed.rep(sc.end..e.brace_token.span.open().byte_range().end, ";");
        self.visit_expr(&e.expr);
        let n = e.arms.len();
        for (i, (a, l)) in e.arms.iter().zip(lits).enumerate() {
            for at in &a.attrs {
                self.ed.rep(at.span().byte_range(), "");
            }
            let els = if i == 0 { "" } else { " else " };
            let mut bind = String::new();
            let mut cond = match &l {
                Some(ls) => {
                    for x in ls {
                        if !self.strs.contains(x) {
                            self.strs.push(x.clone());
                        }
                    }
                    ls.iter().map(|x| format!("{v} == {x}")).collect::<Vec<_>>().join(" || ")
                }
                None => String::new(),
            };
            if let syn::Pat::Ident(id) = &a.pat {
                bind = format!("let {} = {v};", id.ident);
            }
            let mut post = String::new();
            if let Some((_, g)) = &a.guard {
                let gt = self.text(g.span().byte_range());
                let gt = if bind.is_empty() { gt.to_string() } else { format!("{{ {bind} {gt} }}") };
                cond = if cond.is_empty() { gt } else { format!("({cond}) && ({gt})") };
            }
            if cond.is_empty() && i + 1 < n {
                post = String::new();
            }
            let head = if cond.is_empty() { format!("{els}{{ {bind} ") } else { format!("{els}if {cond} {{ {bind} ") };
            let br = a.body.span().byte_range();
            self.ed.rep(a.pat.span().byte_range().start..br.start, head);
            self.visit_expr(&a.body);
            self.ed.ins(br.end, format!(" }}{post}"));
            if let Some(c) = &a.comma {
                self.ed.rep(c.span().byte_range(), "");
            }
        }
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.ed.rep(a.span().byte_range(), "");
    }
    fn visit_item_use(&mut self, u: &'ast syn::ItemUse) {
        let t = self.text(u.span().byte_range());
        self.ed.rep(u.span().byte_range(), map_use(t));
    }
}

/// Redirect imports of std collections and external crates to the specified stand-ins.
fn map_use(t: &str) -> String {
    let t = t
        .replace("std::collections", "crate::vp")
        .replace("float_ord::", "crate::vp::")
        .replace("serde_json::", "crate::vp::serde_json::")
        .replace("ciborium::", "crate::vp::ciborium::")
        .replace("regex::", "crate::vp::regex::")
        .replace("std::convert::TryFrom", "crate::vp::TryFrom");
    for d in ["thiserror", "strum_macros", "std::mem::discriminant", "std::result::Result"] {
        if t.contains(d) && t.contains("use ") {
            return String::new();
        }
    }
    t
}

fn ident_subst(text: &str, map: &[(String, String)]) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut word = String::new();
    let flush = |w: &mut String, out: &mut String| {
        if !w.is_empty() {
            // not after a `.` (field) unless it is a parameter name used first
            let prev_dot = out.ends_with('.');
            match map.iter().find(|(a, _)| a == w) {
                Some((_, b)) if !prev_dot => out.push_str(b),
                _ => out.push_str(w),
            }
            w.clear();
        }
    };
    for ch in text.chars() {
        if ch.is_alphanumeric() || ch == '_' {
            word.push(ch);
        } else {
            flush(&mut word, &mut out);
            out.push(ch);
        }
    }
    flush(&mut word, &mut out);
    out
}

fn emit_fn(
    cfg: &Cfg,
    m: &Module,
    out: &mut Out,
    key: &str,
    attrs: &[syn::Attribute],
    vis: Option<&syn::Visibility>,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    whole: std::ops::Range<usize>,
    self_ty: &str,
    lifted: &BTreeSet<(String, String)>,
    rec: Option<&Rec>,
) {
    let src = m.src;
    let contract = cfg.contracts.fns.get(key);
    let mut ed = Edits::default();
    for a in attrs {
        ed.rep(a.span().byte_range(), "");
    }
    if let Some(v) = vis {
        let sigstart = sig.span().byte_range().start;
        match v {
            syn::Visibility::Inherited => ed.ins(sigstart, "pub "),
            _ => ed.rep(v.span().byte_range(), "pub"),
        }
    }
    if let Some(r) = rec {
        ed.rep(sig.ident.span().byte_range(), r.name.clone());
    }
    // a helper outside the verifier's reach that returns `impl Trait`: left out altogether
    if contract.is_none() && cfg.disabled.contains(key) {
        if let syn::ReturnType::Type(_, t) = &sig.output {
            if matches!(&**t, syn::Type::ImplTrait(_)) {
                out.dropped.push(format!("fn {} (returns impl Trait)", key));
                return;
            }
        }
    }
    // parameter renames
    let mut map: Vec<(String, String)> = vec![];
    let mut actual: Vec<String> = vec![];
    for i in &sig.inputs {
        match i {
            syn::FnArg::Receiver(_) => actual.push("self".into()),
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(id) => actual.push(id.ident.to_string()),
                _ => actual.push("_".into()),
            },
        }
    }
    let mut anchors_ok = true;
    let mut soft = false;
    let mut notes = vec![];
    if let Some(c) = contract {
        if let Some(ps) = &c.params {
            if ps.len() != actual.len() {
                anchors_ok = false;
                notes.push(format!("{} parameters, contract expects {}", actual.len(), ps.len()));
            } else {
                for (a, b) in ps.iter().zip(actual.iter()) {
                    if a != b {
                        map.push((a.clone(), b.clone()));
                    }
                }
            }
        }
        // local renames, by position among the `let`s that bind one name
        if !c.locals.is_empty() {
            if let Some(b) = block {
                let names = inline::local_names(b);
                let missing: Vec<&String> = c.locals.iter().filter(|l| !names.contains(l)).collect();
                if !missing.is_empty() {
                    let fresh: Vec<&String> = names.iter().filter(|n| !c.all_locals.contains(n)).collect();
                    if fresh.len() == missing.len() {
                        for (a, b) in missing.iter().zip(fresh.iter()) {
                            map.push(((*a).clone(), (*b).clone()));
                        }
                    } else {
                        anchors_ok = false;
                        notes.push(format!("locals not found: {:?}", missing));
                    }
                }
            }
        }
    }
    let subst = |s: &str| ident_subst(s, &map);
    let disabled = cfg.disabled.contains(key);
    let external = disabled || contract.map(|c| c.external.is_some()).unwrap_or(false);
    let spec = contract.map(|c| subst(&c.spec)).unwrap_or_default();
    // return value name
    if let (Some(c), syn::ReturnType::Type(_, t)) = (contract, &sig.output) {
        if let Some(r) = &c.ret {
            let tr = t.span().byte_range();
            ed.ins(tr.start, format!("({}: ", r));
            ed.ins(tr.end, ")");
        }
    }
    let mut loops_found = 0;
    // a function that returns a closure: the closure's body becomes the body
    let mut lift: Option<(String, std::ops::Range<usize>)> = None;
    if let Some(h) = contract.and_then(|c| c.lift.as_ref()).filter(|_| !disabled) {
        let cl = block.and_then(|b| match b.stmts.as_slice() {
            [syn::Stmt::Expr(syn::Expr::Closure(c), None)] => Some(c),
            _ => None,
        });
        match cl {
            Some(c) if c.inputs.len() == 1 && inline::pat_names(&c.inputs[0]).len() == 1 => {
                let p = inline::pat_names(&c.inputs[0])[0].clone();
                lift = Some((subst(&h.replace("$0", &p)), c.body.span().byte_range()));
            }
            _ => {
                anchors_ok = false;
                notes.push("does not return a closure".into());
            }
        }
    }
    let lifting = contract.map(|c| c.lift.is_some()).unwrap_or(false);
    let local_fns: BTreeSet<String> = m
        .file
        .items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Fn(f) if f.sig.inputs.len() == 1 => Some(f.sig.ident.to_string()),
            _ => None,
        })
        .filter(|n| cfg.contracts.fns.get(&format!("{}::{}", m.name, n)).map(|c| c.parser.is_none()).unwrap_or(false))
        .collect();
    let parsers: BTreeSet<String> = m
        .file
        .items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Fn(f) => Some(f.sig.ident.to_string()),
            _ => None,
        })
        .filter(|n| cfg.contracts.fns.get(&format!("{}::{}", m.name, n)).map(|c| c.parser.is_some()).unwrap_or(false))
        .collect();
    if let Some(b) = block {
        let ob = b.brace_token.span.open().byte_range();
        let cb = b.brace_token.span.close().byte_range();
        if external {
            ed.rep(ob.start..cb.end, format!("\n{}\n{{ unimplemented!() }}", spec));
        } else {
            let mut body = String::new();
            let (hides, rest): (Vec<String>, Vec<String>) = contract
                .map(|c| subst(&c.body))
                .unwrap_or_default()
                .lines()
                .map(|l| l.to_string() + "\n")
                .partition(|l| l.trim_start().starts_with("hide("));
            let hides = hides.concat();
            if cfg.canary && contract.is_some() {
                body.push_str("proof { assert(false); } ");
            }
            body.push_str(cfg.contracts.all_fn.get(&m.name).map(|s| s.as_str()).unwrap_or(""));
            if cfg.strong.contains(key) {
                body.push_str(cfg.contracts.strong_fn.get(&m.name).map(|s| s.as_str()).unwrap_or(""));
            }
            body.push_str(&rest.concat());
            let mut bv = BodyVisitor {
                src,
                ed: &mut ed,
                contract,
                loop_no: 0,
                closure_no: 0,
                depth_closure: 0,
                anchors_ok: true,
                notes: vec![],
                subst: &subst,
                self_ty: self_ty.to_string(),
                lifted,
                uid: 0,
                hoisted: vec![],
                rec: rec.cloned(),
                strs: vec![],
                local_fns: &local_fns,
                fn_values: BTreeSet::new(),
                parsers: &parsers,
                is_parser: !parsers.is_empty(),
                scopes: vec![actual.clone()],
                runnable: contract.map(|c| c.lift_calls.iter().map(|s| subst(s)).collect()).unwrap_or_default(),
                bound_guard: false,
            };
            for s in &b.stmts {
                bv.visit_stmt(s);
            }
            soft = bv.bound_guard && sig.inputs.iter().any(|i| match i {
                syn::FnArg::Receiver(r) => r.reference.is_some() && r.mutability.is_some(),
                syn::FnArg::Typed(t) => matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()),
            });
            for t in std::mem::take(&mut bv.strs) {
                body = format!("{}{}", str_hint(&t), body);
            }
            body = hides + &body;
            if lift.is_none() {
                bv.ed.rep(ob, format!("\n{}\n{{ {}", spec, body));
            }
            loops_found = bv.loop_no;
            let _ = bv.depth_closure;
            if let Some(c) = contract {
                if c.loop_kind.len() != bv.loop_no {
                    bv.anchors_ok = false;
                    bv.notes.push(format!("{} loops, contract expects {}", bv.loop_no, c.loop_kind.len()));
                }
                // a closure without a contract: what it does is not known to the proof
                if lift.is_none() && bv.closure_no > c.closures.keys().max().map(|k| *k + 1).unwrap_or(0) {
                    soft = true;
                }
                if c.closures.keys().any(|k| *k >= bv.closure_no) {
                    bv.anchors_ok = false;
                    bv.notes.push("fewer closures than the contract expects".into());
                }
            } else if bv.loop_no > 0 {
                bv.anchors_ok = false;
            }
            anchors_ok &= bv.anchors_ok;
            notes.extend(bv.notes);
            for h in bv.hoisted {
                if !out.hoisted.contains(&h) {
                    out.hoisted.push(h);
                }
            }
        }
    } else if !spec.is_empty() {
        // trait method declaration
        let semi = whole.end - 1;
        ed.ins(semi, format!("\n{}\n", spec));
    }
    let mut attr = String::new();
    if lifting && lift.is_none() {
    } else if external {
        attr.push_str("#[verifier::external_body]\n");
    } else if block.is_some() {
        attr.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    if let Some(c) = contract {
        if !external {
            attr.push_str(&c.attr);
        }
    }
    let body = match &lift {
        Some((h, r)) => {
            let canary = if cfg.canary { "proof { assert(false); } " } else { "" };
            let all = cfg.contracts.all_fn.get(&m.name).cloned().unwrap_or_default();
            let bh = all + &contract.map(|c| subst(&c.body)).unwrap_or_default();
            format!("{}\n{{ {} {} {} }}", h, canary, bh, ed.apply(src, r.clone()))
        }
        None if lifting => String::new(),
        None => ed.apply(src, whole.clone()),
    };
    let rw = contract.map(|c| c.rewrites.clone()).unwrap_or_default();
    let mut body = body;
    if !external {
        for (a, b) in rw {
            if body.matches(a.as_str()).count() == 0 {
                anchors_ok = false;
                notes.push(format!("rewrite anchor not found: {}", a));
            }
            body = body.replace(&a, &b);
        }
    }
    let start = out.line;
    let full = format!("{}{}\n", attr, body);
    // tagged clauses
    for (i, l) in full.lines().enumerate() {
        if let Some(p) = l.find("//@") {
            out.clause_lines.push((start + i, key.to_string(), l[p + 3..].trim().to_string()));
        }
    }
    out.push(&full);
    if let Some((ty, g)) = contract.and_then(|c| c.parser.as_ref()) {
        out.push(&format!("#[verifier::external_body] pub fn pf_{}() -> (r: P<{ty}>) ensures forall|n: nat| #[trigger] r.sem(n) == {g} {{ unimplemented!() }}\n", sig.ident));
    }
    let end = out.line;
    out.fns.push(FnRec {
        key: key.to_string(),
        start,
        end,
        contract: contract.is_some(),
        external,
        loops_expected: contract.map(|c| c.loop_kind.len()).unwrap_or(0),
        loops_found,
        anchors_ok,
        notes,
        soft,
        has_body: block.is_some(),
        src_file: m.path.clone(),
        src_line: sig.span().start().line,
    });
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => "_".into(),
    }
}

fn emit_type_item(
    m: &Module,
    out: &mut Out,
    attrs: &[syn::Attribute],
    vis: &syn::Visibility,
    name: &str,
    generics: &syn::Generics,
    whole: std::ops::Range<usize>,
    fields: Vec<&syn::Field>,
    variants: Vec<&syn::Variant>,
    kw: std::ops::Range<usize>,
    cfg: &Cfg,
) {
    let mut ed = Edits::default();
    for a in attrs {
        ed.rep(a.span().byte_range(), "");
    }
    match vis {
        syn::Visibility::Inherited => ed.ins(kw.start, "pub "),
        _ => ed.rep(vis.span().byte_range(), "pub"),
    }
    for f in fields {
        for a in &f.attrs {
            ed.rep(a.span().byte_range(), "");
        }
        match &f.vis {
            syn::Visibility::Inherited => {
                let st = f
                    .ident
                    .as_ref()
                    .map(|i| i.span().byte_range().start)
                    .unwrap_or(f.ty.span().byte_range().start);
                ed.ins(st, "pub ")
            }
            v => ed.rep(v.span().byte_range(), "pub"),
        }
    }
    for v in variants {
        for a in &v.attrs {
            ed.rep(a.span().byte_range(), "");
        }
        for f in v.fields.iter() {
            for a in &f.attrs {
                ed.rep(a.span().byte_range(), "");
            }
        }
    }
    let ds = derives(attrs);
    let copy = ds.iter().any(|d| d == "Copy");
    if copy {
        out.push("#[derive(Clone, Copy)]\n");
    }
    let t = ed.apply(m.src, whole);
    out.push(&t);
    out.push("\n");
    let (ig, tg, wc) = generics.split_for_impl();
    let (ig, tg, wc) = (
        quote::ToTokens::to_token_stream(&ig).to_string(),
        quote::ToTokens::to_token_stream(&tg).to_string(),
        wc.map(|w| quote::ToTokens::to_token_stream(w).to_string()).unwrap_or_default(),
    );
    let key = format!("{}::{}", m.name, name);
    for d in &ds {
        match d.as_str() {
            "Clone" if !copy => out.push(&format!(
                "impl{ig} Clone for {name}{tg} {wc} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
            )),
            "PartialEq" => {
                let spec = cfg.contracts.eq.get(&key).cloned();
                out.push(&format!("impl{ig} PartialEq for {name}{tg} {wc} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> bool {{ unimplemented!() }} }}\n"));
                if let Some(spec) = spec {
                out.push(&format!("impl{ig} vstd::std_specs::cmp::PartialEqSpecImpl for {name}{tg} {wc} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ {spec} }} }}\n"));
                }
            }
            "Default" => {
                let spec = cfg.contracts.default.get(&key).cloned().unwrap_or_default();
                out.push(&format!("impl{ig} Default for {name}{tg} {wc} {{ #[verifier::external_body] fn default() -> (r: Self) {spec} {{ unimplemented!() }} }}\n"));
            }
            "Display" => out.push(&display_stub(&ig, name, &tg, &wc, "Display")),
            "Debug" => out.push(&display_stub(&ig, name, &tg, &wc, "Debug")),
            _ => {}
        }
    }
    if !ds.is_empty() {
        out.dropped.push(format!("derive({}) on {}", ds.join(", "), key));
    }
    if let Some(x) = cfg.contracts.after_type.get(&key) {
        out.push(x);
        out.push("\n");
    }
}

fn display_stub(ig: &str, name: &str, tg: &str, wc: &str, tr: &str) -> String {
    format!("#[verifier::external] impl{ig} std::fmt::{tr} for {name}{tg} {wc} {{ fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ unimplemented!() }} }}\n")
}

fn emit_module(cfg: &Cfg, m: &Module, out: &mut Out) {
    out.push(&format!("pub mod {} {{\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::vp::*;\n", m.name));
    if let Some(x) = cfg.contracts.module_head.get(&m.name) {
        out.push(x);
        out.push("\n");
    }
    let mut lifted: BTreeSet<(String, String)> = BTreeSet::new();
    for it in &m.file.items {
        if let syn::Item::Impl(im) = it {
            for ii in &im.items {
                if let syn::ImplItem::Const(c) = ii {
                    lifted.insert((type_name(&im.self_ty), c.ident.to_string()));
                }
            }
        }
    }
    let mut counts: BTreeMap<String, usize> = BTreeMap::new();
    for it in &m.file.items {
        let r = it.span().byte_range();
        match it {
            syn::Item::Use(u) => {
                if is_cfg_test(&u.attrs) {
                    continue;
                }
                let t = &m.src[r];
                let t = map_use(t);
                if !t.trim().is_empty() {
                    out.push(&format!("#[allow(unused_imports)] {}\n", t));
                }
            }
            syn::Item::Mod(i) => {
                out.dropped.push(format!("module {}::{} (test support)", m.name, i.ident));
            }
            syn::Item::Struct(s) => emit_type_item(
                m, out, &s.attrs, &s.vis, &s.ident.to_string(), &s.generics, r,
                s.fields.iter().collect(), vec![], s.struct_token.span().byte_range(), cfg,
            ),
            syn::Item::Enum(s) => emit_type_item(
                m, out, &s.attrs, &s.vis, &s.ident.to_string(), &s.generics, r,
                vec![], s.variants.iter().collect(), s.enum_token.span().byte_range(), cfg,
            ),
            syn::Item::Type(t) => {
                let mut ed = Edits::default();
                for a in &t.attrs {
                    ed.rep(a.span().byte_range(), "");
                }
                match &t.vis {
                    syn::Visibility::Inherited => ed.ins(t.type_token.span().byte_range().start, "pub "),
                    v => ed.rep(v.span().byte_range(), "pub"),
                }
                let s = ed.apply(m.src, r);
                out.push(&map_use(&s));
                out.push("\n");
            }
            syn::Item::Const(c) => {
                let mut ed = Edits::default();
                for a in &c.attrs {
                    ed.rep(a.span().byte_range(), "");
                }
                match &c.vis {
                    syn::Visibility::Inherited => ed.ins(c.const_token.span().byte_range().start, "pub "),
                    v => ed.rep(v.span().byte_range(), "pub"),
                }
                let s = ed.apply(m.src, r);
                out.push(&s);
                out.push("\n");
            }
            syn::Item::Fn(f) => {
                if is_cfg_test(&f.attrs) {
                    out.dropped.push(format!("{}::{} (cfg'd out)", m.name, f.sig.ident));
                    continue;
                }
                let key = format!("{}::{}", m.name, f.sig.ident);
                if cfg.contracts.skip.contains(&key) {
                    out.dropped.push(format!("{} (skipped by contract file)", key));
                    continue;
                }
                emit_fn(cfg, m, out, &key, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), r, "", &lifted, None);
            }
            syn::Item::Trait(t) => {
                let mut ed = Edits::default();
                for a in &t.attrs {
                    ed.rep(a.span().byte_range(), "");
                }
                let key = format!("{}::{}", m.name, t.ident);
                if cfg.contracts.skip.contains(&key) {
                    out.dropped.push(format!("trait {} (skipped by contract file)", key));
                    continue;
                }
                let ob = t.brace_token.span.open().byte_range();
                let cb = t.brace_token.span.close().byte_range();
                let head = ed.apply(m.src, r.start..ob.end);
                out.push(&head);
                out.push("\n");
                if let Some(x) = cfg.contracts.in_impl.get(&key) {
                    out.push(x);
                    out.push("\n");
                }
                for ti in &t.items {
                    match ti {
                        syn::TraitItem::Fn(f) => {
                            let k = format!("{}::{}", key, f.sig.ident);
                            emit_fn(cfg, m, out, &k, &f.attrs, None, &f.sig, f.default.as_ref(), ti.span().byte_range(), "", &lifted, None);
                        }
                        _ => {
                            out.push(&m.src[ti.span().byte_range()]);
                            out.push("\n");
                        }
                    }
                }
                let _ = cb;
                out.push("}\n");
            }
            syn::Item::Impl(im) => {
                if is_cfg_test(&im.attrs) {
                    continue;
                }
                let ty = type_name(&im.self_ty);
                let ob0 = im.brace_token.span.open().byte_range();
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let (ig, _, wc) = im.generics.split_for_impl();
                let ig = quote::ToTokens::to_token_stream(&ig).to_string();
                let wc = wc.map(|w| quote::ToTokens::to_token_stream(w).to_string()).unwrap_or_default();
                let selfty = m.src[im.self_ty.span().byte_range()].to_string();
                let mut base = format!("{}::{}", m.name, ty);
                if let Some(tr) = &tr {
                    if tr == "Display" || tr == "Debug" {
                        out.push(&format!(
                            "#[verifier::external] impl{ig} std::fmt::{tr} for {selfty} {wc} {{ fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ unimplemented!() }} }}\n"
                        ));
                        out.dropped.push(format!("body of impl {} for {}", tr, base));
                        continue;
                    }
                    // generic arguments of the trait are part of the key: From<&Literal>
                    let targs = im.trait_.as_ref().and_then(|(_, p, _)| match &p.segments.last().unwrap().arguments {
                        syn::PathArguments::AngleBracketed(a) => Some(quote::ToTokens::to_token_stream(&a.args).to_string().replace(' ', "")),
                        _ => None,
                    });
                    let bt = match targs {
                        Some(a) => format!("{}::{}<{}>", base, tr, a),
                        None => format!("{}::{}", base, tr),
                    };
                    if cfg.contracts.skip.contains(&bt) {
                        out.dropped.push(format!("impl {} for {} (skipped by contract file)", tr, base));
                        continue;
                    }
                    let c = counts.entry(bt.clone()).or_insert(0);
                    base = if *c == 0 { bt.clone() } else { format!("{}#{}", bt, c) };
                    *c += 1;
                }
                if let Some(newname) = cfg.contracts.rec_fn.get(&base) {
                    let assoc = im.items.iter().find_map(|i| match i {
                        syn::ImplItem::Type(t) => Some(m.src[t.ty.span().byte_range()].to_string()),
                        _ => None,
                    }).unwrap_or("()".into());
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let key = format!("{}::{}", base, f.sig.ident);
                            let rec = Rec { ty: ty.clone(), method: f.sig.ident.to_string(), name: newname.clone() };
                            let at = out.text.len();
                            emit_fn(cfg, m, out, &key, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), ii.span().byte_range(), &ty, &lifted, Some(&rec));
                            let t = out.text[at..].replace("Self::Error", &assoc);
                            let t = ident_subst(&t, &[("Self".to_string(), selfty.clone())]);
                            out.text.truncate(at);
                            out.text.push_str(&t);
                            let sg = &m.src[f.sig.span().byte_range()];
                            let args: Vec<String> = f.sig.inputs.iter().map(|i| match i {
                                syn::FnArg::Typed(t) => m.src[t.pat.span().byte_range()].to_string(),
                                _ => "self".into(),
                            }).collect();
                            let head = &m.src[r.start..ob0.end];
                            out.push(&format!("{}\n{}\ntype Error = {};\n{} {{ {}({}) }}\n}}\n", head,
                                cfg.contracts.in_impl.get(&base).cloned().unwrap_or_default(), assoc, sg, newname, args.join(", ")));
                        }
                    }
                    continue;
                }
                let lower = tr.is_some() && cfg.contracts.lower.contains(&base);
                let ob = im.brace_token.span.open().byte_range();
                if lower {
                    // `impl Trait<..> for T` lowered to an inherent impl
                    out.push(&format!("impl{ig} {selfty} {wc} {{\n"));
                } else {
                    let mut ed = Edits::default();
                    for a in &im.attrs {
                        ed.rep(a.span().byte_range(), "");
                    }
                    out.push(&ed.apply(m.src, r.start..ob.end));
                    out.push("\n");
                }
                if let Some(x) = cfg.contracts.in_impl.get(&base) {
                    out.push(x);
                    out.push("\n");
                }
                let mut late = vec![];
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(f) => {
                            let key = format!("{}::{}", base, f.sig.ident);
                            let vis = if tr.is_some() && !lower { None } else { Some(&f.vis) };
                            emit_fn(cfg, m, out, &key, &f.attrs, vis, &f.sig, Some(&f.block), ii.span().byte_range(), &ty, &lifted, None);
                        }
                        syn::ImplItem::Const(c) => {
                            let tyr = &m.src[c.ty.span().byte_range()];
                            let ex = &m.src[c.expr.span().byte_range()];
                            late.push(format!("pub const VP_{}_{}: {} = {};\n", ty.to_uppercase(), c.ident, tyr, ex));
                            out.dropped.push(format!("associated const {}::{} lifted to a free const", base, c.ident));
                        }
                        syn::ImplItem::Type(_) if lower => {}
                        _ => {
                            out.push(&m.src[ii.span().byte_range()]);
                            out.push("\n");
                        }
                    }
                }
                out.push("}\n");
                for l in late {
                    out.push(&l);
                }
                if let Some(x) = cfg.contracts.after_type.get(&base) {
                    out.push(x);
                    out.push("\n");
                }
            }
            other => {
                out.dropped.push(format!("{}: {:.60}", m.name, quote::ToTokens::to_token_stream(other).to_string()));
            }
        }
    }
    for h in std::mem::take(&mut out.hoisted) {
        out.push(&map_use(&h));
        out.push("\n");
    }
    if let Some(x) = cfg.contracts.module_tail.get(&m.name) {
        out.push(x);
        out.push("\n");
    }
    out.push("}\n");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // weaver SRC_DIR CONTRACT_DIR OUT_RS OUT_JSON [--disable key]...
    let src_dir = &args[1];
    let con_dir = &args[2];
    let out_rs = &args[3];
    let out_json = &args[4];
    let mut disabled = BTreeSet::new();
    let mut strong = BTreeSet::new();
    let mut only: Option<Vec<String>> = None;
    let mut noinline = false;
    let mut canary = false;
    let mut unit = String::from("core");
    let mut i = 5;
    while i < args.len() {
        if args[i] == "--disable" {
            disabled.insert(args[i + 1].clone());
            i += 1;
        } else if args[i] == "--strong" {
            strong.insert(args[i + 1].clone());
            i += 1;
        } else if args[i] == "--no-inline" {
            noinline = true;
        } else if args[i] == "--canary" {
            canary = true;
        } else if args[i] == "--unit" {
            unit = args[i + 1].clone();
            i += 1;
        } else if args[i] == "--modules" {
            only = Some(args[i + 1].split(',').map(|s| s.to_string()).collect());
            i += 1;
        }
        i += 1;
    }
    let contracts = contract::load(con_dir, &unit);
    let mods = only.unwrap_or_else(|| contracts.modules.clone());
    let modules: Vec<(String, String)> = mods
        .iter()
        .map(|n| (n.clone(), contracts.module_path.get(n).cloned().unwrap_or(format!("{}.rs", n))))
        .collect();
    let cfg = Cfg { modules, disabled, strong, contracts, inline: !noinline, canary };
    let mut out = Out { text: String::new(), line: 1, fns: vec![], clause_lines: vec![], dropped: vec![], hoisted: vec![] };
    out.push("// GENERATED by /verif/weaver from the crate's source on every run. Do not edit.\n");
    out.push("#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, non_snake_case, unused_labels)]\n");
    out.push("use vstd::prelude::*;\nverus! {\n");
    let pre = contract::files(con_dir, &unit);
    for p in &pre {
        if p.extension().map(|e| e == "rs").unwrap_or(false) {
            let st = out.line;
            let t = fs::read_to_string(p).unwrap();
            out.push(&t);
            out.push("\n");
            out.fns.push(FnRec {
                key: format!("[{}]", p.file_name().unwrap().to_string_lossy()),
                start: st, end: out.line, contract: true, external: false, loops_expected: 0, loops_found: 0,
                anchors_ok: true, notes: vec![], soft: false, has_body: false, src_file: p.display().to_string(), src_line: 1,
            });
        }
    }
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut inlined: Vec<String> = vec![];
    for (name, path) in &cfg.modules {
        let p = format!("{}/{}", src_dir, path);
        let mut src = fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p, e));
        let mut file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("parse error in {}: {}", p, e);
                std::process::exit(3);
            }
        };
        if cfg.inline && src.len() < 1_000_000 {
            for _ in 0..60 {
                match inline::inline_pass(name, &src, &file, &cfg) {
                    Some((s2, done)) => {
                        inlined.extend(done);
                        src = s2;
                        file = syn::parse_file(&src).unwrap_or_else(|e| panic!("re-parse after inlining: {}", e));
                    }
                    None => break,
                }
            }
        }
        let m = Module { name: name.clone(), path: path.clone(), src: &src, file: &file };
        emit_module(&cfg, &m, &mut out);
    }
    out.push("}\nfn main() {}\n");
    for f in &mut out.fns {
        seen.insert(f.key.clone());
        if inlined.contains(&f.key) {
            f.soft = true;
        }
    }
    let missing: Vec<String> = cfg
        .contracts
        .fns
        .keys()
        .filter(|k| !seen.contains(*k) && cfg.modules.iter().any(|(m, _)| k.starts_with(&format!("{}::", m))))
        .cloned()
        .collect();
    fs::write(out_rs, &out.text).unwrap();
    let j = serde_json::json!({
        "fns": out.fns.iter().map(|f| serde_json::json!({
            "key": f.key, "start": f.start, "end": f.end, "contract": f.contract, "external": f.external,
            "loops_expected": f.loops_expected, "loops_found": f.loops_found, "anchors_ok": f.anchors_ok,
            "notes": f.notes, "soft": f.soft, "has_body": f.has_body, "file": f.src_file, "line": f.src_line,
            "trusted_reason": cfg.contracts.fns.get(&f.key).and_then(|c| c.external.clone()),
            "tags": cfg.contracts.fns.get(&f.key).map(|c| c.tags.clone()).unwrap_or_default(),
        })).collect::<Vec<_>>(),
        "clauses": out.clause_lines.iter().map(|(l, k, t)| serde_json::json!({"line": l, "fn": k, "tags": t})).collect::<Vec<_>>(),
        "dropped": out.dropped,
        "missing": missing,
        "inlined": inlined,
    });
    fs::write(out_json, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

/// The string literals a pattern is made of: Some(Some(list)); None inside for a catch-all;
/// None when the pattern is something else.
fn str_pats(p: &syn::Pat) -> Option<Option<Vec<String>>> {
    match p {
        syn::Pat::Wild(_) => Some(None),
        syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(None),
        syn::Pat::Paren(p) => str_pats(&p.pat),
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(Some(vec![s.token().to_string()])),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                match str_pats(c)? {
                    Some(x) => v.extend(x),
                    None => return Some(None),
                }
            }
            Some(Some(v))
        }
        _ => None,
    }
}

/// What a string literal contains, spelled out for the verifier.
fn str_hint(tok: &str) -> String {
    let v = match syn::parse_str::<syn::LitStr>(tok) {
        Ok(l) => l.value(),
        Err(_) => return String::new(),
    };
    let mut t = format!("proof {{ reveal_strlit({tok}); ");
    for (i, c) in v.chars().enumerate() {
        t.push_str(&format!("assert({tok}@[{i}] == {c:?}); "));
    }
    t.push_str("} ");
    t
}

/// `{ ..; Err(ValidateError::X(..)) }`: the variant X.
fn err_result(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Block(b) => match b.block.stmts.last() {
            Some(syn::Stmt::Expr(x, None)) => {
                if b.block.stmts[..b.block.stmts.len() - 1].iter().all(|s| matches!(s, syn::Stmt::Local(_))) {
                    err_result(x)
                } else {
                    None
                }
            }
            _ => None,
        },
        syn::Expr::Call(c) => {
            if let syn::Expr::Path(p) = &*c.func {
                if p.path.is_ident("Err") && c.args.len() == 1 {
                    let s = err_ctor(&c.args[0])?;
                    return s.split(" is ").nth(1).map(|s| s.trim_end_matches(',').to_string());
                }
            }
            None
        }
        _ => None,
    }
}

fn upper(s: &str) -> bool {
    s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false)
}

/// An expression that only names, selects and puts together.
fn is_plain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
        syn::Expr::Field(f) => is_plain(&f.base),
        syn::Expr::Paren(p) => is_plain(&p.expr),
        syn::Expr::Tuple(t) => t.elems.iter().all(is_plain),
        syn::Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| is_plain(&f.expr)),
        syn::Expr::Call(c) => {
            matches!(&*c.func, syn::Expr::Path(p) if upper(&p.path.segments.last().unwrap().ident.to_string())) && c.args.iter().all(is_plain)
        }
        syn::Expr::MethodCall(m) => m.args.is_empty() && (m.method == "is_some" || m.method == "is_none") && is_plain(&m.receiver),
        _ => false,
    }
}

/// A comparison of plain expressions: bool, and its text.
fn bool_type(e: &syn::Expr, src: &str) -> Option<(String, String)> {
    fn atom(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Unary(u) => atom(&u.expr),
            syn::Expr::Paren(p) => atom(&p.expr),
            syn::Expr::Reference(r) => r.mutability.is_none() && atom(&r.expr),
            _ => is_plain(e),
        }
    }
    fn is_bool(e: &syn::Expr) -> bool {
        use syn::BinOp::*;
        match e {
            syn::Expr::Paren(p) => is_bool(&p.expr),
            syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && is_bool(&u.expr),
            syn::Expr::Binary(b) => match b.op {
                And(_) | Or(_) => is_bool(&b.left) && is_bool(&b.right),
                Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => atom(&b.left) && atom(&b.right),
                _ => false,
            },
            syn::Expr::MethodCall(m) => {
                m.args.is_empty() && ["is_some", "is_none", "is_ok", "is_err"].iter().any(|n| m.method == n) && is_plain(&m.receiver)
            }
            _ => false,
        }
    }
    is_bool(e).then(|| ("bool".to_string(), src[e.span().byte_range()].to_string()))
}

/// The type a plain constructor expression has, and its text.
fn ctor_type(e: &syn::Expr, src: &str) -> Option<(String, String)> {
    match e {
        syn::Expr::Block(b) => match &b.block.stmts[..] {
            [syn::Stmt::Expr(x, None)] => ctor_type(x, src),
            _ => None,
        },
        syn::Expr::Paren(p) => ctor_type(&p.expr, src),
        _ if !is_plain(e) => None,
        _ => {
            let path = match e {
                syn::Expr::Path(p) => {
                    if p.path.segments.len() < 2 {
                        return None;
                    }
                    &p.path
                }
                syn::Expr::Struct(s) => &s.path,
                syn::Expr::Call(c) => match &*c.func {
                    syn::Expr::Path(p) => &p.path,
                    _ => return None,
                },
                _ => return None,
            };
            let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = segs.last().unwrap();
            if !upper(last) || ["Ok", "Err", "Some", "None"].contains(&last.as_str()) {
                return None;
            }
            let ty = if segs.len() >= 2 && upper(&segs[segs.len() - 2]) { segs[..segs.len() - 1].join("::") } else { segs.join("::") };
            Some((ty, src[e.span().byte_range()].to_string()))
        }
    }
}

/// `ValidateError::X(..)`, `mismatch(..)`: the specification of a closure with that body.
fn err_ctor(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Block(b) => match b.block.stmts.split_last() {
            Some((syn::Stmt::Expr(x, None), rest)) if rest.iter().all(|s| matches!(s, syn::Stmt::Local(_))) => err_ctor(x),
            _ => None,
        },
        syn::Expr::Paren(p) => err_ctor(&p.expr),
        syn::Expr::Call(c) => {
            if let syn::Expr::Path(p) = &*c.func {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() >= 2 && s[s.len() - 2] == "ValidateError" {
                    return Some(format!(
                        "-> (vp_o: crate::util::ValidateError) ensures vp_o is {},",
                        s[s.len() - 1]
                    ));
                }
                if s.last().unwrap() == "parse_error" {
                    return Some("-> (vp_o: CowParseError)".into());
                }
                if s.last().unwrap() == "mismatch" {
                    return Some("-> (vp_o: crate::util::ValidateError) ensures vp_o is Mismatch,".into());
                }
            }
            None
        }
        syn::Expr::Path(p) => {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.len() >= 2 && s[s.len() - 2] == "ValidateError" {
                return Some(format!(
                    "-> (vp_o: crate::util::ValidateError) ensures vp_o is {},",
                    s[s.len() - 1]
                ));
            }
            None
        }
        _ => None,
    }
}
