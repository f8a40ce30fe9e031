//! Inlining of helper functions that have no contract: a caller under contract is judged with the
//! helper's body in the place of the call.
use crate::Cfg;
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Names(Vec<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        collect_pat(&l.pat, &mut self.0);
        visit::visit_local(self, l);
    }
}
fn collect_pat(p: &syn::Pat, v: &mut Vec<String>) {
    match p {
        syn::Pat::Ident(i) => v.push(i.ident.to_string()),
        syn::Pat::Type(t) => collect_pat(&t.pat, v),
        syn::Pat::Tuple(t) => t.elems.iter().for_each(|p| collect_pat(p, v)),
        syn::Pat::Struct(t) => t.fields.iter().for_each(|f| collect_pat(&f.pat, v)),
        _ => {}
    }
}
pub fn local_names(b: &syn::Block) -> Vec<String> {
    let mut n = Names(vec![]);
    n.visit_block(b);
    n.0
}

/// A function without a contract whose calls can be replaced by its body.
struct Helper {
    name: String,
    self_ty: Option<String>,
    recv: Option<String>,
    params: Vec<(String, Option<String>, bool, String)>, // pattern, name when it is one, `mut`, type
    ret: String,
    body: std::ops::Range<usize>,
    /// the body without `return`, when it can be written so
    straight: Option<String>,
    flow: Flow,
    bound: BTreeSet<String>,
    free: BTreeSet<String>,
    self_uses: Vec<std::ops::Range<usize>>,
    self_plain: bool,
    uses_self_ty: bool,
    whole: std::ops::Range<usize>,
    public: bool,
}

#[derive(Default)]
struct Flow {
    question: bool,
    ret_err: bool,
    ret_other: bool,
    unknown: bool,
}
impl<'ast> Visit<'ast> for Flow {
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {
        self.unknown = true;
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        let err = match e.expr.as_deref() {
            Some(syn::Expr::Call(c)) => matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")),
            _ => false,
        };
        if err {
            self.ret_err = true
        } else {
            self.ret_other = true
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let t = m.tokens.to_string();
        if t.contains('?') || t.contains("return") {
            self.unknown = true;
        }
    }
}

struct Paths {
    used: BTreeSet<String>,
    self_uses: Vec<std::ops::Range<usize>>,
    bare_self: usize,
    base_self: usize,
    self_ty: bool,
    calls: BTreeSet<String>,
}
impl<'ast> Visit<'ast> for Paths {
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if i == "self" {
                self.self_uses.push(p.span().byte_range());
                self.bare_self += 1;
            } else {
                self.used.insert(i.to_string());
            }
        }
        if let Some(l) = p.path.segments.last() {
            self.calls.insert(l.ident.to_string());
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_path_segment(&mut self, s: &'ast syn::PathSegment) {
        if s.ident == "Self" {
            self.self_ty = true;
        }
        visit::visit_path_segment(self, s);
    }
    fn visit_expr_field(&mut self, f: &'ast syn::ExprField) {
        if is_self(&f.base) {
            self.base_self += 1;
        }
        visit::visit_expr_field(self, f);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if is_self(&m.receiver) {
            self.base_self += 1;
        }
        self.calls.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let t = m.tokens.to_string();
        if t.contains("self") {
            self.bare_self += 1000;
        }
        let mut w = String::new();
        for ch in t.chars().chain(" ".chars()) {
            if ch.is_alphanumeric() || ch == '_' {
                w.push(ch);
            } else if !w.is_empty() {
                self.used.insert(std::mem::take(&mut w));
            }
        }
    }
}
fn is_self(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Path(p) if p.path.is_ident("self"))
}
fn cfg_out(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test"))
}

struct Func<'a> {
    key: String,
    self_ty: Option<String>,
    sig: &'a syn::Signature,
    block: &'a syn::Block,
    whole: std::ops::Range<usize>,
    public: bool,
    plain_impl: bool,
}
fn functions<'a>(m: &str, file: &'a syn::File) -> Vec<Func<'a>> {
    let mut v = vec![];
    for it in &file.items {
        match it {
            syn::Item::Fn(f) if !cfg_out(&f.attrs) => v.push(Func {
                key: format!("{}::{}", m, f.sig.ident),
                self_ty: None,
                sig: &f.sig,
                block: &f.block,
                whole: it.span().byte_range(),
                public: matches!(f.vis, syn::Visibility::Public(_)),
                plain_impl: true,
            }),
            syn::Item::Impl(im) if !cfg_out(&im.attrs) => {
                let ty = match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => continue,
                };
                for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        if !cfg_out(&f.attrs) {
                            v.push(Func {
                                key: format!("{}::{}::{}", m, ty, f.sig.ident),
                                self_ty: Some(ty.clone()),
                                sig: &f.sig,
                                block: &f.block,
                                whole: x.span().byte_range(),
                                public: matches!(f.vis, syn::Visibility::Public(_)),
                                plain_impl: im.trait_.is_none(),
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v
}

fn no_lifetimes(t: &str) -> String {
    let mut o = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' {
            o.push_str("'_");
            i += 1;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
        } else {
            o.push(cs[i]);
            i += 1;
        }
    }
    o
}
fn squeeze(t: &str) -> String {
    no_lifetimes(t).replace("<'_>", "").replace("'_", "").split_whitespace().collect()
}
fn ret_text(sig: &syn::Signature, src: &str) -> String {
    match &sig.output {
        syn::ReturnType::Default => "()".into(),
        syn::ReturnType::Type(_, t) => squeeze(&src[t.span().byte_range()]),
    }
}
/// The error type of a result type.
fn err_of(r: &str) -> Option<String> {
    if r == "ValidateResult" || r.starts_with("TempResult<") {
        return Some("ValidateError".into());
    }
    if let Some(i) = r.strip_prefix("JResult<") {
        return Some(format!("JResult:{}", i.split(',').next().unwrap_or("")));
    }
    let inner = r.strip_prefix("Result<").or_else(|| r.strip_prefix("std::result::Result<"))?.strip_suffix('>')?;
    let mut depth = 0i32;
    let mut last = None;
    for (i, c) in inner.char_indices() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => last = Some(i),
            _ => {}
        }
    }
    last.map(|i| inner[i + 1..].to_string())
}

fn helpers(src: &str, fs: &[Func], cfg: &Cfg) -> Vec<Helper> {
    let mut v = vec![];
    for f in fs {
        if cfg.contracts.fns.contains_key(&f.key) || cfg.contracts.skip.contains(&f.key) || !f.plain_impl {
            continue;
        }
        let s = f.sig;
        if s.asyncness.is_some() || s.unsafety.is_some() || s.constness.is_some() || s.generics.type_params().next().is_some() {
            continue;
        }
        if matches!(&s.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::ImplTrait(_))) {
            continue;
        }
        let mut flow = Flow::default();
        flow.visit_block(f.block);
        if flow.unknown {
            continue;
        }
        let mut p = Paths { used: BTreeSet::new(), self_uses: vec![], bare_self: 0, base_self: 0, self_ty: false, calls: BTreeSet::new() };
        p.visit_block(f.block);
        let name = s.ident.to_string();
        if p.calls.contains(&name) {
            continue;
        }
        let mut pn = PatNames(vec![]);
        pn.visit_block(f.block);
        let mut bound: BTreeSet<String> = pn.0.into_iter().collect();
        let mut params = vec![];
        let mut recv = None;
        for i in &s.inputs {
            match i {
                syn::FnArg::Receiver(r) => {
                    recv = Some(match (r.reference.is_some(), r.mutability.is_some()) {
                        (true, true) => "&mut".to_string(),
                        (true, false) => "&".to_string(),
                        _ => String::new(),
                    })
                }
                syn::FnArg::Typed(t) => {
                    bound.extend(pat_names(&t.pat));
                    let (n, mu) = match &*t.pat {
                        syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => (Some(i.ident.to_string()), i.mutability.is_some()),
                        _ => (None, false),
                    };
                    let ty = src[t.ty.span().byte_range()].to_string();
                    let ty = if ty.contains("impl ") { String::new() } else { no_lifetimes(&ty) };
                    params.push((src[t.pat.span().byte_range()].to_string(), n, mu, ty));
                }
            }
        }
        let free = p.used.difference(&bound).cloned().collect();
        let ob = f.block.brace_token.span.open().byte_range().end;
        let cb = f.block.brace_token.span.close().byte_range().start;
        v.push(Helper {
            name,
            self_ty: f.self_ty.clone(),
            recv,
            params,
            ret: ret_text(s, src),
            body: ob..cb,
            straight: if flow.ret_err || flow.ret_other { unreturn(&f.block.stmts, src) } else { None },
            flow,
            bound,
            free,
            self_uses: p.self_uses,
            self_plain: p.bare_self == p.base_self,
            uses_self_ty: p.self_ty,
            whole: f.whole.clone(),
            public: f.public,
        });
    }
    v
}

fn tails(b: &syn::Block, v: &mut Vec<std::ops::Range<usize>>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        tail_expr(e, v);
    }
}
fn tail_expr(e: &syn::Expr, v: &mut Vec<std::ops::Range<usize>>) {
    match e {
        syn::Expr::Block(b) => tails(&b.block, v),
        syn::Expr::If(i) => {
            tails(&i.then_branch, v);
            if let Some((_, x)) = &i.else_branch {
                tail_expr(x, v);
            }
        }
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| tail_expr(&a.body, v)),
        syn::Expr::Paren(p) => tail_expr(&p.expr, v),
        _ => v.push(e.span().byte_range()),
    }
}

/// The body with each `return x` in tail position written as `x`, and `if c { .. return x; } rest`
/// as `if c { .. x } else { rest }`.  None when a return is left.
fn unreturn(stmts: &[syn::Stmt], src: &str) -> Option<String> {
    let returns = |s: &syn::Stmt| {
        let mut f = Flow::default();
        f.visit_stmt(s);
        f.ret_err || f.ret_other
    };
    let t = |r: std::ops::Range<usize>| src[r].to_string();
    let mut out = String::new();
    for (i, s) in stmts.iter().enumerate() {
        let last = i + 1 == stmts.len();
        if !returns(s) {
            out.push_str(&t(s.span().byte_range()));
            out.push(' ');
            continue;
        }
        match s {
            syn::Stmt::Expr(e, semi) if last && (semi.is_none() || matches!(e, syn::Expr::Return(_))) => {
                out.push_str(&unreturn_tail(e, src)?);
                return Some(out);
            }
            syn::Stmt::Expr(syn::Expr::If(e), _) if e.else_branch.is_none() && !last => {
                let ends = match e.then_branch.stmts.last() {
                    Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => true,
                    _ => false,
                };
                let mut f = Flow::default();
                f.visit_expr(&e.cond);
                if !ends || f.ret_err || f.ret_other {
                    return None;
                }
                let a = unreturn(&e.then_branch.stmts, src)?;
                let b = unreturn(&stmts[i + 1..], src)?;
                out.push_str(&format!("if {} {{ {} }} else {{ {} }}", t(e.cond.span().byte_range()), a, b));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}
fn unreturn_tail(e: &syn::Expr, src: &str) -> Option<String> {
    let mut f = Flow::default();
    f.visit_expr(e);
    let t = |r: std::ops::Range<usize>| src[r].to_string();
    if !f.ret_err && !f.ret_other {
        return Some(t(e.span().byte_range()));
    }
    match e {
        syn::Expr::Return(r) => match &r.expr {
            Some(x) => unreturn_tail(x, src),
            None => Some("()".into()),
        },
        syn::Expr::Block(b) if b.label.is_none() => Some(format!("{{ {} }}", unreturn(&b.block.stmts, src)?)),
        syn::Expr::If(i) => {
            let mut f = Flow::default();
            f.visit_expr(&i.cond);
            if f.ret_err || f.ret_other {
                return None;
            }
            let a = unreturn(&i.then_branch.stmts, src)?;
            let b = unreturn_tail(&i.else_branch.as_ref()?.1, src)?;
            let b = if b.trim_start().starts_with('{') || b.trim_start().starts_with("if ") { b } else { format!("{{ {} }}", b) };
            Some(format!("if {} {{ {} }} else {}", t(i.cond.span().byte_range()), a, b))
        }
        syn::Expr::Match(m) => {
            let mut o = format!("match {} {{ ", t(m.expr.span().byte_range()));
            let mut f = Flow::default();
            f.visit_expr(&m.expr);
            for a in &m.arms {
                let g = match &a.guard {
                    Some((_, g)) => {
                        f.visit_expr(g);
                        format!(" if {}", t(g.span().byte_range()))
                    }
                    None => String::new(),
                };
                o.push_str(&format!("{}{} => {{ {} }} ", t(a.pat.span().byte_range()), g, unreturn_tail(&a.body, src)?));
            }
            if f.ret_err || f.ret_other {
                return None;
            }
            o.push('}');
            Some(o)
        }
        _ => None,
    }
}

struct Sites<'a> {
    src: &'a str,
    hs: &'a [Helper],
    self_ty: Option<String>,
    ret: String,
    locals: BTreeSet<String>,
    tails: Vec<std::ops::Range<usize>>,
    closure: usize,
    tried: Option<std::ops::Range<usize>>,
    found: Option<(std::ops::Range<usize>, String, String)>,
}
impl<'a> Sites<'a> {
    fn site(&mut self, r: std::ops::Range<usize>, h: &Helper, recv: Option<&syn::Expr>, args: Vec<&syn::Expr>) {
        if self.found.is_some() || h.params.len() != args.len() {
            return;
        }
        let other_self = recv.is_some_and(|x| !is_self(x));
        let straight = h.straight.clone().filter(|_| !other_self);
        let clean = !h.flow.question && (straight.is_some() || !h.flow.ret_err && !h.flow.ret_other);
        let tail = self.closure == 0 && self.tails.contains(&r) && self.ret == h.ret;
        let tried = self.closure == 0 && self.tried.as_ref() == Some(&r) && (straight.is_some() || !h.flow.ret_other) && err_of(&h.ret).is_some() && err_of(&h.ret) == err_of(&self.ret);
        if !(clean || tail || tried) {
            return;
        }
        if h.uses_self_ty && h.self_ty != self.self_ty {
            return;
        }
        if h.free.iter().any(|n| self.locals.contains(n)) {
            return;
        }
        let mut body = match straight {
            Some(b) if !tail => b,
            _ => self.src[h.body.clone()].to_string(),
        };
        if let Some(x) = recv {
            if !is_self(x) {
                let n = match x {
                    syn::Expr::Path(p) => match p.path.get_ident() {
                        Some(i) => i.to_string(),
                        None => return,
                    },
                    _ => return,
                };
                if !h.self_plain || h.bound.contains(&n) {
                    return;
                }
                let mut us = h.self_uses.clone();
                us.sort_by_key(|u| u.start);
                for u in us.iter().rev() {
                    body.replace_range(u.start - h.body.start..u.end - h.body.start, &n);
                }
            } else if h.recv.as_deref() == Some("") || h.self_ty != self.self_ty {
                return;
            }
        }
        let texts: Vec<String> = args.iter().map(|a| self.src[a.span().byte_range()].to_string()).collect();
        let same = |i: usize| h.params[i].1.as_ref() == Some(&texts[i]) && !h.params[i].2;
        let word = |t: &str, n: &str| t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == n);
        let clash = (0..args.len()).any(|i| {
            !same(i) && (0..args.len()).any(|j| i != j && !same(j) && h.params[j].1.as_ref().is_none_or(|n| word(&texts[i], n)))
        });
        let colon = |t: &str| if t.is_empty() { String::new() } else { format!(": {}", t) };
        let (mut pre, mut lets) = (String::new(), String::new());
        for i in 0..args.len() {
            if same(i) {
                continue;
            }
            let (pat, _, _, ty) = &h.params[i];
            if clash {
                pre.push_str(&format!("let vp_i{}_{}{} = {}; ", r.start, i, colon(ty), texts[i]));
                lets.push_str(&format!("let {}{} = vp_i{}_{}; ", pat, colon(ty), r.start, i));
            } else {
                lets.push_str(&format!("let {}{} = {}; ", pat, colon(ty), texts[i]));
            }
        }
        let t = format!("{{ {}{}{} }}", pre, lets, body);
        let t = if tail { t } else { format!("({})", t) };
        self.found = Some((r, t, h.name.clone()));
    }
}
impl<'a, 'ast> Visit<'ast> for Sites<'a> {
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closure += 1;
        visit::visit_expr_closure(self, c);
        self.closure -= 1;
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        if self.closure == 0 {
            self.tried = Some(e.expr.span().byte_range());
        }
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        if let (0, Some(x)) = (self.closure, &e.expr) {
            tail_expr(x, &mut self.tails);
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let hs = self.hs;
            let h = match &segs[..] {
                [n] => hs.iter().find(|h| h.self_ty.is_none() && h.name == *n),
                [t, n] => hs.iter().find(|h| {
                    h.recv.is_none() && h.name == *n && h.self_ty.is_some() && (h.self_ty.as_ref() == Some(t) || (t == "Self" && h.self_ty == self.self_ty))
                }),
                _ => None,
            };
            if let Some(h) = h {
                self.site(e.span().byte_range(), h, None, e.args.iter().collect());
            }
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let hs = self.hs;
        let mut it = hs.iter().filter(|h| h.recv.is_some() && e.method == h.name);
        if let (Some(h), None) = (it.next(), it.next()) {
            self.site(e.span().byte_range(), h, Some(&e.receiver), e.args.iter().collect());
        }
        visit::visit_expr_method_call(self, e);
    }
}

/// Replace one call of a function that has no contract by its body; the caller is then judged with
/// that text in place.  Returns the new source and the function the call was in.
pub fn inline_pass(m: &str, src: &str, file: &syn::File, cfg: &Cfg) -> Option<(String, Option<String>)> {
    let fs = functions(m, file);
    let hs = helpers(src, &fs, cfg);
    if hs.is_empty() {
        return None;
    }
    for f in &fs {
        if hs.iter().any(|h| h.whole == f.whole) {
            continue; // into the callers under contract only: helpers of helpers follow
        }
        let mut names = PatNames(vec![]);
        names.visit_signature(f.sig);
        names.visit_block(f.block);
        let mut t = vec![];
        tails(f.block, &mut t);
        let mut s = Sites {
            src,
            hs: &hs,
            self_ty: f.self_ty.clone(),
            ret: ret_text(f.sig, src),
            locals: names.0.into_iter().collect(),
            tails: t,
            closure: 0,
            tried: None,
            found: None,
        };
        s.visit_block(f.block);
        if let Some((r, t, _)) = s.found {
            let out = format!("{}{}{}", &src[..r.start], t, &src[r.end..]);
            return Some((out, Some(f.key.clone())));
        }
    }
    // a private helper no longer called from a function under contract is left out
    for h in &hs {
        if h.public {
            continue;
        }
        let mut used = false;
        for f in &fs {
            if f.whole == h.whole {
                continue;
            }
            let mut p = Paths { used: BTreeSet::new(), self_uses: vec![], bare_self: 0, base_self: 0, self_ty: false, calls: BTreeSet::new() };
            p.visit_block(f.block);
            used |= p.calls.contains(&h.name) || p.used.contains(&h.name);
        }
        if !used {
            let out = format!("{}{}{}", &src[..h.whole.start], " ".repeat(0), &src[h.whole.end..]);
            return Some((out, None));
        }
    }
    None
}

struct PatNames(Vec<String>);
impl<'ast> Visit<'ast> for PatNames {
    fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
        self.0.push(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
}
/// Every name a pattern binds.
pub fn pat_names(p: &syn::Pat) -> Vec<String> {
    let mut v = PatNames(vec![]);
    v.visit_pat(p);
    v.0
}

pub struct StrLits(pub Vec<(std::ops::Range<usize>, String)>);
impl<'ast> Visit<'ast> for StrLits {
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        if let syn::Pat::Lit(l) = p {
            if let syn::Lit::Str(s) = &l.lit {
                use syn::spanned::Spanned;
                self.0.push((p.span().byte_range(), s.token().to_string()));
            }
        }
        visit::visit_pat(self, p);
    }
}
/// String literals nested in a pattern, with their places.
pub fn pat_str_lits(p: &syn::Pat) -> Vec<(std::ops::Range<usize>, String)> {
    let mut v = StrLits(vec![]);
    v.visit_pat(p);
    v.0
}
