//! The reference: rule trees and what they accept, written from RFC 8610 and the documented
//! behaviour, sharing no code with the crate.  The contracts (contracts/10_spec.rs) state the
//! same thing as ghost functions; this executable copy only searches for concrete inputs.
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum L { Bool(bool), Int(i128), Float(f64), Text(String), Bytes(Vec<u8>) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P { Any, Nil, Bool, Int, Uint, Nint, Float, Tstr, Bstr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K { Lt, Le, Gt, Ge }
#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Lit(L),
    Pre(P),
    Rule(String, Vec<N>),
    Choice(Vec<N>),
    Map(Vec<N>),
    Array(Vec<N>),
    Group(Vec<N>),
    KV(Box<N>, Box<N>, bool),
    Occ(Oc, Box<N>),
    Unwrap(String, Vec<N>),
    Range(Box<N>, Box<N>, bool),
    Size(Box<N>, Box<N>),
    Cmp(K, Box<N>, Box<N>),
    Regexp(String),
    Cbor(Box<N>),
    Choiceify(String, Vec<N>),
    ChoiceifyInline(Vec<N>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Oc { Opt, Star, Plus, Num(usize, usize) }
impl Oc {
    pub fn limits(self) -> (usize, usize) {
        match self { Oc::Opt => (0, 1), Oc::Star => (0, usize::MAX), Oc::Plus => (1, usize::MAX), Oc::Num(a, b) => (a, b) }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Def { pub parms: Vec<String>, pub node: N }
pub type Rules = BTreeMap<String, Def>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E { Parse, Structural, Missing, Unsupported, Value, Generic }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad { Mis, Cut, Fatal(E), Unknown }
pub type R = Result<(), Bad>;
use Bad::*;

pub struct Scope { gen: BTreeMap<String, N>, past: Option<Rc<Scope>> }
#[derive(Clone)]
pub struct Ctx { depth: usize, sc: Rc<Scope> }
pub struct Sem<'a> {
    pub rules: &'a Rules,
    pub limit: usize,
    pub desc: bool,
    pub steps: u64,
    pub budget: u64,
    pub maxdepth: usize,
    pub res: BTreeMap<String, Option<regex::Regex>>,
}
impl<'a> Sem<'a> {
    pub fn new(rules: &'a Rules, limit: usize, desc: bool, budget: u64) -> Self {
        Sem { rules, limit, desc, steps: 0, budget, maxdepth: 0, res: BTreeMap::new() }
    }
    pub fn top(&mut self, d: &Def, v: &V) -> R {
        if !d.parms.is_empty() { return Err(Fatal(E::Generic)); }
        let c = Ctx { depth: 0, sc: Rc::new(Scope { gen: BTreeMap::new(), past: None }) };
        match self.val(&d.node, v, &c) { Err(Cut) => Err(Mis), r => r }
    }
    fn tick(&mut self) -> R { self.steps += 1; if self.steps > self.budget { Err(Unknown) } else { Ok(()) } }
    fn lookup(&mut self, name: &str, args: &[N], c: &Ctx) -> Result<(N, Ctx), Bad> {
        self.tick()?;
        if let Some(n) = c.sc.gen.get(name) {
            return match &c.sc.past {
                Some(p) => Ok((n.clone(), Ctx { depth: c.depth, sc: p.clone() })),
                None => Err(Unknown),
            };
        }
        let d = match self.rules.get(name) { None => return Err(Fatal(E::Missing)), Some(d) => d };
        if d.parms.len() != args.len() { return Err(Fatal(E::Generic)); }
        if c.depth >= self.limit { return Err(Fatal(E::Structural)); }
        self.maxdepth = self.maxdepth.max(c.depth + 1);
        let mut gen = BTreeMap::new();
        for (p, a) in d.parms.iter().zip(args) { gen.insert(p.clone(), a.clone()); }
        Ok((d.node.clone(), Ctx { depth: c.depth + 1, sc: Rc::new(Scope { gen, past: Some(c.sc.clone()) }) }))
    }
    fn chase(&mut self, n: &N, c: &Ctx) -> Result<N, Bad> {
        match n {
            N::Rule(r, a) => { let (n2, c2) = self.lookup(r, a, c)?; self.chase(&n2, &c2) }
            _ => Ok(n.clone()),
        }
    }
    pub fn val(&mut self, n: &N, v: &V, c: &Ctx) -> R {
        self.tick()?;
        match n {
            N::Lit(l) => okif(lit_val(l) == *v),
            N::Pre(p) => okif(match (p, v) {
                (P::Any, _) => true,
                (P::Nil, V::Null) | (P::Bool, V::Bool(_)) | (P::Int, V::Int(_)) | (P::Float, V::Float(_)) | (P::Tstr, V::Text(_)) | (P::Bstr, V::Bytes(_)) => true,
                (P::Uint, V::Int(i)) => *i >= 0,
                (P::Nint, V::Int(i)) => *i < 0,
                _ => false,
            }),
            N::Rule(r, a) => { let (n2, c2) = self.lookup(r, a, c)?; self.val(&n2, v, &c2) }
            N::Choice(o) => self.first(o, v, c),
            N::Map(ms) => match v { V::Map(es) => self.map_top(ms, es.clone(), c), _ => Err(Mis) },
            N::Array(ms) => match v {
                V::Arr(s) => { let k = self.arr_seq(ms, s, 0, c)?; okif(k == s.len()) }
                _ => Err(Mis),
            },
            N::Group(ms) => if ms.len() == 1 { self.val(&ms[0], v, c) } else { Err(Fatal(E::Unsupported)) },
            N::KV(..) | N::Occ(..) | N::Unwrap(..) => Err(Fatal(E::Structural)),
            N::Range(a, b, incl) => {
                let a = self.chase(a, c)?;
                let a = if let N::Lit(l) = a { l } else { return Err(Fatal(E::Structural)) };
                let b = self.chase(b, c)?;
                let b = if let N::Lit(l) = b { l } else { return Err(Fatal(E::Structural)) };
                if std::mem::discriminant(&a) != std::mem::discriminant(&b) { return Err(Fatal(E::Structural)); }
                match (a, b, v) {
                    (L::Int(a), L::Int(b), V::Int(x)) => okif(a <= *x && (*x < b || (*incl && *x == b))),
                    (L::Float(a), L::Float(b), V::Float(x)) => okif(a <= x.0 && (x.0 < b || (*incl && x.0 == b))),
                    _ => Err(Mis),
                }
            }
            N::Size(t, s) => {
                let s = self.chase(s, c)?;
                let u = |n: &N| if let N::Lit(L::Int(i)) = n { u64::try_from(*i).ok() } else { None };
                let (lo, hi, incl) = match &s {
                    N::Range(a, b, incl) => match (u(a), u(b)) { (Some(a), Some(b)) => (a, b, *incl), _ => return Err(Fatal(E::Structural)) },
                    n => match u(n) { Some(a) => (a, a, true), None => return Err(Fatal(E::Structural)) },
                };
                let inside = |n: u64| lo <= n && (n < hi || (incl && n == hi));
                match (self.chase(t, c)?, v) {
                    (N::Pre(P::Uint), V::Int(i)) => {
                        if *i < 0 { return Err(Mis); }
                        let mut need = 0u64;
                        let mut x = *i;
                        while x > 0 { need += 1; x /= 256; }
                        okif(if lo == hi && incl { need <= hi } else { inside(need) })
                    }
                    (N::Pre(P::Tstr), V::Text(t)) => okif(inside(t.len() as u64)),
                    (N::Pre(P::Bstr), V::Bytes(t)) => okif(inside(t.len() as u64)),
                    (N::Pre(P::Uint), _) | (N::Pre(P::Tstr), _) | (N::Pre(P::Bstr), _) => Err(Mis),
                    _ => Err(Fatal(E::Structural)),
                }
            }
            N::Cmp(k, t, a) => {
                let a = if let N::Lit(L::Int(i)) = self.chase(a, c)? { i } else { return Err(Fatal(E::Structural)) };
                let (lo, hi) = match self.chase(t, c)? {
                    N::Pre(P::Int) => (true, true),
                    N::Pre(P::Uint) => (false, true),
                    N::Pre(P::Nint) => (true, false),
                    _ => return Err(Fatal(E::Structural)),
                };
                match v {
                    V::Int(x) => okif((if *x < 0 { lo } else { hi }) && match k { K::Lt => *x < a, K::Le => *x <= a, K::Gt => *x > a, K::Ge => *x >= a }),
                    _ => Err(Mis),
                }
            }
            N::Regexp(re) => match v {
                V::Text(t) => match self.res.entry(re.clone()).or_insert_with(|| regex::Regex::new(re).ok()) {
                    Some(r) => okif(r.is_match(t)),
                    None => Err(Unknown),
                },
                _ => Err(Mis),
            },
            N::Cbor(n) => match v {
                V::Bytes(b) => match decode(b) {
                    Dec::Ok(w) => self.val(n, &w, c),
                    Dec::Bad => Err(Fatal(E::Value)),
                    Dec::Unsure => Err(Unknown),
                },
                _ => Err(Mis),
            },
            N::Choiceify(r, a) => { let (ms, c2) = self.choiceify_group(r, a, c)?; self.choiceify(&ms, v, &c2) }
            N::ChoiceifyInline(ms) => self.choiceify(ms, v, c),
        }
    }
    fn first(&mut self, o: &[N], v: &V, c: &Ctx) -> R {
        for n in o {
            match self.val(n, v, c) { Err(Mis) | Err(Cut) => {} r => return r }
        }
        Err(Mis)
    }
    fn choiceify_group(&mut self, r: &str, a: &[N], c: &Ctx) -> Result<(Vec<N>, Ctx), Bad> {
        let (n, c2) = self.lookup(r, a, c)?;
        match n {
            N::Group(ms) => Ok((ms, c2)),
            N::Rule(r, a) => self.choiceify_group(&r, &a, &c2),
            _ => Err(Fatal(E::Structural)),
        }
    }
    fn choiceify(&mut self, ms: &[N], v: &V, c: &Ctx) -> R {
        for n in ms {
            let r = match n {
                N::KV(_, x, _) => self.val(x, v, c),
                N::Rule(r, a) => match self.choiceify_group(r, a, c) { Ok((ms, c2)) => self.choiceify(&ms, v, &c2), Err(e) => Err(e) },
                n => self.val(n, v, c),
            };
            match r { Err(Mis) | Err(Cut) => {} r => return r }
        }
        Err(Mis)
    }
    /// Match one member against s[k..]; gives the new position.
    fn arr(&mut self, n: &N, s: &[V], k: usize, c: &Ctx) -> Result<usize, Bad> {
        self.tick()?;
        match n {
            N::Occ(o, n) => {
                let (lo, hi) = o.limits();
                let mut k = k;
                let mut done = 0usize;
                loop {
                    if done >= hi { break; }
                    match self.arr(n, s, k, c) {
                        Ok(j) if j > k => { k = j; done += 1; }
                        Ok(_) => { done = hi; break; }
                        Err(Mis) => break,
                        Err(e) => return Err(e),
                    }
                }
                if done < lo { Err(Mis) } else { Ok(k) }
            }
            N::KV(_, x, _) => self.arr_one(x, s, k, c),
            N::Rule(r, a) => { let (n2, c2) = self.lookup(r, a, c)?; self.arr(&n2, s, k, &c2) }
            N::Unwrap(r, a) => match self.lookup(r, a, c)? {
                (N::Array(ms), c2) => self.arr_seq(&ms, s, k, &c2),
                _ => Err(Mis),
            },
            N::Choice(o) => {
                for n in o {
                    match self.arr(n, s, k, c) { Err(Mis) | Err(Cut) => {} r => return r }
                }
                Err(Mis)
            }
            N::Group(ms) => self.arr_seq(ms, s, k, c),
            n => self.arr_one(n, s, k, c),
        }
    }
    fn arr_one(&mut self, n: &N, s: &[V], k: usize, c: &Ctx) -> Result<usize, Bad> {
        if k >= s.len() { return Err(Mis); }
        self.val(n, &s[k], c)?;
        Ok(k + 1)
    }
    fn arr_seq(&mut self, ms: &[N], s: &[V], k: usize, c: &Ctx) -> Result<usize, Bad> {
        let mut k = k;
        for n in ms { k = self.arr(n, s, k, c)?; }
        Ok(k)
    }
    fn map_top(&mut self, ms: &[N], es: Vec<(V, V)>, c: &Ctx) -> R {
        let mut es = es;
        for n in ms {
            es = match self.map(n, es, c) { Ok(e) => e, Err(Cut) => return Err(Mis), Err(e) => return Err(e) };
        }
        okif(es.is_empty())
    }
    fn map_seq(&mut self, ms: &[N], es: Vec<(V, V)>, c: &Ctx) -> Result<Vec<(V, V)>, Bad> {
        let mut es = es;
        for n in ms { es = self.map(n, es, c)?; }
        Ok(es)
    }
    fn map(&mut self, n: &N, es: Vec<(V, V)>, c: &Ctx) -> Result<Vec<(V, V)>, Bad> {
        self.tick()?;
        match n {
            N::Occ(o, n) => {
                let (lo, hi) = o.limits();
                let mut es = es;
                let mut done = 0usize;
                loop {
                    if done >= hi { break; }
                    match self.map(n, es.clone(), c) {
                        Ok(e) if e.len() < es.len() => { es = e; done += 1; }
                        Ok(_) => { done = hi; break; }
                        Err(Mis) => break,
                        Err(e) => return Err(e),
                    }
                }
                if done < lo { Err(Mis) } else { Ok(es) }
            }
            N::KV(k, x, cut) => {
                let i = self.key(k, &es, c)?;
                match self.val(x, &es[i].1, c) {
                    Ok(()) => { let mut es = es; es.remove(i); Ok(es) }
                    Err(Mis) => Err(if *cut { Cut } else { Mis }),
                    Err(e) => Err(e),
                }
            }
            N::Rule(r, a) => { let (n2, c2) = self.lookup(r, a, c)?; self.map(&n2, es, &c2) }
            N::Unwrap(r, a) => match self.lookup(r, a, c)? {
                (N::Map(ms), c2) => self.map_seq(&ms, es, &c2),
                _ => Err(Mis),
            },
            N::Group(ms) => match self.map_seq(ms, es, c) { Err(Cut) => Err(Mis), r => r },
            N::Choice(o) | N::ChoiceifyInline(o) => {
                for n in o {
                    match self.map(n, es.clone(), c) { Err(Mis) => {} r => return r }
                }
                Err(Mis)
            }
            N::Choiceify(r, a) => { let (ms, c2) = self.choiceify_group(r, a, c)?; self.map_choiceify(&ms, es, &c2) }
            _ => Err(Fatal(E::Structural)),
        }
    }
    fn map_choiceify(&mut self, ms: &[N], es: Vec<(V, V)>, c: &Ctx) -> Result<Vec<(V, V)>, Bad> {
        for n in ms {
            let r = match n {
                N::KV(_, x, _) => self.map(x, es.clone(), c),
                N::Rule(r, a) => match self.choiceify_group(r, a, c) { Ok((ms, c2)) => self.map_choiceify(&ms, es.clone(), &c2), Err(e) => Err(e) },
                n => self.map(n, es.clone(), c),
            };
            match r { Err(Mis) => {} r => return r }
        }
        Err(Mis)
    }
    fn key(&mut self, n: &N, es: &[(V, V)], c: &Ctx) -> Result<usize, Bad> {
        if let N::Lit(l) = n {
            let k = lit_val(l);
            return es.iter().position(|e| e.0 == k).ok_or(Mis);
        }
        let order: Vec<usize> = if self.desc { (0..es.len()).rev().collect() } else { (0..es.len()).collect() };
        for i in order {
            match self.val(n, &es[i].0, c) {
                Ok(()) => return Ok(i),
                Err(Mis) | Err(Cut) => {}
                Err(e) => return Err(e),
            }
        }
        Err(Mis)
    }
}
pub fn lit_val(l: &L) -> V {
    match l {
        L::Bool(b) => V::Bool(*b),
        L::Int(i) => V::Int(*i),
        L::Float(f) => V::Float(F(*f)),
        L::Text(t) => V::Text(t.clone()),
        L::Bytes(b) => V::Bytes(b.clone()),
    }
}
fn okif(b: bool) -> R { if b { Ok(()) } else { Err(Mis) } }

/// The verdict, or None when the reference does not decide (key order or depth limit matters,
/// or it is too much work).  `deep` limits: the verdict must not depend on the recursion limit.
pub fn verdict(rules: &Rules, d: &Def, v: &V) -> Option<R> {
    let mut a = Sem::new(rules, 40, false, 30_000);
    let r = a.top(d, v);
    if r == Err(Unknown) { return None; }
    if a.maxdepth >= 38 {
        let mut b = Sem::new(rules, 90, false, 60_000);
        if b.top(d, v) != r { return None; }
    }
    let mut b = Sem::new(rules, 40, true, 30_000);
    if b.top(d, v) != r { return None; }
    Some(r)
}
