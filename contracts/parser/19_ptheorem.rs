// What the properties ask of the parser, as theorems about the meaning its functions are proved to have.
pub mod ptheorem {
use vstd::prelude::*;
use crate::gram::*;
use crate::cgram::*;
use crate::nomshim::*;
use crate::parser::*;
use crate::plemma::*;
use crate::ast::*;

// ---------------------------------------------------------------- C25: the text-preserving variant
pub open spec fn el1(n: nat) -> G<Rule> { m_term(g_rule(n), g_ws()) }
pub open spec fn el2(n: nat) -> G<(Rule, String)> { m_term(m_map(m_recogx(g_rule(n)), with_text()), g_ws()) }
/// p is a rule that stands in t, with its own text
pub open spec fn stands_in(t: Seq<char>, n: nat, p: (Rule, String)) -> bool {
    exists|u: Seq<char>| #![trigger sfx(u, t)] sfx(u, t) && (g_rule(n)(u) matches PR::Ok(r, x) && x == p.0 && p.1@ == used(u, r))
}
pub open spec fn alike(t: Seq<char>, k: int, n: nat, a: PR<Seq<Rule>>, b: PR<Seq<(Rule, String)>>) -> bool {
    match (a, b) {
        (PR::Ok(r, x), PR::Ok(r2, y)) => r == r2 && x.len() == y.len() && x.len() + r.len() <= k && (forall|i: int| 0 <= i < x.len() ==> x[i] == (#[trigger] y[i]).0 && stands_in(t, n, y[i])),
        (PR::Er, PR::Er) => true, (PR::Fa, PR::Fa) => true, (PR::Deep, PR::Deep) => true, _ => false }
}
pub proof fn lemma_el(t: Seq<char>, n: nat)
    requires good(g_rule(n), t.len() as int), short(t)
    ensures match (el1(n)(t), el2(n)(t)) {
        (PR::Ok(r, x), PR::Ok(r2, y)) => r == r2 && sfx(r, t) && y.0 == x && stands_in(t, n, y),
        (PR::Er, PR::Er) => true, (PR::Fa, PR::Fa) => true, (PR::Deep, PR::Deep) => true, _ => false }
{
    broadcast use {sfx_self, sfx_trans, axiom_mk_string, axiom_mk_str};
    good_tokens(t.len() as int);
    match g_rule(n)(t) {
        PR::Ok(r, x) => { assert(sfx(t, t)); assert(sfx(r, t)); assert(short(used(t, r))); }
        _ => {}
    }
}
pub proof fn lemma_stands(t: Seq<char>, u: Seq<char>, n: nat, p: (Rule, String))
    requires sfx(u, t), stands_in(u, n, p) ensures stands_in(t, n, p)
{
    broadcast use sfx_trans;
    let v = choose|v: Seq<char>| #![trigger sfx(v, u)] sfx(v, u) && (g_rule(n)(v) matches PR::Ok(r, x) && x == p.0 && p.1@ == used(v, r));
    assert(sfx(v, t));
}
pub proof fn lemma_alike(t: Seq<char>, n: nat)
    requires good(g_rule(n), t.len() as int), short(t)
    ensures alike(t, t.len() as int, n, many(el1(n), t), many(el2(n), t))
    decreases t.len()
{
    lemma_el(t, n);
    match (el1(n)(t), el2(n)(t)) {
        (PR::Ok(r, x), PR::Ok(r2, y)) => {
            if r.len() < t.len() {
                good_mono(g_rule(n), t.len() as int, r.len() as int);
                lemma_alike(r, n);
                match (many(el1(n), r), many(el2(n), r)) {
                    (PR::Ok(q, xs), PR::Ok(q2, ys)) => {
                        let x2 = seq![x] + xs; let y2 = seq![y] + ys;
                        assert forall|i: int| 0 <= i < x2.len() implies x2[i] == (#[trigger] y2[i]).0 && stands_in(t, n, y2[i]) by {
                            if i > 0 { assert(y2[i] == ys[i - 1]); lemma_stands(t, r, n, ys[i - 1]); }
                        }
                    }
                    _ => {}
                }
            }
        }
        _ => {}
    }
}
pub open spec fn vec_part<A>(g: PR<Vec<A>>) -> PR<Seq<A>> { match g { PR::Ok(r, x) => PR::Ok(r, x@), PR::Er => PR::Er, PR::Fa => PR::Fa, PR::Deep => PR::Deep } }
pub proof fn lemma_alike1(u: Seq<char>, n: nat)
    requires good(g_rule(n), u.len() as int), short(u)
    ensures alike(u, (u.len() + 1) as int, n, vec_part(m_many1(el1(n))(u)), vec_part(m_many1(el2(n))(u)))
{
    hide(g_rule); hide(g_ws);
    broadcast use {axiom_mk_vec};
    lemma_el(u, n);
    match (el1(n)(u), el2(n)(u)) {
        (PR::Ok(r, x), PR::Ok(_, y)) => {
            good_mono(g_rule(n), u.len() as int, r.len() as int);
            lemma_alike(r, n);
            match (many(el1(n), r), many(el2(n), r)) {
                (PR::Ok(q, xs), PR::Ok(_, ys)) => {
                    let x2 = seq![x] + xs; let y2 = seq![y] + ys;
                    assert(shortv(x2)); assert(shortv(y2));
                    assert(mk_vec(x2)@ == x2); assert(mk_vec(y2)@ == y2);
                    assert forall|i: int| 0 <= i < x2.len() implies x2[i] == (#[trigger] y2[i]).0 && stands_in(u, n, y2[i]) by {
                        if i > 0 { assert(y2[i] == ys[i - 1]); lemma_stands(u, r, n, ys[i - 1]); }
                    }
                }
                _ => {}
            }
        }
        _ => {}
    }
}
/// Both variants give the same rules in the same order, or both refuse; each rule comes with the
/// text it was parsed from.
pub proof fn theorem_C25_parse(t: Seq<char>)
    requires short(t)
    ensures match (parse(t), parse_rules(t)) {
        (Some(p), Some(r)) => r =~= p.map_values(|x: (Rule, Seq<char>)| x.0)
            && forall|i: int| 0 <= i < p.len() ==> exists|u: Seq<char>| #![trigger sfx(u, t)] sfx(u, t) && (g_rule(level(t))(u) matches PR::Ok(q, x) && x == (#[trigger] p[i]).0 && p[i].1 == used(u, q)),
        (None, None) => true,
        _ => false }
{
    hide(g_rule); hide(g_ws);
    broadcast use {sfx_self, sfx_trans, axiom_mk_vec};
    reveal(g_cddl); reveal(g_cddl_slice);
    theorem_C24_decided(t);
    good_tokens(t.len() as int);
    let n = level(t);
    if let PR::Ok(u, _) = g_ws()(t) {
        good_mono(g_rule(n), t.len() as int, u.len() as int);
        lemma_alike1(u, n);
        if let Some(p) = parse(t) {
            let y2 = m_many1(el2(n))(u)->Ok_1@;
            assert forall|i: int| 0 <= i < p.len() implies exists|v: Seq<char>| #![trigger sfx(v, t)] sfx(v, t) && (g_rule(level(t))(v) matches PR::Ok(q, x) && x == (#[trigger] p[i]).0 && p[i].1 == used(v, q)) by {
                lemma_stands(t, u, n, y2[i]);
                assert(stands_in(t, n, y2[i]));
            }
        }
    }
}
/// the same, flattened
pub proof fn theorem_C25_flatten(t: Seq<char>)
    requires short(t)
    ensures match (parse(t), parse_rules(t)) {
        (Some(p), Some(r)) => match crate::fspec::fl_rules_text(p) {
            Ok(m) => crate::fspec::fl_rules(r) == Ok::<crate::fspec::Rules, crate::spec::Out>(m.map_values(|x: (crate::fspec::SRule, Seq<char>)| x.0)),
            Err(o) => crate::fspec::fl_rules(r) == Err::<crate::fspec::Rules, crate::spec::Out>(o) },
        (None, None) => true,
        _ => false }
{
    theorem_C25_parse(t);
    if let Some(p) = parse(t) {
        crate::fspec::theorem_C25_variant(p);
        assert(parse_rules(t)->Some_0 =~= p.map_values(|x: (Rule, Seq<char>)| x.0));
    }
}
}
