// Lemmas about the grammar: at nesting level 2 * len + 2 a text of length len is decided.
pub mod plemma {
use vstd::prelude::*;
use crate::gram::*;
use crate::cgram::*;
use crate::nomshim::*;
use crate::parser::*;
use crate::ast::*;
pub broadcast proof fn sfx_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] sfx(a, b), #[trigger] sfx(b, c) ensures sfx(a, c)
{ assert(a =~= c.skip(c.len() - a.len())); }
pub broadcast proof fn sfx_skip(t: Seq<char>, i: int) ensures 0 <= i <= t.len() ==> #[trigger] sfx(t.skip(i), t) { if 0 <= i <= t.len() { assert(t.skip(i).len() == t.len() - i); } }
pub broadcast proof fn sfx_self(t: Seq<char>) ensures #[trigger] sfx(t, t) { assert(t.skip(0) =~= t); }
pub broadcast group group_p { sfx_trans, lemma_str_eq, lemma_string_eq, lemma_vec_eq, axiom_str_mk, axiom_string_mk, axiom_vec_mk, axiom_mk_str,
    crate::ivt::axiom_into_string, crate::ivt::axiom_obeys_string, crate::pshim::axiom_obeys_bytes, crate::pshim::axiom_into_bytes }

/// decides every text of length up to k, and leaves a tail of what it was given
pub open spec fn good<A>(g: G<A>, k: int) -> bool {
    forall|t: Seq<char>| #![trigger g(t)] t.len() <= k ==> !(g(t) is Deep) && (g(t) is Ok ==> sfx(g(t)->Ok_0, t))
}
/// consumes something when it succeeds
pub open spec fn eats<A>(g: G<A>) -> bool { forall|t: Seq<char>| #![trigger g(t)] g(t) is Ok ==> g(t)->Ok_0.len() < t.len() }
/// leaves a tail of what it was given
pub open spec fn shr<A>(g: G<A>) -> bool { forall|t: Seq<char>| #![trigger g(t)] g(t) is Ok ==> sfx(g(t)->Ok_0, t) }

pub broadcast proof fn lemma_wlen(q: spec_fn(char) -> bool, t: Seq<char>) ensures 0 <= #[trigger] wlen(q, t) <= t.len() decreases t.len() {
    if t.len() > 0 && q(t[0]) { lemma_wlen(q, t.skip(1)); }
}
pub broadcast proof fn good_pre<A, B>(a: G<A>, b: G<B>, k: int) requires good(a, k), good(b, k) || (eats(a) && good(b, k - 1)), ensures #[trigger] good(m_pre(a, b), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_pre<A, B>(a: G<A>, b: G<B>) requires (eats(a) && shr(b)) || (shr(a) && eats(b)), ensures #[trigger] eats(m_pre(a, b)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_pre<A, B>(a: G<A>, b: G<B>) requires shr(a), shr(b), ensures #[trigger] shr(m_pre(a, b)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_term<A, B>(a: G<A>, b: G<B>, k: int) requires good(a, k), good(b, k) || (eats(a) && good(b, k - 1)), ensures #[trigger] good(m_term(a, b), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_term<A, B>(a: G<A>, b: G<B>) requires (eats(a) && shr(b)) || (shr(a) && eats(b)), ensures #[trigger] eats(m_term(a, b)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_term<A, B>(a: G<A>, b: G<B>) requires shr(a), shr(b), ensures #[trigger] shr(m_term(a, b)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_pair<A, B>(a: G<A>, b: G<B>, k: int) requires good(a, k), good(b, k) || (eats(a) && good(b, k - 1)), ensures #[trigger] good(m_pair(a, b), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_pair<A, B>(a: G<A>, b: G<B>) requires (eats(a) && shr(b)) || (shr(a) && eats(b)), ensures #[trigger] eats(m_pair(a, b)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_pair<A, B>(a: G<A>, b: G<B>) requires shr(a), shr(b), ensures #[trigger] shr(m_pair(a, b)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_delim<A, B, C>(a: G<A>, b: G<B>, c: G<C>, k: int) requires good(a, k), (good(b, k) && good(c, k)) || (eats(a) && good(b, k - 1) && good(c, k - 1)), ensures #[trigger] good(m_delim(a, b, c), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_delim<A, B, C>(a: G<A>, b: G<B>, c: G<C>) requires (eats(a) && shr(b) && shr(c)) || (shr(a) && eats(b) && shr(c)), ensures #[trigger] eats(m_delim(a, b, c)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_delim<A, B, C>(a: G<A>, b: G<B>, c: G<C>) requires shr(a), shr(b), shr(c), ensures #[trigger] shr(m_delim(a, b, c)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_tup3<A, B, C>(a: G<A>, b: G<B>, c: G<C>, k: int) requires good(a, k), (good(b, k) && good(c, k)) || (eats(a) && good(b, k - 1) && good(c, k - 1)), ensures #[trigger] good(m_tup3(a, b, c), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_tup3<A, B, C>(a: G<A>, b: G<B>, c: G<C>) requires (eats(a) && shr(b) && shr(c)) || (shr(a) && eats(b) && shr(c)), ensures #[trigger] eats(m_tup3(a, b, c)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_tup3<A, B, C>(a: G<A>, b: G<B>, c: G<C>) requires shr(a), shr(b), shr(c), ensures #[trigger] shr(m_tup3(a, b, c)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_seppair<A, B, C>(a: G<A>, b: G<B>, c: G<C>, k: int) requires good(a, k), (good(b, k) && good(c, k)) || (eats(a) && good(b, k - 1) && good(c, k - 1)), ensures #[trigger] good(m_seppair(a, b, c), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_seppair<A, B, C>(a: G<A>, b: G<B>, c: G<C>) requires (eats(a) && shr(b) && shr(c)) || (shr(a) && eats(b) && shr(c)), ensures #[trigger] eats(m_seppair(a, b, c)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_seppair<A, B, C>(a: G<A>, b: G<B>, c: G<C>) requires shr(a), shr(b), shr(c), ensures #[trigger] shr(m_seppair(a, b, c)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_tup4<A, B, C, D>(a: G<A>, b: G<B>, c: G<C>, d: G<D>, k: int) requires good(a, k), (good(b, k) && good(c, k) && good(d, k)) || (eats(a) && good(b, k - 1) && good(c, k - 1) && good(d, k - 1)), ensures #[trigger] good(m_tup4(a, b, c, d), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_tup4<A, B, C, D>(a: G<A>, b: G<B>, c: G<C>, d: G<D>) requires shr(a), shr(b), shr(c), shr(d), ensures #[trigger] shr(m_tup4(a, b, c, d)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_map<A, B>(a: G<A>, f: spec_fn(A) -> B, k: int) requires good(a, k), ensures #[trigger] good(m_map(a, f), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_map<A, B>(a: G<A>, f: spec_fn(A) -> B) requires eats(a), ensures #[trigger] eats(m_map(a, f)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_map<A, B>(a: G<A>, f: spec_fn(A) -> B) requires shr(a), ensures #[trigger] shr(m_map(a, f)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_mapres<A, B>(a: G<A>, f: spec_fn(A) -> Option<B>, k: int) requires good(a, k), ensures #[trigger] good(m_mapres(a, f), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_mapres<A, B>(a: G<A>, f: spec_fn(A) -> Option<B>) requires eats(a), ensures #[trigger] eats(m_mapres(a, f)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_mapres<A, B>(a: G<A>, f: spec_fn(A) -> Option<B>) requires shr(a), ensures #[trigger] shr(m_mapres(a, f)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_mapfail<A, B>(a: G<A>, f: spec_fn(A) -> Option<B>, k: int) requires good(a, k), ensures #[trigger] good(m_mapfail(a, f), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_mapfail<A, B>(a: G<A>, f: spec_fn(A) -> Option<B>) requires eats(a), ensures #[trigger] eats(m_mapfail(a, f)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_mapfail<A, B>(a: G<A>, f: spec_fn(A) -> Option<B>) requires shr(a), ensures #[trigger] shr(m_mapfail(a, f)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_val<A, B>(v: B, a: G<A>, k: int) requires good(a, k), ensures #[trigger] good(m_val(v, a), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_val<A, B>(v: B, a: G<A>) requires eats(a), ensures #[trigger] eats(m_val(v, a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_val<A, B>(v: B, a: G<A>) requires shr(a), ensures #[trigger] shr(m_val(v, a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_or<A>(a: G<A>, b: G<A>, k: int) requires good(a, k), good(b, k), ensures #[trigger] good(m_or(a, b), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_or<A>(a: G<A>, b: G<A>) requires eats(a), eats(b), ensures #[trigger] eats(m_or(a, b)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_or<A>(a: G<A>, b: G<A>) requires shr(a), shr(b), ensures #[trigger] shr(m_or(a, b)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_opt<A>(a: G<A>, k: int) requires good(a, k), ensures #[trigger] good(m_opt(a), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_opt<A>(a: G<A>) requires shr(a), ensures #[trigger] shr(m_opt(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_recog<A>(a: G<A>, k: int) requires good(a, k), ensures #[trigger] good(m_recog(a), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_recog<A>(a: G<A>) requires eats(a), ensures #[trigger] eats(m_recog(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_recog<A>(a: G<A>) requires shr(a), ensures #[trigger] shr(m_recog(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_recogx<A>(a: G<A>, k: int) requires good(a, k), ensures #[trigger] good(m_recogx(a), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_recogx<A>(a: G<A>) requires eats(a), ensures #[trigger] eats(m_recogx(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_recogx<A>(a: G<A>) requires shr(a), ensures #[trigger] shr(m_recogx(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_allcons<A>(a: G<A>, k: int) requires good(a, k), ensures #[trigger] good(m_allcons(a), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_allcons<A>(a: G<A>) requires eats(a), ensures #[trigger] eats(m_allcons(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_allcons<A>(a: G<A>) requires shr(a), ensures #[trigger] shr(m_allcons(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_tag(w: Seq<char>, k: int) ensures #[trigger] good(m_tag(w), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_tag(w: Seq<char>) requires w.len() > 0, ensures #[trigger] eats(m_tag(w)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_tag(w: Seq<char>) ensures #[trigger] shr(m_tag(w)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_chr(c: char, k: int) ensures #[trigger] good(m_chr(c), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_chr(c: char) ensures #[trigger] eats(m_chr(c)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_chr(c: char) ensures #[trigger] shr(m_chr(c)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_any(k: int) ensures #[trigger] good(m_any(), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_any() ensures #[trigger] eats(m_any()) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_any() ensures #[trigger] shr(m_any()) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_oneof(w: Seq<char>, k: int) ensures #[trigger] good(m_oneof(w), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_oneof(w: Seq<char>) ensures #[trigger] eats(m_oneof(w)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_oneof(w: Seq<char>) ensures #[trigger] shr(m_oneof(w)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_while0(q: spec_fn(char) -> bool, k: int) ensures #[trigger] good(m_while0(q), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_while0(q: spec_fn(char) -> bool) ensures #[trigger] shr(m_while0(q)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_while1(q: spec_fn(char) -> bool, k: int) ensures #[trigger] good(m_while1(q), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn eats_while1(q: spec_fn(char) -> bool) ensures #[trigger] eats(m_while1(q)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_while1(q: spec_fn(char) -> bool) ensures #[trigger] shr(m_while1(q)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn good_noteol(k: int) ensures #[trigger] good(m_noteol(), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub broadcast proof fn shr_noteol() ensures #[trigger] shr(m_noteol()) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self};  }
pub proof fn lemma_many_len<A>(f: G<A>, t: Seq<char>)
    ensures many(f, t) is Ok ==> many(f, t)->Ok_0.len() <= t.len() decreases t.len()
{ if f(t) is Ok && f(t)->Ok_0.len() < t.len() { lemma_many_len(f, f(t)->Ok_0); } }
pub proof fn lemma_many_shr<A>(f: G<A>, t: Seq<char>)
    requires shr(f) ensures many(f, t) is Ok ==> sfx(many(f, t)->Ok_0, t) decreases t.len()
{ broadcast use {sfx_trans, sfx_self}; if f(t) is Ok && f(t)->Ok_0.len() < t.len() { lemma_many_shr(f, f(t)->Ok_0); } }
pub proof fn lemma_many_good<A>(f: G<A>, t: Seq<char>, k: int)
    requires good(f, k), t.len() <= k ensures !(many(f, t) is Deep), many(f, t) is Ok ==> sfx(many(f, t)->Ok_0, t) decreases t.len()
{ broadcast use {sfx_trans, sfx_self}; if f(t) is Ok && f(t)->Ok_0.len() < t.len() { lemma_many_good(f, f(t)->Ok_0, k); } }
pub proof fn lemma_seps_len<A, B>(s: G<B>, f: G<A>, t: Seq<char>)
    ensures seps(s, f, t) is Ok ==> seps(s, f, t)->Ok_0.len() <= t.len() decreases t.len()
{ if s(t) is Ok && f(s(t)->Ok_0) is Ok && f(s(t)->Ok_0)->Ok_0.len() < t.len() { lemma_seps_len(s, f, f(s(t)->Ok_0)->Ok_0); } }
pub proof fn lemma_seps_shr<A, B>(s: G<B>, f: G<A>, t: Seq<char>)
    requires shr(s), shr(f) ensures seps(s, f, t) is Ok ==> sfx(seps(s, f, t)->Ok_0, t) decreases t.len()
{ broadcast use {sfx_trans, sfx_self}; if s(t) is Ok && f(s(t)->Ok_0) is Ok && f(s(t)->Ok_0)->Ok_0.len() < t.len() { lemma_seps_shr(s, f, f(s(t)->Ok_0)->Ok_0); } }
pub proof fn lemma_seps_good<A, B>(s: G<B>, f: G<A>, t: Seq<char>, k: int)
    requires good(s, k), good(f, k), t.len() <= k ensures !(seps(s, f, t) is Deep), seps(s, f, t) is Ok ==> sfx(seps(s, f, t)->Ok_0, t) decreases t.len()
{ broadcast use {sfx_trans, sfx_self}; if s(t) is Ok && f(s(t)->Ok_0) is Ok && f(s(t)->Ok_0)->Ok_0.len() < t.len() { lemma_seps_good(s, f, f(s(t)->Ok_0)->Ok_0, k); } }
pub broadcast proof fn good_many0<A>(a: G<A>, k: int) requires good(a, k), ensures #[trigger] good(m_many0(a), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self}; assert forall|t: Seq<char>| #![trigger many(a, t)] t.len() <= k implies !(many(a, t) is Deep) && (many(a, t) is Ok ==> sfx(many(a, t)->Ok_0, t)) by { lemma_many_good(a, t, k); } }
pub broadcast proof fn shr_many0<A>(a: G<A>) requires shr(a), ensures #[trigger] shr(m_many0(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self}; assert forall|t: Seq<char>| #![trigger many(a, t)] many(a, t) is Ok implies sfx(many(a, t)->Ok_0, t) by { lemma_many_shr(a, t); } }
pub broadcast proof fn good_many1<A>(a: G<A>, k: int) requires good(a, k), ensures #[trigger] good(m_many1(a), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self}; assert forall|t: Seq<char>| #![trigger many(a, t)] t.len() <= k implies !(many(a, t) is Deep) && (many(a, t) is Ok ==> sfx(many(a, t)->Ok_0, t)) by { lemma_many_good(a, t, k); } }
pub broadcast proof fn shr_many1<A>(a: G<A>) requires shr(a), ensures #[trigger] shr(m_many1(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self}; assert forall|t: Seq<char>| #![trigger many(a, t)] many(a, t) is Ok implies sfx(many(a, t)->Ok_0, t) by { lemma_many_shr(a, t); } }
pub broadcast proof fn eats_many1<A>(a: G<A>) requires eats(a), ensures #[trigger] eats(m_many1(a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self}; assert forall|t: Seq<char>| #![trigger many(a, t)] many(a, t) is Ok implies many(a, t)->Ok_0.len() <= t.len() by { lemma_many_len(a, t); } }
pub broadcast proof fn good_seplist1<A, B>(s: G<B>, a: G<A>, k: int) requires good(s, k), good(a, k), ensures #[trigger] good(m_seplist1(s, a), k) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self}; assert forall|t: Seq<char>| #![trigger seps(s, a, t)] t.len() <= k implies !(seps(s, a, t) is Deep) && (seps(s, a, t) is Ok ==> sfx(seps(s, a, t)->Ok_0, t)) by { lemma_seps_good(s, a, t, k); } }
pub broadcast proof fn shr_seplist1<A, B>(s: G<B>, a: G<A>) requires shr(s), shr(a), ensures #[trigger] shr(m_seplist1(s, a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self}; assert forall|t: Seq<char>| #![trigger seps(s, a, t)] seps(s, a, t) is Ok implies sfx(seps(s, a, t)->Ok_0, t) by { lemma_seps_shr(s, a, t); } }
pub broadcast proof fn eats_seplist1<A, B>(s: G<B>, a: G<A>) requires eats(a), ensures #[trigger] eats(m_seplist1(s, a)) { broadcast use {lemma_wlen, sfx_trans, sfx_skip, sfx_self}; assert forall|t: Seq<char>| #![trigger seps(s, a, t)] seps(s, a, t) is Ok implies seps(s, a, t)->Ok_0.len() <= t.len() by { lemma_seps_len(s, a, t); } }
pub broadcast proof fn good_member(key: G<Type1>, tail: G<Type>, arrow: G<(Option<&'static str>, &'static str, &'static str, Type)>, more: G<Vec<Type1>>, k: int)
    requires good(key, k), good(tail, k), good(arrow, k), good(more, k), ensures #[trigger] good(m_member(key, tail, arrow, more), k) { broadcast use {sfx_trans, sfx_self}; }

pub broadcast group group_good { lemma_wlen, good_pre, eats_pre, shr_pre, good_term, eats_term, shr_term, good_pair, eats_pair, shr_pair, good_delim, eats_delim, shr_delim, good_tup3, eats_tup3, shr_tup3, good_seppair, eats_seppair, shr_seppair, good_tup4, shr_tup4, good_map, eats_map, shr_map, good_mapres, eats_mapres, shr_mapres, good_mapfail, eats_mapfail, shr_mapfail, good_val, eats_val, shr_val, good_or, eats_or, shr_or, good_opt, shr_opt, good_recog, eats_recog, shr_recog, good_recogx, eats_recogx, shr_recogx, good_allcons, eats_allcons, shr_allcons, good_tag, eats_tag, shr_tag, good_chr, eats_chr, shr_chr, good_any, eats_any, shr_any, good_oneof, eats_oneof, shr_oneof, good_while0, shr_while0, good_while1, eats_while1, shr_while1, good_noteol, shr_noteol, good_many0, shr_many0, good_many1, eats_many1, shr_many1, good_seplist1, eats_seplist1, shr_seplist1, good_member }

pub proof fn lemma_tags()
    ensures ","@.len() > 0, "<"@.len() > 0, ">"@.len() > 0, "/"@.len() > 0, "//"@.len() > 0, "="@.len() > 0, "=>"@.len() > 0, "^"@.len() > 0, ":"@.len() > 0,
        "~"@.len() > 0, "&"@.len() > 0, "0x"@.len() > 0, "0b"@.len() > 0, "0"@.len() > 0, "h'"@.len() > 0, "'"@.len() > 0, "b64'"@.len() > 0,
        "*"@.len() > 0, "+"@.len() > 0, "?"@.len() > 0, "."@.len() > 0, ".."@.len() > 0, "..."@.len() > 0,
{
    reveal_strlit(","); reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("/"); reveal_strlit("//"); reveal_strlit("="); reveal_strlit("=>"); reveal_strlit("^"); reveal_strlit(":");
    reveal_strlit("~"); reveal_strlit("&"); reveal_strlit("0x"); reveal_strlit("0b"); reveal_strlit("0"); reveal_strlit("h'"); reveal_strlit("'"); reveal_strlit("b64'");
    reveal_strlit("*"); reveal_strlit("+"); reveal_strlit("?"); reveal_strlit("."); reveal_strlit(".."); reveal_strlit("...");
}
pub proof fn good_mono<A>(g: G<A>, k: int, j: int) requires good(g, k), j <= k ensures good(g, j) { }
pub proof fn good_tokens(k: int)
    ensures good(g_ws(), k), shr(g_ws()), good(g_ident(), k), eats(g_ident()),
{
    broadcast use group_good;
    lemma_tags();
    assert(good(g_comment(), k)); assert(shr(g_comment()));
    assert(good(g_ealpha(), k)); assert(eats(g_ealpha())); assert(good(g_ident_tail(), k));
}
pub proof fn good_optcom(k: int) ensures good(g_optcom(), k), shr(g_optcom()) {
    hide(g_ws);
    broadcast use group_good;
    lemma_tags();
    good_tokens(k);
}
pub proof fn good_numbers(k: int)
    ensures good(g_uint(), k), good(g_int(), k), good(m_tup3(g_int(), m_opt(g_dot_fraction()), m_opt(g_e_exponent())), k), good(g_float_or_int(), k), good(g_occur(), k)
{
    broadcast use group_good;
    lemma_tags();
    assert(good(g_uint_hex(), k)); assert(good(g_uint_binary(), k)); assert(good(g_uint_decimal(), k));
    assert(good(g_uint(), k));
    assert(good(g_int(), k));
    assert(good(g_dot_fraction(), k)); assert(good(g_e_exponent(), k));
    assert(good(g_float_or_int(), k));
    assert(good(g_uint_u64(), k));
    good_occur(k);
}
pub proof fn good_occur(k: int) requires good(g_uint_u64(), k) ensures good(g_occur(), k) {
    hide(g_uint_u64);
    broadcast use group_good;
    lemma_tags();
    assert(good(g_occur_star(), k));
}
pub proof fn good_strings(k: int)
    ensures good(g_text_literal(), k), good(g_bytestring(), k)
{
    broadcast use group_good;
    lemma_tags();
    assert(good(g_sesc(), k)); assert(good(g_bchar(), k)); assert(good(g_schar(), k));
    assert(good(g_bchar(), k - 1)); assert(good(g_schar(), k - 1));
    good_strings2(k);
}
pub proof fn good_strings2(k: int)
    requires good(g_bchar(), k - 1), good(g_schar(), k - 1),
    ensures good(g_text_literal(), k), good(g_bytestring(), k)
{
    hide(g_bchar); hide(g_schar);
    broadcast use group_good;
    lemma_tags();
    assert(good(g_bytestring_utf8(), k));
    assert(good(g_bytestring_hex(), k));
    assert(good(g_bytestring_base64(), k));
}
pub proof fn good_leaves(k: int)
    ensures good(g_ws(), k), good(g_optcom(), k), good(g_ident(), k), good(g_value(), k), good(g_occur(), k), good(g_control_op(), k), good(g_generic_parm(), k),
        good(g_uint(), k), good(g_int(), k), good(m_tup3(g_int(), m_opt(g_dot_fraction()), m_opt(g_e_exponent())), k),
        shr(g_ws()), shr(g_optcom()), eats(g_ident()), eats(g_control_op()),
{
    hide(g_ws); hide(g_ident); hide(g_optcom); hide(g_float_or_int); hide(g_text_literal); hide(g_bytestring); hide(g_occur); hide(g_uint); hide(g_int);
    broadcast use group_good;
    lemma_tags();
    good_tokens(k); good_optcom(k); good_numbers(k); good_strings(k);
    assert(good(g_value(), k));
    assert(good(g_control_op(), k));
    assert(good(g_generic_parm(), k));
}
/// every digit string a number is made of has a base that u64::from_str_radix accepts
pub proof fn lemma_uint_base()
    ensures forall|t: Seq<char>| #![trigger g_uint()(t)] !(g_uint()(t) is Deep) && (g_uint()(t) matches PR::Ok(_, x) ==> 2 <= x.base <= 36)
{
    assert forall|t: Seq<char>| #![trigger g_uint()(t)] !(g_uint()(t) is Deep) && (g_uint()(t) matches PR::Ok(_, x) ==> 2 <= x.base <= 36) by {
        good_leaves(t.len() as int);
    }
}
pub proof fn lemma_num_base()
    ensures forall|t: Seq<char>| #![trigger m_tup3(g_int(), m_opt(g_dot_fraction()), m_opt(g_e_exponent()))(t)] {
        let g = m_tup3(g_int(), m_opt(g_dot_fraction()), m_opt(g_e_exponent()));
        !(g(t) is Deep) && (g(t) matches PR::Ok(_, x) ==> 2 <= x.0.base <= 36) }
{
    lemma_uint_base();
    assert forall|t: Seq<char>| #![trigger m_tup3(g_int(), m_opt(g_dot_fraction()), m_opt(g_e_exponent()))(t)] {
        let g = m_tup3(g_int(), m_opt(g_dot_fraction()), m_opt(g_e_exponent()));
        !(g(t) is Deep) && (g(t) matches PR::Ok(_, x) ==> 2 <= x.0.base <= 36) } by {
        good_leaves(t.len() as int);
    }
}
proof fn good_type1(m: nat, k: int)
    requires good(g_type2(m), k)
    ensures good(g_type1(m), k)
{
    broadcast use group_good;
    lemma_tags();
    good_leaves(k);
    assert(good(g_range_or_control_op(m), k));
}
proof fn good_ty(m: nat, k: int)
    requires good(g_type1(m), k)
    ensures good(g_ty(m), k)
{
    broadcast use group_good;
    lemma_tags();
    good_leaves(k);
}
proof fn good_garg(m: nat, k: int)
    requires good(g_type1(m), k)
    ensures good(g_generic_arg(m), k + 1)
{
    broadcast use group_good;
    lemma_tags();
    good_leaves(k); good_leaves(k + 1);
}
proof fn good_name(m: nat, k: int)
    requires good(g_generic_arg(m), k + 1)
    ensures good(g_name_generic(m), k + 1)
{
    broadcast use group_good;
    lemma_tags();
    good_leaves(k); good_leaves(k + 1);
}
proof fn good_memb(m: nat, k: int)
    requires good(g_type1(m), k), good(g_ty(m), k), good(g_generic_arg(m), k + 1)
    ensures good(g_grpent_member(m), k)
{
    broadcast use group_good;
    lemma_tags();
    good_leaves(k); good_leaves(k + 1);
    good_mono(g_generic_arg(m), k + 1, k);
    assert(good(g_memberkey_tail(m), k));
    assert(good(g_arrow(m), k));
    assert(good(g_more(m), k));
    assert(good(m_term(g_type1(m), g_ws()), k));
}
pub proof fn good_types(m: nat, k: int)
    requires good(g_type2(m), k)
    ensures good(g_type1(m), k), good(g_ty(m), k), good(g_generic_arg(m), k + 1), good(g_name_generic(m), k + 1), good(g_grpent_member(m), k)
{
    good_type1(m, k);
    good_ty(m, k);
    good_garg(m, k);
    good_name(m, k);
    good_memb(m, k);
}
pub proof fn good_groups(m: nat, k: int)
    requires good(g_grpent_val(m), k)
    ensures good(g_grpent(m), k), good(g_group(m), k)
{
    broadcast use group_good;
    lemma_tags();
    good_leaves(k);
    assert(good(g_grpent(m), k));
    assert(good(g_grpchoice(m), k));
}
pub proof fn total(k: int, n: nat)
    ensures n > 2 * k ==> good(g_type2(n), k), n > 2 * k + 1 ==> good(g_grpent_val(n), k)
    decreases n
{
    broadcast use group_good;
    lemma_tags();
    good_leaves(k); good_leaves(k - 1);
    if n > 2 * k && n > 0 {
        let m = (n - 1) as nat;
        total(k - 1, m);
        total(k, m);
        good_types(m, k - 1);
        good_groups(m, k - 1);
        assert(good(g_type2_parens(m), k));
        assert(good(g_type2_map(m), k));
        assert(good(g_type2_array(m), k));
        assert(good(g_type2_unwrap(m), k));
        assert(good(g_type2_choiceify(m), k));
        assert(good(g_type2_choiceify_inline(m), k));
        assert(good(g_type2_alts(m), k));
        assert(g_type2(n) == g_type2_alts(m));
        if n > 2 * k + 1 {
            good_types(m, k);
            assert(good(g_grpent_parens(m), k));
            assert(good(g_grpent_val_alts(m), k));
            assert(g_grpent_val(n) == g_grpent_val_alts(m));
        }
    }
}
pub proof fn theorem_C24_decided(t: Seq<char>)
    ensures good(g_cddl(level(t)), t.len() as int), good(g_cddl_slice(level(t)), t.len() as int), good(g_rule(level(t)), t.len() as int)
{
    hide(g_type2); hide(g_grpent_val); hide(g_ty); hide(g_grpent); hide(g_ws); hide(g_ident); hide(g_generic_parm);
    broadcast use group_good;
    lemma_tags();
    let k = t.len() as int;
    let n = level(t);
    total(k, n);
    good_leaves(k);
    good_types(n, k);
    good_groups(n, k);
    reveal(g_cddl); reveal(g_cddl_slice);
    assert(good(g_rule_val(n), k));
    assert(good(g_rule(n), k));
}

// ---------------------------------------------------------------- escapes
pub proof fn lemma_signed_requoted(s: Seq<char>, esc: bool, u: bool)
    ensures signed_esc(requoted(s, esc), false, u) == signed_esc(s, esc, u && !esc)
    decreases s.len()
{
    reveal_with_fuel(signed_esc, 3);
    reveal_with_fuel(requoted, 2);
    if s.len() > 0 {
        let c = s[0];
        let e = !esc && c == '\\';
        let rest = requoted(s.skip(1), e);
        lemma_signed_requoted(s.skip(1), e, false);
        lemma_signed_requoted(s.skip(1), e, true);
        let x = requoted(s, esc);
        if esc {
            if c == '\'' { assert(x == seq![c] + rest); assert(x.skip(1) =~= rest); }
            else { assert(x == seq!['\\', c] + rest); assert(x.skip(1)[0] == c); assert(x.skip(1).skip(1) =~= rest); }
        } else if c == '"' { assert(x == seq!['\\', '"'] + rest); assert(x.skip(1)[0] == '"'); assert(x.skip(1).skip(1) =~= rest); }
        else if c == '\\' { assert(x =~= rest); }
        else { assert(x == seq![c] + rest); assert(x.skip(1) =~= rest); }
    }
}
/// a uXXXX escape has no sign in it
pub proof fn lemma_uni_unsigned(s: Seq<char>)
    requires uni(s) is Some
    ensures signed_esc(s, false, false) == signed_esc(s.skip(6), false, false)
{
    reveal_with_fuel(signed_esc, 7);
    let t = s.skip(2);
    assert(t[0] == s[2] && t[1] == s[3] && t[2] == s[4] && t[3] == s[5]);
    assert(s.skip(1)[0] == s[1]); assert(s.skip(1).skip(1) =~= s.skip(2));
    assert(s.skip(2).skip(1) =~= s.skip(3)); assert(s.skip(3).skip(1) =~= s.skip(4)); assert(s.skip(4).skip(1) =~= s.skip(5)); assert(s.skip(5).skip(1) =~= s.skip(6));
    assert(s.skip(3)[0] == s[3] && s.skip(4)[0] == s[4] && s.skip(5)[0] == s[5]);
}
pub proof fn lemma_unesc_unsigned(s: Seq<char>)
    requires unesc(s) is Some
    ensures !signed_esc(s, false, false)
    decreases s.len()
{
    reveal_with_fuel(signed_esc, 3);
    reveal_with_fuel(unesc, 1);
    if s.len() > 0 {
        if s[0] != '\\' { lemma_unesc_unsigned(s.skip(1)); }
        else if esc_char(s[1]) is Some {
            lemma_unesc_unsigned(s.skip(2));
            assert(s.skip(1)[0] == s[1]); assert(s.skip(1).skip(1) =~= s.skip(2));
        } else {
            lemma_uni_unsigned(s);
            let a = uni(s)->Some_0;
            if 0xD800 <= a < 0xDC00 {
                lemma_uni_unsigned(s.skip(6));
                assert(s.skip(6).skip(6) =~= s.skip(12));
                lemma_unesc_unsigned(s.skip(12));
            } else { lemma_unesc_unsigned(s.skip(6)); }
        }
    }
}
/// a text with a sign among the digits of an escape denotes nothing
pub proof fn lemma_unesc()
    ensures forall|s: Seq<char>| signed_esc(s, false, false) ==> #[trigger] unesc(s) is None,
        forall|s: Seq<char>| signed_esc(#[trigger] requoted(s, false), false, false) == signed_esc(s, false, false)
{
    assert forall|s: Seq<char>| signed_esc(s, false, false) implies #[trigger] unesc(s) is None by { if unesc(s) is Some { lemma_unesc_unsigned(s); } }
    assert forall|s: Seq<char>| signed_esc(#[trigger] requoted(s, false), false, false) == signed_esc(s, false, false) by { lemma_signed_requoted(s, false, false); }
}
}
