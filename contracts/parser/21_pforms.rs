// A parser may be written in other ways than the grammar is: lemmas for the second attempt.
pub mod pforms {
use vstd::prelude::*;
use crate::gram::*;
use crate::cgram::*;
use crate::plemma::*;
use crate::nomshim::*;
use crate::ast::*;
/// types whose values take up space: a vector of them has at most isize::MAX elements
pub trait Takes {}
impl Takes for GrpChoice {} impl Takes for GrpEnt {} impl Takes for Type1 {} impl Takes for Rule {} impl Takes for String {} impl Takes for u8 {} impl<'a> Takes for &'a str {}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_room<A: Takes>(v: Vec<A>) ensures #[trigger] v@.len() <= isize::MAX {}
/// never both: their order as alternatives does not matter
pub open spec fn disj<A, B>(a: G<A>, b: G<B>) -> bool { forall|t: Seq<char>| #![trigger a(t)] #![trigger b(t)] a(t) is Er || b(t) is Er }
pub broadcast proof fn or_comm<A>(a: G<A>, b: G<A>) requires disj(a, b) ensures #[trigger] m_or(a, b) == m_or(b, a) { assert(m_or(a, b) =~= m_or(b, a)); }
pub broadcast proof fn tag_first(t: Seq<char>, w: Seq<char>) requires t.len() > 0, w.len() > 0
    ensures #![trigger m_tag(w)(t)] m_tag(w)(t) is Ok ==> t[0] == w[0], w.len() == 1 ==> (m_tag(w)(t) is Ok <==> t[0] == w[0])
{ if m_tag(w)(t) is Ok { assert(t.take(w.len() as int)[0] == t[0]); } if w.len() == 1 && t[0] == w[0] { assert(t.take(1) =~= w); } }
pub broadcast proof fn wlen_pos(q: spec_fn(char) -> bool, t: Seq<char>) ensures #[trigger] wlen(q, t) > 0 <==> (t.len() > 0 && q(t[0]))
{ lemma_wlen(q, t); if t.len() > 0 { lemma_wlen(q, t.skip(1)); } }
/// a parser may be written in other ways than the grammar is
pub broadcast group group_forms { axiom_vec_room, or_comm, tag_first, wlen_pos }
}
