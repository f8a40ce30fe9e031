// Ghost views of the validator's working state, and facts about them.
pub mod vspec {
use vstd::prelude::*;
use crate::spec::*;
use crate::vp::*;
use crate::ivt::{Node, Literal, RuleDef};
use crate::util::{ValidateError, ValidateResult};
use crate::value::Value;
use crate::context::LookupContext;
use crate::validate::{Context, NodeContext, TempResult, WorkingArray, WorkingMap};
use vstd::map::Map as GMap;

pub open spec fn env_of(l: &dyn LookupContext) -> spec_fn(Seq<char>) -> Result<RuleDef, Out> {
    |s: Seq<char>| l.spec_lookup(s)
}
/// A BasicContext resolves names by its rules and nothing else.
pub broadcast proof fn lemma_env_basic(c: &crate::context::BasicContext)
    ensures #[trigger] env_of(c) == rules_env(c.rules.smap()),
{ assert(env_of(c) =~= rules_env(c.rules.smap())); }
#[verifier::opaque]
pub open spec fn genv(c: Context) -> SGen
    decreases c
{
    SGen {
        gen: deref_map(c.generic_map.map@),
        past: match c.generic_map.past_ctx { None => None, Some(p) => Some(Box::new(genv(*p))) },
    }
}
/// All the scopes a context can reach look rules up in the same place, and none is past the
/// recursion limit.
#[verifier::opaque]
pub open spec fn ctx_ok(c: Context) -> bool
    decreases c
{
    c.depth as int <= limit()
        && match c.generic_map.past_ctx { None => true, Some(p) => env_of(p.lookup) == env_of(c.lookup) && ctx_ok(*p) }
}
pub open spec fn ctxv(c: Context) -> SCtx {
    SCtx { env: env_of(c.lookup), depth: c.depth as int, g: genv(c) }
}
/// c2 has less left to spend than c: no chain of rule references goes on for ever.
pub open spec fn ctx_below(c2: Context, c: Context) -> bool {
    fuel(ctxv(c2)) < fuel(ctxv(c)) || (fuel(ctxv(c2)) == fuel(ctxv(c)) && decreases_to!(genv(c) => genv(c2)))
}
pub open spec fn is_nctx(r: TempResult<NodeContext>, e: Result<(Node, SCtx), Out>) -> bool {
    match r {
        Ok(a) => e == Ok::<(Node, SCtx), Out>((*a.node, ctxv(a.ctx))) && ctx_ok(a.ctx),
        Err(x) => e == Err::<(Node, SCtx), Out>(cls_e(x)),
    }
}
pub broadcast proof fn lemma_push_drop_last<T>(s: Seq<T>, t: T)
    ensures #[trigger] s.push(t).drop_last() == s, s.push(t).last() == t,
{ assert(s.push(t).drop_last() =~= s); }
pub broadcast proof fn lemma_svs(s: Seq<Value>)
    ensures (#[trigger] svs(s)).len() == s.len(),
{ }
pub broadcast proof fn lemma_sv_array(v: Value)
    requires v is Array,
    ensures #[trigger] sv(v) == SV::Array(svs(v->Array_0@)),
{ assert(sv(v)->Array_0 =~= svs(v->Array_0@)); }
pub broadcast proof fn lemma_svs_append(a: Seq<Value>, b: Seq<Value>)
    ensures #[trigger] svs(a + b) == svs(a) + svs(b),
{ assert(svs(a + b) =~= svs(a) + svs(b)); }
pub broadcast proof fn lemma_svs_push(a: Seq<Value>, x: Value)
    ensures #[trigger] svs(a.push(x)) == svs(a).push(sv(x)),
{ assert(svs(a.push(x)) =~= svs(a).push(sv(x))); }
pub broadcast proof fn lemma_svs_drop_first(a: Seq<Value>)
    requires a.len() > 0,
    ensures #[trigger] svs(a.drop_first()) == svs(a).drop_first(), svs(a) == seq![sv(a[0])] + svs(a.drop_first()),
{
    assert(svs(a.drop_first()) =~= svs(a).drop_first());
    assert(svs(a) =~= seq![sv(a[0])] + svs(a.drop_first()));
}

pub open spec fn deref_map(m: GMap<Seq<char>, &Node>) -> GMap<Seq<char>, Node> { m.map_values(|n: &Node| *n) }
pub broadcast proof fn lemma_deref_empty(m: GMap<Seq<char>, &Node>)
    ensures m == GMap::<Seq<char>, &Node>::empty() ==> #[trigger] deref_map(m) == GMap::<Seq<char>, Node>::empty(),
{
    if m == GMap::<Seq<char>, &Node>::empty() { assert(deref_map(m) =~= GMap::<Seq<char>, Node>::empty()); }
}
/// Pairing the parameters with the arguments in order binds each parameter to its argument.
pub broadcast proof fn lemma_bind(s: Seq<(String, &Node)>, parms: Seq<String>, args: Seq<Node>)
    requires s.len() == parms.len(), parms.len() == args.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == parms[i]@ && *s[i].1 == args[i],
    ensures deref_map(#[trigger] assoc(s)) == #[trigger] bind_gen(parms, args),
    decreases s.len()
{
    if s.len() == 0 {
        assert(deref_map(assoc(s)) =~= bind_gen(parms, args));
    } else {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).0@ == parms.drop_last()[i]@ && *s.drop_last()[i].1 == args.drop_last()[i] by {
            assert(s.drop_last()[i] == s[i]);
        }
        lemma_bind(s.drop_last(), parms.drop_last(), args.drop_last());
        assert(deref_map(assoc(s)) =~= bind_gen(parms, args));
    }
}

// ---- working arrays: what remains, and what each open snapshot would restore
pub open spec fn wa_now(w: WorkingArray) -> Seq<SV> { svs(w.array@) }
pub open spec fn wa_cat(s: Seq<VecDeque<Value>>, k: int) -> Seq<SV>
    decreases s.len()
{
    if k < 0 || k >= s.len() { Seq::empty() } else { wa_cat(s.drop_last(), k) + svs(s.last()@) }
}
#[verifier::opaque]
pub open spec fn wa_levels(w: WorkingArray) -> Seq<Seq<SV>> {
    Seq::new(w.snaps@.len(), |k: int| wa_cat(w.snaps@, k) + wa_now(w))
}
pub broadcast proof fn lemma_wa_cat_push(s: Seq<VecDeque<Value>>, d: VecDeque<Value>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] wa_cat(s.push(d), k) == wa_cat(s, k) + svs(d@),
{ lemma_push_drop_last(s, d); }
pub open spec fn ga_is(r: ValidateResult, w0: WorkingArray, w1: WorkingArray, e: GA) -> bool {
    &&& wa_levels(w1) == wa_levels(w0)
    &&& wa_now(w1).len() <= wa_now(w0).len()
    &&& match e {
        GA::Ok(rest) => r is Ok && wa_now(w1) == rest,
        GA::Err(o) => cls(r) == o && o != Out::Ok && wa_now(w1) == wa_now(w0),
    }
}

// ---- working maps
pub open spec fn wm_now(w: WorkingMap) -> GMap<SV, SV> { w.map.vmap() }
pub open spec fn wm_cat(s: Seq<VecDeque<(Value, Value)>>, k: int) -> GMap<SV, SV>
    decreases s.len()
{
    if k < 0 || k >= s.len() { GMap::empty() } else { wm_cat(s.drop_last(), k).union_prefer_right(vassoc(s.last()@)) }
}
#[verifier::opaque]
pub open spec fn wm_levels(w: WorkingMap) -> Seq<GMap<SV, SV>> {
    Seq::new(w.snaps@.len(), |k: int| wm_now(w).union_prefer_right(wm_cat(w.snaps@, k)))
}
pub open spec fn snaps_wf(s: Seq<VecDeque<(Value, Value)>>) -> bool
    decreases s.len()
{
    s.len() == 0 || (snaps_wf(s.drop_last()) && vassoc(s.last()@).dom().disjoint(wm_cat(s.drop_last(), 0).dom()))
}
#[verifier::opaque]
pub open spec fn wm_wf(w: WorkingMap) -> bool {
    snaps_wf(w.snaps@) && wm_now(w).dom().disjoint(wm_cat(w.snaps@, 0).dom())
}
pub broadcast proof fn lemma_wm_cat(s: Seq<VecDeque<(Value, Value)>>, d: VecDeque<(Value, Value)>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] wm_cat(s.push(d), k) == wm_cat(s, k).union_prefer_right(vassoc(d@)),
{ lemma_push_drop_last(s, d); }
pub broadcast proof fn lemma_wm_cat_sub(s: Seq<VecDeque<(Value, Value)>>, k: int)
    requires 0 <= k,
    ensures (#[trigger] wm_cat(s, k)).dom().subset_of(wm_cat(s, 0).dom()),
    decreases s.len()
{
    if k < s.len() { lemma_wm_cat_sub(s.drop_last(), k); }
}
pub open spec fn gm_is(r: ValidateResult, w0: WorkingMap, w1: WorkingMap, e: GM) -> bool {
    &&& wm_wf(w1)
    &&& wm_levels(w1) == wm_levels(w0)
    &&& wm_now(w1).dom().len() <= wm_now(w0).dom().len()
    &&& match e {
        GM::Ok(rest) => r is Ok && wm_now(w1) == rest,
        GM::Err(o) => cls(r) == o && o != Out::Ok && wm_now(w1) == wm_now(w0),
    }
}
pub open spec fn key_is(r: TempResult<(Value, &Value)>, m: GMap<SV, SV>, e: Result<SV, Out>) -> bool {
    match e {
        Ok(k) => r is Ok && sv(r->Ok_0.0) == k && m.contains_key(k) && sv(*r->Ok_0.1) == m[k],
        Err(o) => r is Err && cls_e(r->Err_0) == o,
    }
}
pub open spec fn int_arg_is(r: TempResult<i128>, n: Node) -> bool {
    match n {
        Node::Literal(Literal::Int(i)) => r == Ok::<i128, ValidateError>(i),
        _ => r is Err && cls_e(r->Err_0) == Out::Fatal(Ek::Structural),
    }
}
pub open spec fn plt<T: PartialOrd>(a: T, b: T) -> bool {
    vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(core::cmp::Ordering::Less)
}
pub open spec fn ple<T: PartialOrd>(a: T, b: T) -> bool {
    plt(a, b) || vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(core::cmp::Ordering::Equal)
}
pub broadcast group group_wa { lemma_push_drop_last, lemma_svs, lemma_svs_append, lemma_svs_push, lemma_svs_drop_first, lemma_wa_cat_push }
pub broadcast group group_wm { lemma_push_drop_last, lemma_tomap_ents, axiom_vmap_finite, lemma_vassoc_append, lemma_vassoc_push, lemma_wm_cat, lemma_wm_cat_sub }
pub broadcast group group_ctx { lemma_deref_empty, lemma_bind }
}
