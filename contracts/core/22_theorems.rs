// What the meaning of a rule tree (10_spec.rs) implies: the properties, stated over it and proved
// once for every rule, value and context.  The contracts in 30_validate.vc tie the code to that
// meaning; these lemmas tie the meaning to the properties.
pub mod theorems {
use vstd::prelude::*;
use crate::spec::*;
use crate::ivt::*;
use vstd::map::Map;

/// A lookup answers with a rule or with an error that ends validation.
pub open spec fn env_fatal(e: spec_fn(Seq<char>) -> Result<RuleDef, Out>) -> bool {
    forall|s: Seq<char>| (#[trigger] e(s)) is Err ==> e(s)->Err_0 is Fatal
}
/// A fixed set of rules is such an environment.
pub proof fn theorem_C08_rules(rules: Map<Seq<char>, RuleDef>) ensures env_fatal(rules_env(rules)) { }
pub proof fn lemma_lookup_fatal(r: Rule, c: SCtx)
    ensures match sem_lookup(r, c) { Ok((_, c2)) => c2.env == c.env, Err(o) => env_fatal(c.env) ==> o is Fatal },
{ }
pub proof fn lemma_chase_fatal(n: Node, c: SCtx)
    requires env_fatal(c.env),
    ensures sem_chase(n, c) is Err ==> sem_chase(n, c)->Err_0 is Fatal,
        sem_chase(n, c) is Ok ==> !(sem_chase(n, c)->Ok_0 is Rule),
    decreases fuel(c), c.g, n, 1int,
{
    if let Node::Rule(r) = n {
        lemma_lookup_fatal(r, c);
        lemma_lookup_decreases(r, c);
        if let Ok((n2, c2)) = sem_lookup(r, c) { lemma_chase_fatal(n2, c2); }
    }
}

// ------------------------------------------------------------ C08: no cut escapes a value
/// No value is answered with a cut, whatever the rule.
pub proof fn theorem_C08_no_cut_val(n: Node, v: SV, c: SCtx)
    requires env_fatal(c.env),
    ensures !(sem_val(n, v, c) is Cut),
    decreases fuel(c), c.g, n, 2int, 0int,
{
    reveal(sem_range); reveal(sem_endpoint); reveal(sem_cmp); reveal(sem_int_arg); reveal(sem_size);
    match n {
        Node::Choice(ch) => lemma_no_cut_choice(ch.options@, 0, v, c),
        Node::Map(m) => if let SV::Map(es) = v { lemma_no_cut_top(m.members@, 0, tomap(es), c); },
        Node::Array(a) => if let SV::Array(s) = v { lemma_no_cut_seq(a.members@, 0, s, c); },
        Node::Rule(r) => {
            lemma_lookup_fatal(r, c);
            lemma_lookup_decreases(r, c);
            if let Ok((n2, c2)) = sem_lookup(r, c) { theorem_C08_no_cut_val(n2, v, c2); }
        },
        Node::Group(g) => if g.members@.len() == 1 { theorem_C08_no_cut_val(g.members@[0], v, c); },
        Node::Range(r) => { lemma_chase_fatal(*r.start, c); lemma_chase_fatal(*r.end, c); },
        Node::Control(ctl) => match ctl {
            Control::Size(s) => { lemma_chase_fatal(*s.target, c); lemma_chase_fatal(*s.size, c); },
            Control::Lt(x) => { lemma_chase_fatal(*x.target, c); lemma_chase_fatal(*x.lt, c); },
            Control::Le(x) => { lemma_chase_fatal(*x.target, c); lemma_chase_fatal(*x.le, c); },
            Control::Gt(x) => { lemma_chase_fatal(*x.target, c); lemma_chase_fatal(*x.gt, c); },
            Control::Ge(x) => { lemma_chase_fatal(*x.target, c); lemma_chase_fatal(*x.ge, c); },
            Control::Regexp(x) => { },
            Control::Cbor(x) => if let SV::Bytes(b) = v {
                if let Some(w) = cbor_decode(b) { theorem_C08_no_cut_val(*x.node, w, c); }
            },
        },
        Node::Choiceify(r) => lemma_no_cut_choiceify(r, v, c),
        Node::ChoiceifyInline(a) => lemma_no_cut_members(a.members@, 0, v, c),
        _ => { },
    }
}
pub proof fn lemma_no_cut_choice(o: Seq<Node>, i: int, v: SV, c: SCtx)
    requires env_fatal(c.env),
    ensures !(sem_choice(o, i, v, c) is Cut),
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if 0 <= i < o.len() { theorem_C08_no_cut_val(o[i], v, c); lemma_no_cut_choice(o, i + 1, v, c); }
}
pub proof fn lemma_no_cut_choiceify(r: Rule, v: SV, c: SCtx)
    requires env_fatal(c.env),
    ensures !(sem_choiceify(r, v, c) is Cut),
    decreases fuel(c), c.g, r, 2int, 0int,
{
    lemma_lookup_fatal(r, c);
    lemma_lookup_decreases(r, c);
    if let Ok((n2, c2)) = sem_lookup(r, c) {
        match n2 {
            Node::Group(g) => lemma_no_cut_members(g.members@, 0, v, c2),
            Node::Rule(r2) => lemma_no_cut_choiceify(r2, v, c2),
            _ => { },
        }
    }
}
pub proof fn lemma_no_cut_members(o: Seq<Node>, i: int, v: SV, c: SCtx)
    requires env_fatal(c.env),
    ensures !(sem_choiceify_members(o, i, v, c) is Cut),
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if 0 <= i < o.len() {
        match o[i] {
            Node::KeyValue(kv) => theorem_C08_no_cut_val(*kv.value, v, c),
            Node::Rule(r) => lemma_no_cut_choiceify(r, v, c),
            n => theorem_C08_no_cut_val(n, v, c),
        }
        lemma_no_cut_members(o, i + 1, v, c);
    }
}
pub proof fn lemma_no_cut_top(ms: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx)
    ensures !(sem_map_top(ms, i, m, c) is Cut),
    decreases ms.len() - i,
{
    if 0 <= i < ms.len() {
        if let GM::Ok(rest) = sem_map(ms[i], m, c) { lemma_no_cut_top(ms, i + 1, rest, c); }
    }
}
pub open spec fn ga_no_cut(r: GA) -> bool { match r { GA::Ok(_) => true, GA::Err(o) => !(o is Cut) && !(o is Ok) } }
pub proof fn lemma_no_cut_arr(n: Node, s: Seq<SV>, c: SCtx)
    requires env_fatal(c.env),
    ensures ga_no_cut(sem_arr(n, s, c)),
    decreases fuel(c), c.g, n, 4int, 0int,
{
    reveal_with_fuel(sem_arr, 3);
    match n {
        Node::Occur(o) => lemma_no_cut_arr_occ(*o.node, occ_limits(o.limit).0, occ_limits(o.limit).1, 0, s, c),
        Node::KeyValue(kv) => if s.len() > 0 { theorem_C08_no_cut_val(*kv.value, s[0], c); },
        Node::Rule(r) => {
            lemma_lookup_fatal(r, c);
            lemma_lookup_decreases(r, c);
            if let Ok((n2, c2)) = sem_lookup(r, c) { lemma_no_cut_arr(n2, s, c2); }
        },
        Node::Unwrap(r) => {
            lemma_lookup_fatal(r, c);
            lemma_lookup_decreases(r, c);
            if let Ok((n2, c2)) = sem_lookup(r, c) {
                if let Node::Array(a) = n2 { lemma_no_cut_seq(a.members@, 0, s, c2); }
            }
        },
        Node::Choice(ch) => lemma_no_cut_arr_choice(ch.options@, 0, s, c),
        Node::Group(g) => lemma_no_cut_seq(g.members@, 0, s, c),
        _ => if s.len() > 0 { theorem_C08_no_cut_val(n, s[0], c); },
    }
}
pub proof fn lemma_no_cut_seq(ms: Seq<Node>, i: int, s: Seq<SV>, c: SCtx)
    requires env_fatal(c.env),
    ensures ga_no_cut(sem_arr_seq(ms, i, s, c)),
    decreases fuel(c), c.g, ms, 1int, ms.len() - i,
{
    if 0 <= i < ms.len() {
        lemma_no_cut_arr(ms[i], s, c);
        if let GA::Ok(rest) = sem_arr(ms[i], s, c) { lemma_no_cut_seq(ms, i + 1, rest, c); }
    }
}
pub proof fn lemma_no_cut_arr_choice(o: Seq<Node>, i: int, s: Seq<SV>, c: SCtx)
    requires env_fatal(c.env),
    ensures ga_no_cut(sem_arr_choice(o, i, s, c)),
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if 0 <= i < o.len() { lemma_no_cut_arr(o[i], s, c); lemma_no_cut_arr_choice(o, i + 1, s, c); }
}
pub proof fn lemma_no_cut_arr_occ(n: Node, lo: int, hi: int, count: int, s: Seq<SV>, c: SCtx)
    requires env_fatal(c.env),
    ensures ga_no_cut(sem_arr_occ(n, lo, hi, count, s, c)),
    decreases fuel(c), c.g, n, 5int, s.len(),
{
    if count < hi {
        lemma_no_cut_arr(n, s, c);
        if let GA::Ok(rest) = sem_arr(n, s, c) {
            if rest.len() < s.len() { lemma_no_cut_arr_occ(n, lo, hi, count + 1, rest, c); }
        }
    }
}
/// A cut does not leave the group that contains it, and nothing in that group matches the entry after it.
pub proof fn theorem_C08_cut(kv: KeyValue, m: Map<SV, SV>, c: SCtx, ms: Seq<Node>, i: int)
    requires 0 <= i < ms.len(), ms[i] == Node::KeyValue(kv), kv.cut,
        sem_key(*kv.key, m, c) is Ok, sem_val(*kv.value, m[sem_key(*kv.key, m, c)->Ok_0], c) is Mismatch,
    ensures sem_map_choice(ms, i, m, c) == GM::Err(Out::Cut),
        sem_map_seq(ms, i, m, c) == GM::Err(Out::Cut),
        sem_map_top(ms, i, m, c) is Mismatch,
        forall|lo: int, hi: int| 0 < hi ==> #[trigger] sem_map_occ(ms[i], lo, hi, 0, m, c) == GM::Err(Out::Cut),
{
    reveal_with_fuel(sem_map, 3); reveal_with_fuel(sem_map_choice, 3); reveal_with_fuel(sem_map_seq, 3); reveal_with_fuel(sem_map_top, 3); reveal_with_fuel(sem_map_occ, 3);
    assert(sem_map(ms[i], m, c) == GM::Err(Out::Cut));
}
/// Nor does a group answer with one.
pub proof fn theorem_C08_group(g: Group, m: Map<SV, SV>, c: SCtx)
    ensures sem_map(Node::Group(g), m, c) != GM::Err(Out::Cut),
{ }

// ------------------------------------------------------------ C01, C03: what an array member consumes
pub open spec fn suffix(r: Seq<SV>, s: Seq<SV>) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) }
pub proof fn lemma_suffix(a: Seq<SV>, b: Seq<SV>, s: Seq<SV>)
    requires suffix(b, s), suffix(a, b),
    ensures suffix(a, s),
{ assert(a =~= s.skip(s.len() - a.len())); }
pub open spec fn ga_suffix(r: GA, s: Seq<SV>) -> bool { match r { GA::Ok(rest) => suffix(rest, s), _ => true } }
/// Elements are consumed from the front, in order; what is left is the rest of the array, unchanged.
pub proof fn theorem_C01_consumes(n: Node, s: Seq<SV>, c: SCtx)
    ensures ga_suffix(sem_arr(n, s, c), s),
    decreases fuel(c), c.g, n, 4int, 0int,
{
    reveal_with_fuel(sem_arr, 3);
    assert(s.skip(0) =~= s);
    if s.len() > 0 { assert(s.drop_first() =~= s.skip(1)); }
    match n {
        Node::Occur(o) => lemma_suffix_occ(*o.node, occ_limits(o.limit).0, occ_limits(o.limit).1, 0, s, c),
        Node::Rule(r) => {
            lemma_lookup_decreases(r, c);
            if let Ok((n2, c2)) = sem_lookup(r, c) { theorem_C01_consumes(n2, s, c2); }
        },
        Node::Unwrap(r) => {
            lemma_lookup_decreases(r, c);
            if let Ok((n2, c2)) = sem_lookup(r, c) {
                if let Node::Array(a) = n2 { lemma_suffix_seq(a.members@, 0, s, c2); }
            }
        },
        Node::Choice(ch) => lemma_suffix_choice(ch.options@, 0, s, c),
        Node::Group(g) => lemma_suffix_seq(g.members@, 0, s, c),
        _ => { },
    }
}
pub proof fn lemma_suffix_seq(ms: Seq<Node>, i: int, s: Seq<SV>, c: SCtx)
    ensures ga_suffix(sem_arr_seq(ms, i, s, c), s),
    decreases fuel(c), c.g, ms, 1int, ms.len() - i,
{
    assert(s.skip(0) =~= s);
    if 0 <= i < ms.len() {
        theorem_C01_consumes(ms[i], s, c);
        if let GA::Ok(rest) = sem_arr(ms[i], s, c) {
            lemma_suffix_seq(ms, i + 1, rest, c);
            if let GA::Ok(r2) = sem_arr_seq(ms, i + 1, rest, c) { lemma_suffix(r2, rest, s); }
        }
    }
}
pub proof fn lemma_suffix_choice(o: Seq<Node>, i: int, s: Seq<SV>, c: SCtx)
    ensures ga_suffix(sem_arr_choice(o, i, s, c), s),
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if 0 <= i < o.len() { theorem_C01_consumes(o[i], s, c); lemma_suffix_choice(o, i + 1, s, c); }
}
pub proof fn lemma_suffix_occ(n: Node, lo: int, hi: int, count: int, s: Seq<SV>, c: SCtx)
    ensures ga_suffix(sem_arr_occ(n, lo, hi, count, s, c), s),
    decreases fuel(c), c.g, n, 5int, s.len(),
{
    assert(s.skip(0) =~= s);
    if count < hi {
        theorem_C01_consumes(n, s, c);
        if let GA::Ok(rest) = sem_arr(n, s, c) {
            if rest.len() < s.len() {
                lemma_suffix_occ(n, lo, hi, count + 1, rest, c);
                if let GA::Ok(r2) = sem_arr_occ(n, lo, hi, count + 1, rest, c) { lemma_suffix(r2, rest, s); }
            }
        }
    }
}
/// st[j] is what is left of the array before member i + j.
pub open spec fn arr_chain(ms: Seq<Node>, i: int, st: Seq<Seq<SV>>, c: SCtx) -> bool {
    0 <= i <= ms.len() && st.len() == ms.len() - i + 1
        && forall|j: int| #![trigger st[j]] 0 <= j < ms.len() - i ==> sem_arr(ms[i + j], st[j], c) == GA::Ok(st[j + 1])
}
pub proof fn lemma_arr_chain(ms: Seq<Node>, i: int, st: Seq<Seq<SV>>, c: SCtx)
    requires arr_chain(ms, i, st, c),
    ensures sem_arr_seq(ms, i, st[0], c) == GA::Ok(st.last()),
    decreases ms.len() - i,
{
    if i < ms.len() {
        assert(sem_arr(ms[i + 0int], st[0], c) == GA::Ok(st[0int + 1]));
        let t = st.drop_first();
        assert forall|j: int| #![trigger t[j]] 0 <= j < ms.len() - (i + 1) implies sem_arr(ms[i + 1 + j], t[j], c) == GA::Ok(t[j + 1]) by {
            assert(t[j] == st[j + 1]);
            assert(sem_arr(ms[i + (j + 1)], st[j + 1], c) == GA::Ok(st[j + 1 + 1]));
        }
        lemma_arr_chain(ms, i + 1, t, c);
    }
}
pub proof fn lemma_arr_chain_back(ms: Seq<Node>, i: int, s: Seq<SV>, c: SCtx) -> (st: Seq<Seq<SV>>)
    requires 0 <= i <= ms.len(), sem_arr_seq(ms, i, s, c) is Ok,
    ensures arr_chain(ms, i, st, c), st[0] == s, GA::Ok(st.last()) == sem_arr_seq(ms, i, s, c),
    decreases ms.len() - i,
{
    if i == ms.len() { seq![s] } else {
        let rest = sem_arr(ms[i], s, c)->Ok_0;
        let t = lemma_arr_chain_back(ms, i + 1, rest, c);
        let st = seq![s] + t;
        assert forall|j: int| #![trigger st[j]] 0 <= j < ms.len() - i implies sem_arr(ms[i + j], st[j], c) == GA::Ok(st[j + 1]) by {
            if j > 0 {
                assert(st[j] == t[j - 1]);
                assert(sem_arr(ms[i + 1 + (j - 1)], t[j - 1], c) == GA::Ok(t[j - 1 + 1]));
            }
        }
        st
    }
}
/// An array type accepts exactly the arrays its members consume, in order and without any left over.
pub proof fn theorem_C01_array(a: Array, v: SV, c: SCtx)
    requires env_fatal(c.env),
    ensures (sem_val(Node::Array(a), v, c) is Ok) <==> (v is Array
        && exists|st: Seq<Seq<SV>>| #[trigger] arr_chain(a.members@, 0, st, c) && st[0] == v->Array_0 && st.last().len() == 0),
{
    reveal_with_fuel(sem_val, 3);
    if v is Array {
        let s = v->Array_0;
        lemma_no_cut_seq(a.members@, 0, s, c);
        if sem_val(Node::Array(a), v, c) is Ok {
            let st = lemma_arr_chain_back(a.members@, 0, s, c);
            assert(arr_chain(a.members@, 0, st, c) && st[0] == s && st.last().len() == 0);
        }
        if exists|st: Seq<Seq<SV>>| #[trigger] arr_chain(a.members@, 0, st, c) && st[0] == s && st.last().len() == 0 {
            let st = choose|st: Seq<Seq<SV>>| #[trigger] arr_chain(a.members@, 0, st, c) && st[0] == s && st.last().len() == 0;
            lemma_arr_chain(a.members@, 0, st, c);
        }
    }
}

// ------------------------------------------------------------ C02, C03: what a map member claims
pub open spec fn gm_sub(r: GM, m: Map<SV, SV>, c: SCtx) -> bool {
    match r { GM::Ok(rest) => sub(rest, m), GM::Err(o) => env_fatal(c.env) ==> !(o is Ok) }
}
/// Entries are only ever taken away, never altered or added.
pub proof fn theorem_C02_claims(n: Node, m: Map<SV, SV>, c: SCtx)
    ensures gm_sub(sem_map(n, m, c), m, c),
    decreases fuel(c), c.g, n, 4int, 0int,
{
    reveal_with_fuel(sem_map, 3);
    match n {
        Node::Occur(o) => lemma_sub_occ(*o.node, occ_limits(o.limit).0, occ_limits(o.limit).1, 0, m, c),
        Node::Rule(r) => {
            lemma_lookup_fatal(r, c); lemma_lookup_decreases(r, c);
            if let Ok((n2, c2)) = sem_lookup(r, c) { theorem_C02_claims(n2, m, c2); }
        },
        Node::Unwrap(r) => {
            lemma_lookup_fatal(r, c); lemma_lookup_decreases(r, c);
            if let Ok((n2, c2)) = sem_lookup(r, c) {
                if let Node::Map(m2) = n2 { lemma_sub_seq(m2.members@, 0, m, c2); }
            }
        },
        Node::Choice(ch) => lemma_sub_choice(ch.options@, 0, m, c),
        Node::Group(g) => lemma_sub_seq(g.members@, 0, m, c),
        Node::Choiceify(r) => lemma_sub_choiceify(r, m, c),
        Node::ChoiceifyInline(a) => lemma_sub_choice(a.members@, 0, m, c),
        Node::KeyValue(kv) => if !(*kv.key is Literal) { lemma_search_err(*kv.key, key_order(m.dom()), 0, c); },
        _ => { },
    }
}
pub open spec fn sub(a: Map<SV, SV>, m: Map<SV, SV>) -> bool {
    forall|k: SV| #[trigger] a.contains_key(k) ==> m.contains_key(k) && a[k] == m[k]
}
pub proof fn lemma_submap(a: Map<SV, SV>, b: Map<SV, SV>, m: Map<SV, SV>)
    requires sub(a, b), sub(b, m),
    ensures sub(a, m),
{ }
pub proof fn lemma_sub_seq(ms: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx)
    ensures gm_sub(sem_map_seq(ms, i, m, c), m, c),
    decreases fuel(c), c.g, ms, 1int, ms.len() - i,
{
    if 0 <= i < ms.len() {
        theorem_C02_claims(ms[i], m, c);
        if let GM::Ok(rest) = sem_map(ms[i], m, c) {
            lemma_sub_seq(ms, i + 1, rest, c);
            if let GM::Ok(r2) = sem_map_seq(ms, i + 1, rest, c) { lemma_submap(r2, rest, m); }
        }
    }
}
pub proof fn lemma_sub_choice(o: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx)
    ensures gm_sub(sem_map_choice(o, i, m, c), m, c),
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if 0 <= i < o.len() { theorem_C02_claims(o[i], m, c); lemma_sub_choice(o, i + 1, m, c); }
}
pub proof fn lemma_sub_choiceify(r: Rule, m: Map<SV, SV>, c: SCtx)
    ensures gm_sub(sem_map_choiceify(r, m, c), m, c),
    decreases fuel(c), c.g, r, 2int, 0int,
{
    lemma_lookup_fatal(r, c); lemma_lookup_decreases(r, c);
    if let Ok((n2, c2)) = sem_lookup(r, c) {
        match n2 {
            Node::Group(g) => lemma_sub_cmembers(g.members@, 0, m, c2),
            Node::Rule(r2) => lemma_sub_choiceify(r2, m, c2),
            _ => { },
        }
    }
}
pub proof fn lemma_sub_cmembers(o: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx)
    ensures gm_sub(sem_map_cmembers(o, i, m, c), m, c),
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    reveal_with_fuel(sem_map_cmembers, 3);
    if 0 <= i < o.len() {
        match o[i] {
            Node::KeyValue(kv) => theorem_C02_claims(*kv.value, m, c),
            Node::Rule(r) => lemma_sub_choiceify(r, m, c),
            n => theorem_C02_claims(n, m, c),
        }
        lemma_sub_cmembers(o, i + 1, m, c);
    }
}
pub proof fn lemma_sub_occ(n: Node, lo: int, hi: int, count: int, m: Map<SV, SV>, c: SCtx)
    ensures gm_sub(sem_map_occ(n, lo, hi, count, m, c), m, c),
    decreases fuel(c), c.g, n, 5int, m.dom().len(),
{
    if count < hi {
        theorem_C02_claims(n, m, c);
        if let GM::Ok(rest) = sem_map(n, m, c) {
            if rest.dom().len() < m.dom().len() {
                lemma_sub_occ(n, lo, hi, count + 1, rest, c);
                if let GM::Ok(r2) = sem_map_occ(n, lo, hi, count + 1, rest, c) { lemma_submap(r2, rest, m); }
            }
        }
    }
}
/// A key/value member claims exactly one entry: the one with the literal key, else the first
/// remaining entry whose key matches; and the value of that entry matches.
pub proof fn theorem_C02_entry(kv: KeyValue, m: Map<SV, SV>, c: SCtx)
    requires m.dom().finite(),
    ensures
        sem_map(Node::KeyValue(kv), m, c) is Ok <==>
            exists|k: SV| #[trigger] m.contains_key(k) && selects(*kv.key, k, m, c) && sem_val(*kv.value, m[k], c) is Ok,
        forall|k: SV| #[trigger] m.contains_key(k) && selects(*kv.key, k, m, c) && sem_val(*kv.value, m[k], c) is Ok
            ==> sem_map(Node::KeyValue(kv), m, c) == GM::Ok(m.remove(k)),
        forall|k: SV| #[trigger] m.contains_key(k) && selects(*kv.key, k, m, c) && sem_val(*kv.value, m[k], c) is Mismatch
            ==> sem_map(Node::KeyValue(kv), m, c) == GM::Err(if kv.cut { Out::Cut } else { Out::Mismatch }),
{
    broadcast use axiom_key_order;
    let ks = key_order(m.dom());
    if !(*kv.key is Literal) { lemma_search(*kv.key, ks, 0, c); }
    if let Ok(k) = sem_key(*kv.key, m, c) {
        if !(*kv.key is Literal) {
            let j = choose|j: int| #[trigger] first_match(*kv.key, ks, 0, j, c) && ks[j] == k;
            assert(ks.to_set().contains(ks[j]));
            assert(m.dom().contains(k));
        }
        assert(m.contains_key(k));
        assert(selects(*kv.key, k, m, c));
    }
    assert forall|k: SV| #[trigger] m.contains_key(k) && selects(*kv.key, k, m, c) implies sem_key(*kv.key, m, c) == Ok::<SV, Out>(k) by {
        if !(*kv.key is Literal) {
            let j = choose|j: int| #[trigger] first_match(*kv.key, ks, 0, j, c) && ks[j] == k;
            lemma_first_match(*kv.key, ks, 0, j, c);
        }
    }
}
pub proof fn lemma_first_match(n: Node, ks: Seq<SV>, i: int, j: int, c: SCtx)
    requires 0 <= i, first_match(n, ks, i, j, c),
    ensures sem_search(n, ks, i, c) == Ok::<SV, Out>(ks[j]),
    decreases j - i,
{
    if i < j {
        let o = sem_val(n, ks[i], c);
        assert(o is Mismatch || o is Cut);
        lemma_first_match(n, ks, i + 1, j, c);
    }
}
pub proof fn lemma_search_err(n: Node, ks: Seq<SV>, i: int, c: SCtx)
    ensures sem_search(n, ks, i, c) is Err ==> !(sem_search(n, ks, i, c)->Err_0 is Ok),
    decreases ks.len() - i,
{
    if 0 <= i < ks.len() { lemma_search_err(n, ks, i + 1, c); }
}
pub open spec fn first_match(n: Node, ks: Seq<SV>, i: int, j: int, c: SCtx) -> bool {
    i <= j < ks.len() && sem_val(n, ks[j], c) is Ok && forall|x: int| i <= x < j ==> { let o = sem_val(n, #[trigger] ks[x], c); o is Mismatch || o is Cut }
}
pub open spec fn selects(key: Node, k: SV, m: Map<SV, SV>, c: SCtx) -> bool {
    match key {
        Node::Literal(l) => k == lit_sv(l),
        _ => exists|j: int| #[trigger] first_match(key, key_order(m.dom()), 0, j, c) && key_order(m.dom())[j] == k,
    }
}
pub proof fn lemma_search(n: Node, ks: Seq<SV>, i: int, c: SCtx)
    requires 0 <= i <= ks.len(),
    ensures match sem_search(n, ks, i, c) {
        Ok(k) => exists|j: int| #[trigger] first_match(n, ks, i, j, c) && ks[j] == k,
        Err(Out::Mismatch) => forall|x: int| i <= x < ks.len() ==> !(sem_val(n, #[trigger] ks[x], c) is Ok),
        Err(o) => o is Fatal,
    },
    decreases ks.len() - i,
{
    if i < ks.len() {
        match sem_val(n, ks[i], c) {
            Out::Ok => { assert(first_match(n, ks, i, i, c)); },
            Out::Fatal(e) => { },
            _ => {
                lemma_search(n, ks, i + 1, c);
                if let Ok(k) = sem_search(n, ks, i + 1, c) {
                    let j = choose|j: int| #[trigger] first_match(n, ks, i + 1, j, c) && ks[j] == k;
                    assert(first_match(n, ks, i, j, c));
                }
            },
        }
    }
}
pub open spec fn map_chain(ms: Seq<Node>, i: int, st: Seq<Map<SV, SV>>, c: SCtx) -> bool {
    0 <= i <= ms.len() && st.len() == ms.len() - i + 1
        && forall|j: int| #![trigger st[j]] 0 <= j < ms.len() - i ==> sem_map(ms[i + j], st[j], c) == GM::Ok(st[j + 1])
}
pub proof fn lemma_map_chain(ms: Seq<Node>, i: int, st: Seq<Map<SV, SV>>, c: SCtx)
    requires map_chain(ms, i, st, c),
    ensures sem_map_top(ms, i, st[0], c) == okif(st.last() == Map::<SV, SV>::empty()),
    decreases ms.len() - i,
{
    if i < ms.len() {
        assert(sem_map(ms[i + 0int], st[0], c) == GM::Ok(st[0int + 1]));
        let t = st.drop_first();
        assert forall|j: int| #![trigger t[j]] 0 <= j < ms.len() - (i + 1) implies sem_map(ms[i + 1 + j], t[j], c) == GM::Ok(t[j + 1]) by {
            assert(t[j] == st[j + 1]);
            assert(sem_map(ms[i + (j + 1)], st[j + 1], c) == GM::Ok(st[j + 1 + 1]));
        }
        lemma_map_chain(ms, i + 1, t, c);
    }
}
pub proof fn lemma_map_chain_back(ms: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx) -> (st: Seq<Map<SV, SV>>)
    requires env_fatal(c.env), 0 <= i <= ms.len(), sem_map_top(ms, i, m, c) is Ok,
    ensures map_chain(ms, i, st, c), st[0] == m, st.last() == Map::<SV, SV>::empty(),
    decreases ms.len() - i,
{
    if i == ms.len() { seq![m] } else {
        assert(sem_map(ms[i], m, c) is Ok) by {
            theorem_C02_claims(ms[i], m, c);
        }
        let rest = sem_map(ms[i], m, c)->Ok_0;
        let t = lemma_map_chain_back(ms, i + 1, rest, c);
        let st = seq![m] + t;
        assert forall|j: int| #![trigger st[j]] 0 <= j < ms.len() - i implies sem_map(ms[i + j], st[j], c) == GM::Ok(st[j + 1]) by {
            if j > 0 {
                assert(st[j] == t[j - 1]);
                assert(sem_map(ms[i + 1 + (j - 1)], t[j - 1], c) == GM::Ok(t[j - 1 + 1]));
            }
        }
        st
    }
}
/// A map type accepts exactly the maps whose entries its members claim, in order and with none left over.
pub proof fn theorem_C02_map(n: crate::ivt::Map, v: SV, c: SCtx)
    requires env_fatal(c.env),
    ensures (sem_val(Node::Map(n), v, c) is Ok) <==> (v is Map
        && exists|st: Seq<Map<SV, SV>>| #[trigger] map_chain(n.members@, 0, st, c) && st[0] == tomap(v->Map_0)
            && st.last() == Map::<SV, SV>::empty()),
{
    if v is Map {
        let m = tomap(v->Map_0);
        if sem_val(Node::Map(n), v, c) is Ok {
            let st = lemma_map_chain_back(n.members@, 0, m, c);
            assert(map_chain(n.members@, 0, st, c) && st[0] == m);
        }
        if exists|st: Seq<Map<SV, SV>>| #[trigger] map_chain(n.members@, 0, st, c) && st[0] == m && st.last() == Map::<SV, SV>::empty() {
            let st = choose|st: Seq<Map<SV, SV>>| #[trigger] map_chain(n.members@, 0, st, c) && st[0] == m && st.last() == Map::<SV, SV>::empty();
            lemma_map_chain(n.members@, 0, st, c);
        }
    }
}

// ------------------------------------------------------------ C04: occurrences
/// What is left after k repetitions that each consume something.
pub open spec fn reps(n: Node, k: nat, s: Seq<SV>, c: SCtx) -> Option<Seq<SV>>
    decreases k,
{
    if k == 0 { Some(s) } else {
        match sem_arr(n, s, c) {
            GA::Ok(rest) => if rest.len() < s.len() { reps(n, (k - 1) as nat, rest, c) } else { None },
            _ => None,
        }
    }
}
/// k repetitions are as many as there are: the limit is reached, or the next one does not match.
pub open spec fn stops(n: Node, k: int, lo: int, hi: int, s: Seq<SV>, r: Seq<SV>, c: SCtx, out: GA) -> bool {
    0 <= k && reps(n, k as nat, s, c) == Some(r)
        && if k >= hi { out == (if k < lo { GA::Err(Out::Mismatch) } else { GA::Ok(r) }) }
           else {
               k < hi && match sem_arr(n, r, c) {
                   GA::Ok(t) => t.len() >= r.len() && out == (if hi < lo { GA::Err(Out::Mismatch) } else { GA::Ok(t) }),
                   GA::Err(Out::Mismatch) => out == (if k < lo { GA::Err(Out::Mismatch) } else { GA::Ok(r) }),
                   GA::Err(e) => out == GA::Err(e),
               }
           }
}
pub proof fn lemma_occ_arr(n: Node, lo: int, hi: int, count: int, s: Seq<SV>, c: SCtx) -> (k: int)
    requires 0 <= count <= hi,
    ensures 0 <= k <= hi - count, stops(n, k, lo - count, hi - count, s, reps(n, k as nat, s, c)->Some_0, c, sem_arr_occ(n, lo, hi, count, s, c)),
    decreases s.len(),
{
    if count >= hi { assert(reps(n, 0, s, c) == Some(s)); 0 }
    else {
        match sem_arr(n, s, c) {
            GA::Ok(rest) => if rest.len() < s.len() {
                let k = lemma_occ_arr(n, lo, hi, count + 1, rest, c);
                assert(reps(n, (k + 1) as nat, s, c) == reps(n, k as nat, rest, c));
                k + 1
            } else { assert(reps(n, 0, s, c) == Some(s)); 0 },
            _ => { assert(reps(n, 0, s, c) == Some(s)); 0 },
        }
    }
}
/// An occurrence repeats its member greedily, never more than its upper limit, and mismatches exactly
/// when fewer than its lower limit of repetitions match; one that consumes nothing stands for any number.
pub proof fn theorem_C04_array(n: Node, lo: int, hi: int, s: Seq<SV>, c: SCtx)
    requires 0 <= lo, 0 <= hi,
    ensures exists|k: int, r: Seq<SV>| k <= hi && #[trigger] stops(n, k, lo, hi, s, r, c, sem_arr_occ(n, lo, hi, 0, s, c)),
        hi == 0 ==> sem_arr_occ(n, lo, hi, 0, s, c) == (if lo > 0 { GA::Err(Out::Mismatch) } else { GA::Ok(s) }),
{
    let k = lemma_occ_arr(n, lo, hi, 0, s, c);
    assert(stops(n, k, lo, hi, s, reps(n, k as nat, s, c)->Some_0, c, sem_arr_occ(n, lo, hi, 0, s, c)));
}
pub open spec fn mreps(n: Node, k: nat, m: Map<SV, SV>, c: SCtx) -> Option<Map<SV, SV>>
    decreases k,
{
    if k == 0 { Some(m) } else {
        match sem_map(n, m, c) {
            GM::Ok(rest) => if rest.dom().len() < m.dom().len() { mreps(n, (k - 1) as nat, rest, c) } else { None },
            _ => None,
        }
    }
}
pub open spec fn mstops(n: Node, k: int, lo: int, hi: int, m: Map<SV, SV>, r: Map<SV, SV>, c: SCtx, out: GM) -> bool {
    0 <= k && mreps(n, k as nat, m, c) == Some(r)
        && if k >= hi { out == (if k < lo { GM::Err(Out::Mismatch) } else { GM::Ok(r) }) }
           else {
               k < hi && match sem_map(n, r, c) {
                   GM::Ok(t) => t.dom().len() >= r.dom().len() && out == (if hi < lo { GM::Err(Out::Mismatch) } else { GM::Ok(t) }),
                   GM::Err(Out::Mismatch) => out == (if k < lo { GM::Err(Out::Mismatch) } else { GM::Ok(r) }),
                   GM::Err(e) => out == GM::Err(e),
               }
           }
}
pub proof fn lemma_occ_map(n: Node, lo: int, hi: int, count: int, m: Map<SV, SV>, c: SCtx) -> (k: int)
    requires 0 <= count <= hi,
    ensures 0 <= k <= hi - count,
        mstops(n, k, lo - count, hi - count, m, mreps(n, k as nat, m, c)->Some_0, c, sem_map_occ(n, lo, hi, count, m, c)),
    decreases m.dom().len(),
{
    if count >= hi { assert(mreps(n, 0, m, c) == Some(m)); 0 }
    else {
        match sem_map(n, m, c) {
            GM::Ok(rest) => if rest.dom().len() < m.dom().len() {
                let k = lemma_occ_map(n, lo, hi, count + 1, rest, c);
                assert(mreps(n, (k + 1) as nat, m, c) == mreps(n, k as nat, rest, c));
                k + 1
            } else { assert(mreps(n, 0, m, c) == Some(m)); 0 },
            _ => { assert(mreps(n, 0, m, c) == Some(m)); 0 },
        }
    }
}
/// The same in a map.
pub proof fn theorem_C04_map(n: Node, lo: int, hi: int, m: Map<SV, SV>, c: SCtx)
    requires 0 <= lo, 0 <= hi,
    ensures exists|k: int, r: Map<SV, SV>| k <= hi && #[trigger] mstops(n, k, lo, hi, m, r, c, sem_map_occ(n, lo, hi, 0, m, c)),
        hi == 0 ==> sem_map_occ(n, lo, hi, 0, m, c) == (if lo > 0 { GM::Err(Out::Mismatch) } else { GM::Ok(m) }),
{
    let k = lemma_occ_map(n, lo, hi, 0, m, c);
    assert(mstops(n, k, lo, hi, m, mreps(n, k as nat, m, c)->Some_0, c, sem_map_occ(n, lo, hi, 0, m, c)));
}

// ------------------------------------------------------------ C07, C14: choices
/// Option j decides: the ones before it mismatch, it does not.
pub open spec fn decides(o: Seq<Node>, i: int, j: int, v: SV, c: SCtx) -> bool {
    i <= j < o.len() && (sem_val(o[j], v, c) is Ok || sem_val(o[j], v, c) is Fatal)
        && forall|x: int| i <= x < j ==> sem_val(#[trigger] o[x], v, c) is Mismatch
}
/// A choice accepts exactly what some option accepts, unless an error comes first; and an error an
/// option meets, with only mismatches before it, is the outcome.
pub proof fn theorem_C14_choice(o: Seq<Node>, i: int, v: SV, c: SCtx)
    requires env_fatal(c.env), 0 <= i <= o.len(),
    ensures
        forall|j: int| #[trigger] decides(o, i, j, v, c) ==> sem_choice(o, i, v, c) == sem_val(o[j], v, c),
        sem_choice(o, i, v, c) is Mismatch <==> forall|j: int| i <= j < o.len() ==> sem_val(#[trigger] o[j], v, c) is Mismatch,
        sem_choice(o, i, v, c) is Ok || sem_choice(o, i, v, c) is Fatal ==> exists|j: int| #[trigger] decides(o, i, j, v, c),
    decreases o.len() - i,
{
    if i < o.len() {
        theorem_C08_no_cut_val(o[i], v, c);
        theorem_C14_choice(o, i + 1, v, c);
        assert forall|j: int| #[trigger] decides(o, i, j, v, c) implies sem_choice(o, i, v, c) == sem_val(o[j], v, c) by {
            if j > i {
                assert(sem_val(o[i], v, c) is Mismatch);
                assert(decides(o, i + 1, j, v, c));
            }
        }
        if sem_val(o[i], v, c) is Mismatch {
            if sem_choice(o, i, v, c) is Ok || sem_choice(o, i, v, c) is Fatal {
                let j = choose|j: int| #[trigger] decides(o, i + 1, j, v, c);
                assert(decides(o, i, j, v, c));
            }
        } else {
            assert(decides(o, i, i, v, c));
        }
    }
}
pub open spec fn cdecides(o: Seq<Node>, i: int, j: int, v: SV, c: SCtx) -> bool {
    i <= j < o.len() && (sem_choiceify_item(o[j], v, c) is Ok || sem_choiceify_item(o[j], v, c) is Fatal)
        && forall|x: int| i <= x < j ==> sem_choiceify_item(#[trigger] o[x], v, c) is Mismatch
}
pub proof fn lemma_no_cut_item(n: Node, v: SV, c: SCtx)
    requires env_fatal(c.env),
    ensures !(sem_choiceify_item(n, v, c) is Cut),
{
    reveal_with_fuel(sem_choiceify_item, 2);
    match n {
        Node::KeyValue(kv) => theorem_C08_no_cut_val(*kv.value, v, c),
        Node::Rule(r) => lemma_no_cut_choiceify(r, v, c),
        n => theorem_C08_no_cut_val(n, v, c),
    }
}
pub proof fn lemma_members_step(o: Seq<Node>, i: int, v: SV, c: SCtx)
    requires 0 <= i <= o.len(),
    ensures sem_choiceify_members(o, i, v, c) == (if i >= o.len() { Out::Mismatch } else {
        let r = sem_choiceify_item(o[i], v, c);
        if r is Ok || r is Fatal { r } else { sem_choiceify_members(o, i + 1, v, c) }
    }),
{ }
/// & over a group: likewise, over the value types of its members and of the groups it names.
pub proof fn theorem_C14_group(o: Seq<Node>, i: int, v: SV, c: SCtx)
    requires env_fatal(c.env), 0 <= i <= o.len(),
    ensures
        forall|j: int| #[trigger] cdecides(o, i, j, v, c) ==> sem_choiceify_members(o, i, v, c) == sem_choiceify_item(o[j], v, c),
        sem_choiceify_members(o, i, v, c) is Mismatch <==> forall|j: int| i <= j < o.len() ==> sem_choiceify_item(#[trigger] o[j], v, c) is Mismatch,
        sem_choiceify_members(o, i, v, c) is Ok || sem_choiceify_members(o, i, v, c) is Fatal ==> exists|j: int| #[trigger] cdecides(o, i, j, v, c),
    decreases o.len() - i,
{
    hide(sem_choiceify_item); hide(sem_choiceify_members);
    lemma_members_step(o, i, v, c);
    if i < o.len() {
        lemma_no_cut_item(o[i], v, c);
        theorem_C14_group(o, i + 1, v, c);
        assert forall|j: int| #[trigger] cdecides(o, i, j, v, c) implies sem_choiceify_members(o, i, v, c) == sem_choiceify_item(o[j], v, c) by {
            if j > i {
                assert(sem_choiceify_item(o[i], v, c) is Mismatch);
                assert(cdecides(o, i + 1, j, v, c));
            }
        }
        if sem_choiceify_item(o[i], v, c) is Mismatch {
            if sem_choiceify_members(o, i, v, c) is Ok || sem_choiceify_members(o, i, v, c) is Fatal {
                let j = choose|j: int| #[trigger] cdecides(o, i + 1, j, v, c);
                assert(cdecides(o, i, j, v, c));
            }
        } else {
            assert(cdecides(o, i, i, v, c));
        }
    }
}
/// An error met by a member, after members that match, is the outcome of the sequence and of whatever
/// tries it as an option, key, repetition or member.
pub proof fn theorem_C07_fatal(e: Ek, n: Node, c: SCtx)
    ensures
        forall|ms: Seq<Node>, i: int, s: Seq<SV>| 0 <= i < ms.len() && ms[i] == n && sem_arr(n, s, c) == GA::Err(Out::Fatal(e)) ==> {
            &&& #[trigger] sem_arr_seq(ms, i, s, c) == GA::Err(Out::Fatal(e))
            &&& sem_arr_choice(ms, i, s, c) == GA::Err(Out::Fatal(e))
        },
        forall|lo: int, hi: int, k: int, s: Seq<SV>| k < hi && sem_arr(n, s, c) == GA::Err(Out::Fatal(e)) ==>
            #[trigger] sem_arr_occ(n, lo, hi, k, s, c) == GA::Err(Out::Fatal(e)),
        forall|ms: Seq<Node>, i: int, m: Map<SV, SV>| 0 <= i < ms.len() && ms[i] == n && sem_map(n, m, c) == GM::Err(Out::Fatal(e)) ==> {
            &&& #[trigger] sem_map_seq(ms, i, m, c) == GM::Err(Out::Fatal(e))
            &&& sem_map_choice(ms, i, m, c) == GM::Err(Out::Fatal(e))
            &&& sem_map_top(ms, i, m, c) == Out::Fatal(e)
        },
        forall|lo: int, hi: int, k: int, m: Map<SV, SV>| k < hi && sem_map(n, m, c) == GM::Err(Out::Fatal(e)) ==>
            #[trigger] sem_map_occ(n, lo, hi, k, m, c) == GM::Err(Out::Fatal(e)),
        forall|ms: Seq<Node>, i: int, v: SV| 0 <= i < ms.len() && ms[i] == n && sem_val(n, v, c) == Out::Fatal(e) ==>
            #[trigger] sem_choice(ms, i, v, c) == Out::Fatal(e),
        forall|ks: Seq<SV>, i: int| 0 <= i < ks.len() && sem_val(n, ks[i], c) == Out::Fatal(e) ==>
            #[trigger] sem_search(n, ks, i, c) == Err::<SV, Out>(Out::Fatal(e)),
{ }

// ------------------------------------------------------------ C05: the bound on rule references
/// Every reference followed leaves the recursion limit respected, and past it is a structural error.
pub proof fn theorem_C05_bound(r: Rule, c: SCtx)
    requires 0 <= c.depth <= limit(),
    ensures match sem_lookup(r, c) {
        Ok((_, c2)) => c.depth <= c2.depth <= limit() && (c2.depth == c.depth + 1 || c.g.past == Some(Box::new(c2.g))),
        Err(_) => true,
    },
    c.depth == limit() && c.g.gen.dom().len() == 0 && c.g.gen.dom().finite() && (c.env)(r.name@) is Ok && (c.env)(r.name@)->Ok_0.generic_parms@.len() == r.generic_args@.len()
        ==> sem_lookup(r, c) == Err::<(Node, SCtx), Out>(Out::Fatal(Ek::Structural)),
{
    if c.g.gen.dom().finite() && c.g.gen.contains_key(r.name@) { vstd::set_lib::lemma_set_empty_equivalency_len(c.g.gen.dom()); }
}

// ------------------------------------------------------------ C10: unsigned sizes
/// uint .size n is 0 .. 256^n; with a range of sizes, the number of bytes needed is in it, and a
/// number needs exactly one number of bytes.
pub proof fn theorem_C10_uint(x: int, n: int, lo: int, hi: int, incl: bool)
    requires 0 <= x, 0 <= n,
    ensures size_uint_ok(x, n, n, true) <==> x < pow256(n as nat),
        0 <= lo && !(lo == hi && incl) ==> (size_uint_ok(x, lo, hi, incl) <==> (
            (lo == 0 || pow256((lo - 1) as nat) <= x) && lo <= hi && (if incl { x < pow256(hi as nat) } else { 0 < hi && lo < hi && x < pow256((hi - 1) as nat) }))),
{
    lemma_size_facts(x);
    if 0 <= lo && !(lo == hi && incl) {
        lemma_needs(x);
        let w = choose|w: nat| needs_bytes(x, w);
        let top = if incl { hi } else { hi - 1 };
        if size_uint_ok(x, lo, hi, incl) {
            let b = choose|b: nat| needs_bytes(x, b) && in_size(b as int, lo, hi, incl);
            lemma_pow256_mono(b, top as nat);
            if lo > 0 { lemma_pow256_mono((lo - 1) as nat, (b - 1) as nat); }
        }
        if (lo == 0 || pow256((lo - 1) as nat) <= x) && lo <= hi && (if incl { x < pow256(hi as nat) } else { 0 < hi && lo < hi && x < pow256((hi - 1) as nat) }) {
            if w > top { lemma_pow256_mono(top as nat, (w - 1) as nat); }
            if w < lo { lemma_pow256_mono(w, (lo - 1) as nat); }
            assert(in_size(w as int, lo, hi, incl));
        }
    }
}
pub proof fn lemma_needs(x: int)
    requires 0 <= x,
    ensures exists|w: nat| needs_bytes(x, w),
{
    lemma_pow_above(x, x as nat);
    lemma_least(x, x as nat);
}
pub proof fn lemma_pow_above(x: int, n: nat)
    requires 0 <= x <= n,
    ensures x < pow256(n),
    decreases n,
{
    if n > 0 { lemma_pow_above(if x == 0 { 0 } else { x - 1 }, (n - 1) as nat); }
}
pub proof fn lemma_least(x: int, n: nat)
    requires 0 <= x < pow256(n),
    ensures exists|w: nat| needs_bytes(x, w),
    decreases n,
{
    if n == 0 || pow256((n - 1) as nat) <= x { assert(needs_bytes(x, n)); } else { lemma_least(x, (n - 1) as nat); }
}

// ------------------------------------------------------------ C13: names
/// With no generic parameters in scope a name means its rule; inside a rule with parameters, a
/// parameter means its argument, read where it was written; without a rule it is a missing-rule error.
pub proof fn theorem_C13_names(r: Rule, rules: Map<Seq<char>, RuleDef>, depth: int, g: SGen)
    requires depth < limit(),
    ensures ({
        let c = SCtx { env: rules_env(rules), depth, g };
        &&& !g.gen.contains_key(r.name@) && !rules.contains_key(r.name@)
            ==> forall|v: SV| #[trigger] sem_val(Node::Rule(r), v, c) == Out::Fatal(Ek::MissingRule)
        &&& !g.gen.contains_key(r.name@) && rules.contains_key(r.name@) && rules[r.name@].generic_parms@.len() != r.generic_args@.len()
            ==> forall|v: SV| #[trigger] sem_val(Node::Rule(r), v, c) == Out::Fatal(Ek::Generic)
        &&& !g.gen.contains_key(r.name@) && rules.contains_key(r.name@) && rules[r.name@].generic_parms@.len() == r.generic_args@.len()
            ==> forall|v: SV| #[trigger] sem_val(Node::Rule(r), v, c) == sem_val(rules[r.name@].node, v,
                SCtx { env: c.env, depth: depth + 1, g: SGen { gen: bind_gen(rules[r.name@].generic_parms@, r.generic_args@), past: Some(Box::new(g)) } })
        &&& g.gen.contains_key(r.name@) && g.past is Some
            ==> forall|v: SV| #[trigger] sem_val(Node::Rule(r), v, c) == sem_val(g.gen[r.name@], v, SCtx { env: c.env, depth, g: *g.past->Some_0 })
    }),
{ }
/// Parameters are bound to their arguments by position.
pub proof fn theorem_C13_binding(parms: Seq<String>, args: Seq<Node>, i: int)
    requires parms.len() == args.len(), 0 <= i < parms.len(),
        forall|j: int| i < j < parms.len() ==> (#[trigger] parms[j])@ != parms[i]@,
    ensures bind_gen(parms, args).contains_key(parms[i]@), bind_gen(parms, args)[parms[i]@] == args[i],
    decreases parms.len(),
{
    if i < parms.len() - 1 {
        assert(parms.drop_last()[i] == parms[i]);
        assert(parms.last() == parms[parms.len() - 1]);
        theorem_C13_binding(parms.drop_last(), args.drop_last(), i);
    }
}

// ------------------------------------------------------------ C16, C17: conversion keeps every entry
/// Converted entries with distinct keys are all in the map, under their own keys, and nothing else is.
pub proof fn theorem_C17_entries(s: Seq<(SV, SV)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 != s[j].0,
    ensures forall|i: int| 0 <= i < s.len() ==> tomap(s).contains_key((#[trigger] s[i]).0) && tomap(s)[s[i].0] == s[i].1,
        forall|k: SV| #[trigger] tomap(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
{
    lemma_tomap(s);
}

// ------------------------------------------------------------ C09, C11, C12, C14, C15, C18: single values
/// With a literal limit and an integer target, each comparison is that comparison over the integers,
/// and the four agree with each other: not <= is >, and <= is < or equal.
pub proof fn theorem_C09_compare(t: PreludeType, l: i128, v: SV, c: SCtx)
    requires t is Int || t is Uint || t is Nint,
    ensures ({
        let n = Node::PreludeType(t);
        let a = Node::Literal(Literal::Int(l));
        let is = v is Integer && (t is Uint ==> v->Integer_0 >= 0) && (t is Nint ==> v->Integer_0 < 0);
        &&& sem_cmp(Cmp::Lt, n, a, v, c) == okif(is && v->Integer_0 < l)
        &&& sem_cmp(Cmp::Le, n, a, v, c) == okif(is && v->Integer_0 <= l)
        &&& sem_cmp(Cmp::Gt, n, a, v, c) == okif(is && v->Integer_0 > l)
        &&& sem_cmp(Cmp::Ge, n, a, v, c) == okif(is && v->Integer_0 >= l)
    }),
{ reveal(sem_cmp); reveal(sem_int_arg); }
/// A name for the target or for the limit changes nothing.
pub proof fn theorem_C09_names(k: Cmp, r: Rule, a: Node, v: SV, c: SCtx, n: Node, c2: SCtx)
    requires sem_lookup(r, c) == Ok::<(Node, SCtx), Out>((n, c2)),
    ensures sem_chase(Node::Rule(r), c) == sem_chase(n, c2), sem_int_arg(Node::Rule(r), c) == sem_int_arg(n, c2), sem_endpoint(Node::Rule(r), c) == sem_endpoint(n, c2),
{ reveal(sem_int_arg); reveal(sem_endpoint); }
/// a..b and a...b over literal integers.
pub proof fn theorem_C11_integers(r: Range, a: i128, b: i128, v: SV, c: SCtx)
    requires *r.start == Node::Literal(Literal::Int(a)), *r.end == Node::Literal(Literal::Int(b)),
    ensures sem_val(Node::Range(r), v, c) == okif(v is Integer && a <= v->Integer_0 && (if r.inclusive { v->Integer_0 <= b } else { v->Integer_0 < b })),
{ reveal(sem_range); reveal(sem_endpoint); }
/// End points of two kinds, or of a kind that has no order, are a structural error whatever the value.
pub proof fn theorem_C11_kinds(r: Range, a: Literal, b: Literal, v: SV, c: SCtx)
    requires *r.start == Node::Literal(a), *r.end == Node::Literal(b), lit_tag(a) != lit_tag(b),
    ensures sem_val(Node::Range(r), v, c) == Out::Fatal(Ek::Structural),
{ reveal(sem_range); reveal(sem_endpoint); }
/// The prelude kinds: int is uint or nint and never both, any accepts everything, and no value has two kinds.
pub proof fn theorem_C12_kinds(v: SV, c: SCtx)
    ensures ({
        let p = |t: PreludeType| sem_val(Node::PreludeType(t), v, c) == Out::Ok;
        &&& p(PreludeType::Any)
        &&& p(PreludeType::Int) == (p(PreludeType::Uint) || p(PreludeType::Nint))
        &&& !(p(PreludeType::Uint) && p(PreludeType::Nint))
        &&& p(PreludeType::Tstr) ==> !p(PreludeType::Bstr) && !p(PreludeType::Int) && !p(PreludeType::Float) && !p(PreludeType::Bool) && !p(PreludeType::Nil)
        &&& p(PreludeType::Float) ==> !p(PreludeType::Int) && !p(PreludeType::Bstr) && !p(PreludeType::Bool) && !p(PreludeType::Nil)
    }),
{ }
/// A literal accepts one value and no other.
pub proof fn theorem_C12_literal(l: Literal, v: SV, w: SV, c: SCtx)
    ensures sem_val(Node::Literal(l), lit_sv(l), c) == Out::Ok,
        sem_val(Node::Literal(l), v, c) == Out::Ok && sem_val(Node::Literal(l), w, c) == Out::Ok ==> v == w,
{ }
/// bstr .cbor T: bytes that are one whole item are judged as that item; more or fewer bytes are an error.
pub proof fn theorem_C15_whole(x: CtlOpCbor, v: SV, c: SCtx)
    ensures !(v is Bytes) ==> sem_val(Node::Control(Control::Cbor(x)), v, c) == Out::Mismatch,
        v matches SV::Bytes(b) ==> match crate::vp::ciborium::first_item(b) {
            None => sem_val(Node::Control(Control::Cbor(x)), v, c) == Out::Fatal(Ek::ValueError),
            Some((w, n)) => if n != b.len() { sem_val(Node::Control(Control::Cbor(x)), v, c) == Out::Fatal(Ek::ValueError) }
                else { cbor_sv(w) is Some ==> sem_val(Node::Control(Control::Cbor(x)), v, c) == sem_val(*x.node, cbor_sv(w)->Some_0, c) } },
{ }
/// A rule with parameters cannot be the root; any other is judged with nothing in scope.
pub proof fn theorem_C18_root(d: RuleDef, v: SV, rules: Map<Seq<char>, RuleDef>)
    ensures d.generic_parms@.len() > 0 ==> sem_top(d, v, rules_env(rules)) == Out::Fatal(Ek::Generic),
        d.generic_parms@.len() == 0 ==> sem_top(d, v, rules_env(rules)) == sem_val(d.node, v, SCtx { env: rules_env(rules), depth: 0, g: nogen() }),
{ }
}
