@head validate
use crate::spec::*;
use crate::ivt::Map;
use crate::value::axiom_into_f64;
use vstd::map::Map as GMap;
use crate::ivt::Range;
use crate::vspec::*;
@allfn validate
    broadcast use {axiom_vmap_finite, axiom_into_f64, lemma_sv_array, lemma_push_drop_last};
@default validate::GenericMap
ensures r.map@ == GMap::<Seq<char>, &'a Node>::empty(), r.past_ctx is None
@fn validate::Context::inc_depth (self) -> r
    requires self.depth <= VP_CONTEXT_MAX_DEPTH,
    ensures match r {
        Ok(d) => self.depth < VP_CONTEXT_MAX_DEPTH && d == self.depth + 1,
        Err(e) => self.depth >= VP_CONTEXT_MAX_DEPTH && cls_e(e) == Out::Fatal(Ek::Structural),
    },
@tags C05
@fn validate::Context::lookup_rule (self, rule) -> r
    requires ctx_ok(*self),
    ensures is_nctx(r, sem_lookup(*rule, ctxv(*self))), r is Ok ==> ctx_below(r->Ok_0.ctx, *self),
@body
    reveal_with_fuel(genv, 3); reveal_with_fuel(ctx_ok, 3);
    broadcast use {group_ctx, lemma_lookup_decreases};
@tags C13 C05 C07
@fn validate::Context::blank (self) -> r
    requires ctx_ok(*self),
    ensures match r {
        Ok(x) => ctx_ok(x) && self.depth < VP_CONTEXT_MAX_DEPTH
            && ctxv(x) == (SCtx { env: ctxv(*self).env, depth: self.depth + 1, g: nogen() }),
        Err(e) => self.depth >= VP_CONTEXT_MAX_DEPTH && cls_e(e) == Out::Fatal(Ek::Structural),
    },
@body
    reveal_with_fuel(genv, 3); reveal_with_fuel(ctx_ok, 3);
    broadcast use {group_ctx, lemma_lookup_decreases};
@tags C13 C05
@fn validate::Context::derive (self, rule_def, rule) -> r
    requires ctx_ok(*self),
    ensures match r {
        Ok(x) => ctx_ok(x) && self.depth < VP_CONTEXT_MAX_DEPTH && rule_def.generic_parms@.len() == rule.generic_args@.len()
            && ctxv(x) == (SCtx { env: ctxv(*self).env, depth: self.depth + 1,
                    g: SGen { gen: bind_gen(rule_def.generic_parms@, rule.generic_args@), past: Some(Box::new(genv(*self))) } }),
        Err(e) => if rule_def.generic_parms@.len() != rule.generic_args@.len() { cls_e(e) == Out::Fatal(Ek::Generic) }
                  else { self.depth >= VP_CONTEXT_MAX_DEPTH && cls_e(e) == Out::Fatal(Ek::Structural) },
    },
@body
    reveal_with_fuel(genv, 3); reveal_with_fuel(ctx_ok, 3);
    broadcast use {group_ctx, lemma_lookup_decreases};
@tags C13 C05
@fn validate::do_validate (value, rule_def, ctx) -> r
    ensures cls(r) == sem_top(*rule_def, sv(*value), env_of(ctx)),
@body
    reveal_with_fuel(genv, 3); reveal_with_fuel(ctx_ok, 3);
    broadcast use {group_ctx, lemma_lookup_decreases};
@tags C13 C18 C07

## ------------------------------------------------ dispatch and leaves
@fn validate::validate (value, node, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_val(*node, sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *node, 2int, 0int,
@tags C05 C12 C14 C07 C13
@fn validate::validate_choice (choice, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_choice(choice.options@, 0, sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *choice, 2int, 0int,
@loop 0 for
    sem_choice(choice.options@, $pos, sv(*value), ctxv(*ctx)) == sem_choice(choice.options@, 0, sv(*value), ctxv(*ctx)),
@tags C14 C07
@fn validate::validate_rule (rule, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_val(Node::Rule(*rule), sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *rule, 2int, 0int,
@tags C13 C05 C07
@lower validate::Value::From<&Literal>
@fn validate::Value::From<&Literal>::from (l) -> r
    ensures sv(r) == lit_sv(*l),
@tags C12
@fn validate::validate_literal (literal, value) -> r
    ensures cls(r) == okif(lit_sv(*literal) == sv(*value)),
@tags C12
@fn validate::validate_prelude_type (ty, value) -> r
    ensures cls(r) == sem_prelude(ty, sv(*value)),
@tags C12
@fn validate::validate_standalone_group (g, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == (if g.members@.len() == 1 { sem_val(g.members@[0], sv(*value), ctxv(*ctx)) } else { Out::Fatal(Ek::Unsupported) }),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *g, 2int, 0int,
@tags C14 C07

## ------------------------------------------------ ranges and controls
@fn validate::deref_range_rule (node, ctx) -> r
    requires ctx_ok(*ctx),
    ensures match r {
        Ok(l) => sem_endpoint(*node, ctxv(*ctx)) == Ok::<Literal, Out>(l),
        Err(e) => sem_endpoint(*node, ctxv(*ctx)) == Err::<Literal, Out>(cls_e(e)),
    },
    decreases fuel(ctxv(*ctx)), genv(*ctx), *node, 1int, 0int,
@body
    reveal(sem_endpoint);
@tags C11 C05 C07 C13
@fn validate::check_range (start, end, value, inclusive) -> r
    ensures <T as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec() ==>
        r == (!plt(value, start) && (if inclusive { ple(value, end) } else { plt(value, end) })),
@body
    broadcast use axiom_f64_cmp;
@tags C11 C07
@fn validate::validate_range (range, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_range(*range, sv(*value), ctxv(*ctx)),
@body
    broadcast use axiom_f64_cmp; reveal(sem_range);
@tags C11 C07 C05 C13
@fn validate::chase_rules (node, ctx, f) -> r
    requires ctx_ok(*ctx), forall|n: &Node| #[trigger] f.requires((n,)),
    ensures match sem_chase(*node, ctxv(*ctx)) {
        Ok(n) => f.ensures((&n,), r),
        Err(o) => r is Err && cls_e(r->Err_0) == o,
    },
    decreases fuel(ctxv(*ctx)), genv(*ctx), *node, 1int, 0int,
@tags C09 C10 C13 C05 C07 C11
@fn validate::validate_control (ctl, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_val(Node::Control(*ctl), sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *ctl, 2int, 0int,
@tags C09 C10 C15 C12
@fn validate::validate_control_cbor (ctl_cbor, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == (match sv(*value) {
            SV::Bytes(b) => match cbor_decode(b) {
                None => Out::Fatal(Ek::ValueError),
                Some(w) => sem_val(*ctl_cbor.node, w, ctxv(*ctx)),
            },
            _ => Out::Mismatch,
        }),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *ctl_cbor, 2int, 0int,
@tags C15 C07 C05
@fn validate::validate_control_regexp (re, value) -> r
    ensures cls(r) == (match sv(*value) { SV::Text(t) => okif(re.re.matches(t)), _ => Out::Mismatch }),
@tags C12
@fn validate::validate_control_size (ctl, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_size(*ctl.target, *ctl.size, sv(*value), ctxv(*ctx)),
@closure 0
-> (o: ValidateResult) ensures range_ints(size) is Some ==> cls(o) == sem_size_target(*$0, range_ints(size)->Some_0, sv(*value)),
@body
    reveal(sem_size);
@tags C10 C07
@fn validate::validate_control_lt (ctl, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_cmp(Cmp::Lt, *ctl.target, *ctl.lt, sv(*value), ctxv(*ctx)),
@closure 0
-> (o: TempResult<i128>) ensures int_arg_is(o, *$0),
@closure 1
-> (o: ValidateResult) ensures cls(o) == sem_cmp_target(Cmp::Lt, *$0, lt as int, sv(*value)),
@locals lt
@body
    reveal(sem_cmp); reveal(sem_int_arg);
@tags C09 C07
@fn validate::validate_lt_uint (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Lt, Node::PreludeType(PreludeType::Uint), lt as int, sv(*value)),
@tags C09
@fn validate::validate_lt_nint (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Lt, Node::PreludeType(PreludeType::Nint), lt as int, sv(*value)),
@tags C09
@fn validate::validate_lt_int (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Lt, Node::PreludeType(PreludeType::Int), lt as int, sv(*value)),
@tags C09
@fn validate::validate_control_le (ctl, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_cmp(Cmp::Le, *ctl.target, *ctl.le, sv(*value), ctxv(*ctx)),
@closure 0
-> (o: TempResult<i128>) ensures int_arg_is(o, *$0),
@closure 1
-> (o: ValidateResult) ensures cls(o) == sem_cmp_target(Cmp::Le, *$0, le as int, sv(*value)),
@locals le
@body
    reveal(sem_cmp); reveal(sem_int_arg);
@tags C09 C07
@fn validate::validate_le_uint (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Le, Node::PreludeType(PreludeType::Uint), lt as int, sv(*value)),
@tags C09
@fn validate::validate_le_nint (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Le, Node::PreludeType(PreludeType::Nint), lt as int, sv(*value)),
@tags C09
@fn validate::validate_le_int (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Le, Node::PreludeType(PreludeType::Int), lt as int, sv(*value)),
@tags C09
@fn validate::validate_control_gt (ctl, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_cmp(Cmp::Gt, *ctl.target, *ctl.gt, sv(*value), ctxv(*ctx)),
@closure 0
-> (o: TempResult<i128>) ensures int_arg_is(o, *$0),
@closure 1
-> (o: ValidateResult) ensures cls(o) == sem_cmp_target(Cmp::Gt, *$0, gt as int, sv(*value)),
@locals gt
@body
    reveal(sem_cmp); reveal(sem_int_arg);
@tags C09 C07
@fn validate::validate_gt_uint (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Gt, Node::PreludeType(PreludeType::Uint), lt as int, sv(*value)),
@tags C09
@fn validate::validate_gt_nint (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Gt, Node::PreludeType(PreludeType::Nint), lt as int, sv(*value)),
@tags C09
@fn validate::validate_gt_int (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Gt, Node::PreludeType(PreludeType::Int), lt as int, sv(*value)),
@tags C09
@fn validate::validate_control_ge (ctl, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_cmp(Cmp::Ge, *ctl.target, *ctl.ge, sv(*value), ctxv(*ctx)),
@closure 0
-> (o: TempResult<i128>) ensures int_arg_is(o, *$0),
@closure 1
-> (o: ValidateResult) ensures cls(o) == sem_cmp_target(Cmp::Ge, *$0, ge as int, sv(*value)),
@locals ge
@body
    reveal(sem_cmp); reveal(sem_int_arg);
@tags C09 C07
@fn validate::validate_ge_uint (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Ge, Node::PreludeType(PreludeType::Uint), lt as int, sv(*value)),
@tags C09
@fn validate::validate_ge_nint (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Ge, Node::PreludeType(PreludeType::Nint), lt as int, sv(*value)),
@tags C09
@fn validate::validate_ge_int (lt, value) -> r
    ensures cls(r) == sem_cmp_target(Cmp::Ge, Node::PreludeType(PreludeType::Int), lt as int, sv(*value)),
@tags C09
@fn validate::validate_size_uint (size, value) -> r
    requires match range_ints(*size) { Some(x) => u64_ok(x.0) && u64_ok(x.1), None => true },
    ensures match range_ints(*size) {
        Some(x) => cls(r) == sem_size_uint(x.0, x.1, x.2, sv(*value)),
        None => cls(r) == Out::Fatal(Ek::Structural),
    },
@body
    proof { if sv(*value) is Integer && sv(*value)->Integer_0 >= 0 { lemma_size_facts(sv(*value)->Integer_0); } }
@tags C10 C06
@fn validate::validate_size_tstr (size, value) -> r
    requires match range_ints(*size) { Some(x) => u64_ok(x.0) && u64_ok(x.1), None => true },
    ensures match range_ints(*size) {
        Some(x) => cls(r) == sem_size_tstr(x.0, x.1, x.2, sv(*value)),
        None => cls(r) == Out::Fatal(Ek::Structural),
    },
@tags C10
@fn validate::validate_size_bstr (size, value) -> r
    requires match range_ints(*size) { Some(x) => u64_ok(x.0) && u64_ok(x.1), None => true },
    ensures match range_ints(*size) {
        Some(x) => cls(r) == sem_size_bstr(x.0, x.1, x.2, sv(*value)),
        None => cls(r) == Out::Fatal(Ek::Structural),
    },
@tags C10

## ------------------------------------------------ & (choice from a group)
@fn validate::validate_choiceify_members (choices, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_choiceify_members(choices@, 0, sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), choices@, 2int, 0int,
@loop 0 for
    sem_choiceify_members(choices@, $pos, sv(*value), ctxv(*ctx)) == sem_choiceify_members(choices@, 0, sv(*value), ctxv(*ctx)),
@body
    reveal_with_fuel(sem_choiceify_members, 2);
    reveal_with_fuel(sem_choiceify_item, 2);
@tags C14 C07
@fn validate::validate_choiceify (rule, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_choiceify(*rule, sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *rule, 2int, 0int,
@tags C14 C13 C07 C05
@fn validate::validate_choiceify_inline (array, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_choiceify_members(array.members@, 0, sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *array, 2int, 0int,
@tags C14 C07

## ------------------------------------------------ arrays
@fn validate::WorkingArray::new (array) -> r
    ensures wa_now(r) == svs(array@), wa_levels(r).len() == 0,
@body
    reveal(wa_levels);
    broadcast use group_wa;
@tags C01 C03
@fn validate::WorkingArray::snapshot (self)
    ensures wa_now(*final(self)) == wa_now(*old(self)),
        wa_levels(*final(self)) =~~= wa_levels(*old(self)).push(wa_now(*old(self))),
@body
    reveal(wa_levels);
    broadcast use group_wa;
@tags C03
@fn validate::WorkingArray::rewind (self)
    requires wa_levels(*old(self)).len() > 0,
    ensures wa_now(*final(self)) =~~= wa_levels(*old(self)).last(),
        wa_levels(*final(self)) =~~= wa_levels(*old(self)).drop_last(),
@tags C03 C06
@loop 0 for
    self.snaps@ == old(self).snaps@.drop_last(), self.array@ =~= vp_s1.take($pos).reverse() + old(self).array@,
@body
    reveal(wa_levels);
    broadcast use group_wa;
    reveal_with_fuel(wa_cat, 2);
@loopafter 0
    assert(vp_s1.take(vp_s1.len() as int).reverse() =~= old(self).snaps@.last()@);
    assert(wa_now(*self) =~= svs(old(self).snaps@.last()@) + wa_now(*old(self)));
@fn validate::WorkingArray::commit (self)
    requires wa_levels(*old(self)).len() > 0,
    ensures wa_now(*final(self)) == wa_now(*old(self)),
        wa_levels(*final(self)) =~~= wa_levels(*old(self)).drop_last(),
@body
    reveal(wa_levels);
    broadcast use group_wa;
    reveal_with_fuel(wa_cat, 3);
@tags C03 C06
@fn validate::WorkingArray::peek_front (self) -> r
    ensures match r { None => wa_now(*self).len() == 0, Some(v) => wa_now(*self).len() > 0 && sv(*v) == wa_now(*self)[0] },
@body
    reveal(wa_levels);
    broadcast use group_wa;
@tags C01 C03
@fn validate::WorkingArray::pop_front (self)
    requires wa_now(*old(self)).len() > 0,
    ensures wa_now(*final(self)) =~= wa_now(*old(self)).drop_first(),
        wa_levels(*final(self)) =~~= wa_levels(*old(self)),
@body
    reveal(wa_levels);
    broadcast use group_wa;
@tags C03 C06 C01
@fn validate::validate_array (ar, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_val(Node::Array(*ar), sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *ar, 2int, 0int,
@tags C01 C12
@fn validate::validate_array_part2 (ar, value_array, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == (match sem_arr_seq(ar.members@, 0, svs(value_array@), ctxv(*ctx)) {
            GA::Ok(rest) => okif(rest.len() == 0),
            GA::Err(o) => o,
        }),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *ar, 1int, 0int,
@loop 0 for
    sem_arr_seq(ar.members@, $pos, wa_now(working_array), ctxv(*ctx)) == sem_arr_seq(ar.members@, 0, svs(value_array@), ctxv(*ctx)),
@locals working_array
@tags C01 C03
@fn validate::validate_array_member (member, working_array, ctx) -> r
    requires ctx_ok(*ctx),
    ensures ga_is(r, *old(working_array), *final(working_array), sem_arr(*member, wa_now(*old(working_array)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *member, 4int, 0int,
@loop 0 for
    wa_now(*working_array) == wa_now(*old(working_array)),
    wa_levels(*working_array) == wa_levels(*old(working_array)),
    sem_arr_choice(c.options@, $pos, wa_now(*working_array), ctxv(*ctx)) == sem_arr_choice(c.options@, 0, wa_now(*old(working_array)), ctxv(*ctx)),
@loop 1 for
    wa_levels(*working_array) == wa_levels(*old(working_array)).push(wa_now(*old(working_array))),
    wa_now(*working_array).len() <= wa_now(*old(working_array)).len(),
    sem_arr_seq(g.members@, $pos, wa_now(*working_array), ctxv(*ctx)) == sem_arr_seq(g.members@, 0, wa_now(*old(working_array)), ctxv(*ctx)),
@tags C01 C03 C07 C13 C05 C14
@fn validate::validate_array_unwrap (node, working_array, ctx) -> r
    requires ctx_ok(*ctx),
    ensures ga_is(r, *old(working_array), *final(working_array), match *node {
            Node::Array(a) => sem_arr_seq(a.members@, 0, wa_now(*old(working_array)), ctxv(*ctx)),
            _ => GA::Err(Out::Mismatch),
        }),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *node, 3int, 0int,
@loop 0 for
    wa_levels(*working_array) == wa_levels(*old(working_array)).push(wa_now(*old(working_array))),
    wa_now(*working_array).len() <= wa_now(*old(working_array)).len(),
    sem_arr_seq(a.members@, $pos, wa_now(*working_array), ctxv(*ctx)) == sem_arr_seq(a.members@, 0, wa_now(*old(working_array)), ctxv(*ctx)),
@tags C01 C03 C07 C13 C05
@fn validate::validate_array_occur (occur, working_array, ctx) -> r
    requires ctx_ok(*ctx),
    ensures ga_is(r, *old(working_array), *final(working_array),
        sem_arr_occ(*occur.node, occ_limits(occur.limit).0, occ_limits(occur.limit).1, 0, wa_now(*old(working_array)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *occur, 5int, 0int,
@loop 0 while
    invariant_except_break
        sem_arr_occ(*occur.node, lower_limit as int, upper_limit as int, count as int, wa_now(*working_array), ctxv(*ctx))
            == sem_arr_occ(*occur.node, lower_limit as int, upper_limit as int, 0, wa_now(*old(working_array)), ctxv(*ctx)),
    invariant
        count <= upper_limit,
        wa_levels(*working_array) == wa_levels(*old(working_array)).push(wa_now(*old(working_array))),
        wa_now(*working_array).len() <= wa_now(*old(working_array)).len(),
    ensures
        sem_arr_occ(*occur.node, lower_limit as int, upper_limit as int, 0, wa_now(*old(working_array)), ctxv(*ctx))
            == (if count < lower_limit { GA::Err(Out::Mismatch) } else { GA::Ok(wa_now(*working_array)) }),
    decreases upper_limit - count,
@locals lower_limit upper_limit count
@tags C04 C03 C07 C05
@fn validate::validate_array_value (node, working_array, ctx) -> r
    requires ctx_ok(*ctx),
    ensures ga_is(r, *old(working_array), *final(working_array), sem_arr_value(*node, wa_now(*old(working_array)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *node, 3int, 0int,
@tags C01 C03 C07

## ------------------------------------------------ maps
@fn validate::WorkingMap::new (value_map) -> r
    ensures wm_wf(r), wm_now(r) == value_map.vmap(), wm_levels(r).len() == 0,
@body
    reveal(wm_levels); reveal(wm_wf);
    broadcast use group_wm;
@tags C02 C03
@fn validate::WorkingMap::snapshot (self)
    requires wm_wf(*old(self)),
    ensures wm_wf(*final(self)), wm_now(*final(self)) == wm_now(*old(self)),
        wm_levels(*final(self)) =~~= wm_levels(*old(self)).push(wm_now(*old(self))),
@body
    reveal(wm_levels); reveal(wm_wf);
    broadcast use group_wm;
@tags C03
@fn validate::WorkingMap::rewind (self)
    requires wm_wf(*old(self)), wm_levels(*old(self)).len() > 0,
    ensures wm_wf(*final(self)), wm_now(*final(self)) =~= wm_levels(*old(self)).last(),
        wm_levels(*final(self)) =~~= wm_levels(*old(self)).drop_last(),
@body
    reveal(wm_levels); reveal(wm_wf);
    broadcast use group_wm;
    reveal_with_fuel(wm_cat, 3);
    reveal_with_fuel(snaps_wf, 3);
@tags C03 C06
@fn validate::WorkingMap::commit (self)
    requires wm_wf(*old(self)), wm_levels(*old(self)).len() > 0,
    ensures wm_wf(*final(self)), wm_now(*final(self)) == wm_now(*old(self)),
        wm_levels(*final(self)) =~~= wm_levels(*old(self)).drop_last(),
@body
    reveal(wm_levels); reveal(wm_wf);
    broadcast use group_wm;
    reveal_with_fuel(wm_cat, 3);
    reveal_with_fuel(snaps_wf, 3);
@tags C03 C06
@fn validate::WorkingMap::peek_at (self, key) -> r
    ensures match r { None => !wm_now(*self).contains_key(sv(*key)), Some(v) => wm_now(*self).contains_key(sv(*key)) && sv(*v) == wm_now(*self)[sv(*key)] },
@body
    reveal(wm_levels); reveal(wm_wf);
    broadcast use group_wm;
@tags C02 C03
@fn validate::WorkingMap::remove (self, key)
    requires wm_wf(*old(self)), wm_now(*old(self)).contains_key(sv(*key)),
    ensures wm_wf(*final(self)), wm_now(*final(self)) == wm_now(*old(self)).remove(sv(*key)),
        wm_levels(*final(self)) =~~= wm_levels(*old(self)),
@body
    reveal(wm_levels); reveal(wm_wf);
    broadcast use group_wm;
@tags C03 C06 C02
@fn validate::validate_map_key (value_map, node, ctx) -> r
    requires ctx_ok(*ctx),
    ensures *final(value_map) == *old(value_map), key_is(r, wm_now(*old(value_map)), sem_key(*node, wm_now(*old(value_map)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *node, 4int, 0int,
@tags C02
@fn validate::map_search_literal (literal, working_map) -> r
    ensures *final(working_map) == *old(working_map), key_is(r, wm_now(*old(working_map)), sem_key(Node::Literal(*literal), wm_now(*old(working_map)), arbitrary())),
@tags C02
@fn validate::map_search (node, working_map, ctx) -> r
    requires ctx_ok(*ctx),
    ensures *final(working_map) == *old(working_map),
        key_is(r, wm_now(*old(working_map)), sem_search(*node, key_order(wm_now(*old(working_map)).dom()), 0, ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *node, 3int, 0int,
@loop 0 for
    sem_search(*node, key_order(wm_now(*old(working_map)).dom()), $pos, ctxv(*ctx)) == sem_search(*node, key_order(wm_now(*old(working_map)).dom()), 0, ctxv(*ctx)),
@body
    broadcast use axiom_key_order;
@tags C02 C07
@fn validate::validate_map (m, value, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_val(Node::Map(*m), sv(*value), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *m, 2int, 0int,
@body
    broadcast use {lemma_tomap_ents, axiom_key_order};
@tags C02 C12
@fn validate::validate_map_part2 (m, value_map, ctx) -> r
    requires ctx_ok(*ctx),
    ensures cls(r) == sem_map_top(m.members@, 0, value_map.vmap(), ctxv(*ctx)),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *m, 1int, 0int,
@loop 0 for
    wm_wf(working_map),
    sem_map_top(m.members@, $pos, wm_now(working_map), ctxv(*ctx)) == sem_map_top(m.members@, 0, value_map.vmap(), ctxv(*ctx)),
@closure 0
-> (o: ValidateError) ensures cls_e(o) == erase(cls_e($0)),
@locals working_map
@tags C02 C08 C03
@fn validate::validate_map_member (member, working_map, ctx) -> r
    requires ctx_ok(*ctx), wm_wf(*old(working_map)),
    ensures gm_is(r, *old(working_map), *final(working_map), sem_map(*member, wm_now(*old(working_map)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *member, 4int, 0int,
@loop 0 for
    wm_wf(*working_map),
    wm_levels(*working_map) == wm_levels(*old(working_map)).push(wm_now(*old(working_map))),
    wm_now(*working_map).dom().len() <= wm_now(*old(working_map)).dom().len(),
    sem_map_seq(g.members@, $pos, wm_now(*working_map), ctxv(*ctx)) == sem_map_seq(g.members@, 0, wm_now(*old(working_map)), ctxv(*ctx)),
@tags C02 C03 C08 C07 C13 C05 C14
@fn validate::validate_map_choice (options, working_map, ctx) -> r
    requires ctx_ok(*ctx), wm_wf(*old(working_map)),
    ensures gm_is(r, *old(working_map), *final(working_map), sem_map_choice(options@, 0, wm_now(*old(working_map)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), options@, 2int, 0int,
@loop 0 for
    wm_wf(*working_map),
    wm_now(*working_map) == wm_now(*old(working_map)),
    wm_levels(*working_map) == wm_levels(*old(working_map)),
    sem_map_choice(options@, $pos, wm_now(*working_map), ctxv(*ctx)) == sem_map_choice(options@, 0, wm_now(*old(working_map)), ctxv(*ctx)),
@tags C14 C08 C07 C03
@fn validate::validate_map_choiceify_members (choices, working_map, ctx) -> r
    requires ctx_ok(*ctx), wm_wf(*old(working_map)),
    ensures gm_is(r, *old(working_map), *final(working_map), sem_map_cmembers(choices@, 0, wm_now(*old(working_map)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), choices@, 2int, 0int,
@loop 0 for
    wm_wf(*working_map),
    wm_now(*working_map) == wm_now(*old(working_map)),
    wm_levels(*working_map) == wm_levels(*old(working_map)),
    sem_map_cmembers(choices@, $pos, wm_now(*working_map), ctxv(*ctx)) == sem_map_cmembers(choices@, 0, wm_now(*old(working_map)), ctxv(*ctx)),
@body
    reveal_with_fuel(sem_map_cmembers, 2);
    reveal_with_fuel(sem_map_citem, 2);
@tags C14 C08 C07
@fn validate::validate_map_choiceify (rule, working_map, ctx) -> r
    requires ctx_ok(*ctx), wm_wf(*old(working_map)),
    ensures gm_is(r, *old(working_map), *final(working_map), sem_map_choiceify(*rule, wm_now(*old(working_map)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *rule, 2int, 0int,
@tags C14 C13 C07 C08 C05
@fn validate::validate_map_unwrap (node, working_map, ctx) -> r
    requires ctx_ok(*ctx), wm_wf(*old(working_map)),
    ensures gm_is(r, *old(working_map), *final(working_map), match *node {
            Node::Map(m2) => sem_map_seq(m2.members@, 0, wm_now(*old(working_map)), ctxv(*ctx)),
            _ => GM::Err(Out::Mismatch),
        }),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *node, 3int, 0int,
@loop 0 for
    wm_wf(*working_map),
    wm_levels(*working_map) == wm_levels(*old(working_map)).push(wm_now(*old(working_map))),
    wm_now(*working_map).dom().len() <= wm_now(*old(working_map)).dom().len(),
    sem_map_seq(m.members@, $pos, wm_now(*working_map), ctxv(*ctx)) == sem_map_seq(m.members@, 0, wm_now(*old(working_map)), ctxv(*ctx)),
@tags C02 C03 C07 C08 C13 C05
@fn validate::validate_map_occur (occur, working_map, ctx) -> r
    requires ctx_ok(*ctx), wm_wf(*old(working_map)),
    ensures gm_is(r, *old(working_map), *final(working_map),
        sem_map_occ(*occur.node, occ_limits(occur.limit).0, occ_limits(occur.limit).1, 0, wm_now(*old(working_map)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *occur, 5int, 0int,
@loop 0 while
    invariant_except_break
        sem_map_occ(*occur.node, lower_limit as int, upper_limit as int, count as int, wm_now(*working_map), ctxv(*ctx))
            == sem_map_occ(*occur.node, lower_limit as int, upper_limit as int, 0, wm_now(*old(working_map)), ctxv(*ctx)),
    invariant
        count <= upper_limit,
        wm_wf(*working_map),
        wm_levels(*working_map) == wm_levels(*old(working_map)).push(wm_now(*old(working_map))),
        wm_now(*working_map).dom().len() <= wm_now(*old(working_map)).dom().len(),
    ensures
        sem_map_occ(*occur.node, lower_limit as int, upper_limit as int, 0, wm_now(*old(working_map)), ctxv(*ctx))
            == (if count < lower_limit { GM::Err(Out::Mismatch) } else { GM::Ok(wm_now(*working_map)) }),
    decreases upper_limit - count,
@locals lower_limit upper_limit count
@tags C04 C03 C07 C05 C08
@fn validate::validate_map_keyvalue (kv, working_map, ctx) -> r
    requires ctx_ok(*ctx), wm_wf(*old(working_map)),
    ensures gm_is(r, *old(working_map), *final(working_map), sem_map(Node::KeyValue(*kv), wm_now(*old(working_map)), ctxv(*ctx))),
    decreases fuel(ctxv(*ctx)), genv(*ctx), *kv, 3int, 0int,
@tags C02 C08 C03 C07
