@module flatten
@head flatten
use crate::spec::*;
use crate::fspec::*;
use crate::ivt::{Map, Range};
use crate::vp::first_err;
@allfn flatten
    broadcast use crate::fspec::group_fl;
@tail util
// thiserror's #[from]: the error becomes the ParseError variant
impl From<parser::ParseError> for ValidateError { #[verifier::external_body] fn from(e: parser::ParseError) -> ValidateError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<parser::ParseError> for ValidateError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: parser::ParseError) -> ValidateError { ValidateError::ParseError(x) }
}
#[verifier::external_body]
pub broadcast proof fn axiom_from_parse_error(e: parser::ParseError, r: ValidateError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ValidateError, parser::ParseError>(e, r) ==> r == ValidateError::ParseError(e)
{ }
@tail ivt
// (obeys_* has its own axiom: its value must be known before the other term becomes relevant)
use vstd::std_specs::convert::{IntoSpec, TryIntoSpec};
// T: Into<T> is the identity; &String: Into<String> copies
#[verifier::external_body]
pub broadcast proof fn axiom_obeys_id<T>() ensures #[trigger] <T as IntoSpec<T>>::obeys_into_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_into_id<T>(x: T)
    ensures #![trigger <T as IntoSpec<T>>::into_spec(x)] <T as IntoSpec<T>>::into_spec(x) == x
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_obeys_string_ref() ensures #[trigger] <&String as IntoSpec<String>>::obeys_into_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_into_string_ref(x: &String)
    ensures #![trigger <&String as IntoSpec<String>>::into_spec(x)] <&String as IntoSpec<String>>::into_spec(x)@ == x@
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_obeys_string() ensures #[trigger] <&str as IntoSpec<String>>::obeys_into_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_into_string(x: &str)
    ensures #![trigger <&str as IntoSpec<String>>::into_spec(x)] <&str as IntoSpec<String>>::into_spec(x)@ == x@
{ }
// u64 and i64 always fit into i128
#[verifier::external_body]
pub broadcast proof fn axiom_obeys_u64() ensures #[trigger] <u64 as TryIntoSpec<i128>>::obeys_try_into_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_try_u64(x: u64)
    ensures #![trigger <u64 as TryIntoSpec<i128>>::try_into_spec(x)] <u64 as TryIntoSpec<i128>>::try_into_spec(x) == Ok::<i128, <u64 as std::convert::TryInto<i128>>::Error>(x as i128)
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_obeys_i64() ensures #[trigger] <i64 as TryIntoSpec<i128>>::obeys_try_into_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_try_i64(x: i64)
    ensures #![trigger <i64 as TryIntoSpec<i128>>::try_into_spec(x)] <i64 as TryIntoSpec<i128>>::try_into_spec(x) == Ok::<i128, <i64 as std::convert::TryInto<i128>>::Error>(x as i128)
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_obeys_box<T>() ensures #[trigger] <T as IntoSpec<Box<T>>>::obeys_into_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_into_box<T>(x: T)
    ensures #![trigger <T as IntoSpec<Box<T>>>::into_spec(x)] *<T as IntoSpec<Box<T>>>::into_spec(x) == x
{ }
@fn ivt::literal_bool (b) -> r
    ensures r == Node::Literal(Literal::Bool(b)),
@tags C12 C20
@fn ivt::literal_int (i) -> r
    ensures <T as IntoSpec<i128>>::obeys_into_spec() ==> r == Node::Literal(Literal::Int(<T as IntoSpec<i128>>::into_spec(i))),
@tags C19 C12
@fn ivt::literal_float (f) -> r
    ensures <T as IntoSpec<f64>>::obeys_into_spec() ==> r == Node::Literal(Literal::Float(<T as IntoSpec<f64>>::into_spec(f))),
@tags C19 C12
@fn ivt::literal_text (s) -> r
    ensures <T as IntoSpec<String>>::obeys_into_spec() ==> r == Node::Literal(Literal::Text(<T as IntoSpec<String>>::into_spec(s))),
@tags C19 C12
@fn ivt::literal_bytes (b) -> r
    ensures <T as IntoSpec<Vec<u8>>>::obeys_into_spec() ==> r == Node::Literal(Literal::Bytes(<T as IntoSpec<Vec<u8>>>::into_spec(b))),
@tags C19 C12
@fn ivt::Rule::new (name, generic_args) -> r
    ensures r.name@ == name@, r.generic_args@ == generic_args@,
@fn ivt::Rule::new_name (name) -> r
    ensures r.name@ == name@, r.generic_args@ == Seq::<Node>::empty(),
@tags C19 C13
@fn ivt::KeyValue::new (key, value, cut) -> r
    ensures *r.key == key, *r.value == value, r.cut == cut,
@tags C19 C08
@fn ivt::Occur::new (limit, node) -> r
    ensures r.limit == limit, *r.node == node,
@tags C19 C04

@fn flatten::flatten_from_str (cddl_input) -> r
    ensures rules_is(r, fl_text(cddl_input@)),
@tags C18 C19 C25
@fn flatten::slice_flatten_from_str (cddl_input) -> r
    ensures rulest_is(r, fl_text_t(cddl_input@)),
@tags C25
@fn flatten::flatten (cddl) -> r
    ensures rules_is(r, fl_rules(cddl.rules@)),
@closure 0
-> (o: FlattenResult<(String, RuleDef)>) ensures rule_is(o, fl_rule(*$0)),
@tags C19 C25
@fn flatten::slice_flatten (cddl) -> r
    ensures rulest_is(r, fl_rules_text(textv(cddl.rules@))),
@closure 0
-> (o: FlattenResult<(String, (RuleDef, String))>) ensures rulet_is(o, ($0.0, $0.1@)),
@tags C25
@fn flatten::flatten_rule (rule) -> r
    ensures rule_is(r, fl_rule(*rule)),
@tags C19 C13
@fn flatten::flatten_type (ty) -> r
    ensures node_is(r, fl_type(*ty)),
    decreases *ty, 3int,
@closure 0
-> (o: FlattenResult<Node>) requires decreases_to!(ty => $0), ensures node_is(o, fl_type1(*$0)),
@tags C19 C14
@fn flatten::flatten_type1 (ty1) -> r
    ensures node_is(r, fl_type1(*ty1)),
    decreases *ty1, 3int,
@tags C19 C20
@fn flatten::flatten_control (ctl) -> r
    ensures node_is(r, fl_control(*ctl)),
    decreases *ctl, 3int,
@tags C20
@fn flatten::control_size (ctl) -> r
    requires ctl.op@ == "size"@,
    ensures ctl_is(r, fl_control(*ctl)),
    decreases *ctl, 2int,
@body
    proof { crate::names::all_names(); }
@tags C20 C10
@fn flatten::control_lt (ctl) -> r
    requires ctl.op@ == "lt"@,
    ensures ctl_is(r, fl_control(*ctl)),
    decreases *ctl, 2int,
@body
    proof { crate::names::all_names(); }
@tags C20 C09
@fn flatten::control_le (ctl) -> r
    requires ctl.op@ == "le"@,
    ensures ctl_is(r, fl_control(*ctl)),
    decreases *ctl, 2int,
@body
    proof { crate::names::all_names(); }
@tags C20 C09
@fn flatten::control_gt (ctl) -> r
    requires ctl.op@ == "gt"@,
    ensures ctl_is(r, fl_control(*ctl)),
    decreases *ctl, 2int,
@body
    proof { crate::names::all_names(); }
@tags C20 C09
@fn flatten::control_ge (ctl) -> r
    requires ctl.op@ == "ge"@,
    ensures ctl_is(r, fl_control(*ctl)),
    decreases *ctl, 2int,
@body
    proof { crate::names::all_names(); }
@tags C20 C09
@fn flatten::control_regex (ctl) -> r
    requires ctl.op@ == "regexp"@,
    ensures ctl_is(r, fl_control(*ctl)),
    decreases *ctl, 2int,
@body
    proof { crate::names::all_names(); assert((1usize << 20i32) == 0x100000) by(bit_vector); }
@tags C20 C12
@fn flatten::control_cbor (ctl) -> r
    requires ctl.op@ == "cbor"@,
    ensures ctl_is(r, fl_control(*ctl)),
    decreases *ctl, 2int,
@body
    proof { crate::names::all_names(); }
@tags C20 C15
@fn flatten::range_point (point) -> r
    ensures node_is(r, fl_point(*point)),
    decreases *point, 2int,
@tags C11 C19 C20
@fn flatten::flatten_range (range) -> r
    ensures node_is(r, fl_range(*range)),
    decreases *range, 3int,
@tags C11 C19 C20
@fn flatten::flatten_value (value) -> r
    ensures node_is(r, fl_value(*value)),
@tags C19 C12 C09 C10 C11
@fn flatten::flatten_type2 (ty2) -> r
    ensures node_is(r, fl_type2(*ty2)),
    decreases *ty2, 3int,
@tags C19 C20 C14
@fn flatten::flatten_typename (name) -> r
    ensures node_is(r, fl_typename(name@)),
@body
    proof { crate::names::all_names(); }
@tags C20 C12 C19
@fn flatten::flatten_rule_generic (name_generic) -> r
    ensures match r {
        Ok(x) => fl_rulename(*name_generic) == Ok::<SN, Out>(SN::Rule(x.name@, nvs(x.generic_args@))),
        Err(e) => fl_rulename(*name_generic) == Err::<SN, Out>(cls_e(e)),
    },
    decreases *name_generic, 4int,
@tags C20 C19
@fn flatten::flatten_name_generic (name_generic) -> r
    ensures node_is(r, fl_name(*name_generic)),
    decreases *name_generic, 3int,
@loop 0 for
    args_ok(name_generic.generic_args@, r.generic_args@), r.generic_args@.len() == $pos,
    fl_typename(name_generic.name@) matches Ok(SN::Rule(vp_n, _)) && vp_n == r.name@,
@loopbefore 0
    proof { reveal_with_fuel(nv, 2); assert(nvs(r.generic_args@).len() == r.generic_args@.len()); lemma_args(name_generic.generic_args@, r.generic_args@); }
@loopbody 0
    proof { lemma_args(name_generic.generic_args@, r.generic_args@); }
@loopafter 0
    proof { lemma_args(name_generic.generic_args@, r.generic_args@); }
@tags C19 C20 C13
@fn flatten::flatten_map (group) -> r
    ensures node_is(r, match fl_group(*group) { Err(o) => Err(o), Ok(v) => Ok(SN::Map(v)) }),
    decreases *group, 4int,
@tags C19 C14
@fn flatten::flatten_array (group) -> r
    ensures node_is(r, match fl_group(*group) { Err(o) => Err(o), Ok(v) => Ok(SN::Array(v)) }),
    decreases *group, 4int,
@tags C19 C14
@fn flatten::flatten_group (group) -> r
    ensures nodes_is(r, fl_group(*group)),
    decreases *group, 3int,
@closure 0
-> (o: FlattenResult<Node>) requires decreases_to!(group => $0),
    ensures node_is(o, match fl_grpchoice(*$0) { Err(o) => Err::<SN, Out>(o), Ok(v) => Ok::<SN, Out>(SN::Group(v)) }),
@tags C19 C14
@fn flatten::flatten_groupchoice (groupchoice) -> r
    ensures nodes_is(r, fl_grpchoice(*groupchoice)),
    decreases *groupchoice, 3int,
@closure 0
-> (o: FlattenResult<Node>) requires decreases_to!(groupchoice => $0), ensures node_is(o, fl_entry(*$0)),
@tags C19
@fn flatten::flatten_groupentry (group_entry) -> r
    ensures node_is(r, fl_entry(*group_entry)),
    decreases *group_entry, 3int,
@tags C19 C04
@fn flatten::flatten_groupentry_val (gev) -> r
    ensures node_is(r, fl_entryval(*gev)),
    decreases *gev, 3int,
@tags C19 C20
@fn flatten::occur_wrap (occur, node) -> r
    ensures nv(r) == fl_occ(*occur, nv(node)),
@tags C19 C04
@fn flatten::flatten_member (member) -> r
    ensures node_is(r, fl_member(*member)),
    decreases *member, 3int,
@tags C19 C08
@fn flatten::num_to_i128 (n) -> r
    ensures <T as vstd::std_specs::convert::TryIntoSpec<i128>>::obeys_try_into_spec() ==>
        match <T as vstd::std_specs::convert::TryIntoSpec<i128>>::try_into_spec(n) {
            Ok(x) => r == Ok::<i128, ValidateError>(x),
            Err(_) => r is Err && r->Err_0 is Structural,
        },
@tags C19 C12
@fn flatten::flatten_memberkey (memberkey) -> r
    ensures node_is(r, fl_key(*memberkey)),
    decreases *memberkey, 3int,
@tags C19 C08 C20
@fn flatten::flatten_choiceify (name) -> r
    ensures node_is(r, match fl_rulename(*name) { Ok(SN::Rule(n, a)) => Ok(SN::Choiceify(n, a)), Ok(_) => arbitrary(), Err(o) => Err(o) }),
    decreases *name, 5int,
@tags C19 C14 C20
@fn flatten::flatten_choiceify_inline (group) -> r
    ensures node_is(r, match fl_group(*group) { Err(o) => Err(o), Ok(v) => Ok(SN::ChoiceifyInline(v)) }),
    decreases *group, 4int,
@tags C19 C14
