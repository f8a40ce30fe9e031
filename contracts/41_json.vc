@head json
use crate::spec::*;
use vstd::map::Map as GMap;
@allfn json
    broadcast use {lemma_json_array, lemma_json_map, crate::value::axiom_into_f64, crate::vspec::lemma_env_basic};
@recfn json::Value::TryFrom<&JSON_Value> vp_json_from
@inimpl json::Value::TryFrom<&JSON_Value>
    open spec fn vp_from(t: &JSON_Value, r: Result<Value, ValidateError>) -> bool { json_conv(r, *t) }
@fn json::Value::TryFrom<&JSON_Value>::try_from (value) -> r
    ensures json_conv(r, *value),
    decreases *value,
@closure 0
-> (o: Result<Value, ValidateError>) requires decreases_to!(value => $0), ensures json_conv(o, *$0),
@closure 1
-> (o: Result<(Value, Value), ValidateError>) requires decreases_to!(value => $0.1), ensures json_pair_conv(o, $0.0@, *$0.1),
@tags C16
@inimpl json::Value::TryFrom<JSON_Value>
    open spec fn vp_from(t: JSON_Value, r: Result<Value, ValidateError>) -> bool { json_conv(r, t) }
@fn json::Value::TryFrom<JSON_Value>::try_from (value) -> r
@tags C16
@fn json::validate_json (rule_def, value, ctx) -> r
    ensures cls(r) == (match json_sv(*value) {
        None => Out::Fatal(Ek::ValueError),
        Some(v) => sem_top(*rule_def, v, crate::vspec::env_of(ctx)),
    }),
@tags C18 C16
@fn json::validate_json_str (name, cddl, json) -> r
    ensures crate::fspec::judged(cddl@, name@, json_decode(json@), cls(r)),
@tags C18 C07 C16
