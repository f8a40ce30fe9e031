@head cbor
use crate::spec::*;
use vstd::map::Map as GMap;
@allfn cbor
    broadcast use {lemma_cbor_array, lemma_cbor_map, crate::value::axiom_into_f64, crate::vspec::lemma_env_basic};
@recfn cbor::Value::TryFrom<&CBOR_Value> vp_cbor_from
@inimpl cbor::Value::TryFrom<&CBOR_Value>
    open spec fn vp_from(t: &CBOR_Value, r: Result<Value, ValidateError>) -> bool { cbor_conv(r, *t) }
@fn cbor::Value::TryFrom<&CBOR_Value>::try_from (value) -> r
    ensures cbor_conv(r, *value),
    decreases *value,
@closure 0
-> (o: Result<Value, ValidateError>) requires decreases_to!(value => $0), ensures cbor_conv(o, *$0),
@closure 1
-> (o: Result<(Value, Value), ValidateError>) requires decreases_to!(value => $0), ensures cbor_pair_conv(o, $0.0, $0.1),
@tags C17
@inimpl cbor::Value::TryFrom<CBOR_Value>
    open spec fn vp_from(t: CBOR_Value, r: Result<Value, ValidateError>) -> bool { cbor_conv(r, t) }
@fn cbor::Value::TryFrom<CBOR_Value>::try_from (value) -> r
@tags C17
@fn cbor::validate_cbor (rule_def, value, ctx) -> r
    ensures cls(r) == (match cbor_sv(*value) {
        None => Out::Fatal(Ek::ValueError),
        Some(v) => sem_top(*rule_def, v, crate::vspec::env_of(ctx)),
    }),
@tags C18 C17
@fn cbor::validate_cbor_bytes (name, cddl, cbor) -> r
    ensures crate::fspec::judged(cddl@, name@, cbor_decode(cbor@), cls(r)),
@tags C18 C15 C07 C17
