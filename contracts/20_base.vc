## Modules woven, in order.
@module ast
@module value
@module ivt
@module util
@module context
@module normalize
@module validate
@module cbor
@module json

@eq value::Value
sv(*self) == sv(*other)
@eq ivt::PreludeType
*self == *other
@eq ast::Occur
*self == *other
@head value
use crate::spec::*;
@head util
use crate::spec::*;
@head ivt
use crate::spec::*;
@head context
use crate::spec::*;
@head normalize
use crate::spec::*;
@head ast
use crate::spec::*;

@skip util::ErrorMatch
@skip ivt::CtlOpRegexp::PartialEq
@skip util::ValidateResult::ErrorMatch

@fn util::ValidateError::is_fatal (self) -> r
    ensures r == (cls_e(*self) is Fatal),
@tags C07 C14
@fn util::ValidateError::erase_mapcut (self) -> r
    ensures cls_e(r) == erase(cls_e(self)),
@tags C07 C08
@fn util::ValidateError::is_mismatch (self) -> r
    ensures r == (cls_e(*self) is Mismatch),
@tags C07 C08
@fn util::mismatch (expected) -> r
    ensures cls_e(r) == Out::Mismatch,
@tags C07

@fn value::Value::from_float (f) -> r
    ensures r == Value::Float(FloatOrd(into_f64(f))),
@external Into<f64> is generic here; for f64 it is the identity
@tail value
pub uninterp spec fn into_f64<F>(f: F) -> f64;
#[verifier::external_body]
pub broadcast proof fn axiom_into_f64(f: f64) ensures #[trigger] into_f64::<f64>(f) == f { }

@fn ivt::Occur::limits (self) -> r
    ensures (r.0 as int, r.1 as int) == occ_limits(self.limit),
@tags C04
@fn ivt::Occur::symbol (self) -> r
@external text for messages only
@inimpl context::LookupContext
    /// What each name means to this context.
    spec fn spec_lookup(&self, name: Seq<char>) -> Result<RuleDef, Out>;
@fn context::LookupContext::lookup_rule (self, name) -> r
    ensures match r {
        Ok(d) => self.spec_lookup(name@) == Ok::<RuleDef, Out>(*d),
        Err(e) => self.spec_lookup(name@) == Err::<RuleDef, Out>(cls_e(e)),
    },
@inimpl context::BasicContext::LookupContext
    open spec fn spec_lookup(&self, name: Seq<char>) -> Result<RuleDef, Out> {
        if self.rules.smap().contains_key(name) { Ok(self.rules.smap()[name]) } else { Err(Out::Fatal(Ek::MissingRule)) }
    }
@fn context::BasicContext::LookupContext::lookup_rule (self, name) -> r
@tags C13 C07 C18
@fn context::BasicContext::new (rules) -> r
    ensures r.rules == rules,

@fn normalize::normalize_size_range (size_node) -> r
    ensures match r {
        Ok(rg) => sem_size_arg(*size_node) is Ok && range_ints(rg) == Some(sem_size_arg(*size_node)->Ok_0),
        Err(e) => sem_size_arg(*size_node) == Err::<(int, int, bool), Out>(cls_e(e)),
    },
@tags C10 C07
