// The parser (nom combinators) is outside the verifier's reach: its two entry points are given
// here with the contract assumed of them.
pub mod parser {
    use vstd::prelude::*;
    pub struct ParseError { pub x: u8 }
    /// The rules a CDDL text is made of, each with its own text; None: not a CDDL text.
    pub uninterp spec fn parse(t: Seq<char>) -> Option<Seq<(crate::ast::Rule, Seq<char>)>>;
    pub open spec fn parse_rules(t: Seq<char>) -> Option<Seq<crate::ast::Rule>> {
        match parse(t) { None => None, Some(s) => Some(s.map_values(|x: (crate::ast::Rule, Seq<char>)| x.0)) }
    }
    #[verifier::external_body]
    pub fn parse_cddl(s: &str) -> (r: Result<crate::ast::Cddl, ParseError>)
        ensures match r { Ok(c) => parse_rules(s@) == Some(c.rules@), Err(_) => parse_rules(s@) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_parse_cddl(s: &str) -> (r: Result<crate::ast::CddlSlice, ParseError>)
        ensures match r {
            Ok(c) => parse(s@) == Some(c.rules@.map_values(|x: (crate::ast::Rule, String)| (x.0, x.1@))),
            Err(_) => parse(s@) is None,
        }
    { unimplemented!() }
}
pub use util::{ValidateError, ValidateResult};
