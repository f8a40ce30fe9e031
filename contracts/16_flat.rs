// What a parsed schema means as a rule tree: the specification of flatten.rs.  Ghost code only.
pub mod fspec {
use vstd::prelude::*;
use crate::spec::*;
use crate::ast;
use crate::ivt::{Node, Rule, RuleDef, Literal, PreludeType, Control, OccurLimit};
use crate::util::ValidateError;
use crate::vp::{VpCollect, first_err, BTreeMap, assoc};

/// A rule tree seen as mathematical data (texts as character sequences, lists as sequences).
#[verifier::ext_equal]
pub ghost enum SN {
    Lit(SV),
    Prelude(PreludeType),
    Rule(Seq<char>, Seq<SN>),
    Choice(Seq<SN>),
    Map(Seq<SN>),
    Array(Seq<SN>),
    Group(Seq<SN>),
    KeyValue(Box<SN>, Box<SN>, bool),
    Occur(OccurLimit, Box<SN>),
    Unwrap(Seq<char>, Seq<SN>),
    Range(Box<SN>, Box<SN>, bool),
    Choiceify(Seq<char>, Seq<SN>),
    ChoiceifyInline(Seq<SN>),
    Size(Box<SN>, Box<SN>),
    Lt(Box<SN>, Box<SN>),
    Le(Box<SN>, Box<SN>),
    Gt(Box<SN>, Box<SN>),
    Ge(Box<SN>, Box<SN>),
    Regexp(Seq<char>),
    Cbor(Box<SN>),
}
pub open spec fn nv(n: Node) -> SN
    decreases n
{
    match n {
        Node::Literal(l) => SN::Lit(lit_sv(l)),
        Node::PreludeType(p) => SN::Prelude(p),
        Node::Rule(r) => SN::Rule(r.name@, Seq::new(r.generic_args@.len(), |i: int| if 0 <= i < r.generic_args@.len() { nv(r.generic_args@[i]) } else { arbitrary() })),
        Node::Choice(c) => SN::Choice(Seq::new(c.options@.len(), |i: int| if 0 <= i < c.options@.len() { nv(c.options@[i]) } else { arbitrary() })),
        Node::Map(c) => SN::Map(Seq::new(c.members@.len(), |i: int| if 0 <= i < c.members@.len() { nv(c.members@[i]) } else { arbitrary() })),
        Node::Array(c) => SN::Array(Seq::new(c.members@.len(), |i: int| if 0 <= i < c.members@.len() { nv(c.members@[i]) } else { arbitrary() })),
        Node::Group(c) => SN::Group(Seq::new(c.members@.len(), |i: int| if 0 <= i < c.members@.len() { nv(c.members@[i]) } else { arbitrary() })),
        Node::KeyValue(kv) => SN::KeyValue(Box::new(nv(*kv.key)), Box::new(nv(*kv.value)), kv.cut),
        Node::Occur(o) => SN::Occur(o.limit, Box::new(nv(*o.node))),
        Node::Unwrap(r) => SN::Unwrap(r.name@, Seq::new(r.generic_args@.len(), |i: int| if 0 <= i < r.generic_args@.len() { nv(r.generic_args@[i]) } else { arbitrary() })),
        Node::Range(r) => SN::Range(Box::new(nv(*r.start)), Box::new(nv(*r.end)), r.inclusive),
        Node::Control(c) => match c {
            Control::Size(x) => SN::Size(Box::new(nv(*x.target)), Box::new(nv(*x.size))),
            Control::Lt(x) => SN::Lt(Box::new(nv(*x.target)), Box::new(nv(*x.lt))),
            Control::Le(x) => SN::Le(Box::new(nv(*x.target)), Box::new(nv(*x.le))),
            Control::Gt(x) => SN::Gt(Box::new(nv(*x.target)), Box::new(nv(*x.gt))),
            Control::Ge(x) => SN::Ge(Box::new(nv(*x.target)), Box::new(nv(*x.ge))),
            Control::Regexp(x) => SN::Regexp(x.re.pat()),
            Control::Cbor(x) => SN::Cbor(Box::new(nv(*x.node))),
        },
        Node::Choiceify(r) => SN::Choiceify(r.name@, Seq::new(r.generic_args@.len(), |i: int| if 0 <= i < r.generic_args@.len() { nv(r.generic_args@[i]) } else { arbitrary() })),
        Node::ChoiceifyInline(c) => SN::ChoiceifyInline(Seq::new(c.members@.len(), |i: int| if 0 <= i < c.members@.len() { nv(c.members@[i]) } else { arbitrary() })),
    }
}
pub open spec fn nvs(s: Seq<Node>) -> Seq<SN> { Seq::new(s.len(), |i: int| if 0 <= i < s.len() { nv(s[i]) } else { arbitrary() }) }
pub broadcast proof fn lemma_nv(n: Node)
    ensures #![trigger nv(n)] match n {
        Node::Rule(r) => nv(n) == SN::Rule(r.name@, nvs(r.generic_args@)),
        Node::Unwrap(r) => nv(n) == SN::Unwrap(r.name@, nvs(r.generic_args@)),
        Node::Choiceify(r) => nv(n) == SN::Choiceify(r.name@, nvs(r.generic_args@)),
        Node::Choice(c) => nv(n) == SN::Choice(nvs(c.options@)),
        Node::Map(c) => nv(n) == SN::Map(nvs(c.members@)),
        Node::Array(c) => nv(n) == SN::Array(nvs(c.members@)),
        Node::Group(c) => nv(n) == SN::Group(nvs(c.members@)),
        Node::ChoiceifyInline(c) => nv(n) == SN::ChoiceifyInline(nvs(c.members@)),
        _ => true,
    }
{
    match n {
        Node::Rule(r) => { assert(nv(n)->Rule_1 =~= nvs(r.generic_args@)); }
        Node::Unwrap(r) => { assert(nv(n)->Unwrap_1 =~= nvs(r.generic_args@)); }
        Node::Choiceify(r) => { assert(nv(n)->Choiceify_1 =~= nvs(r.generic_args@)); }
        Node::Choice(c) => { assert(nv(n)->Choice_0 =~= nvs(c.options@)); }
        Node::Map(c) => { assert(nv(n)->Map_0 =~= nvs(c.members@)); }
        Node::Array(c) => { assert(nv(n)->Array_0 =~= nvs(c.members@)); }
        Node::Group(c) => { assert(nv(n)->Group_0 =~= nvs(c.members@)); }
        Node::ChoiceifyInline(c) => { assert(nv(n)->ChoiceifyInline_0 =~= nvs(c.members@)); }
        _ => {}
    }
}
pub broadcast proof fn lemma_nvs_push(s: Seq<Node>, n: Node)
    ensures #[trigger] nvs(s.push(n)) == nvs(s).push(nv(n)),
{ assert(nvs(s.push(n)) =~= nvs(s).push(nv(n))); }
pub broadcast proof fn lemma_nvs_small(s: Seq<Node>)
    ensures #![trigger nvs(s)] s.len() == 0 ==> nvs(s) == Seq::<SN>::empty(), s.len() == 1 ==> nvs(s) == seq![nv(s[0])],
{ if s.len() == 0 { assert(nvs(s) =~= Seq::<SN>::empty()); } if s.len() == 1 { assert(nvs(s) =~= seq![nv(s[0])]); } }
/// A rule definition: its generic parameters and its tree.
#[verifier::ext_equal]
pub ghost struct SRule { pub parms: Seq<Seq<char>>, pub node: SN }
pub open spec fn strs(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn rdv(r: RuleDef) -> SRule { SRule { parms: strs(r.generic_parms@), node: nv(r.node) } }

pub type FR = Result<SN, Out>;
pub type FRS = Result<Seq<SN>, Out>;
/// All of a list, or the first error in it.
pub open spec fn seq_res(s: Seq<FR>) -> FRS
    decreases s.len()
{
    if s.len() == 0 { Ok(Seq::empty()) } else {
        match seq_res(s.drop_last()) {
            Err(o) => Err(o),
            Ok(v) => match s.last() { Err(o) => Err(o), Ok(x) => Ok(v.push(x)) },
        }
    }
}
pub open spec fn prelude(p: PreludeType) -> FR { Ok(SN::Prelude(p)) }
pub open spec fn unsupported() -> FR { Err(Out::Fatal(Ek::Unsupported)) }
pub open spec fn structural() -> FR { Err(Out::Fatal(Ek::Structural)) }
/// RFC 8610 appendix D: what each prelude name stands for here; any other name is a reference.
pub open spec fn fl_typename(n: Seq<char>) -> FR {
    if n == "any"@ { prelude(PreludeType::Any) }
    else if n == "nil"@ || n == "null"@ { prelude(PreludeType::Nil) }
    else if n == "bool"@ { prelude(PreludeType::Bool) }
    else if n == "false"@ { Ok(SN::Lit(SV::Bool(false))) }
    else if n == "true"@ { Ok(SN::Lit(SV::Bool(true))) }
    else if n == "int"@ { prelude(PreludeType::Int) }
    else if n == "uint"@ { prelude(PreludeType::Uint) }
    else if n == "nint"@ { prelude(PreludeType::Nint) }
    else if n == "float"@ || n == "float16"@ || n == "float32"@ || n == "float64"@ || n == "float16-32"@ || n == "float32-64"@ { prelude(PreludeType::Float) }
    else if n == "tstr"@ || n == "text"@ { prelude(PreludeType::Tstr) }
    else if n == "bstr"@ || n == "bytes"@ { prelude(PreludeType::Bstr) }
    else if n == "tdate"@ || n == "uri"@ || n == "b64url"@ || n == "b64legacy"@ || n == "regexp"@ || n == "mime-message"@ { prelude(PreludeType::Tstr) }
    else if n == "biguint"@ || n == "bignint"@ || n == "encoded-cbor"@ { prelude(PreludeType::Bstr) }
    else if n == "eb64url"@ || n == "eb64legacy"@ || n == "eb16"@ || n == "cbor-any"@ { prelude(PreludeType::Any) }
    else if n == "time"@ || n == "bigint"@ || n == "integer"@ || n == "unsigned"@ || n == "number"@
         || n == "decfrac"@ || n == "bigfloat"@ || n == "undefined"@ { unsupported() }
    else { Ok(SN::Rule(n, Seq::empty())) }
}
pub open spec fn fl_value(v: ast::Value) -> FR {
    Ok(SN::Lit(match v {
        ast::Value::Text(s) => SV::Text(s@),
        ast::Value::Uint(u) => SV::Integer(u as int),
        ast::Value::Nint(n) => SV::Integer(n as int),
        ast::Value::Float(f) => SV::Float(f),
        ast::Value::Bytes(b) => SV::Bytes(b@),
    }))
}
pub open spec fn fl_type(t: ast::Type) -> FR
    decreases t, 3int
{
    match seq_res(Seq::new(t.0@.len(), |i: int| if 0 <= i < t.0@.len() { fl_type1(t.0@[i]) } else { arbitrary() })) {
        Err(o) => Err(o),
        Ok(v) => if v.len() == 0 { unsupported() } else if v.len() == 1 { Ok(v[0]) } else { Ok(SN::Choice(v)) },
    }
}
pub open spec fn fl_type1(t: ast::Type1) -> FR
    decreases t, 3int
{
    match t {
        ast::Type1::Simple(x) => fl_type2(x),
        ast::Type1::Range(r) => fl_range(r),
        ast::Type1::Control(c) => fl_control(c),
    }
}
pub open spec fn fl_range(r: ast::TypeRange) -> FR
    decreases r, 3int
{
    match fl_point(r.start) {
        Err(o) => Err(o),
        Ok(a) => match fl_point(r.end) {
            Err(o) => Err(o),
            Ok(b) => Ok(SN::Range(Box::new(a), Box::new(b), r.inclusive)),
        },
    }
}
/// The end of a range: a literal, or a name that is not a prelude type.
pub open spec fn fl_point(t: ast::Type2) -> FR
    decreases t, 2int
{
    let r = match t {
        ast::Type2::Value(v) => fl_value(v),
        ast::Type2::Typename(n) => fl_name(n),
        _ => structural(),
    };
    match r {
        Err(o) => Err(o),
        Ok(SN::Rule(n, a)) => Ok(SN::Rule(n, a)),
        Ok(SN::Lit(l)) => Ok(SN::Lit(l)),
        Ok(_) => structural(),
    }
}
pub open spec fn is_int_or_name(n: SN) -> bool { match n { SN::Lit(SV::Integer(_)) => true, SN::Rule(_, _) => true, _ => false } }
pub open spec fn known_op(op: Seq<char>) -> bool {
    op == "size"@ || op == "lt"@ || op == "le"@ || op == "gt"@ || op == "ge"@ || op == "regexp"@ || op == "cbor"@
}
/// A control operator applied to a target and an argument.
pub open spec fn fl_ctl(op: Seq<char>, t: SN, a: SN) -> FR {
    if op == "size"@ { if is_int_or_name(a) || a is Range { Ok(SN::Size(Box::new(t), Box::new(a))) } else { unsupported() } }
    else if op == "lt"@ { if is_int_or_name(a) { Ok(SN::Lt(Box::new(t), Box::new(a))) } else { unsupported() } }
    else if op == "le"@ { if is_int_or_name(a) { Ok(SN::Le(Box::new(t), Box::new(a))) } else { unsupported() } }
    else if op == "gt"@ { if is_int_or_name(a) { Ok(SN::Gt(Box::new(t), Box::new(a))) } else { unsupported() } }
    else if op == "ge"@ { if is_int_or_name(a) { Ok(SN::Ge(Box::new(t), Box::new(a))) } else { unsupported() } }
    else if op == "regexp"@ {
        if t != SN::Prelude(PreludeType::Tstr) { structural() } else {
            match a {
                SN::Lit(SV::Text(p)) => if crate::vp::regex::re_ok(p) { Ok(SN::Regexp(p)) } else { structural() },
                _ => structural(),
            }
        }
    }
    else { if t != SN::Prelude(PreludeType::Bstr) { structural() } else { Ok(SN::Cbor(Box::new(a))) } }
}
pub open spec fn fl_control(c: ast::TypeControl) -> FR
    decreases c, 3int
{
    if !known_op(c.op@) { unsupported() } else {
        match fl_type2(c.target) {
            Err(o) => Err(o),
            Ok(t) => match fl_type2(c.arg) { Err(o) => Err(o), Ok(a) => fl_ctl(c.op@, t, a) },
        }
    }
}
pub open spec fn fl_type2(t: ast::Type2) -> FR
    decreases t, 3int
{
    match t {
        ast::Type2::Value(v) => fl_value(v),
        ast::Type2::Typename(n) => fl_name(n),
        ast::Type2::Parethesized(x) => fl_type(x),
        ast::Type2::Map(g) => match fl_group(g) { Err(o) => Err(o), Ok(v) => Ok(SN::Map(v)) },
        ast::Type2::Array(g) => match fl_group(g) { Err(o) => Err(o), Ok(v) => Ok(SN::Array(v)) },
        ast::Type2::Unwrap(n) => match fl_rulename(n) { Ok(SN::Rule(n, a)) => Ok(SN::Unwrap(n, a)), Ok(_) => arbitrary(), Err(o) => Err(o) },
        ast::Type2::ChoiceifyInline(g) => match fl_group(g) { Err(o) => Err(o), Ok(v) => Ok(SN::ChoiceifyInline(v)) },
        ast::Type2::Choiceify(n) => match fl_rulename(n) { Ok(SN::Rule(n, a)) => Ok(SN::Choiceify(n, a)), Ok(_) => arbitrary(), Err(o) => Err(o) },
    }
}
/// A name with its generic arguments; a prelude type takes none.
pub open spec fn fl_name(n: ast::NameGeneric) -> FR
    decreases n, 3int
{
    match fl_typename(n.name@) {
        Err(o) => Err(o),
        Ok(SN::Rule(name, _)) => match fl_args(n.generic_args@) {
            Err(o) => Err(o),
            Ok(a) => Ok(SN::Rule(name, a)),
        },
        Ok(x) => if n.generic_args@.len() > 0 { Err(Out::Fatal(Ek::Generic)) } else { Ok(x) },
    }
}
pub open spec fn fl_args(a: Seq<ast::Type1>) -> FRS
    decreases a, 2int
{
    seq_res(fl_args_seq(a))
}
pub open spec fn fl_args_seq(a: Seq<ast::Type1>) -> Seq<FR>
    decreases a, 1int
{
    Seq::new(a.len(), |i: int| if 0 <= i < a.len() { fl_type1(a[i]) } else { arbitrary() })
}
/// v holds the first arguments, flattened
pub open spec fn args_ok(a: Seq<ast::Type1>, v: Seq<Node>) -> bool {
    v.len() <= a.len() && forall|i: int| 0 <= i < v.len() ==> fl_type1(#[trigger] a[i]) == Ok::<SN, Out>(nv(v[i]))
}
/// A name where only a rule may stand (after ~ and &).
pub open spec fn fl_rulename(n: ast::NameGeneric) -> FR
    decreases n, 4int
{
    match fl_name(n) { Ok(SN::Rule(name, a)) => Ok(SN::Rule(name, a)), _ => Err(Out::Fatal(Ek::Generic)) }
}
pub open spec fn fl_group(g: ast::Group) -> FRS
    decreases g, 3int
{
    if g.0@.len() == 1 { fl_grpchoice(g.0@[0]) } else {
        match seq_res(Seq::new(g.0@.len(), |i: int| if 0 <= i < g.0@.len() {
                match fl_grpchoice(g.0@[i]) { Err(o) => Err::<SN, Out>(o), Ok(v) => Ok::<SN, Out>(SN::Group(v)) } } else { arbitrary() })) {
            Err(o) => Err(o),
            Ok(v) => Ok(seq![SN::Choice(v)]),
        }
    }
}
pub open spec fn fl_grpchoice(g: ast::GrpChoice) -> FRS
    decreases g, 3int
{
    seq_res(Seq::new(g.0@.len(), |i: int| if 0 <= i < g.0@.len() { fl_entry(g.0@[i]) } else { arbitrary() }))
}
pub open spec fn fl_occ(o: Option<ast::Occur>, n: SN) -> SN { match o { Some(o) => SN::Occur(o, Box::new(n)), None => n } }
pub open spec fn fl_entry(e: ast::GrpEnt) -> FR
    decreases e, 3int
{
    match fl_entryval(e.val) { Err(o) => Err(o), Ok(n) => Ok(fl_occ(e.occur, n)) }
}
pub open spec fn fl_entryval(e: ast::GrpEntVal) -> FR
    decreases e, 3int
{
    match e {
        ast::GrpEntVal::Member(m) => fl_member(m),
        ast::GrpEntVal::Groupname(s) => fl_typename(s@),
        ast::GrpEntVal::Parenthesized(g) => match fl_group(g) { Err(o) => Err(o), Ok(v) => Ok(SN::Group(v)) },
    }
}
pub open spec fn fl_member(m: ast::Member) -> FR
    decreases m, 3int
{
    match m.key {
        None => fl_type(m.value),
        Some(k) => match fl_key(k) {
            Err(o) => Err(o),
            Ok(kn) => match fl_type(m.value) {
                Err(o) => Err(o),
                Ok(vn) => Ok(SN::KeyValue(Box::new(kn), Box::new(vn), k.cut)),
            },
        },
    }
}
pub open spec fn fl_key(k: ast::MemberKey) -> FR
    decreases k, 3int
{
    match k.val {
        ast::MemberKeyVal::Bareword(s) => Ok(SN::Lit(SV::Text(s@))),
        ast::MemberKeyVal::Type1(t) => fl_type1(t),
        ast::MemberKeyVal::Value(v) => fl_value(v),
    }
}
/// A rule: its name, parameters and tree.
pub open spec fn fl_rule(r: ast::Rule) -> Result<(Seq<char>, SRule), Out> {
    let n = match r.val {
        ast::RuleVal::AssignType(t) => fl_type(t),
        ast::RuleVal::AssignGroup(g) => fl_entry(g),
    };
    match n { Err(o) => Err(o), Ok(n) => Ok((r.name@, SRule { parms: strs(r.generic_parms@), node: n })) }
}
pub type Rules = Map<Seq<char>, SRule>;
/// All rules by name (a name defined twice: the last definition), or the first error.
pub open spec fn fl_rules(s: Seq<ast::Rule>) -> Result<Rules, Out>
    decreases s.len()
{
    if s.len() == 0 { Ok(Map::empty()) } else {
        match fl_rules(s.drop_last()) {
            Err(o) => Err(o),
            Ok(m) => match fl_rule(s.last()) { Err(o) => Err(o), Ok((n, r)) => Ok(m.insert(n, r)) },
        }
    }
}
pub open spec fn textv(s: Seq<(ast::Rule, String)>) -> Seq<(ast::Rule, Seq<char>)> { s.map_values(|x: (ast::Rule, String)| (x.0, x.1@)) }
pub type RulesText = Map<Seq<char>, (SRule, Seq<char>)>;
pub open spec fn fl_rules_text(s: Seq<(ast::Rule, Seq<char>)>) -> Result<RulesText, Out>
    decreases s.len()
{
    if s.len() == 0 { Ok(Map::empty()) } else {
        match fl_rules_text(s.drop_last()) {
            Err(o) => Err(o),
            Ok(m) => match fl_rule(s.last().0) { Err(o) => Err(o), Ok((n, r)) => Ok(m.insert(n, (r, s.last().1))) },
        }
    }
}

/// A schema text: the error of a text that is no schema, or what its rules flatten to.
pub open spec fn fl_text(t: Seq<char>) -> Result<Rules, Out> {
    match crate::parser::parse_rules(t) { None => Err(Out::Fatal(Ek::Parse)), Some(s) => fl_rules(s) }
}
pub open spec fn fl_text_t(t: Seq<char>) -> Result<RulesText, Out> {
    match crate::parser::parse(t) { None => Err(Out::Fatal(Ek::Parse)), Some(s) => fl_rules_text(s) }
}
/// What validating a document against a named rule of a schema text gives.
pub open spec fn judged(cddl: Seq<char>, name: Seq<char>, doc: Option<SV>, out: Out) -> bool {
    match fl_text(cddl) {
        Err(o) => out == o,
        Ok(rv) => exists|m: Map<Seq<char>, RuleDef>| #![auto] m.map_values(|r: RuleDef| rdv(r)) == rv && out == (
            if !m.contains_key(name) { Out::Fatal(Ek::MissingRule) } else {
                match doc {
                    None => Out::Fatal(Ek::ValueError),
                    Some(v) => sem_top(m[name], v, rules_env(m)),
                }
            }),
    }
}

// ------------------------------------------------------------ results seen through nv
pub open spec fn ctl_is(r: Result<Control, ValidateError>, e: FR) -> bool {
    match r { Ok(c) => e == Ok::<SN, Out>(nv(Node::Control(c))), Err(x) => e == Err::<SN, Out>(cls_e(x)) }
}
pub open spec fn node_is(r: Result<Node, ValidateError>, e: FR) -> bool {
    match r { Ok(n) => e == Ok::<SN, Out>(nv(n)), Err(x) => e == Err::<SN, Out>(cls_e(x)) }
}
pub open spec fn nodes_is(r: Result<Vec<Node>, ValidateError>, e: FRS) -> bool {
    match r { Ok(n) => e == Ok::<Seq<SN>, Out>(nvs(n@)), Err(x) => e == Err::<Seq<SN>, Out>(cls_e(x)) }
}
pub open spec fn rule_is(r: Result<(String, RuleDef), ValidateError>, e: Result<(Seq<char>, SRule), Out>) -> bool {
    match r { Ok(n) => e == Ok::<(Seq<char>, SRule), Out>((n.0@, rdv(n.1))), Err(x) => e == Err::<(Seq<char>, SRule), Out>(cls_e(x)) }
}
pub open spec fn rulet_is(r: Result<(String, (RuleDef, String)), ValidateError>, x: (ast::Rule, Seq<char>)) -> bool {
    match r {
        Ok(n) => fl_rule(x.0) == Ok::<(Seq<char>, SRule), Out>((n.0@, rdv(n.1.0))) && n.1.1@ == x.1,
        Err(e) => fl_rule(x.0) == Err::<(Seq<char>, SRule), Out>(cls_e(e)),
    }
}
pub open spec fn rules_is(r: Result<BTreeMap<String, RuleDef>, ValidateError>, e: Result<Rules, Out>) -> bool {
    match r { Ok(m) => e == Ok::<Rules, Out>(rulesv(m)), Err(x) => e == Err::<Rules, Out>(cls_e(x)) }
}
pub open spec fn rulesv(m: BTreeMap<String, RuleDef>) -> Rules { m.smap().map_values(|r: RuleDef| rdv(r)) }
pub open spec fn rulestv(m: BTreeMap<String, (RuleDef, String)>) -> RulesText { m.smap().map_values(|r: (RuleDef, String)| (rdv(r.0), r.1@)) }
pub open spec fn rulest_is(r: Result<BTreeMap<String, (RuleDef, String)>, ValidateError>, e: Result<RulesText, Out>) -> bool {
    match r { Ok(m) => e == Ok::<RulesText, Out>(rulestv(m)), Err(x) => e == Err::<RulesText, Out>(cls_e(x)) }
}

pub proof fn lemma_seq_res_ok(t: Seq<FR>)
    requires forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) is Ok,
    ensures seq_res(t) == Ok::<Seq<SN>, Out>(t.map_values(|x: FR| x->Ok_0)),
    decreases t.len()
{
    let m = t.map_values(|x: FR| x->Ok_0);
    if t.len() > 0 {
        lemma_seq_res_ok(t.drop_last());
        assert(t.drop_last().map_values(|x: FR| x->Ok_0).push(t.last()->Ok_0) =~= m);
        assert(t.last() is Ok) by { assert(t[t.len() - 1] is Ok); }
    } else {
        assert(m =~= Seq::<SN>::empty());
    }
}
pub proof fn lemma_seq_res_err(t: Seq<FR>, k: int)
    requires 0 <= k < t.len(), t[k] is Err, forall|i: int| 0 <= i < k ==> (#[trigger] t[i]) is Ok,
    ensures seq_res(t) == Err::<Seq<SN>, Out>(t[k]->Err_0),
    decreases t.len()
{
    if k < t.len() - 1 {
        lemma_seq_res_err(t.drop_last(), k);
    } else {
        lemma_seq_res_ok(t.drop_last());
    }
}
/// what the arguments so far say about all of them
pub proof fn lemma_args(a: Seq<ast::Type1>, v: Seq<Node>)
    requires args_ok(a, v),
    ensures
        v.len() == a.len() ==> fl_args(a) == Ok::<Seq<SN>, Out>(nvs(v)),
        v.len() < a.len() ==> match fl_type1(a[v.len() as int]) {
            Err(o) => fl_args(a) == Err::<Seq<SN>, Out>(o),
            Ok(x) => forall|n: Node| nv(n) == x ==> #[trigger] args_ok(a, v.push(n)),
        },
{
    let t: Seq<FR> = fl_args_seq(a);
    assert(t.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] t[i] == fl_type1(a[i]));
    if v.len() == a.len() {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Ok by { assert(fl_type1(a[i]) is Ok); }
        lemma_seq_res_ok(t);
        assert(t.map_values(|x: FR| x->Ok_0) =~= nvs(v)) by {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i])->Ok_0 == nv(v[i]) by { assert(fl_type1(a[i]) is Ok); }
        }
    } else if let Err(o) = fl_type1(a[v.len() as int]) {
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] t[i]) is Ok by { assert(fl_type1(a[i]) is Ok); }
        lemma_seq_res_err(t, v.len() as int);
    }
}
/// collect() into a Result of a Vec is seq_res
pub broadcast proof fn lemma_collect_nodes(s: Seq<Result<Node, ValidateError>>, r: Result<Vec<Node>, ValidateError>, t: Seq<FR>)
    requires
        #[trigger] <Result<Vec<Node>, ValidateError> as VpCollect<Result<Node, ValidateError>>>::collected(s, r),
        s.len() == t.len(),
        forall|i: int| 0 <= i < s.len() ==> node_is(s[i], #[trigger] t[i]),
    ensures nodes_is(r, #[trigger] seq_res(t)),
{
    match r {
        Ok(v) => {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Ok by { assert(s[i] == Ok::<Node, ValidateError>(v@[i])); }
            lemma_seq_res_ok(t);
            assert(t.map_values(|x: FR| x->Ok_0) =~= nvs(v@)) by {
                assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i])->Ok_0 == nv(v@[i]) by { assert(s[i] == Ok::<Node, ValidateError>(v@[i])); }
            }
        }
        Err(e) => {
            let k = choose|k: int| first_err(s, k, e);
            assert(node_is(s[k], t[k]));
            assert forall|i: int| 0 <= i < k implies (#[trigger] t[i]) is Ok by { assert(s[i] is Ok); }
            lemma_seq_res_err(t, k);
        }
    }
}
/// collect() into a Result of a map
pub broadcast proof fn lemma_collect_rules(s: Seq<Result<(String, RuleDef), ValidateError>>, r: Result<BTreeMap<String, RuleDef>, ValidateError>, t: Seq<ast::Rule>)
    requires
        #[trigger] <Result<BTreeMap<String, RuleDef>, ValidateError> as VpCollect<Result<(String, RuleDef), ValidateError>>>::collected(s, r),
        s.len() == t.len(),
        forall|i: int| 0 <= i < s.len() ==> rule_is(#[trigger] s[i], fl_rule(t[i])),
    ensures rules_is(r, #[trigger] fl_rules(t)),
{
    match r {
        Ok(m) => {
            let p = s.map_values(|x: Result<(String, RuleDef), ValidateError>| x->Ok_0);
            lemma_rules_ok(s, t);
            assert(rulesv(m) =~= assoc(p).map_values(|r: RuleDef| rdv(r)));
        }
        Err(e) => {
            let k = choose|k: int| first_err(s, k, e);
            lemma_rules_err(s, t, k);
        }
    }
}
pub proof fn lemma_rules_ok(s: Seq<Result<(String, RuleDef), ValidateError>>, t: Seq<ast::Rule>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok && rule_is(s[i], fl_rule(t[i])),
    ensures fl_rules(t) == Ok::<Rules, Out>(assoc(s.map_values(|x: Result<(String, RuleDef), ValidateError>| x->Ok_0)).map_values(|r: RuleDef| rdv(r))),
    decreases s.len()
{
    let f = |x: Result<(String, RuleDef), ValidateError>| x->Ok_0;
    let p = s.map_values(f);
    let g = |r: RuleDef| rdv(r);
    if s.len() == 0 {
        assert(assoc(p).map_values(g) =~= Map::<Seq<char>, SRule>::empty());
    } else {
        let s1 = s.drop_last();
        lemma_rules_ok(s1, t.drop_last());
        assert(s1.map_values(f) =~= p.drop_last());
        assert(s[s.len() - 1] is Ok);
        assert(assoc(p).map_values(g) =~= assoc(p.drop_last()).map_values(g).insert(p.last().0@, rdv(p.last().1)));
    }
}
pub proof fn lemma_rules_err(s: Seq<Result<(String, RuleDef), ValidateError>>, t: Seq<ast::Rule>, k: int)
    requires s.len() == t.len(), 0 <= k < s.len(), s[k] is Err, forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) is Ok,
        forall|i: int| 0 <= i < s.len() ==> rule_is(#[trigger] s[i], fl_rule(t[i])),
    ensures fl_rules(t) == Err::<Rules, Out>(cls_e(s[k]->Err_0)),
    decreases s.len()
{
    if k < s.len() - 1 { lemma_rules_err(s.drop_last(), t.drop_last(), k); } else { lemma_rules_ok(s.drop_last(), t.drop_last()); }
}
pub broadcast proof fn lemma_collect_rules_text(s: Seq<Result<(String, (RuleDef, String)), ValidateError>>, r: Result<BTreeMap<String, (RuleDef, String)>, ValidateError>, t: Seq<(ast::Rule, Seq<char>)>)
    requires
        #[trigger] <Result<BTreeMap<String, (RuleDef, String)>, ValidateError> as VpCollect<Result<(String, (RuleDef, String)), ValidateError>>>::collected(s, r),
        s.len() == t.len(),
        forall|i: int| 0 <= i < s.len() ==> rulet_is(#[trigger] s[i], t[i]),
    ensures rulest_is(r, #[trigger] fl_rules_text(t)),
{
    match r {
        Ok(m) => {
            let p = s.map_values(|x: Result<(String, (RuleDef, String)), ValidateError>| x->Ok_0);
            lemma_rulest_ok(s, t);
            assert(rulestv(m) =~= assoc(p).map_values(|r: (RuleDef, String)| (rdv(r.0), r.1@)));
        }
        Err(e) => {
            let k = choose|k: int| first_err(s, k, e);
            lemma_rulest_err(s, t, k);
        }
    }
}
pub proof fn lemma_rulest_ok(s: Seq<Result<(String, (RuleDef, String)), ValidateError>>, t: Seq<(ast::Rule, Seq<char>)>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok && rulet_is(s[i], t[i]),
    ensures fl_rules_text(t) == Ok::<RulesText, Out>(assoc(s.map_values(|x: Result<(String, (RuleDef, String)), ValidateError>| x->Ok_0)).map_values(|r: (RuleDef, String)| (rdv(r.0), r.1@))),
    decreases s.len()
{
    let f = |x: Result<(String, (RuleDef, String)), ValidateError>| x->Ok_0;
    let p = s.map_values(f);
    let g = |r: (RuleDef, String)| (rdv(r.0), r.1@);
    if s.len() == 0 {
        assert(assoc(p).map_values(g) =~= Map::<Seq<char>, (SRule, Seq<char>)>::empty());
    } else {
        let s1 = s.drop_last();
        lemma_rulest_ok(s1, t.drop_last());
        assert(s1.map_values(f) =~= p.drop_last());
        assert(s[s.len() - 1] is Ok);
        assert(assoc(p).map_values(g) =~= assoc(p.drop_last()).map_values(g).insert(p.last().0@, g(p.last().1)));
    }
}
pub proof fn lemma_rulest_err(s: Seq<Result<(String, (RuleDef, String)), ValidateError>>, t: Seq<(ast::Rule, Seq<char>)>, k: int)
    requires s.len() == t.len(), 0 <= k < s.len(), s[k] is Err, forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) is Ok,
        forall|i: int| 0 <= i < s.len() ==> rulet_is(#[trigger] s[i], t[i]),
    ensures fl_rules_text(t) == Err::<RulesText, Out>(cls_e(s[k]->Err_0)),
    decreases s.len()
{
    if k < s.len() - 1 { lemma_rulest_err(s.drop_last(), t.drop_last(), k); } else { lemma_rulest_ok(s.drop_last(), t.drop_last()); }
}

// ------------------------------------------------------------ what the property asks, as theorems
/// C25: the text-preserving variant gives the same rules, each with a text, and fails alike.
pub proof fn theorem_C25_variant(t: Seq<(ast::Rule, Seq<char>)>)
    ensures match fl_rules_text(t) {
        Ok(m) => fl_rules(t.map_values(|x: (ast::Rule, Seq<char>)| x.0)) == Ok::<Rules, Out>(m.map_values(|x: (SRule, Seq<char>)| x.0)),
        Err(o) => fl_rules(t.map_values(|x: (ast::Rule, Seq<char>)| x.0)) == Err::<Rules, Out>(o),
    },
    decreases t.len()
{
    let f = |x: (ast::Rule, Seq<char>)| x.0;
    let g = |x: (SRule, Seq<char>)| x.0;
    let r = t.map_values(f);
    if t.len() == 0 {
        assert(Map::<Seq<char>, (SRule, Seq<char>)>::empty().map_values(g) =~= Map::<Seq<char>, SRule>::empty());
    } else {
        theorem_C25_variant(t.drop_last());
        assert(t.drop_last().map_values(f) =~= r.drop_last());
        if let Ok(m) = fl_rules_text(t.drop_last()) {
            if let Ok((n, x)) = fl_rule(t.last().0) {
                assert(m.insert(n, (x, t.last().1)).map_values(g) =~= m.map_values(g).insert(n, x));
            }
        }
    }
}
/// C19: with distinct names and no error, every rule is there under its name.
pub proof fn theorem_C19_all_rules(t: Seq<ast::Rule>)
    requires fl_rules(t) is Ok, forall|i: int, j: int| 0 <= i < j < t.len() ==> t[i].name@ != t[j].name@,
    ensures
        forall|i: int| 0 <= i < t.len() ==> fl_rule(#[trigger] t[i]) is Ok && fl_rules(t)->Ok_0.contains_key(t[i].name@)
            && fl_rules(t)->Ok_0[t[i].name@] == fl_rule(t[i])->Ok_0.1,
        forall|n: Seq<char>| #[trigger] fl_rules(t)->Ok_0.contains_key(n) ==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name@ == n,
    decreases t.len()
{
    if t.len() > 0 {
        let p = t.drop_last();
        theorem_C19_all_rules(p);
        assert forall|i: int| 0 <= i < t.len() implies fl_rule(#[trigger] t[i]) is Ok && fl_rules(t)->Ok_0.contains_key(t[i].name@)
            && fl_rules(t)->Ok_0[t[i].name@] == fl_rule(t[i])->Ok_0.1 by {
            if i < p.len() { assert(p[i] == t[i]); assert(t[i].name@ != t[t.len() - 1].name@); }
        }
        assert forall|n: Seq<char>| #[trigger] fl_rules(t)->Ok_0.contains_key(n) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name@ == n by {
            if n == t.last().name@ { assert(t[t.len() - 1].name@ == n); } else {
                assert(fl_rules(p)->Ok_0.contains_key(n));
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).name@ == n;
                assert(t[i].name@ == n);
            }
        }
    }
}
pub broadcast group group_fl {lemma_collect_nodes, lemma_collect_rules, lemma_collect_rules_text, lemma_nv, lemma_nvs_push, lemma_nvs_small, crate::ivt::axiom_into_id, crate::ivt::axiom_into_string_ref, crate::ivt::axiom_into_string, crate::ivt::axiom_into_box, crate::ivt::axiom_try_u64, crate::ivt::axiom_try_i64, crate::ivt::axiom_obeys_id, crate::ivt::axiom_obeys_string_ref, crate::ivt::axiom_obeys_string, crate::ivt::axiom_obeys_box, crate::ivt::axiom_obeys_u64, crate::ivt::axiom_obeys_i64, crate::util::axiom_from_parse_error}
}
