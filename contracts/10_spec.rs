// The semantics the contracts are stated against.  Ghost code only.
pub mod spec {
use vstd::prelude::*;
use crate::value::Value;
use crate::ivt::{Node, Rule, RuleDef, Literal, PreludeType, Range, Control, OccurLimit};
use crate::util::ValidateError;

// ------------------------------------------------------------ values and outcomes
/// What a Value means: two Values are the same data iff their `sv` are equal.
#[verifier::ext_equal]
pub ghost enum SV {
    Null,
    Bool(bool),
    Integer(int),
    Float(f64),
    Bytes(Seq<u8>),
    Text(Seq<char>),
    Array(Seq<SV>),
    Map(Seq<(SV, SV)>),   // entries in ascending key order, keys distinct
}
pub open spec fn sv(v: Value) -> SV
    decreases v
{
    match v {
        Value::Null => SV::Null,
        Value::Bool(b) => SV::Bool(b),
        Value::Integer(i) => SV::Integer(i as int),
        Value::Float(f) => SV::Float(f.0),
        Value::Bytes(b) => SV::Bytes(b@),
        Value::Text(t) => SV::Text(t@),
        Value::Array(a) => SV::Array(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { sv(a@[i]) } else { SV::Null })),
        Value::Map(m) => SV::Map(ents(m.vmap())),
    }
}
pub open spec fn svs(s: Seq<Value>) -> Seq<SV> {
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { sv(s[i]) } else { SV::Null })
}
/// The keys of a finite map in ascending order (the order itself is not interpreted).
pub uninterp spec fn key_order(s: Set<SV>) -> Seq<SV>;
#[verifier::external_body]
pub broadcast proof fn axiom_key_order(s: Set<SV>)
    requires s.finite(),
    ensures
        (#[trigger] key_order(s)).len() == s.len(),
        key_order(s).no_duplicates(),
        key_order(s).to_set() == s,
{ }
pub open spec fn ents(m: Map<SV, SV>) -> Seq<(SV, SV)> {
    key_order(m.dom()).map_values(|k: SV| (k, m[k]))
}
/// The pairs in a list of successful results.
pub open spec fn ok_pairs<E>(s: Seq<Result<(Value, Value), E>>) -> Seq<(SV, SV)> {
    Seq::new(s.len(), |i: int| (sv(s[i]->Ok_0.0), sv(s[i]->Ok_0.1)))
}
pub open spec fn tomap(s: Seq<(SV, SV)>) -> Map<SV, SV>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { tomap(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub broadcast proof fn lemma_tomap_same(a: Seq<(SV, SV)>, b: Seq<(SV, SV)>)
    requires a =~= b,
    ensures #[trigger] tomap(a) == #[trigger] tomap(b),
{ }
pub broadcast proof fn lemma_tomap_append(a: Seq<(SV, SV)>, b: Seq<(SV, SV)>)
    ensures #[trigger] tomap(a + b) == tomap(a).union_prefer_right(tomap(b)),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(tomap(a).union_prefer_right(tomap(b)) =~= tomap(a));
    } else {
        lemma_tomap_append(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(tomap(a).union_prefer_right(tomap(b)) =~= tomap(a).union_prefer_right(tomap(b.drop_last())).insert(b.last().0, b.last().1));
    }
}
pub open spec fn svps(s: Seq<(Value, Value)>) -> Seq<(SV, SV)> {
    Seq::new(s.len(), |i: int| (sv(s[i].0), sv(s[i].1)))
}
/// Insertion in order: the last pair with a given key wins.
pub open spec fn vassoc(s: Seq<(Value, Value)>) -> Map<SV, SV> { tomap(svps(s)) }
pub broadcast proof fn lemma_vassoc_append(a: Seq<(Value, Value)>, b: Seq<(Value, Value)>)
    ensures #[trigger] vassoc(a + b) == vassoc(a).union_prefer_right(vassoc(b)),
{
    lemma_tomap_append(svps(a), svps(b));
    assert(svps(a + b) =~= svps(a) + svps(b));
}
pub broadcast proof fn lemma_vassoc_push(a: Seq<(Value, Value)>, x: (Value, Value))
    ensures #[trigger] vassoc(a.push(x)) == vassoc(a).insert(sv(x.0), sv(x.1)),
{
    assert(svps(a.push(x)).drop_last() =~= svps(a));
}
pub proof fn lemma_tomap(s: Seq<(SV, SV)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 != s[j].0,
    ensures
        tomap(s).dom().finite(),
        forall|k: SV| tomap(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        forall|i: int| 0 <= i < s.len() ==> tomap(s)[(#[trigger] s[i]).0] == s[i].1,
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_tomap(p);
        assert forall|k: SV| tomap(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if tomap(s).contains_key(k) {
                if k == s.last().0 {
                    assert(s[s.len() - 1].0 == k);
                } else {
                    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k;
                    assert(s[i].0 == k);
                }
            }
            if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
                if i < p.len() { assert(p[i].0 == k); }
            }
        }
        assert forall|i: int| 0 <= i < s.len() implies tomap(s)[(#[trigger] s[i]).0] == s[i].1 by {
            if i < p.len() { assert(p[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); }
        }
    }
}
pub broadcast proof fn lemma_tomap_ents(m: Map<SV, SV>)
    requires m.dom().finite(),
    ensures tomap(#[trigger] ents(m)) == m,
{
    broadcast use axiom_key_order;
    let s = ents(m);
    let ks = key_order(m.dom());
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i].0 != s[j].0 by {
        assert(ks[i] != ks[j]);
    }
    lemma_tomap(s);
    assert forall|k: SV| tomap(s).contains_key(k) <==> m.contains_key(k) by {
        assert(m.contains_key(k) <==> ks.to_set().contains(k));
        if m.contains_key(k) {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(s[i].0 == k);
        }
        if tomap(s).contains_key(k) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            assert(ks[i] == k);
        }
    }
    assert forall|k: SV| m.contains_key(k) implies tomap(s)[k] == m[k] by {
        assert(ks.to_set().contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(s[i].0 == k);
    }
    assert(tomap(s) =~= m);
}

/// Error kinds a caller can tell apart.
pub ghost enum Ek { Parse, Structural, MissingRule, Unsupported, ValueError, Generic }
/// The outcome of a match: success; a mismatch; a cut (key matched, value did not);
/// or an error that must end the whole validation.
pub ghost enum Out { Ok, Mismatch, Cut, Fatal(Ek) }

pub open spec fn cls_e(e: ValidateError) -> Out {
    match e {
        ValidateError::ParseError(_) => Out::Fatal(Ek::Parse),
        ValidateError::Structural(_) => Out::Fatal(Ek::Structural),
        ValidateError::Mismatch(_) => Out::Mismatch,
        ValidateError::MapCut(_) => Out::Cut,
        ValidateError::MissingRule(_) => Out::Fatal(Ek::MissingRule),
        ValidateError::Unsupported(_) => Out::Fatal(Ek::Unsupported),
        ValidateError::ValueError(_) => Out::Fatal(Ek::ValueError),
        ValidateError::GenericError => Out::Fatal(Ek::Generic),
    }
}
pub open spec fn cls(r: Result<(), ValidateError>) -> Out {
    match r { Ok(_) => Out::Ok, Err(e) => cls_e(e) }
}
pub open spec fn erase(o: Out) -> Out { if o is Cut { Out::Mismatch } else { o } }
pub open spec fn lit_tag(l: Literal) -> u8 {
    match l { Literal::Bool(_) => 0u8, Literal::Int(_) => 1, Literal::Float(_) => 2, Literal::Text(_) => 3, Literal::Bytes(_) => 4 }
}
pub open spec fn lit_sv(l: Literal) -> SV {
    match l {
        Literal::Bool(b) => SV::Bool(b),
        Literal::Int(i) => SV::Integer(i as int),
        Literal::Float(f) => SV::Float(f),
        Literal::Text(t) => SV::Text(t@),
        Literal::Bytes(t) => SV::Bytes(t@),
    }
}

// ------------------------------------------------------------ contexts
pub ghost struct SGen { pub gen: Map<Seq<char>, Node>, pub past: Option<Box<SGen>> }
/// env: what each rule name means; depth: rule references followed so far;
/// g: the generic parameters in scope, and the scope their arguments came from.
pub ghost struct SCtx {
    pub env: spec_fn(Seq<char>) -> Result<RuleDef, Out>,
    pub depth: int,
    pub g: SGen,
}
pub open spec fn limit() -> int { crate::validate::VP_CONTEXT_MAX_DEPTH as int }
pub open spec fn fuel(c: SCtx) -> nat { if c.depth >= limit() { 0 } else { (limit() - c.depth) as nat } }
pub open spec fn nogen() -> SGen { SGen { gen: Map::empty(), past: None } }
pub open spec fn bind_gen(parms: Seq<String>, args: Seq<Node>) -> Map<Seq<char>, Node>
    decreases parms.len()
{
    if parms.len() == 0 || parms.len() != args.len() { Map::empty() }
    else { bind_gen(parms.drop_last(), args.drop_last()).insert(parms.last()@, args.last()) }
}
/// Resolve a rule reference: a generic parameter in scope names its argument, read in
/// the scope the argument was written in; any other name is looked up globally.
pub open spec fn sem_lookup(r: Rule, c: SCtx) -> Result<(Node, SCtx), Out> {
    if c.g.gen.contains_key(r.name@) {
        match c.g.past {
            Some(p) => Ok((c.g.gen[r.name@], SCtx { env: c.env, depth: c.depth, g: *p })),
            None => if c.depth >= limit() { Err(Out::Fatal(Ek::Structural)) }
                    else { Ok((c.g.gen[r.name@], SCtx { env: c.env, depth: c.depth + 1, g: nogen() })) },
        }
    } else {
        match (c.env)(r.name@) {
            Err(o) => Err(o),
            Ok(d) => if d.generic_parms@.len() != r.generic_args@.len() { Err(Out::Fatal(Ek::Generic)) }
                else if c.depth >= limit() { Err(Out::Fatal(Ek::Structural)) }
                else { Ok((d.node, SCtx { env: c.env, depth: c.depth + 1,
                    g: SGen { gen: bind_gen(d.generic_parms@, r.generic_args@), past: Some(Box::new(c.g)) } })) },
        }
    }
}
pub broadcast proof fn lemma_lookup_decreases(r: Rule, c: SCtx)
    ensures (#[trigger] sem_lookup(r, c)) is Ok ==> {
        let c2 = sem_lookup(r, c)->Ok_0.1;
        fuel(c2) < fuel(c) || (fuel(c2) == fuel(c) && decreases_to!(c.g => c2.g))
    },
{
}

// ------------------------------------------------------------ arithmetic facts used in statements
pub open spec fn pow2i(n: nat) -> int decreases n { if n == 0 { 1 } else { 2 * pow2i((n - 1) as nat) } }
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub open spec fn utf8_len(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { utf8_len(s.drop_last()) + utf8_width(s.last()) }
}
pub open spec fn utf8_width(c: char) -> nat {
    let u = c as u32;
    if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }
}

// ------------------------------------------------------------ leaf types
pub open spec fn okif(b: bool) -> Out { if b { Out::Ok } else { Out::Mismatch } }

pub open spec fn sem_prelude(t: PreludeType, v: SV) -> Out {
    okif(match t {
        PreludeType::Any => true,
        PreludeType::Nil => v is Null,
        PreludeType::Bool => v is Bool,
        PreludeType::Int => v is Integer,
        PreludeType::Uint => v is Integer && v->Integer_0 >= 0,
        PreludeType::Nint => v is Integer && v->Integer_0 < 0,
        PreludeType::Float => v is Float,
        PreludeType::Tstr => v is Text,
        PreludeType::Bstr => v is Bytes,
    })
}
/// Follow rule references until a node that is not one.
pub open spec fn sem_chase(n: Node, c: SCtx) -> Result<Node, Out>
    decreases fuel(c), c.g, n, 1int,
{
    match n {
        Node::Rule(r) => match sem_lookup(r, c) {
            Err(o) => Err(o),
            Ok((n2, c2)) => sem_chase(n2, c2),
        },
        _ => Ok(n),
    }
}
#[verifier::opaque]
pub open spec fn sem_endpoint(n: Node, c: SCtx) -> Result<Literal, Out> {
    match sem_chase(n, c) {
        Err(o) => Err(o),
        Ok(Node::Literal(l)) => Ok(l),
        Ok(_) => Err(Out::Fatal(Ek::Structural)),
    }
}
pub open spec fn flt(a: f64, b: f64) -> bool { vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(core::cmp::Ordering::Less) }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_cmp(a: f64, b: f64)
    ensures
        <f64 as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec(),
        #[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(core::cmp::Ordering::Less)
            <==> vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&b, &a) == Some(core::cmp::Ordering::Greater),
        vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(core::cmp::Ordering::Equal)
            <==> vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&b, &a) == Some(core::cmp::Ordering::Equal),
{ }
pub open spec fn fle(a: f64, b: f64) -> bool {
    flt(a, b) || vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(core::cmp::Ordering::Equal)
}
pub open spec fn sem_range_lits(a: Literal, b: Literal, incl: bool, v: SV) -> Out {
    if lit_tag(a) != lit_tag(b) { Out::Fatal(Ek::Structural) }
    else {
        match (a, b, v) {
            (Literal::Int(x), Literal::Int(y), SV::Integer(i)) =>
                okif(x <= i && (if incl { i <= y } else { i < y })),
            (Literal::Float(x), Literal::Float(y), SV::Float(f)) =>
                okif(!flt(f, x) && (if incl { fle(f, y) } else { flt(f, y) })),
            _ => Out::Mismatch,
        }
    }
}
#[verifier::opaque]
pub open spec fn sem_range(r: Range, v: SV, c: SCtx) -> Out {
    match sem_endpoint(*r.start, c) {
        Err(o) => o,
        Ok(a) => match sem_endpoint(*r.end, c) {
            Err(o) => o,
            Ok(b) => sem_range_lits(a, b, r.inclusive, v),
        },
    }
}
// .lt .le .gt .ge
#[verifier::opaque]
pub open spec fn sem_int_arg(n: Node, c: SCtx) -> Result<int, Out> {
    match sem_chase(n, c) {
        Err(o) => Err(o),
        Ok(Node::Literal(Literal::Int(i))) => Ok(i as int),
        Ok(_) => Err(Out::Fatal(Ek::Structural)),
    }
}
pub ghost enum Cmp { Lt, Le, Gt, Ge }
pub open spec fn cmp_holds(k: Cmp, x: int, y: int) -> bool {
    match k { Cmp::Lt => x < y, Cmp::Le => x <= y, Cmp::Gt => x > y, Cmp::Ge => x >= y }
}
pub open spec fn sem_cmp_target(k: Cmp, t: Node, arg: int, v: SV) -> Out {
    match t {
        Node::PreludeType(PreludeType::Uint) => okif(v is Integer && v->Integer_0 >= 0 && cmp_holds(k, v->Integer_0, arg)),
        Node::PreludeType(PreludeType::Nint) => okif(v is Integer && v->Integer_0 < 0 && cmp_holds(k, v->Integer_0, arg)),
        Node::PreludeType(PreludeType::Int) => okif(v is Integer && cmp_holds(k, v->Integer_0, arg)),
        _ => Out::Fatal(Ek::Structural),
    }
}
#[verifier::opaque]
pub open spec fn sem_cmp(k: Cmp, target: Node, arg: Node, v: SV, c: SCtx) -> Out {
    match sem_int_arg(arg, c) {
        Err(o) => o,
        Ok(a) => match sem_chase(target, c) {
            Err(o) => o,
            Ok(t) => sem_cmp_target(k, t, a, v),
        },
    }
}
// .size
pub open spec fn u64_ok(i: int) -> bool { 0 <= i <= u64::MAX }
/// A size limit is a literal N, or a range of literals; both must be in 0..=u64::MAX.
pub open spec fn sem_size_arg(n: Node) -> Result<(int, int, bool), Out> {
    match n {
        Node::Literal(Literal::Int(i)) => if u64_ok(i as int) { Ok((i as int, i as int, true)) } else { Err(Out::Fatal(Ek::Structural)) },
        Node::Range(r) => match (*r.start, *r.end) {
            (Node::Literal(Literal::Int(a)), Node::Literal(Literal::Int(b))) =>
                if u64_ok(a as int) && u64_ok(b as int) { Ok((a as int, b as int, r.inclusive)) } else { Err(Out::Fatal(Ek::Structural)) },
            _ => Err(Out::Fatal(Ek::Structural)),
        },
        _ => Err(Out::Fatal(Ek::Structural)),
    }
}
pub open spec fn range_ints(r: Range) -> Option<(int, int, bool)> {
    match (*r.start, *r.end) {
        (Node::Literal(Literal::Int(a)), Node::Literal(Literal::Int(b))) => Some((a as int, b as int, r.inclusive)),
        _ => None,
    }
}
pub open spec fn in_size(n: int, lo: int, hi: int, incl: bool) -> bool { lo <= n && (if incl { n <= hi } else { n < hi }) }
/// The number of bytes needed to write x is n.
pub open spec fn needs_bytes(x: int, n: nat) -> bool { x < pow256(n) && (n == 0 || pow256((n - 1) as nat) <= x) }
pub open spec fn lz_is(x: int, lz: int) -> bool {
    &&& 0 <= lz <= 128
    &&& (x == 0 <==> lz == 128)
    &&& (x > 0 ==> pow2i((127 - lz) as nat) <= x < pow2i((128 - lz) as nat))
}
pub proof fn lemma_pow2i_mono(a: nat, b: nat)
    requires a <= b,
    ensures 0 < pow2i(a) <= pow2i(b),
    decreases b
{
    if a < b { lemma_pow2i_mono(a, (b - 1) as nat); } else if a > 0 { lemma_pow2i_mono((a - 1) as nat, (b - 1) as nat); }
}
pub proof fn lemma_pow256_mono(a: nat, b: nat)
    requires a <= b,
    ensures 0 < pow256(a) <= pow256(b),
    decreases b
{
    if a < b { lemma_pow256_mono(a, (b - 1) as nat); } else if a > 0 { lemma_pow256_mono((a - 1) as nat, (b - 1) as nat); }
}
pub proof fn lemma_pow256_pow2i(n: nat)
    ensures pow256(n) == pow2i(8 * n),
    decreases n
{
    if n > 0 {
        lemma_pow256_pow2i((n - 1) as nat);
        reveal_with_fuel(pow2i, 9);
        assert(8 * n == 8 * (n - 1) + 8);
    }
}
/// Everything the size of an unsigned integer rests on.
pub proof fn lemma_size_facts(x: int)
    requires x >= 0,
    ensures
        forall|n: nat, m: nat| #[trigger] needs_bytes(x, n) && #[trigger] needs_bytes(x, m) ==> n == m,
        forall|lz: int| #[trigger] lz_is(x, lz) ==> needs_bytes(x, ((128 - lz + 7) / 8) as nat),
        x == 0 ==> needs_bytes(x, 0), pow256(0) == 1,
        forall|n: nat| n >= 16 ==> #[trigger] pow256(n) > i128::MAX,
        forall|n: u64| n < 16 ==> #[trigger] pow256(n as nat) == (1i128 << ((n * 8) as u64)),
{
    assert forall|n: nat, m: nat| #[trigger] needs_bytes(x, n) && #[trigger] needs_bytes(x, m) implies n == m by {
        if n < m { lemma_pow256_mono(n, (m - 1) as nat); }
        if m < n { lemma_pow256_mono(m, (n - 1) as nat); }
    }
    assert forall|lz: int| #[trigger] lz_is(x, lz) implies needs_bytes(x, ((128 - lz + 7) / 8) as nat) by {
        let n = ((128 - lz + 7) / 8) as nat;
        if x > 0 {
            lemma_pow256_pow2i(n);
            lemma_pow2i_mono((128 - lz) as nat, 8 * n);
            lemma_pow256_pow2i((n - 1) as nat);
            lemma_pow2i_mono((8 * (n - 1)) as nat, (127 - lz) as nat);
        } else {
            assert(pow256(0) == 1);
        }
    }
    assert(pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000int) by (compute);
    assert forall|n: nat| n >= 16 implies #[trigger] pow256(n) > i128::MAX by { lemma_pow256_mono(16, n); }
    assert forall|n: u64| n < 16 implies #[trigger] pow256(n as nat) == (1i128 << ((n * 8) as u64)) by {
        lemma_shift(n);
    }
}
pub proof fn lemma_shift(n: u64)
    requires n < 16,
    ensures pow256(n as nat) == (1i128 << ((n * 8) as u64)),
    decreases n
{
    if n == 0 {
        assert(1i128 << 0u64 == 1i128) by (bit_vector);
    } else {
        let m = (n - 1) as u64;
        lemma_shift(m);
        let k = (m * 8) as u64;
        assert(k <= 112 ==> 1i128 << ((k + 8) as u64) == 256 * (1i128 << k)) by (bit_vector);
    }
}
pub open spec fn size_uint_ok(x: int, lo: int, hi: int, incl: bool) -> bool {
    if lo == hi && incl { x < pow256(hi as nat) }
    else { exists|n: nat| needs_bytes(x, n) && in_size(n as int, lo, hi, incl) }
}
pub open spec fn sem_size_uint(lo: int, hi: int, incl: bool, v: SV) -> Out {
    okif(v is Integer && v->Integer_0 >= 0 && size_uint_ok(v->Integer_0, lo, hi, incl))
}
pub open spec fn sem_size_tstr(lo: int, hi: int, incl: bool, v: SV) -> Out {
    okif(v is Text && in_size(utf8_len(v->Text_0) as int, lo, hi, incl))
}
pub open spec fn sem_size_bstr(lo: int, hi: int, incl: bool, v: SV) -> Out {
    okif(v is Bytes && in_size(v->Bytes_0.len() as int, lo, hi, incl))
}
pub open spec fn sem_size_target(t: Node, a: (int, int, bool), v: SV) -> Out {
    match t {
        Node::PreludeType(PreludeType::Uint) => sem_size_uint(a.0, a.1, a.2, v),
        Node::PreludeType(PreludeType::Tstr) => sem_size_tstr(a.0, a.1, a.2, v),
        Node::PreludeType(PreludeType::Bstr) => sem_size_bstr(a.0, a.1, a.2, v),
        _ => Out::Fatal(Ek::Structural),
    }
}
#[verifier::opaque]
pub open spec fn sem_size(target: Node, size: Node, v: SV, c: SCtx) -> Out {
    match sem_chase(size, c) {
        Err(o) => o,
        Ok(n) => match sem_size_arg(n) {
            Err(o) => o,
            Ok(a) => match sem_chase(target, c) {
                Err(o) => o,
                Ok(t) => sem_size_target(t, a, v),
            },
        },
    }
}
// .cbor
/// What the byte string holds, if it is exactly one supported CBOR item.
pub open spec fn cbor_decode(b: Seq<u8>) -> Option<SV> {
    match crate::vp::ciborium::first_item(b) {
        Some((v, n)) => if n == b.len() { cbor_sv(v) } else { None },
        None => None,
    }
}
/// The data a CBOR item stands for; None if it holds something the crate does not support.
pub open spec fn cbor_sv(v: crate::vp::ciborium::Value) -> Option<SV>
    decreases v
{
    use crate::vp::ciborium::Value as C;
    match v {
        C::Null => Some(SV::Null),
        C::Bool(b) => Some(SV::Bool(b)),
        C::Integer(i) => Some(SV::Integer(i.i as int)),
        C::Float(f) => Some(SV::Float(f)),
        C::Bytes(b) => Some(SV::Bytes(b@)),
        C::Text(t) => Some(SV::Text(t@)),
        C::Tag(_, _) => None,
        C::Array(a) => if forall|i: int| 0 <= i < a@.len() ==> cbor_sv(#[trigger] a@[i]) is Some {
                Some(SV::Array(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { cbor_sv(a@[i])->Some_0 } else { SV::Null })))
            } else { None },
        // no two entries may have the same key
        C::Map(m) => if forall|i: int| 0 <= i < m@.len() ==> cbor_sv((#[trigger] m@[i]).0) is Some && cbor_sv(m@[i].1) is Some {
                let e = tomap(Seq::new(m@.len(), |i: int| if 0 <= i < m@.len() {
                    (cbor_sv(m@[i].0)->Some_0, cbor_sv(m@[i].1)->Some_0) } else { (SV::Null, SV::Null) }));
                if e.dom().len() == m@.len() { Some(SV::Map(ents(e))) } else { None }
            } else { None },
    }
}
/// Likewise for JSON: a number is an integer when it is one that fits 64 bits, else a float.
pub open spec fn json_sv(v: crate::vp::serde_json::Value) -> Option<SV>
    decreases v
{
    use crate::vp::serde_json::Value as J;
    match v {
        J::Null => Some(SV::Null),
        J::Bool(b) => Some(SV::Bool(b)),
        J::Number(n) => match n.num() {
            crate::vp::serde_json::Num::Pos(u) => Some(SV::Integer(u as int)),
            crate::vp::serde_json::Num::Neg(i) => Some(SV::Integer(i as int)),
            crate::vp::serde_json::Num::Float(f) => Some(SV::Float(f)),
        },
        J::String(t) => Some(SV::Text(t@)),
        J::Array(a) => if forall|i: int| 0 <= i < a@.len() ==> json_sv(#[trigger] a@[i]) is Some {
                Some(SV::Array(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { json_sv(a@[i])->Some_0 } else { SV::Null })))
            } else { None },
        J::Object(m) => if forall|i: int| 0 <= i < m.v@.len() ==> json_sv((#[trigger] m.v@[i]).1) is Some {
                Some(SV::Map(ents(tomap(Seq::new(m.v@.len(), |i: int| if 0 <= i < m.v@.len() {
                    (SV::Text(m.v@[i].0@), json_sv(m.v@[i].1)->Some_0) } else { (SV::Null, SV::Null) })))))
            } else { None },
    }
}

/// The Value v is the data the document c is.
pub open spec fn cbor_same(c: crate::vp::ciborium::Value, v: Value) -> bool { cbor_sv(c) == Some(sv(v)) }
/// A conversion yields the data it should, or a ValueError where there is none.
pub open spec fn cbor_conv(r: Result<Value, ValidateError>, c: crate::vp::ciborium::Value) -> bool {
    match r { Ok(x) => cbor_same(c, x), Err(e) => cbor_sv(c) is None && cls_e(e) == Out::Fatal(Ek::ValueError) }
}
/// The Value v is the data the document c is.
pub open spec fn json_same(c: crate::vp::serde_json::Value, v: Value) -> bool { json_sv(c) == Some(sv(v)) }
/// A conversion yields the data it should, or a ValueError where there is none.
pub open spec fn json_conv(r: Result<Value, ValidateError>, c: crate::vp::serde_json::Value) -> bool {
    match r { Ok(x) => json_same(c, x), Err(e) => json_sv(c) is None && cls_e(e) == Out::Fatal(Ek::ValueError) }
}
pub broadcast proof fn lemma_cbor_array(c: crate::vp::ciborium::Value, v: Value)
    requires c is Array, v is Array, c->Array_0@.len() == v->Array_0@.len(),
        forall|i: int| #![trigger c->Array_0@[i]] #![trigger v->Array_0@[i]] 0 <= i < c->Array_0@.len() ==> cbor_sv(c->Array_0@[i]) == Some(sv(v->Array_0@[i])),
    ensures #[trigger] cbor_same(c, v),
{ assert(cbor_sv(c)->Some_0->Array_0 =~= sv(v)->Array_0); }
pub open spec fn cbor_pairs(c: crate::vp::ciborium::Value, s: Seq<(SV, SV)>) -> bool {
    c is Map && c->Map_0@.len() == s.len()
        && forall|i: int| #![trigger c->Map_0@[i]] #![trigger s[i]] 0 <= i < s.len() ==> cbor_sv(c->Map_0@[i].0) == Some(s[i].0) && cbor_sv(c->Map_0@[i].1) == Some(s[i].1)
}
pub broadcast proof fn lemma_cbor_map(c: crate::vp::ciborium::Value, s: Seq<(SV, SV)>)
    requires cbor_pairs(c, s),
    ensures #![trigger cbor_sv(c), tomap(s)]
        cbor_sv(c) == (if tomap(s).dom().len() == s.len() { Some(SV::Map(ents(tomap(s)))) } else { None }),
{
    let m = c->Map_0@;
    assert(forall|i: int| 0 <= i < m.len() ==> s[i] == s[i] && cbor_sv((#[trigger] m[i]).1) is Some);
    assert(exists|u: Seq<(SV, SV)>| u =~= s && cbor_sv(c) == (if (#[trigger] tomap(u)).dom().len() == m.len() { Some(SV::Map(ents(tomap(u)))) } else { None }));
}
pub broadcast proof fn lemma_json_array(c: crate::vp::serde_json::Value, v: Value)
    requires c is Array, v is Array, c->Array_0@.len() == v->Array_0@.len(),
        forall|i: int| #![trigger c->Array_0@[i]] #![trigger v->Array_0@[i]] 0 <= i < c->Array_0@.len() ==> json_sv(c->Array_0@[i]) == Some(sv(v->Array_0@[i])),
    ensures #[trigger] json_same(c, v),
{ assert(json_sv(c)->Some_0->Array_0 =~= sv(v)->Array_0); }
pub broadcast proof fn lemma_json_map(c: crate::vp::serde_json::Value, v: Value, s: Seq<(SV, SV)>)
    requires c is Object, v is Map, v->Map_0.vmap() == tomap(s), c->Object_0.v@.len() == s.len(),
        forall|i: int| #![trigger c->Object_0.v@[i]] #![trigger s[i]] 0 <= i < s.len() ==> Some(SV::Text(c->Object_0.v@[i].0@)) == Some(s[i].0) && json_sv(c->Object_0.v@[i].1) == Some(s[i].1),
    ensures #[trigger] json_same(c, v), tomap(s) == #[trigger] tomap(s),
{
    let m = c->Object_0.v@;
    assert(forall|i: int| 0 <= i < m.len() ==> s[i] == s[i] && json_sv((#[trigger] m[i]).1) is Some);
    assert(json_sv(c) is Some);
    assert(exists|u: Seq<(SV, SV)>| json_sv(c)->Some_0 == SV::Map(ents(#[trigger] tomap(u))) && u =~= s);
}
// ------------------------------------------------------------ values
pub open spec fn sem_val(n: Node, v: SV, c: SCtx) -> Out
    decreases fuel(c), c.g, n, 2int, 0int,
{
    match n {
        Node::Literal(l) => okif(lit_sv(l) == v),
        Node::PreludeType(t) => sem_prelude(t, v),
        Node::Choice(ch) => sem_choice(ch.options@, 0, v, c),
        Node::Map(m) => match v {
            SV::Map(es) => sem_map_top(m.members@, 0, tomap(es), c),
            _ => Out::Mismatch,
        },
        Node::Array(a) => match v {
            SV::Array(s) => match sem_arr_seq(a.members@, 0, s, c) {
                GA::Ok(rest) => okif(rest.len() == 0),
                GA::Err(o) => o,
            },
            _ => Out::Mismatch,
        },
        Node::Rule(r) => match sem_lookup(r, c) {
            Err(o) => o,
            Ok((n2, c2)) => sem_val(n2, v, c2),
        },
        Node::Group(g) => if g.members@.len() == 1 { sem_val(g.members@[0], v, c) } else { Out::Fatal(Ek::Unsupported) },
        Node::KeyValue(_) => Out::Fatal(Ek::Structural),
        Node::Occur(_) => Out::Fatal(Ek::Structural),
        Node::Unwrap(_) => Out::Fatal(Ek::Structural),
        Node::Range(r) => sem_range(r, v, c),
        Node::Control(ctl) => match ctl {
            Control::Size(s) => sem_size(*s.target, *s.size, v, c),
            Control::Lt(x) => sem_cmp(Cmp::Lt, *x.target, *x.lt, v, c),
            Control::Le(x) => sem_cmp(Cmp::Le, *x.target, *x.le, v, c),
            Control::Gt(x) => sem_cmp(Cmp::Gt, *x.target, *x.gt, v, c),
            Control::Ge(x) => sem_cmp(Cmp::Ge, *x.target, *x.ge, v, c),
            Control::Regexp(x) => match v {
                SV::Text(t) => okif(x.re.matches(t)),
                _ => Out::Mismatch,
            },
            Control::Cbor(x) => match v {
                SV::Bytes(b) => match cbor_decode(b) {
                    None => Out::Fatal(Ek::ValueError),
                    Some(w) => sem_val(*x.node, w, c),
                },
                _ => Out::Mismatch,
            },
        },
        Node::Choiceify(r) => sem_choiceify(r, v, c),
        Node::ChoiceifyInline(a) => sem_choiceify_members(a.members@, 0, v, c),
    }
}
/// The first option that does not merely mismatch decides.
pub open spec fn sem_choice(o: Seq<Node>, i: int, v: SV, c: SCtx) -> Out
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if i < 0 || i >= o.len() { Out::Mismatch } else {
        let r = sem_val(o[i], v, c);
        if r is Ok || r is Fatal { r } else { sem_choice(o, i + 1, v, c) }
    }
}
pub open spec fn sem_choiceify(r: Rule, v: SV, c: SCtx) -> Out
    decreases fuel(c), c.g, r, 2int, 0int,
{
    match sem_lookup(r, c) {
        Err(o) => o,
        Ok((n2, c2)) => match n2 {
            Node::Group(g) => sem_choiceify_members(g.members@, 0, v, c2),
            Node::Rule(r2) => sem_choiceify(r2, v, c2),
            _ => Out::Fatal(Ek::Structural),
        },
    }
}
pub open spec fn sem_choiceify_item(n: Node, v: SV, c: SCtx) -> Out
    decreases fuel(c), c.g, n, 3int, 0int,
{
    match n {
        Node::KeyValue(kv) => sem_val(*kv.value, v, c),
        Node::Rule(r) => sem_choiceify(r, v, c),
        _ => sem_val(n, v, c),
    }
}
pub open spec fn sem_choiceify_members(o: Seq<Node>, i: int, v: SV, c: SCtx) -> Out
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if i < 0 || i >= o.len() { Out::Mismatch } else {
        let r = sem_choiceify_item(o[i], v, c);
        if r is Ok || r is Fatal { r } else { sem_choiceify_members(o, i + 1, v, c) }
    }
}

// ------------------------------------------------------------ arrays
/// Matching a group member against the elements that remain: the elements left over,
/// or why it failed (in which case nothing was consumed).
pub ghost enum GA { Ok(Seq<SV>), Err(Out) }

pub open spec fn occ_limits(o: OccurLimit) -> (int, int) {
    match o {
        crate::ast::Occur::Optional => (0, 1),
        crate::ast::Occur::ZeroOrMore => (0, usize::MAX as int),
        crate::ast::Occur::OneOrMore => (1, usize::MAX as int),
        crate::ast::Occur::Numbered(n, m) => (n as int, m as int),
    }
}
pub open spec fn sem_arr(n: Node, s: Seq<SV>, c: SCtx) -> GA
    decreases fuel(c), c.g, n, 4int, 0int,
{
    match n {
        Node::Occur(o) => sem_arr_occ(*o.node, occ_limits(o.limit).0, occ_limits(o.limit).1, 0, s, c),
        Node::KeyValue(kv) => sem_arr_value(*kv.value, s, c),
        Node::Rule(r) => match sem_lookup(r, c) {
            Err(o) => GA::Err(o),
            Ok((n2, c2)) => sem_arr(n2, s, c2),
        },
        Node::Unwrap(r) => match sem_lookup(r, c) {
            Err(o) => GA::Err(o),
            Ok((n2, c2)) => match n2 {
                Node::Array(a) => sem_arr_seq(a.members@, 0, s, c2),
                _ => GA::Err(Out::Mismatch),
            },
        },
        Node::Choice(ch) => sem_arr_choice(ch.options@, 0, s, c),
        Node::Group(g) => sem_arr_seq(g.members@, 0, s, c),
        _ => sem_arr_value(n, s, c),
    }
}
pub open spec fn sem_arr_value(n: Node, s: Seq<SV>, c: SCtx) -> GA
    decreases fuel(c), c.g, n, 3int, 0int,
{
    if s.len() == 0 { GA::Err(Out::Mismatch) } else {
        match sem_val(n, s[0], c) {
            Out::Ok => GA::Ok(s.drop_first()),
            o => GA::Err(o),
        }
    }
}
/// All members in order, or nothing.
pub open spec fn sem_arr_seq(ms: Seq<Node>, i: int, s: Seq<SV>, c: SCtx) -> GA
    decreases fuel(c), c.g, ms, 1int, ms.len() - i,
{
    if i < 0 || i >= ms.len() { GA::Ok(s) } else {
        match sem_arr(ms[i], s, c) {
            GA::Ok(rest) => sem_arr_seq(ms, i + 1, rest, c),
            e => e,
        }
    }
}
/// Each option is tried against the same elements; the first that matches is taken.
pub open spec fn sem_arr_choice(o: Seq<Node>, i: int, s: Seq<SV>, c: SCtx) -> GA
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if i < 0 || i >= o.len() { GA::Err(Out::Mismatch) } else {
        match sem_arr(o[i], s, c) {
            GA::Ok(rest) => GA::Ok(rest),
            GA::Err(e) => if e is Fatal { GA::Err(e) } else { sem_arr_choice(o, i + 1, s, c) },
        }
    }
}
/// Repeat greedily, at most `hi` times; a repetition that consumes nothing may stand for
/// any number of them; fewer than `lo` is a mismatch.
pub open spec fn sem_arr_occ(n: Node, lo: int, hi: int, count: int, s: Seq<SV>, c: SCtx) -> GA
    decreases fuel(c), c.g, n, 5int, s.len(),
{
    if count >= hi { if count < lo { GA::Err(Out::Mismatch) } else { GA::Ok(s) } } else {
        match sem_arr(n, s, c) {
            GA::Ok(rest) =>
                if rest.len() < s.len() { sem_arr_occ(n, lo, hi, count + 1, rest, c) }
                else if hi < lo { GA::Err(Out::Mismatch) } else { GA::Ok(rest) },
            GA::Err(Out::Mismatch) => if count < lo { GA::Err(Out::Mismatch) } else { GA::Ok(s) },
            GA::Err(e) => GA::Err(e),
        }
    }
}

// ------------------------------------------------------------ maps
pub ghost enum GM { Ok(Map<SV, SV>), Err(Out) }

pub open spec fn sem_map_top(ms: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx) -> Out
    decreases fuel(c), c.g, ms, 1int, ms.len() - i,
{
    if i < 0 || i >= ms.len() { okif(m == Map::<SV, SV>::empty()) } else {
        match sem_map(ms[i], m, c) {
            GM::Ok(rest) => sem_map_top(ms, i + 1, rest, c),
            GM::Err(o) => erase(o),
        }
    }
}
pub open spec fn sem_map(n: Node, m: Map<SV, SV>, c: SCtx) -> GM
    decreases fuel(c), c.g, n, 4int, 0int,
{
    match n {
        Node::Occur(o) => sem_map_occ(*o.node, occ_limits(o.limit).0, occ_limits(o.limit).1, 0, m, c),
        Node::KeyValue(kv) => match sem_key(*kv.key, m, c) {
            Err(o) => GM::Err(o),
            Ok(k) => match sem_val(*kv.value, m[k], c) {
                Out::Ok => GM::Ok(m.remove(k)),
                Out::Mismatch => GM::Err(if kv.cut { Out::Cut } else { Out::Mismatch }),
                o => GM::Err(o),
            },
        },
        Node::Rule(r) => match sem_lookup(r, c) {
            Err(o) => GM::Err(o),
            Ok((n2, c2)) => sem_map(n2, m, c2),
        },
        Node::Unwrap(r) => match sem_lookup(r, c) {
            Err(o) => GM::Err(o),
            Ok((n2, c2)) => match n2 {
                Node::Map(m2) => sem_map_seq(m2.members@, 0, m, c2),
                _ => GM::Err(Out::Mismatch),
            },
        },
        Node::Group(g) => match sem_map_seq(g.members@, 0, m, c) {
            GM::Ok(rest) => GM::Ok(rest),
            GM::Err(o) => GM::Err(erase(o)),   // a cut does not reach beyond its group
        },
        Node::Choice(ch) => sem_map_choice(ch.options@, 0, m, c),
        Node::Choiceify(r) => sem_map_choiceify(r, m, c),
        Node::ChoiceifyInline(a) => sem_map_choice(a.members@, 0, m, c),
        Node::Literal(_) => GM::Err(Out::Fatal(Ek::Structural)),
        Node::PreludeType(_) => GM::Err(Out::Fatal(Ek::Structural)),
        Node::Map(_) => GM::Err(Out::Fatal(Ek::Structural)),
        Node::Array(_) => GM::Err(Out::Fatal(Ek::Structural)),
        Node::Range(_) => GM::Err(Out::Fatal(Ek::Structural)),
        Node::Control(_) => GM::Err(Out::Fatal(Ek::Structural)),
    }
}
/// The remaining entry a key selects: a literal key selects that key; any other key type
/// selects the first remaining key, in ascending order, that matches it.
pub open spec fn sem_key(n: Node, m: Map<SV, SV>, c: SCtx) -> Result<SV, Out>
    decreases fuel(c), c.g, n, 4int, 0int,
{
    match n {
        Node::Literal(l) => if m.contains_key(lit_sv(l)) { Ok(lit_sv(l)) } else { Err(Out::Mismatch) },
        _ => sem_search(n, key_order(m.dom()), 0, c),
    }
}
pub open spec fn sem_search(n: Node, ks: Seq<SV>, i: int, c: SCtx) -> Result<SV, Out>
    decreases fuel(c), c.g, n, 3int, ks.len() - i,
{
    if i < 0 || i >= ks.len() { Err(Out::Mismatch) } else {
        match sem_val(n, ks[i], c) {
            Out::Ok => Ok(ks[i]),
            Out::Fatal(e) => Err(Out::Fatal(e)),
            _ => sem_search(n, ks, i + 1, c),
        }
    }
}
pub open spec fn sem_map_seq(ms: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx) -> GM
    decreases fuel(c), c.g, ms, 1int, ms.len() - i,
{
    if i < 0 || i >= ms.len() { GM::Ok(m) } else {
        match sem_map(ms[i], m, c) {
            GM::Ok(rest) => sem_map_seq(ms, i + 1, rest, c),
            e => e,
        }
    }
}
/// Options are tried in order against the same entries; only a mismatch moves on.
pub open spec fn sem_map_choice(o: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx) -> GM
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if i < 0 || i >= o.len() { GM::Err(Out::Mismatch) } else {
        match sem_map(o[i], m, c) {
            GM::Err(Out::Mismatch) => sem_map_choice(o, i + 1, m, c),
            r => r,
        }
    }
}
pub open spec fn sem_map_choiceify(r: Rule, m: Map<SV, SV>, c: SCtx) -> GM
    decreases fuel(c), c.g, r, 2int, 0int,
{
    match sem_lookup(r, c) {
        Err(o) => GM::Err(o),
        Ok((n2, c2)) => match n2 {
            Node::Group(g) => sem_map_cmembers(g.members@, 0, m, c2),
            Node::Rule(r2) => sem_map_choiceify(r2, m, c2),
            _ => GM::Err(Out::Fatal(Ek::Structural)),
        },
    }
}
pub open spec fn sem_map_citem(n: Node, m: Map<SV, SV>, c: SCtx) -> GM
    decreases fuel(c), c.g, n, 5int, 0int,
{
    match n {
        Node::KeyValue(kv) => sem_map(*kv.value, m, c),
        Node::Rule(r) => sem_map_choiceify(r, m, c),
        _ => sem_map(n, m, c),
    }
}
pub open spec fn sem_map_cmembers(o: Seq<Node>, i: int, m: Map<SV, SV>, c: SCtx) -> GM
    decreases fuel(c), c.g, o, 1int, o.len() - i,
{
    if i < 0 || i >= o.len() { GM::Err(Out::Mismatch) } else {
        match sem_map_citem(o[i], m, c) {
            GM::Err(Out::Mismatch) => sem_map_cmembers(o, i + 1, m, c),
            r => r,
        }
    }
}
pub open spec fn sem_map_occ(n: Node, lo: int, hi: int, count: int, m: Map<SV, SV>, c: SCtx) -> GM
    decreases fuel(c), c.g, n, 5int, m.dom().len(),
{
    if count >= hi { if count < lo { GM::Err(Out::Mismatch) } else { GM::Ok(m) } } else {
        match sem_map(n, m, c) {
            GM::Ok(rest) =>
                if rest.dom().len() < m.dom().len() { sem_map_occ(n, lo, hi, count + 1, rest, c) }
                else if hi < lo { GM::Err(Out::Mismatch) } else { GM::Ok(rest) },
            GM::Err(Out::Mismatch) => if count < lo { GM::Err(Out::Mismatch) } else { GM::Ok(m) },
            GM::Err(e) => GM::Err(e),
        }
    }
}
/// Validation of one value against one rule definition.
pub open spec fn sem_top(d: RuleDef, v: SV, env: spec_fn(Seq<char>) -> Result<RuleDef, Out>) -> Out {
    if d.generic_parms@.len() > 0 { Out::Fatal(Ek::Generic) }
    else { sem_val(d.node, v, SCtx { env, depth: 0, g: nogen() }) }
}
/// What a fixed set of rules means as a lookup.
pub open spec fn rules_env(rules: Map<Seq<char>, RuleDef>) -> spec_fn(Seq<char>) -> Result<RuleDef, Out> {
    |s: Seq<char>| if rules.contains_key(s) { Ok(rules[s]) } else { Err(Out::Fatal(Ek::MissingRule)) }
}
pub open spec fn cbor_pair_conv(r: Result<(Value, Value), ValidateError>, k: crate::vp::ciborium::Value, v: crate::vp::ciborium::Value) -> bool {
    match r {
        Ok(x) => cbor_same(k, x.0) && cbor_same(v, x.1),
        Err(e) => (cbor_sv(k) is None || cbor_sv(v) is None) && cls_e(e) == Out::Fatal(Ek::ValueError),
    }
}
pub open spec fn json_pair_conv(r: Result<(Value, Value), ValidateError>, k: Seq<char>, v: crate::vp::serde_json::Value) -> bool {
    match r {
        Ok(x) => sv(x.0) == SV::Text(k) && json_same(v, x.1),
        Err(e) => json_sv(v) is None && cls_e(e) == Out::Fatal(Ek::ValueError),
    }
}
pub open spec fn json_decode(t: Seq<char>) -> Option<SV> {
    match crate::vp::serde_json::parse(t) { Some(v) => json_sv(v), None => None }
}
}
